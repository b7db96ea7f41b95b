"""Contracts of UserData in lib/aux-ginga.cpp and of the document's user data (lib/Document.cpp)"""
from .common import *

NOTE = 'a release function is called with the attached value and does not touch the holder it is released from'
KEY = 'UserData::_udata'


def release(k):
    def h(eng, fn, args, n):
        eng.trace_append(eng.st, eng.mkcall('release', o=term(eng, fn), e=term(eng, args[0])))
        return VOIDV
    return {'(indirect)': h}


def udata(k, s, this):
    m = s.f(KEY, this)
    return m.sort().accessor(0, 0)(m), m.sort().accessor(0, 1)(m)


@contract('U01', 'UserData::getData')
def ud_get(k):
    dom, val = udata(k, k.old, k.this)
    there = z3.And(dom[k.arg(0)], z3.Not(k.isnull(1)))
    return [('the attached value is returned', z3.Implies(there, k.out(1) == pair(val[k.arg(0)], 0))),
            ('found exactly when it was attached', k.ret == dom[k.arg(0)]),
            ('nothing is released', Hist(k).len == 0)] + unchanged(k)


@contract('U01', 'UserData::setData', handlers=release, assumes=[NOTE])
def ud_set(k):
    d0, v0 = udata(k, k.old, k.this)
    d1, v1 = udata(k, k.new, k.this)
    key, o = k.sk('key', k.arg(0).sort()), k.sk('object')
    old = v0[k.arg(0)]
    rel = z3.And(d0[k.arg(0)], pair(old, 1) != 0)
    h = Hist(k)
    gone = k.arg(1) == 0
    here = k.arg(0)
    return [('a null value removes the key', z3.Implies(gone, z3.Not(d1[here]))),
            ('the value is attached under the key', z3.Implies(z3.Not(gone), z3.And(d1[here], pair(v1[here], 0) == k.arg(1)))),
            ('with its release function', z3.Implies(z3.Not(gone), pair(v1[here], 1) == k.arg(2))),
            ('other keys keep their value', z3.Implies(key != here, z3.And(d1[key] == d0[key], z3.Implies(d0[key], v1[key] == v0[key])))),
            ('the value replaced or removed is released once', z3.Implies(rel, z3.And(h.len == 1, h.is_(0, 'release', o=pair(old, 1), e=pair(old, 0))))),
            ('nothing else is released', z3.Implies(z3.Not(rel), h.len == 0)),
            ('reports whether a new key was added', k.ret == z3.And(z3.Not(gone), z3.Not(d0[here])))] + \
        unchanged(k, only={KEY: lambda x: x == k.this})


def all_released(k, m):
    """each value of the map with a release function is released, once; nothing else is"""
    dom, val = (m.sort().accessor(0, j)(m) for j in (0, 1))
    h = Hist(k)
    key = k.sk('key', dom.sort().domain())
    k.instance(dom, key)
    eh = k.eng.enumth
    k.eng.st = k.new.st
    n = eh.len(k.eng, dom)
    at = lambda i: val[eh.at(k.eng, dom, i)]
    return [selection(k, n, lambda i: pair(at(i), 1) != 0, h.len, lambda p, i: h.is_(p, 'release', o=pair(at(i), 1), e=pair(at(i), 0)), name='each attached value is released once')]


@contract('U01', 'UserData::~UserData', handlers=release, assumes=[NOTE])
def ud_dtor(k):
    return all_released(k, k.old.f(KEY, k.this))


def at_udata(k):
    return {'UserData::setData': recorded('set', lambda eng, this, a: dict(o=this, s=a[0], e=a[1], n=a[2]), ret='bool', virtual=False)}


def held(k):
    return k.eng.emb('Document::_udata', k.this)


@contract('U01', 'Document::setData', handlers=at_udata, check_null=True, abort=no_abort())
def doc_set(k):
    h = Hist(k)
    x = k.sk('object')
    return [('attached to the user data of the document', z3.And(h.len == 1, h.is_(0, 'set', o=held(k), s=k.arg(0), e=k.arg(1), n=k.arg(2)))),
            ('with its outcome', k.ret == h.get(0, 'r'))] + unchanged(k, only={'Document::_id': lambda x: x == k.this})


@contract('U01', 'Document::getData')
def doc_get(k):
    dom, val = udata(k, k.old, held(k))
    there = z3.And(dom[k.arg(0)], z3.Not(k.isnull(1)))
    return [('the attached value is returned', z3.Implies(there, k.out(1) == pair(val[k.arg(0)], 0))),
            ('found exactly when it was attached', k.ret == dom[k.arg(0)])] + unchanged(k)
