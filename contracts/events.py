"""Contracts of lib/Event.cpp"""
from .common import *


def _rec(eng, this, a):
    return dict(o=this, e=a[0], n=a[1], m=eng.sel(eng.st, 'Event::_state', a[0]))


def _after(eng, this, a):
    return dict(x=eng.sel(eng.st, 'Event::_state', a[0]))


PROTOCOL = {
    'Object::beforeTransition': recorded('before', _rec, ret='bool', writes=['Object::beforeTransition'], extra=_after),
    'Object::afterTransition': recorded('after', _rec, ret='bool', writes=['Object::afterTransition'], extra=_after),
}


def _transition_terms(k):
    S, O, P = (k.enum('Event::' + x) for x in ('SLEEPING', 'OCCURRING', 'PAUSED'))
    START, STOP, PAUSE, RESUME, ABORT = (k.enum('Event::' + x) for x in ('START', 'STOP', 'PAUSE', 'RESUME', 'ABORT'))
    cur, tr = k.old.f('Event::_state', k.this), k.arg(0)
    legal = z3.Or(z3.And(tr == START, cur != O), z3.And(tr == PAUSE, cur == O), z3.And(tr == RESUME, cur == P),
                  z3.And(z3.Or(tr == STOP, tr == ABORT), cur != S))
    nxt = z3.If(z3.Or(tr == START, tr == RESUME), O, z3.If(tr == PAUSE, P, S))
    return cur, tr, legal, nxt


@contract('E01', 'Event::transition', handlers=PROTOCOL)
def transition_legal(k):
    cur, tr, legal, nxt = _transition_terms(k)
    h = Hist(k)
    x = k.sk('event')
    same = z3.And([k.new.arr(f) == k.old.arr(f) for f in ('Event::_state', 'Event::_parameters', 'Object::_time')])
    return [
        ('an illegal request is refused', z3.Implies(z3.Not(legal), z3.Not(k.ret))),
        ('an illegal request changes no state', z3.Implies(z3.Not(legal), same)),
        ('an illegal request does not consult the object', z3.Implies(z3.Not(legal), h.len == 0)),
        ('a legal request consults the owner first', z3.Implies(legal, z3.And(h.len >= 1, h.is_(
            Iv(0), 'before', o=k.old.f('Event::_object', k.this), e=k.this, n=tr)))),
        ('a successful request moves to the successor state',
         z3.Implies(k.ret, z3.And(legal, h.len == 2, h.get(Iv(1), 'm') == nxt))),
    ]



@contract('E02', 'Event::transition', handlers=PROTOCOL)
def transition_atomic(k):
    cur, tr, legal, nxt = _transition_terms(k)
    h = Hist(k)
    own = k.old.f('Event::_object', k.this)
    st = k.new.f('Event::_state', k.this)
    y = k.sk('event')
    r0, r1 = h.get(Iv(0), 'r') == 1, h.get(Iv(1), 'r') == 1
    return [
        ('the owner is asked while the event is in its old state',
         z3.Implies(legal, h.is_(Iv(0), 'before', o=own, e=k.this, n=tr, m=cur))),
        ('a refusal before the change ends the request',
         z3.Implies(z3.And(legal, z3.Not(r0)), z3.And(h.len == 1, z3.Not(k.ret), st == h.get(Iv(0), 'x')))),
        ('after acceptance the owner is asked to finish in the new state',
         z3.Implies(z3.And(legal, r0), z3.And(h.len == 2, h.is_(Iv(1), 'after', o=own, e=k.this, n=tr, m=nxt)))),
        ('a refusal at the finish restores the old state',
         z3.Implies(z3.And(legal, r0, z3.Not(r1)), z3.And(z3.Not(k.ret), st == cur))),
        ('acceptance both times is success, and the state is left as the owner left it',
         z3.Implies(z3.And(legal, r0, r1), z3.And(k.ret, st == h.get(Iv(1), 'x')))),
        ('success needs both acceptances', z3.Implies(k.ret, z3.And(legal, r0, r1))),
        ('parameters are not touched by a refused request',
         z3.Implies(z3.Not(legal), k.new.arr('Event::_parameters') == k.old.arr('Event::_parameters'))),
    ]


@contract(['E01', 'E02'], 'Event::reset')
def reset(k):
    st = k.new.f('Event::_state', k.this)
    x = k.sk('other')
    return [('reset puts the event to sleep', st == k.enum('Event::SLEEPING')),
            ('no other event changes', z3.Implies(x != k.this, k.new.f('Event::_state', x) == k.old.f('Event::_state', x)))]


@contract(['E01', 'E04'], 'Event::getState')
def getState(k):
    return [('returns the state', k.ret == k.old.f('Event::_state', k.this)),
            ('changes nothing', k.new.arr('Event::_state') == k.old.arr('Event::_state'))]


# ---------------------------------------------------------------- E03
@contract('E03', 'Event::getFullId', strings=True, pre=lambda k: k.assume(k.old.f('Event::_object', k.this) != 0))
def getFullId(k):
    t, i = k.old.f('Event::_type', k.this), k.old.f('Event::_id', k.this)
    oid = k.old.f('Object::_id', k.old.f('Event::_object', k.this))
    E = lambda n: k.enum('Event::' + n)
    L = z3.StringVal
    return [
        ('presentation', z3.Implies(z3.And(t == E('PRESENTATION'), i != L('@lambda')), k.ret == z3.Concat(oid, L('@'), i))),
        ('main presentation', z3.Implies(z3.And(t == E('PRESENTATION'), i == L('@lambda')), k.ret == z3.Concat(oid, L('@lambda')))),
        ('attribution', z3.Implies(t == E('ATTRIBUTION'), k.ret == z3.Concat(oid, L('.'), i))),
        ('selection', z3.Implies(t == E('SELECTION'), k.ret == z3.Concat(oid, L('<'), i, L('>')))),
        ('look-at', z3.Implies(t == E('LOOKAT'), k.ret == z3.Concat(oid, L('<lookat>')))),
    ]


@contract('E03', 'Event::isLambda')
def isLambda(k):
    t, i = k.old.f('Event::_type', k.this), k.old.f('Event::_id', k.this)
    return [('exactly presentation @lambda',
             k.ret == z3.And(t == k.enum('Event::PRESENTATION'), i == k.lit('@lambda')))]


NAMES = dict(transition=[('START', 'start'), ('PAUSE', 'pause'), ('RESUME', 'resume'), ('STOP', 'stop'), ('ABORT', 'abort')],
             state=[('SLEEPING', 'sleeping'), ('OCCURRING', 'occurring'), ('PAUSED', 'paused')],
             type=[('PRESENTATION', 'presentation'), ('ATTRIBUTION', 'attribution'), ('SELECTION', 'selection'), ('LOOKAT', 'lookAt')])


def _names(fn, kind):
    @contract('E03', fn, name=fn)
    def post(k):
        return [('%s is named %s' % (c, s), z3.Implies(k.arg(0) == k.enum('Event::' + c), k.ret == k.lit(s)))
                for c, s in NAMES[kind]] + [
            ('every value has a name', z3.Or([k.ret == k.lit(s) for _, s in NAMES[kind]]))]


_names('Event::getEventTransitionAsString', 'transition')
_names('Event::getEventStateAsString', 'state')
_names('Event::getEventTypeAsString', 'type')


@contract('E03', 'Event::getStringAsTransition',
          abort=lambda k, why: [('every transition name is accepted',
                                 z3.And([low(k)(k.arg(0)) != low(k)(k.lit(s)) for _, s in NAMES['transition']]))])
def getStringAsTransition(k):
    lo = low(k)
    return [('%s parses to its transition' % s,
             z3.Implies(lo(k.arg(0)) == lo(k.lit(s)), k.ret == k.enum('Event::' + c))) for c, s in NAMES['transition']]


# ---------------------------------------------------------------- E04
@contract('E04', 'Event::getParameter')
def getParameter(k):
    dom, val = k.old.mapdom('Event::_parameters', k.this), k.old.mapval('Event::_parameters', k.this)
    n = k.arg(0)
    null = k.isnull(1)
    inn = k.old.local(k.args[1].lv).e
    return [
        ('success exactly when stored', k.ret == dom[n]),
        ('the stored value is returned', z3.Implies(z3.And(dom[n], z3.Not(null)), k.out(1) == val[n])),
        ('failure leaves the variable untouched', z3.Implies(z3.Not(dom[n]), k.out(1) == inn)),
        ('nothing stored changes', k.new.arr('Event::_parameters') == k.old.arr('Event::_parameters')),
    ]


@contract('E04', 'Event::setParameter')
def setParameter(k):
    o = lambda v, e: (v.mapdom('Event::_parameters', e), v.mapval('Event::_parameters', e))
    (d0, v0), (d1, v1) = o(k.old, k.this), o(k.new, k.this)
    n, v = k.arg(0), k.arg(1)
    m = k.sk('name', n.sort())
    e = k.sk('event')
    return [
        ('the parameter is stored', z3.And(d1[n], v1[n] == v)),
        ('no other parameter changes', z3.Implies(m != n, z3.And(d1[m] == d0[m], z3.Implies(d0[m], v1[m] == v0[m])))),
        ('reports whether the name was new', k.ret == z3.Not(d0[n])),
        ('no other event changes', z3.Implies(e != k.this, k.new.f('Event::_parameters', e) == k.old.f('Event::_parameters', e))),
    ]


@contract('E04', 'Event::getInterval')
def getInterval(k):
    b, e = k.old.f('Event::_begin', k.this), k.old.f('Event::_end', k.this)
    return [('begin', z3.Implies(z3.Not(k.isnull(0)), k.out(0) == b)),
            ('end', z3.Implies(z3.Not(k.isnull(1)), k.out(1) == e))]


@contract('E04', 'Event::setInterval')
def setInterval(k):
    x = k.sk('event')
    return [('begin is stored', k.new.f('Event::_begin', k.this) == k.arg(0)),
            ('end is stored', k.new.f('Event::_end', k.this) == k.arg(1)),
            ('no other event changes', z3.Implies(x != k.this, z3.And(
                k.new.f('Event::_begin', x) == k.old.f('Event::_begin', x),
                k.new.f('Event::_end', x) == k.old.f('Event::_end', x))))]


@contract('E04', 'Event::hasLabel')
def hasLabel(k):
    return [('exactly when not empty', k.ret == (k.old.f('Event::_label', k.this) != k.lit('')))]


@contract('E04', 'Event::getLabel')
def getLabel(k):
    return [('the label', k.ret == k.old.f('Event::_label', k.this))]


@contract('E04', 'Event::setLabel')
def setLabel(k):
    x = k.sk('event')
    return [('stored', k.new.f('Event::_label', k.this) == k.arg(0)),
            ('no other event changes', z3.Implies(x != k.this, k.new.f('Event::_label', x) == k.old.f('Event::_label', x)))]


@contract('E04', 'Event::Event')
def ctor(k):
    n = lambda f: k.new.f('Event::' + f, k.this)
    d = k.new.mapdom('Event::_parameters', k.this)
    m = k.sk('name', k.arg(2).sort())
    return [('sleeping', n('_state') == k.enum('Event::SLEEPING')),
            ('begins at zero', n('_begin') == 0),
            ('undefined end', n('_end') == 2**64 - 1),
            ('type, object and id', z3.And(n('_type') == k.arg(0), n('_object') == k.arg(1), n('_id') == k.arg(2))),
            ('no parameters', z3.Not(d[m])), ('no label', n('_label') == k.lit(''))]
