"""Contracts of lib/Document.cpp (objects, references, conditions), lib/Composition.cpp, lib/Predicate.cpp"""
from .common import *

B = z3.BoolSort()


# ---------------------------------------------------------------- interface contracts of Object used below
def has_alias(eng, obj, s):
    return ghost(eng, 'has_alias', I, s.sort(), B)(obj, s)


def h_hasAlias(eng, f, this, args):
    """Object::hasAlias (proved in O02)"""
    return V(has_alias(eng, this, term(eng, args[0])), BOOL)


ALIAS = {'Object::hasAlias': h_hasAlias}


def doc_inv(k, view, d, close=None):
    """every object of the document is indexed under its id, and nothing else is"""
    S = view.f('Document::_objects', d)
    dom, val = view.mapdom('Document::_objectsById', d), view.mapval('Document::_objectsById', d)
    oid = view.arr('Object::_id')

    def obj(o):
        return z3.Implies(S[o], z3.And(o > 0, dom[oid[o]], val[oid[o]] == o))

    def ids(s):
        return z3.Implies(dom[s], z3.And(val[s] > 0, S[val[s]], oid[val[s]] == s))
    return obj, ids, S, dom, val, oid


def assume_inv(k, d):
    obj, ids, S, dom, val, oid = doc_inv(k, k.old, d)
    o, s = z3.Int('o!inv'), z3.Const('s!inv', k.old.arr('Object::_id').sort().range())
    k.assume(z3.ForAll([o], z3.And(obj(o), z3.Implies(S[o], o < k.old.st.hwm)), patterns=[S[o]]))
    k.assume(z3.ForAll([s], ids(s), patterns=[val[s]]))


def doc_pre(k):
    assume_inv(k, k.this)


@contract('D01', 'Document::getObjectById', pre=doc_pre, abort=no_abort())
def getObjectById(k):
    obj, ids, S, dom, val, oid = doc_inv(k, k.old, k.this)
    o = k.sk('object')
    return [('an object found is in the document and has that id', z3.Implies(k.ret != 0, z3.And(S[k.ret], oid[k.ret] == k.arg(0)))),
            ('an object with that id is found', z3.Implies(z3.And(S[o], oid[o] == k.arg(0)), k.ret == o))] + unchanged(k)


@contract('D01', 'Document::getObjectByIdOrAlias', pre=doc_pre, handlers=ALIAS, abort=no_abort())
def getObjectByIdOrAlias(k):
    obj, ids, S, dom, val, oid = doc_inv(k, k.old, k.this)
    s = k.arg(0)
    o = k.sk('object')
    return [('an object found is in the document and answers to the string',
             z3.Implies(k.ret != 0, z3.And(S[k.ret], z3.Or(oid[k.ret] == s, has_alias(k.eng, k.ret, s))))),
            ('an id match is preferred', z3.Implies(z3.And(S[o], oid[o] == s), k.ret == o)),
            ('an alias is found', z3.Implies(z3.And(S[o], has_alias(k.eng, o, s)), k.ret != 0))] + unchanged(k)


def h_lookup(eng, f, this, args):
    """contract of Document::getObjectByIdOrAlias (proved in D01)"""
    s = term(eng, args[0])
    S = eng.sel(eng.st, 'Document::_objects', this)
    oid = eng.hget(eng.st, 'Object::_id')
    r = fresh('lookup', I)
    o = z3.Int('o!lk')
    eng.st.assume(z3.Implies(r != 0, z3.And(r > 0, S[r], z3.Or(oid[r] == s, has_alias(eng, r, s)))))
    eng.st.assume(z3.ForAll([o], z3.Implies(z3.And(S[o], z3.Or(oid[o] == s, has_alias(eng, o, s))), r != 0), patterns=[S[o]]))
    return V(r, T('ptr', T('class', 'Object')))


REMOTE = {'PlayerRemote::usesPlayerRemote': lambda eng, f, this, args: V(fresh('remote', B), BOOL)}


def add_pre(k):
    doc_pre(k)
    o = k.arg(0)
    k.assume(z3.And(o > 0, o < k.old.st.hwm))


def answered(k, s, S, oid):
    o = z3.Int('o!an')
    return z3.Exists([o], z3.And(S[o], z3.Or(oid[o] == s, has_alias(k.eng, o, s))))


@contract('D01', 'Document::addObject', pre=add_pre, handlers=dict(ALIAS, **REMOTE),
          abort=no_abort(lambda k: k.old.f('Object::_doc', k.arg(0)) != 0,
                         lambda k: z3.And(k.old.f('Document::_settings', k.this) != 0, k.isa(k.arg(0), 'MediaSettings')),
                         lambda k: z3.Not(z3.Or([k.isa(k.arg(0), c) for c in ('Media', 'Context', 'Switch')]))))
def addObject(k):
    obj, ids, S, dom, val, oid = doc_inv(k, k.old, k.this)
    obj1, ids1, S1, dom1, val1, oid1 = doc_inv(k, k.new, k.this)
    a = k.arg(0)
    s = oid[a]
    x, y, o = k.sk('object'), k.sk('string', s.sort()), k.sk('o')
    c0 = lambda f: k.old.f('Document::' + f, k.this)
    c1 = lambda f: k.new.f('Document::' + f, k.this)
    taken = z3.And(S[o], z3.Or(oid[o] == s, has_alias(k.eng, o, s)))
    out = [
        ('an object already there is refused', z3.Implies(S[a], z3.Not(k.ret))),
        ('an id already answered is refused', z3.Implies(taken, z3.Not(k.ret))),
        ('it is refused only then', z3.Implies(z3.Not(k.ret), z3.Or(S[a], answered(k, s, S, oid)))),
        ('it joins the objects', z3.Implies(k.ret, S1[x] == z3.Or(S[x], x == a))),
        ('it becomes reachable by its id', z3.Implies(k.ret, z3.And(dom1[s], val1[s] == a))),
        ('other ids are kept', z3.Implies(z3.And(k.ret, y != s), z3.And(dom1[y] == dom[y], z3.Implies(dom[y], val1[y] == val[y])))),
        ('it learns its document', z3.Implies(k.ret, k.new.f('Object::_doc', a) == k.this)),
        ('ids do not change', oid1[x] == oid[x]),
        ('objects stay indexed under their ids', z3.Implies(obj(x), obj1(x))),
        ('the index stays exact', z3.Implies(ids(y), ids1(y))),
    ]
    for f, c in (('_medias', 'Media'), ('_contexts', 'Context'), ('_switches', 'Switch')):
        out.append(('exactly a %s enters %s' % (c, f), z3.Implies(k.ret, c1(f)[x] == z3.Or(c0(f)[x], z3.And(x == a, k.isa(a, c))))))
    out.append(('only a media object can be remote', z3.Implies(k.ret, z3.And(
        z3.Implies(c0('_mediasRemote')[x], c1('_mediasRemote')[x]),
        z3.Implies(c1('_mediasRemote')[x], z3.Or(c0('_mediasRemote')[x], z3.And(x == a, k.isa(a, 'Media'))))))))
    fr = unchanged(k)
    out += [('refused: ' + n, z3.Implies(z3.Not(k.ret), g)) for n, g in fr]
    me = lambda x_: x_ == k.this
    out += [('accepted: ' + n, g) for n, g in unchanged(k, only={
        'Document::_objects': me, 'Document::_objectsById': me, 'Document::_medias': me, 'Document::_mediasRemote': me,
        'Document::_contexts': me, 'Document::_switches': me, 'Object::_doc': lambda x_: x_ == a})]
    return out


# ---------------------------------------------------------------- D02
def gval(eng, name, s):
    return ghost(eng, name, s.sort(), I)(s)


def h_lookup_fun(eng, f, this, args):
    s = term(eng, args[0])
    r = ghost(eng, 'answering', s.sort(), I)(s)
    eng.st.assume(r >= 0)
    eng.st.assume(z3.Implies(r != 0, eng.is_subtype(r, 'Object')))
    return V(r, T('ptr', T('class', 'Object')))


def h_getprop(eng, f, this, args):
    s = term(eng, args[0])
    return V(ghost(eng, 'property', I, s.sort(), s.sort())(this, s), STR)


h_getprop.virtual = True


@contract('D02', 'Document::evalPropertyRef', strings=True, abort=no_abort(),
          handlers={'Document::getObjectByIdOrAlias': h_lookup_fun, 'Object::getProperty': h_getprop})
def evalPropertyRef(k):
    s = k.arg(0)
    dot = z3.IndexOf(s, z3.StringVal('.'), 0)
    form = z3.And(z3.PrefixOf(z3.StringVal('$'), s), dot >= 1)
    ident = z3.SubString(s, 1, dot - 1)
    name = z3.SubString(s, dot + 1, z3.Length(s) - dot - 1)
    o = ghost(k.eng, 'answering', s.sort(), I)(ident)
    v = ghost(k.eng, 'property', I, s.sort(), s.sort())(o, name)
    ok = z3.And(form, o != 0)
    nn = z3.Not(k.isnull(1))
    inn = k.old.local(k.args[1].lv).e
    return [('resolves exactly when it has the form $id.name and id is answered', k.ret == ok),
            ('the result is the value of that property', z3.Implies(z3.And(ok, nn), k.out(1) == v)),
            ('otherwise the result is untouched', z3.Implies(z3.Not(ok), k.out(1) == inn))] + unchanged(k)


# ---------------------------------------------------------------- D03
def comp_pre(k):
    S = k.old.f('Composition::_children', k.this)
    o = z3.Int('o!ch')
    k.assume(z3.ForAll([o], z3.Implies(S[o], z3.And(o > 0, o < k.old.st.hwm)), patterns=[S[o]]))


@contract('D03', 'Composition::getChildById', pre=comp_pre, abort=no_abort())
def getChildById(k):
    S, oid, o = k.old.f('Composition::_children', k.this), k.old.arr('Object::_id'), k.sk('child')
    return [('a child found has that id', z3.Implies(k.ret != 0, z3.And(S[k.ret], oid[k.ret] == k.arg(0)))),
            ('a child with that id is found', z3.Implies(z3.And(S[o], oid[o] == k.arg(0)), k.ret != 0))] + unchanged(k)


@contract('D03', 'Composition::getChildByIdOrAlias', pre=comp_pre, handlers=ALIAS, abort=no_abort())
def getChildByIdOrAlias(k):
    S, oid, o = k.old.f('Composition::_children', k.this), k.old.arr('Object::_id'), k.sk('child')
    s = k.arg(0)
    return [('a child found answers to the string', z3.Implies(k.ret != 0, z3.And(S[k.ret], z3.Or(oid[k.ret] == s, has_alias(k.eng, k.ret, s))))),
            ('an id match is preferred', z3.Implies(z3.And(S[o], oid[o] == s), z3.And(k.ret != 0, oid[k.ret] == s))),
            ('an alias is found', z3.Implies(z3.And(S[o], has_alias(k.eng, o, s)), k.ret != 0))] + unchanged(k)


def add_child_pre(k):
    comp_pre(k)
    k.assume(z3.And(k.arg(0) > 0, k.arg(0) < k.old.st.hwm, k.old.f('Object::_doc', k.this) > 0))


def h_register(eng, f, this, args):
    """Document::addObject (proved in D01): records the registration; it does not touch parents or children"""
    r = fresh('added', B)
    eng.trace_append(eng.st, eng.mkcall('register', o=this, e=term(eng, args[0]), r=r))
    havoc(eng, {'Object::_doc', 'Document::_objects', 'Document::_objectsById', 'Document::_medias', 'Document::_mediasRemote',
                'Document::_contexts', 'Document::_switches'})
    return V(r, BOOL)


@contract('D03', 'Composition::addChild', pre=add_child_pre, handlers={'Document::addObject': h_register},
          abort=no_abort(lambda k: k.old.f('Object::_parent', k.arg(0)) != 0,
                         lambda k: Hist(k).get(Iv(0), 'r') == 0))
def addChild(k):
    S, S1 = (v.f('Composition::_children', k.this) for v in (k.old, k.new))
    a, x, h = k.arg(0), k.sk('child'), Hist(k)
    was = S[a]
    DOC = ['Object::_doc', 'Document::_objects', 'Document::_objectsById', 'Document::_medias', 'Document::_mediasRemote',
           'Document::_contexts', 'Document::_switches']
    return [('it becomes a child', S1[x] == z3.Or(S[x], x == a)),
            ('the composition becomes its parent', z3.Implies(z3.Not(was), k.new.f('Object::_parent', a) == k.this)),
            ('it is registered in the document', z3.Implies(z3.Not(was), z3.And(
                h.len == 1, h.is_(Iv(0), 'register', o=k.old.f('Object::_doc', k.this), e=a)))),
            ('adding it again registers nothing', z3.Implies(was, h.len == 0))] + \
        [('again: ' + n, z3.Implies(was, g)) for n, g in unchanged(k, allow=[] )] + \
        unchanged(k, allow=DOC, only={'Composition::_children': lambda y: y == k.this, 'Object::_parent': lambda y: y == a})


# ---------------------------------------------------------------- P01
def holds(eng, p):
    return ghost(eng, 'holds', I, B)(p)


def h_eval(eng, f, this, args):
    """evaluation of an operand (this contract itself, for the operand)"""
    return V(holds(eng, term(eng, args[0])), BOOL)


def resolves(s):
    return z3.Function('ghost_resolves', s.sort(), B)(s)


def refvalue(s):
    return z3.Function('ghost_refvalue', s.sort(), s.sort())(s)


def h_ref(eng, f, this, args):
    """contract of Document::evalPropertyRef (proved in D02)"""
    s = term(eng, args[0])
    r = resolves(s)
    eng.st.assume(z3.Implies(r, z3.PrefixOf(z3.StringVal('$'), s)))
    out = args[1]
    ok = eng.choose(r)
    if ok:
        if isinstance(out, PtrLV):
            if out.null is not None and not z3.is_false(z3.simplify(out.null)) and eng.choose(out.null):
                return eng.B(True)
            eng.write(eng.st, out.lv, V(refvalue(s), STR))
    return eng.B(ok)


def pred_pre(k):
    p = k.arg(0)
    T = lambda n: k.enum('Predicate::' + n)
    t = k.old.f('Predicate::_type', p)
    n = k.old.len('Predicate::_children', p)
    i = z3.Int('i!pc')
    k.assume(z3.And(p > 0, t >= T('FALSUM'), t <= T('DISJUNCTION'), n >= 0))
    k.assume(z3.Implies(t == T('NEGATION'), n == 1))
    k.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), k.old.at('Predicate::_children', p, i) > 0),
                       patterns=[k.old.at('Predicate::_children', p, i)]))
    at = k.old.f('Predicate::_atom', p)
    te = k.eng.proj(at.sort(), 0, at)
    k.assume(z3.And(te >= T('EQ'), te <= T('GE')))


@contract('P01', 'Document::evalPredicate', strings=True, pre=pred_pre, abort=no_abort(),
          handlers={'Document::evalPredicate': h_eval, 'Document::evalPropertyRef': h_ref},
          assumes=['a negation has exactly one operand (the code asserts it)'])
def evalPredicate(k):
    p = k.arg(0)
    T = lambda n: k.enum('Predicate::' + n)
    t = k.old.f('Predicate::_type', p)
    n = k.old.len('Predicate::_children', p)
    ch = lambda i: k.old.at('Predicate::_children', p, i)
    at = k.old.f('Predicate::_atom', p)
    te, l0, r0 = (k.eng.proj(at.sort(), i, at) for i in range(3))
    side = lambda s: z3.If(z3.And(z3.PrefixOf(z3.StringVal('$'), s), resolves(s)), refvalue(s), s)
    l, r = side(l0), side(r0)
    i, w = k.sk('i'), z3.Int('w')
    R = k.ret
    Hh = lambda j: holds(k.eng, ch(j))
    out = [('false', z3.Implies(t == T('FALSUM'), z3.Not(R))), ('true', z3.Implies(t == T('VERUM'), R)),
           ('negation', z3.Implies(t == T('NEGATION'), R == z3.Not(Hh(Iv(0))))),
           ('conjunction: true only when every operand is', z3.Implies(z3.And(t == T('CONJUNCTION'), R, 0 <= i, i < n), Hh(i))),
           ('conjunction: false only when some operand is', z3.Implies(z3.And(t == T('CONJUNCTION'), z3.Not(R)), z3.Exists(
               [w], z3.And(0 <= w, w < n, z3.Not(Hh(w)))))),
           ('disjunction: false only when every operand is', z3.Implies(z3.And(t == T('DISJUNCTION'), z3.Not(R), 0 <= i, i < n), z3.Not(Hh(i)))),
           ('disjunction: true only when some operand is', z3.Implies(z3.And(t == T('DISJUNCTION'), R), z3.Exists(
               [w], z3.And(0 <= w, w < n, Hh(w)))))]
    for nm, g in (('EQ', l == r), ('NE', l != r), ('LT', l < r), ('LE', l <= r), ('GT', r < l), ('GE', r <= l)):
        out.append(('test %s' % nm, z3.Implies(z3.And(t == T('ATOM'), te == T(nm)), R == g)))
    return out + unchanged(k)


# ---------------------------------------------------------------- P02
def atom(k, view, p):
    at = view.f('Predicate::_atom', p)
    return [k.eng.proj(at.sort(), i, at) for i in range(3)]


@contract('P02', 'Predicate::setTest', abort=no_abort(lambda k: k.old.f('Predicate::_type', k.this) != k.enum('Predicate::ATOM')))
def setTest(k):
    t, l, r = atom(k, k.new, k.this)
    return [('the test is stored', z3.And(l == k.arg(0), t == k.arg(1), r == k.arg(2)))] + \
        unchanged(k, only={'Predicate::_atom': lambda x: x == k.this})


@contract('P02', 'Predicate::getTest', abort=no_abort(lambda k: k.old.f('Predicate::_type', k.this) != k.enum('Predicate::ATOM')))
def getTest(k):
    t, l, r = atom(k, k.old, k.this)
    nn = [z3.Not(k.isnull(i)) for i in range(3)]
    return [('the left operand', z3.Implies(nn[0], k.out(0) == l)), ('the operator', z3.Implies(nn[1], k.out(1) == t)),
            ('the right operand', z3.Implies(nn[2], k.out(2) == r))] + unchanged(k)


def connective(k, view, p):
    t = view.f('Predicate::_type', p)
    return z3.Or([t == k.enum('Predicate::' + n) for n in ('NEGATION', 'CONJUNCTION', 'DISJUNCTION')])


@contract('P02', 'Predicate::addChild', pre=lambda k: k.assume(z3.And(k.arg(0) > 0, k.arg(0) < k.old.st.hwm)),
          abort=no_abort(lambda k: z3.Not(connective(k, k.old, k.this)), lambda k: k.old.f('Predicate::_parent', k.arg(0)) != 0))
def padd(k):
    n0, n1 = (v.len('Predicate::_children', k.this) for v in (k.old, k.new))
    i = k.sk('i')
    return [('one more operand', n1 == n0 + 1),
            ('the new one is last', k.new.at('Predicate::_children', k.this, n0) == k.arg(0)),
            ('the others stay in order', z3.Implies(z3.And(0 <= i, i < n0), k.new.at(
                'Predicate::_children', k.this, i) == k.old.at('Predicate::_children', k.this, i))),
            ('the connective is its parent', k.new.f('Predicate::_parent', k.arg(0)) == k.this)] + \
        unchanged(k, only={'Predicate::_children': lambda x: x == k.this, 'Predicate::_parent': lambda x: x == k.arg(0)})


@contract('P02', 'Predicate::Predicate')
def pctor(k):
    return [('type', k.new.f('Predicate::_type', k.this) == k.arg(0)), ('no operands', k.new.len('Predicate::_children', k.this) == 0),
            ('no parent', k.new.f('Predicate::_parent', k.this) == 0)]


@contract('P02', 'Predicate::getChildren')
def pchildren(k):
    return [('changes nothing', z3.And([g for _, g in unchanged(k)] or [z3.BoolVal(True)]))]


def copyof(eng):
    return ghost(eng, 'copy_of', I, I, B)


def h_clone(eng, f, this, args):
    """copy of an operand (this contract itself, for the operand)"""
    st = eng.st
    r = fresh('copy', I)
    st.assume(r >= st.hwm)
    st.assume(eng.tagf(r) == eng.tag('Predicate'))
    h = fresh('hwm', I)
    st.assume(h > r, fact=True)
    st.hwm = h      # cells of objects not yet allocated are arbitrary, so nothing else needs to change
    st.assume(eng.hget(st, 'Predicate::_parent')[r] == 0)
    st.assume(copyof(eng)(this, r))
    eng.trace_append(st, eng.mkcall('clone', o=this, e=r))
    return V(r, T('ptr', T('class', 'Predicate')))


def clone_pre(k):
    p = k.this
    n = k.old.len('Predicate::_children', p)
    i = z3.Int('i!pc')
    k.assume(n >= 0)
    k.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(k.old.at('Predicate::_children', p, i) > 0,
                                                                   k.old.at('Predicate::_children', p, i) < k.old.st.hwm)),
                       patterns=[k.old.at('Predicate::_children', p, i)]))
    t = k.old.f('Predicate::_type', p)
    T = lambda n_: k.enum('Predicate::' + n_)
    k.assume(z3.And(t >= T('FALSUM'), t <= T('DISJUNCTION'), z3.Implies(z3.Not(connective(k, k.old, p)), n == 0)))


def clone_hints(k):
    def h(loop, head, cursor):
        out = []
        hw = k.old.st.hwm
        x, j = z3.Int('x!cf'), z3.Int('j!cf')
        hi = [l.init for l in loop.locs if l.kind == 'hwm']
        at0 = lambda i: k.old.at('Predicate::_children', k.this, i)
        for l in loop.locs:
            if l.kind == 'heap' and l.key.startswith('Predicate::') and hi:
                out.append(('earlier nodes kept', z3.ForAll([x], z3.Implies(x < hi[0], l.head[x] == l.init[x]), patterns=[l.head[x]])))
            if l.kind == 'cell' and l.key == 'Predicate::_children':
                S = l.head.sort()
                n, a = S.accessor(0, 0)(l.head), S.accessor(0, 1)(l.head)
                out.append(('copies so far', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
                    copyof(k.eng)(at0(j), a[j]), a[j] > hw)), patterns=[a[j]])))
        return out
    return [h]


@contract('P02', 'Predicate::clone', pre=clone_pre, handlers={'Predicate::clone': h_clone}, hints=clone_hints, abort=no_abort())
def clone(k):
    p, r = k.this, k.ret
    n0, n1 = k.old.len('Predicate::_children', p), k.new.len('Predicate::_children', r)
    i = k.sk('i')
    a0, a1 = atom(k, k.old, p), atom(k, k.new, r)
    c1 = k.new.at('Predicate::_children', r, i)
    rng = z3.And(0 <= i, i < n0)
    return [('a new node', r >= k.old.st.hwm),
            ('of the same type', k.new.f('Predicate::_type', r) == k.old.f('Predicate::_type', p)),
            ('with the same test', z3.Implies(k.old.f('Predicate::_type', p) == k.enum('Predicate::ATOM'), z3.And([x == y for x, y in zip(a0, a1)]))),
            ('without parent', k.new.f('Predicate::_parent', r) == 0),
            ('with as many operands', n1 == n0),
            ('which are copies in the same order', z3.Implies(rng, copyof(k.eng)(k.old.at('Predicate::_children', p, i), c1))),
            ('and new nodes', z3.Implies(rng, c1 >= k.old.st.hwm))] + unchanged(k)


# ---------------------------------------------------------------- D04: what a document owns
DELETE_NOTE = 'destroying an object destroys only what that object owns, and leaves what its owner still has to release untouched'


def deleting(k):
    def h(eng, v):
        eng.trace_append(eng.st, eng.mkcall('delete', e=term(eng, v)))
    return {'delete': h}


def deleted_set(k, key, name, owner=None):
    S = k.old.f(key, k.this)
    h = Hist(k)
    c, p, q = k.sk('element'), k.sk('p'), k.sk('q')
    at, n = k.instance(S, c)
    ea = lambda i: k.eng.enumth.at(k.eng, S, i)
    return [('one release per %s' % name, h.len == n),
            ('each of them of a different %s' % name, z3.Implies(z3.And(0 <= p, p < h.len), z3.And(h.is_(p, 'delete', e=ea(p)), S[ea(p)]))),
            ('every %s is released' % name, z3.Implies(S[c], h.is_(k.eng.enumth.pos(k.eng, S, c), 'delete', e=c)))]


@contract('D04', 'Object::~Object', pre=lambda k: valid_set(k, 'Object::_events', k.this), handlers=deleting, abort=no_abort(), assumes=[DELETE_NOTE])
def object_dtor(k):
    return deleted_set(k, 'Object::_events', 'event')


@contract('D04', 'Predicate::~Predicate', handlers=deleting, abort=no_abort(), assumes=[DELETE_NOTE],
          pre=lambda k: valid_list(k, 'Predicate::_children', k.this))
def predicate_dtor(k):
    h = Hist(k)
    key = 'Predicate::_children'
    p = k.sk('p')
    return [('one release per operand', h.len == k.old.len(key, k.this)),
            ('of that operand', z3.Implies(z3.And(0 <= p, p < h.len), h.is_(p, 'delete', e=k.old.at(key, k.this, p))))]


@contract('D04', 'Document::~Document', pre=lambda k: k.assume(k.old.f('Document::_root', k.this) > 0), handlers=deleting, abort=no_abort(), assumes=[DELETE_NOTE])
def document_dtor(k):
    h = Hist(k)
    return [('the root is released, once', z3.And(h.len == 1, h.is_(0, 'delete', e=k.old.f('Document::_root', k.this))))]


def switch_pre(k):
    valid_set(k, 'Composition::_children', k.this)


@contract('D04', 'Switch::~Switch', pre=switch_pre, handlers=deleting, abort=no_abort(), assumes=[DELETE_NOTE])
def switch_dtor(k):
    h = Hist(k)
    S = k.old.f('Composition::_children', k.this)
    key = 'Switch::_rules'
    m = k.old.len(key, k.this)
    c, p, i = k.sk('child'), k.sk('p'), k.sk('i')
    at, n = k.instance(S, c)
    ea = lambda j: k.eng.enumth.at(k.eng, S, j)
    pred = lambda j: pair(k.old.at(key, k.this, j), 1)

    def layout(first, rules):
        """children from entry first on, conditions of the rules from entry rules on"""
        return [z3.Implies(z3.And(0 <= p, p < n), h.is_(first + p, 'delete', e=ea(p))),
                z3.Implies(z3.And(0 <= i, i < m), h.is_(rules + i, 'delete', e=pred(i)))]
    return [('one release per child and per condition', h.len == n + m),
            ('each child and each condition is released', AnyOf([layout(0, n), layout(m, 0)])),
            ('every child is among them', AnyOf([[z3.Implies(S[c], h.is_(k.eng.enumth.pos(k.eng, S, c), 'delete', e=c))],
                                                [z3.Implies(S[c], h.is_(m + k.eng.enumth.pos(k.eng, S, c), 'delete', e=c))]]))]


@contract('D04', 'Document::Document', nparams=0, handlers=REMOTE, abort=no_abort())
def document_ctor(k):
    n = k.new
    root, sett = n.f('Document::_root', k.this), n.f('Document::_settings', k.this)
    S = n.f('Document::_objects', k.this)
    dom, val = n.mapdom('Document::_objectsById', k.this), n.mapval('Document::_objectsById', k.this)
    x = k.sk('object')
    C = n.f('Composition::_children', root)
    return [('it has a root context', z3.And(root != 0, k.isa(root, 'Context'), n.f('Object::_id', root) == k.lit('__root__'), n.f('Object::_parent', root) == 0)),
            ('and the settings object', z3.And(sett != 0, sett != root, k.isa(sett, 'MediaSettings'), n.f('Object::_id', sett) == k.lit('__settings__'))),
            ('as the only child of the root', z3.And(n.f('Object::_parent', sett) == root, C[x] == (x == sett))),
            ('and no other object', S[x] == z3.Or(x == root, x == sett)),
            ('both reachable by their ids', z3.And(dom[k.lit('__root__')], val[k.lit('__root__')] == root,
                                                   dom[k.lit('__settings__')], val[k.lit('__settings__')] == sett)),
            ('and know the document', z3.And(n.f('Object::_doc', root) == k.this, n.f('Object::_doc', sett) == k.this))]


@contract('D04', 'MediaSettings::MediaSettings', abort=no_abort())
def settings_ctor(k):
    n = k.new
    dom, val = n.mapdom('Object::_properties', k.this), n.mapval('Object::_properties', k.this)
    x = k.sk('event')
    S = n.f('Object::_events', k.this)
    E = lambda f, e: n.f('Event::' + f, e)
    y = z3.Int('y!e')
    return [('its type is that of the settings', z3.And(dom[k.lit('type')], val[k.lit('type')] == k.lit('application/x-ginga-settings'))),
            ('no focus update is pending', z3.Not(n.f('MediaSettings::_hasNextFocus', k.this))),
            ('its events are the main one and that of the current focus', z3.Implies(S[x], z3.Or(
                x == n.f('Object::_lambda', k.this), z3.And(E('_type', x) == k.enum('Event::ATTRIBUTION'), E('_id', x) == k.lit('service.currentFocus'))))),
            ('both are there', z3.And(S[n.f('Object::_lambda', k.this)], z3.Exists([y], z3.And(
                S[y], E('_type', y) == k.enum('Event::ATTRIBUTION'), E('_id', y) == k.lit('service.currentFocus'), E('_object', y) == k.this))))]
