"""Connectors, rules and the records of links, ports and switches (X07, X08)."""
from .parsers import *
from .parsers import constant_table, set_error

# ---------------------------------------------------------------- typed user data
DATA_NOTE = 'user data is read back as it was attached (U01), by the functions of the parser that attach it'


def cells(k, **kinds):
    """user data of elements: a key is bound to a container (a cell of its own) or to an object"""
    out = {}
    for key, (name, t, owner) in kinds.items():
        if owner is None:
            T_ = k.eng.types.parse(t)
            out[name] = ('fun', gfun(k.eng, 'udata_' + key, I, k.eng.types.sort(T_)), None, T_)
        elif t is None:
            out[name] = ('obj', gfun(k.eng, 'udata_' + key, I, I), owner, 'ParserElt')
        else:
            T_ = k.eng.types.parse(t)
            v = k.eng.fresh_value(k.old.st, key, T_)
            out[name] = ('cell', LV(('local', k.eng.newlocal(k.old.st, v, key)), (), T_), owner, None)
    return out


def data_handlers(k, get):
    def h(eng, f, this, args):
        key = term(eng, args[0])
        C = get()
        for name in C:
            if eng.lit(name).eq(key):
                kind, x, owner, cls = C[name]
                if owner is not None:
                    eng.obligation(eng.st, 'the data is that of the right element', this == owner())
                out = args[1]
                if kind == 'fun':
                    v = V(x(this), cls)
                    eng.write(eng.st, out.lv, PtrLV(LV(('local', eng.newlocal(eng.st, v, 'data')), (), cls)))
                elif kind == 'obj':
                    r = x(this)
                    eng.st.assume(r > 0, fact=True)
                    eng.write(eng.st, out.lv, V(r, T('ptr', T('class', cls))))
                else:
                    eng.write(eng.st, out.lv, PtrLV(x))
                return V(z3.BoolVal(True), BOOL)
        raise Unsupported('user data %s' % key)
    return {'ParserState::getData': h, 'ParserElt::getData': h}


def cell(k, v, x):
    return v.local(x[1]).e


def attrs_given(k, elt, *names):
    """what the check of the element (X01) guarantees"""
    for n in names:
        k.assume(attr(k, k.old, elt, n)[0])


def tables(k):
    """lookup in the tables of the parser"""
    def one(name, sorts):
        def h(eng, f, this, args):
            s = term(eng, args[0])
            ok = eng.choose(gfun(eng, 'in_' + name, strs(eng), B)(s))
            if ok:
                for (tag, so), a in zip(sorts, args[1:]):
                    if isinstance(a, PtrLV) and (a.null is None or not eng.choose(a.null)):
                        eng.write(eng.st, a.lv, V(gfun(eng, tag + '_of_' + name, strs(eng), so)(s), a.lv.t))
            return eng.B(ok)
        return h
    d = {'parser_syntax_%s_table_index' % n: one(n, [('value', I)]) for n in ('event_type', 'transition', 'connective', 'comparator')}
    d['parser_syntax_reserved_role_table_index'] = one('reserved_role', [('side', B), ('type', I), ('transition', I)])
    return d


def intab(k, name, s, tag='value', so=I):
    return gfun(k.eng, 'in_' + name, strs(k.eng), B)(s), gfun(k.eng, tag + '_of_' + name, strs(k.eng), so)(s)


def role_pre(k):
    st, elt = k.arg(0), k.arg(1)
    k.assume(z3.And(st > 0, elt > 0))
    k.assume(k.old.f('ParserElt::_node', elt) > 0)
    attrs_given(k, elt, 'role')
    k.data = cells(k, conn=('conn-elt', None, lambda: st), roles=('roles', 'list<ParserConnRole>', lambda: gfun(k.eng, 'udata_conn', I, I)(st)))
    for t in ('simpleCondition', 'simpleAction'):
        k.lit(t)
    tag = k.old.f('ParserElt::_tag', elt)
    k.assume(z3.Or(tag == k.lit('simpleCondition'), tag == k.lit('simpleAction')))


def role_handlers(k):
    return dict(err_handlers(k), **tables(k), **data_handlers(k, lambda: k.data), **{'xstrbuild': formatted(k)})


@contract('X07', 'ParserState::pushSimpleCondition', pre=role_pre, handlers=role_handlers, abort=no_abort(), assumes=[DATA_NOTE])
def pushrole(k):
    st, elt = k.arg(0), k.arg(1)
    A = lambda n: attr(k, k.old, elt, n)
    lit = lambda x: k.lit(x)
    role = A('role')[1]
    cond = k.old.f('ParserElt::_tag', elt) == lit('simpleCondition')
    reserved, side = intab(k, 'reserved_role', role, 'side', B)
    rtype, rtrans = [intab(k, 'reserved_role', role, x)[1] for x in ('type', 'transition')]
    tn = [A('transition'), A('actionType')]
    td, tv = [z3.If(cond, tn[0][i], tn[1][i]) for i in (0, 1)]
    ed, ev = A('eventType')
    eknown, etype = intab(k, 'event_type', ev)
    tknown, trans = intab(k, 'transition', tv)
    ok = z3.If(reserved, z3.And(side == cond, z3.Implies(ed, z3.And(eknown, etype == rtype)), z3.Implies(td, z3.And(tknown, trans == rtrans))),
               z3.And(ed, eknown, td, tknown))
    ty, tr = z3.If(reserved, rtype, etype), z3.If(reserved, rtrans, trans)
    attribution = ty == k.enum('Event::ATTRIBUTION')
    ok = z3.And(ok, z3.Or(cond, z3.Not(attribution), A('value')[0]))
    l0, l1 = cell(k, k.old, k.data['roles']), cell(k, k.new, k.data['roles'])
    (n0, a0), (n1, a1) = lst(l0), lst(l1)
    e = a1[n0]
    P = lambda f: pod(k, e, 'ParserConnRole', f)
    i = k.sk('earlier')
    val = lambda n: z3.If(A(n)[0], A(n)[1], lit(''))
    return [('it is accepted exactly when its event is well defined', k.ret == ok),
            ('a refusal is reported', z3.Implies(z3.Not(k.ret), z3.And(k.new.f(ERRKEYS[0], st) != 0, k.new.f(ERRKEYS[1], st) != lit('')))),
            ('a refusal adds nothing', z3.Implies(z3.Not(k.ret), l1 == l0)),
            ('it is recorded after the earlier roles', z3.Implies(k.ret, z3.And(n1 == n0 + 1, z3.Implies(z3.And(0 <= i, i < n0), a1[i] == a0[i])))),
            ('under its name', z3.Implies(k.ret, z3.And(P('role') == role, P('condition') == cond, P('node') == k.old.f('ParserElt::_node', elt)))),
            ('with the type and transition it names', z3.Implies(k.ret, z3.And(P('eventType') == ty, P('transition') == tr))),
            ('with its duration and delay when an action', z3.Implies(k.ret, z3.And(*[P(x) == z3.If(cond, lit(''), val(x)) for x in ('duration', 'delay')]))),
            ('with its key when a selection', z3.Implies(k.ret, P('key') == z3.If(ty == k.enum('Event::SELECTION'), val('key'), lit('')))),
            ('with its value when it sets a property', z3.Implies(k.ret, P('value') == z3.If(z3.And(z3.Not(cond), attribution), val('value'), lit('')))),
            ('with no condition on it yet', z3.Implies(k.ret, P('predicate') == 0))] + unchanged(k, allow=ERRKEYS)


# ---------------------------------------------------------------- what the names denote
PAIRT = T('pair', T('enum', 'Event::Type'), T('enum', 'Event::Transition'))
ROLES = '''
onBegin presentation start
onEnd presentation stop
onAbort presentation abort
onPause presentation pause
onResume presentation resume
onBeginAttribution attribution start
onEndAttribution attribution stop
onSelection selection start
onLookAt lookat start
onLookAway lookat stop
onBeginSelection selection start
onEndSelection selection stop
start presentation start
stop presentation stop
abort presentation abort
pause presentation pause
resume presentation resume
set attribution start
'''
ENUMS = {'event_type': ('Event', {x: x.upper() for x in 'presentation attribution selection lookat'.split()}),
         'transition': ('Event', {x + s: x.upper() for x in 'start pause resume stop abort'.split() for s in ('', 's')}),
         'connective': ('Predicate', {'not': 'NEGATION', 'and': 'CONJUNCTION', 'or': 'DISJUNCTION'}),
         'comparator': ('Predicate', dict(eq='EQ', ne='NE', lt='LT', lte='LE', gt='GT', gte='GE'))}


def enumv(prog, cls, name):
    return prog.enumconst[cls + '::' + name]


def same_table(v, want):
    have = dict((x[0], x[1]) for x in v)
    return [('each name is listed once', len(have) == len(v), v), ('the names are those expected', set(have) == set(want), sorted(set(have) ^ set(want)))] + [
        ('%s denotes what it says' % x, have.get(x) == want[x], have.get(x)) for x in sorted(want)]


def named_table(prop, name):
    cls, want = ENUMS[name]

    @constant_table(prop, 'parser_syntax_%s_table' % name)
    def content(v, prog):
        return same_table(v, {x: enumv(prog, cls, y) for x, y in want.items()})

    @contract(prop, 'parser_syntax_%s_table_index' % name, abort=no_abort())
    def index(k):
        dom, val = global_map(k, 'parser_syntax_%s_table' % name, T('enum', ''))
        return [('exactly the names of the table are known', k.ret == dom[k.arg(0)]),
                ('what the name denotes is given', z3.Implies(z3.And(k.ret, z3.Not(k.isnull(1))), k.out(1) == val[k.arg(0)]))]


def global_map(k, name, t):
    m = k.eng.glob(k.old.st, name, T('map', STR, t))
    return [m.sort().accessor(0, q)(m) for q in (0, 1)]


named_table('X07', 'event_type')
named_table('X07', 'transition')
named_table('X08', 'connective')
named_table('X08', 'comparator')


@constant_table('X07', 'parser_syntax_reserved_role_table')
def roletable(v, prog):
    w = [x.split() for x in ROLES.strip().split('\n')]
    return same_table(v, {r: [enumv(prog, 'Event', t.upper()), enumv(prog, 'Event', x.upper())] for r, t, x in w})


@contract('X07', 'parser_syntax_reserved_role_table_index', strings=True, abort=no_abort())
def roleindex(k):
    dom, val = global_map(k, 'parser_syntax_reserved_role_table', PAIRT)
    r = k.arg(0)
    e = val[r]
    part = lambda i: e.sort().accessor(0, i)(e)
    given = lambda i: z3.And(k.ret, z3.Not(k.isnull(i)))
    return [('exactly the names of the table are known', k.ret == dom[r]),
            ('the roles whose name starts with "on" are conditions', z3.Implies(given(1), k.out(1) == z3.PrefixOf(z3.StringVal('on'), r))),
            ('the event type of the role is given', z3.Implies(given(2), k.out(2) == part(0))),
            ('the transition of the role is given', z3.Implies(given(3), k.out(3) == part(1)))]


# ---------------------------------------------------------------- a connector as a whole
def conn_pre(k):
    st, elt = k.arg(0), k.arg(1)
    k.assume(z3.And(st > 0, elt > 0, k.old.f('ParserElt::_node', elt) > 0))
    k.data = cells(k, roles=('roles', 'list<ParserConnRole>', lambda: elt))


def conn_handlers(k):
    d = dict(err_handlers(k), **data_handlers(k, lambda: k.data))
    d['ParserState::setData'] = lambda e, f, t, a: V(z3.BoolVal(True), BOOL)
    d['ParserElt::setData'] = d['ParserState::setData']
    return d


def conn_hints(k):
    n, a = lst(cell(k, k.old, k.data['roles']))
    j = z3.Int('j!cn')
    C = lambda i: pod(k, a[i], 'ParserConnRole', 'condition')

    def h(loop, head, cursor):
        if cursor is None or isinstance(cursor.head, bool) or cursor.head.sort() != I:
            return []
        some = [z3.Exists([j], z3.And(0 <= j, j < cursor.head, (C(j) if c else z3.Not(C(j)))), patterns=[a[j]]) for c in (True, False)]
        out = []
        for l in loop.locs:
            if l.kind == 'v' and z3.is_expr(l.head) and l.head.sort() in (I, B):
                x = l.head if l.head.sort() == B else l.head > 0
                if l.head.sort() == I:
                    out.append(('a count is not negative', l.head >= 0))
                out += [('there is a condition', x == some[0]), ('there is an action', x == some[1])]
        return out
    return [h]


@contract('X07', 'ParserState::popCausalConnector', pre=conn_pre, handlers=conn_handlers, hints=conn_hints, abort=no_abort(), assumes=[DATA_NOTE])
def popconnector(k):
    n, a = lst(cell(k, k.old, k.data['roles']))
    i, j = k.sk('one'), z3.Int('j!pc')
    C = lambda i: pod(k, a[i], 'ParserConnRole', 'condition')
    isin = z3.And(0 <= i, i < n)
    some = lambda c: z3.Exists([j], z3.And(0 <= j, j < n, C(j) if c else z3.Not(C(j))), patterns=[a[j]])
    return [('a connector has a condition', z3.Implies(k.ret, some(True))),
            ('a connector has an action', z3.Implies(k.ret, some(False))),
            ('one that has both is accepted', z3.Implies(z3.And(some(True), some(False)), k.ret)),
            ('a refusal is reported', z3.Implies(z3.Not(k.ret), z3.And(k.new.f(ERRKEYS[0], k.arg(0)) != 0, k.new.f(ERRKEYS[1], k.arg(0)) != k.lit(''))))]


# ---------------------------------------------------------------- links
def parent_of(eng):
    return gfun(eng, 'parent_elt', I, I)


def parent_handler(eng, f, this, args):
    r = parent_of(eng)(term(eng, args[0]))
    eng.st.assume(r > 0, fact=True)
    out_ptr(eng, args[1], r, 'ParserElt')
    return V(z3.BoolVal(True), BOOL)


def record_pre(names, where=None, **kinds):
    def pre(k):
        st, elt = k.arg(0), k.arg(1)
        k.assume(z3.And(st > 0, elt > 0, k.old.f('ParserElt::_node', elt) > 0))
        attrs_given(k, elt, *names)
        up = lambda: parent_of(k.eng)(k.old.f('ParserElt::_node', elt))
        k.data = cells(k, **{a: (b, t, up) for a, (b, t) in kinds.items()})
        k.where = where(k) if where else None
    return pre


def empty(eng, v):
    n = v.e if z3.is_array(v.e) else lst(v.e)[0]
    return n == 0 if n.sort() == I else z3.Not(n[fresh('any', n.sort().domain())])


def attached(k):
    """what is attached to elements"""
    def h(eng, f, this, args):
        key = term(eng, args[0])
        v = eng.load(args[1]) if not isinstance(args[1], PtrLV) else args[1]
        eng.trace_append(eng.st, eng.mkcall('attach', o=this, s=key, e=v.e if isinstance(v, V) and v.e.sort() == I else v.ref if isinstance(v, Obj) else Iv(0)))
        if k.where:
            eng.obligation(eng.st, *k.where(v))
        elif isinstance(v, PtrLV) and v.lv is not None:
            eng.obligation(eng.st, 'what is attached starts empty', empty(eng, eng.read(eng.st, v.lv)))
        return V(z3.BoolVal(True), BOOL)
    return {'ParserState::setData': h, 'ParserElt::setData': h}


def record_handlers(k):
    return dict(err_handlers(k), **data_handlers(k, lambda: k.data), **attached(k), **{'ParserState::eltCacheIndexParent': parent_handler})


def attr_or_empty(k, elt, n):
    d, v = attr(k, k.old, elt, n)
    return z3.If(d, v, k.lit(''))


@contract('X07', 'ParserState::pushLinkParam', pre=record_pre(('name', 'value'), params=('params', 'map<string, string>')), handlers=record_handlers, abort=no_abort(),
          assumes=[DATA_NOTE])
def pushparam(k):
    elt = k.arg(1)
    m0, m1 = [cell(k, v, k.data['params']) for v in (k.old, k.new)]
    (d0, v0), (d1, v1) = lst(m0), lst(m1)
    name, value = [attr(k, k.old, elt, x)[1] for x in ('name', 'value')]
    s = k.sk('other', strs(k.eng))
    return [('it is accepted', k.ret), ('the parameter is recorded with its bind or link', z3.And(d1[name], v1[name] == value)),
            ('the others stay', z3.Implies(s != name, z3.And(d1[s] == d0[s], z3.Implies(d0[s], v1[s] == v0[s]))))] + unchanged(k)


def own_params(k):
    """the parameters of the record that the bind adds"""
    n = lst(cell(k, k.old, k.data['binds']))[0]

    def ok(v):
        root = k.data['binds'][1].root
        good = isinstance(v, PtrLV) and v.lv.root == root and len(v.lv.path) == 2 and v.lv.path[0][0] == 'idx' and v.lv.path[1] == ('f', 'params')
        return 'its parameters are to be recorded with it', (v.lv.path[0][1] == n) if good else z3.BoolVal(False)
    return ok


@contract('X07', 'ParserState::pushBind', pre=record_pre(('role', 'component'), own_params, binds=('binds', 'list<ParserLinkBind>')), handlers=record_handlers, abort=no_abort(),
          assumes=[DATA_NOTE])
def pushbind(k):
    elt = k.arg(1)
    (n0, a0), (n1, a1) = [lst(cell(k, v, k.data['binds'])) for v in (k.old, k.new)]
    P = lambda f: pod(k, a1[n0], 'ParserLinkBind', f)
    i = k.sk('earlier')
    s = k.sk('parameter', strs(k.eng))
    h = Hist(k)
    return [('it is accepted', k.ret), ('it is recorded after the earlier binds', z3.And(n1 == n0 + 1, z3.Implies(z3.And(0 <= i, i < n0), a1[i] == a0[i]))),
            ('with its role, component and interface', z3.And(*[P(f) == attr_or_empty(k, elt, x) for f, x in (('role', 'role'), ('component', 'component'), ('iface', 'interface'))],
                                                             P('node') == k.old.f('ParserElt::_node', elt))),
            ('and no parameter yet', z3.Not(lst(P('params'))[0][s])),
            ('its parameters are to be recorded with it', z3.And(h.len == 1, h.is_(Iv(0), 'attach', o=elt, s=k.lit('params'))))] + unchanged(k)


# ---------------------------------------------------------------- the body
TREE_PARSE_NOTE = 'adding children, events, ports and switch ports to objects follows the contracts D01, D03, C01, S01'


def stack(k, v):
    return lst(v.f('ParserState::_objStack', k.arg(0)))


def peeked(k):
    return stack(k, k.old)[1][stack(k, k.old)[0] - 1]


def in_body(names=(), cls=None, exact=False, **kinds):
    inner = record_pre(names, None, **kinds)

    def pre(k):
        inner(k)
        n, a = stack(k, k.old)
        k.assume(n > 0)
        top = a[n - 1]
        k.assume(z3.And(top > 0, top < k.old.st.hwm))
        if cls:
            k.assume(z3.Or([k.isa(top, c) for c in cls.split()]))
    return pre


def did(name, n=None):
    """a call that changes the document is recorded"""
    def h(eng, f, this, args):
        vals = []
        for a in args:
            v = eng.load(a) if not isinstance(a, PtrLV) else a
            vals.append(v)
        kw = {}
        for v in vals:
            e = v.ref if isinstance(v, Obj) else v.e if isinstance(v, V) else None
            if e is None:
                continue
            for slot in (('s', 's2', 's3') if e.sort() == strs(eng) else ('x', 'n', 'm') if e.sort() == I else ()):
                if slot not in kw:
                    kw[slot] = e
                    break
        eng.trace_append(eng.st, eng.mkcall(name, o=this, **kw))
        t = eng.types.parse(f.ret) if getattr(f, 'ret', None) else None
        return VOIDV if t is None or t.k == 'void' else eng.fresh_value(eng.st, name + '_r', t)
    h.virtual = True
    return h


def body_handlers(k):
    d = record_handlers(k)
    for q, nm in (('Object::addAttributionEvent', 'attribution'), ('Object::setProperty', 'property'), ('Media::setProperty', 'property'), ('MediaSettings::setProperty', 'property'),
                  ('Object::addAlias', 'alias')):
        d[q] = did(nm)
    for q in ('Composition::addChild', 'Context::addChild', 'Switch::addChild'):
        d[q] = did('child')

    def area(eng, f, this, args):
        vs = [eng.load(a) for a in args]
        kw = dict(s=vs[0].e)
        if len(vs) == 2:
            kw['s2'] = vs[1].e
        else:
            kw['x'], kw['n'] = vs[1].e, vs[2].e
        eng.trace_append(eng.st, eng.mkcall('label' if len(vs) == 2 else 'area', o=this, **kw))
        return VOIDV

    def time(eng, f, this, args):
        s = term(eng, args[0])
        ok = eng.choose(gfun(eng, 'is_time', strs(eng), B)(s))
        if ok and isinstance(args[1], PtrLV):
            eng.write(eng.st, args[1].lv, V(gfun(eng, 'time_of', strs(eng), I)(s), args[1].lv.t))
        return eng.B(ok)
    d['Object::addPresentationEvent'] = area
    d['try_parse_time'] = time

    def created(cls):
        def new(eng, o, args):
            eng.trace_append(eng.st, eng.mkcall('new' + cls, o=o.e if hasattr(o, 'e') else o, s=eng.load(args[0]).e if not hasattr(args[0], 'get') else eng.load(eng.ev(args[0])).e))
        return new
    for c in ('Context', 'Switch'):
        d['new ' + c] = created(c)
    return d


@contract('X09', 'ParserState::pushProperty', pre=in_body(('name',), cls='Context Media MediaSettings'), handlers=body_handlers, abort=no_abort(), assumes=[TREE_PARSE_NOTE])
def pushproperty(k):
    elt = k.arg(1)
    h = Hist(k)
    name, v = attr(k, k.old, elt, 'name')[1], attr_or_empty(k, elt, 'value')
    top = peeked(k)
    return [('it is accepted', k.ret), ('the object has the property', z3.And(h.len >= 1, h.is_(Iv(0), 'attribution', o=top, s=name))),
            ('with the value given', z3.If(v == k.lit(''), h.len == 1, z3.And(h.len == 2, h.is_(Iv(1), 'property', o=top, s=name, s2=v))))] + unchanged(k)


@contract('X09', 'ParserState::pushArea', pre=in_body(('id',), cls='Media MediaSettings'), handlers=body_handlers, abort=no_abort(), assumes=[TREE_PARSE_NOTE])
def pusharea(k):
    st, elt = k.arg(0), k.arg(1)
    h = Hist(k)
    A = lambda n: attr(k, k.old, elt, n)
    ist, tof = gfun(k.eng, 'is_time', strs(k.eng), B), gfun(k.eng, 'time_of', strs(k.eng), I)
    label = z3.And(A('label')[0], A('label')[1] != k.lit(''))
    ok = z3.If(label, z3.And(z3.Not(A('begin')[0]), z3.Not(A('end')[0])), z3.And(*[z3.Implies(A(x)[0], ist(A(x)[1])) for x in ('begin', 'end')]))
    b, e = [z3.If(A(x)[0], tof(A(x)[1]), d) for x, d in (('begin', Iv(0)), ('end', Iv(2 ** 64 - 1)))]
    return [('it is accepted exactly when its interval is well formed', k.ret == ok),
            ('a refusal is reported', z3.Implies(z3.Not(k.ret), z3.And(k.new.f(ERRKEYS[0], st) != 0, k.new.f(ERRKEYS[1], st) != k.lit('')))),
            ('a refused anchor is not added', z3.Implies(z3.Not(k.ret), h.len == 0)),
            ('the object has the anchor it declares', z3.Implies(k.ret, z3.And(h.len == 1, z3.If(label, h.is_(Iv(0), 'label', o=peeked(k), s=A('id')[1], s2=A('label')[1]),
                                                                                          h.is_(Iv(0), 'area', o=peeked(k), s=A('id')[1], x=b, n=e)))))] + unchanged(
                                                                                              k, allow=ERRKEYS)


def appended(k, key, what):
    """the record is added at the end of the list of the element around it"""
    (n0, a0), (n1, a1) = [lst(cell(k, v, k.data[key])) for v in (k.old, k.new)]
    i = k.sk('earlier')
    return [('it is accepted', k.ret), ('it is recorded after the earlier ones', z3.And(n1 == n0 + 1, z3.Implies(z3.And(0 <= i, i < n0), a1[i] == a0[i]))),
            ('as it is declared', what(a1[n0]))]


def ident(k):
    return attr(k, k.old, k.arg(1), 'id')[1]


@contract('X09', 'ParserState::pushPort', pre=record_pre(('id',), ports=('ports', 'list<string>')), handlers=record_handlers, abort=no_abort(), assumes=[DATA_NOTE])
def pushport(k):
    return appended(k, 'ports', lambda e: e == ident(k)) + unchanged(k)


@contract('X09', 'ParserState::pushSwitchPort', pre=record_pre(('id',), ports=('switchPorts', 'list<string>')), handlers=record_handlers, abort=no_abort(), assumes=[DATA_NOTE])
def pushswport(k):
    h = Hist(k)
    return appended(k, 'switchPorts', lambda e: e == ident(k)) + [
        ('its mappings are to be recorded with it', z3.And(h.len == 1, h.is_(Iv(0), 'attach', o=k.arg(1), s=k.lit('mappings'))))] + unchanged(k)


@contract('X09', 'ParserState::pushMapping', pre=record_pre(('component',), maps=('mappings', 'list<ParserElt *>')), handlers=record_handlers, abort=no_abort(), assumes=[DATA_NOTE])
def pushmapping(k):
    return appended(k, 'mappings', lambda e: e == k.arg(1)) + unchanged(k)


def rule_of_switch(k):
    record_pre((), None, rules=('rules', 'list<pair<ParserElt *, Object *>>'))(k)
    elt = k.arg(1)
    tag = k.old.f('ParserElt::_tag', elt)
    b, d = [tag == k.lit(x) for x in ('bindRule', 'defaultComponent')]
    k.assume(z3.Or(b, d))
    for t, n in ((b, 'constituent'), (b, 'rule'), (d, 'component')):
        k.assume(z3.Implies(t, attr(k, k.old, elt, n)[0]))


@contract('X09', 'ParserState::pushBindRule', pre=rule_of_switch, handlers=record_handlers, abort=no_abort(), assumes=[DATA_NOTE])
def pushbindrule(k):
    return appended(k, 'rules', lambda e: z3.And(e.sort().accessor(0, 0)(e) == k.arg(1), e.sort().accessor(0, 1)(e) == 0)) + unchanged(k)


def pushed(k, obj):
    (n0, a0), (n1, a1) = stack(k, k.old), stack(k, k.new)
    i = k.sk('enclosing')
    return [('what follows is inside it', z3.And(n1 == n0 + 1, a1[n0] == obj, z3.Implies(z3.And(0 <= i, i < n0), a1[i] == a0[i])))] + unchanged(
        k, allow=tuple(ERRKEYS) + ('ParserState::_objStack',))


def composition(cls, tags):
    def post(k):
        h = Hist(k)
        elt = k.arg(1)
        o = h.get(Iv(0), 'o')
        top = peeked(k)
        made = z3.And(h.is_(Iv(0), 'new' + cls, s=ident(k)), h.is_(Iv(1), 'child', o=top, x=o), o > 0)
        out = [('it is accepted', k.ret)]
        n = k.sk('step')
        later = z3.Implies(z3.And(z3.If(body(k), 0, 2) <= n, n < h.len), z3.Or(h.is_(n, 'attach', o=elt), z3.And(body(k), h.is_(n, 'alias', o=top, s=ident(k)))))
        out += [('a child of the composition around it is created', z3.Implies(z3.Not(body(k)), made)),
                ('nothing else is done to the document', later)]
        has = attr(k, k.old, elt, 'id')[0]
        if cls == 'Context':
            out.append(('the body is the root', z3.Implies(z3.And(body(k), has), h.is_(Iv(0), 'alias', o=top, s=ident(k)))))
        return out + pushed(k, z3.If(body(k), top, o))
    return post


def body(k):
    return k.old.f('ParserElt::_tag', k.arg(1)) == k.lit('body')


def comp_pre(cls):
    def pre(k):
        in_body((), cls='Context Switch')(k)
        elt = k.arg(1)
        k.assume(z3.Or(body(k), attr(k, k.old, elt, 'id')[0]))
        if cls == 'Context':
            k.assume(z3.Implies(body(k), k.isa(peeked(k), 'Context')))
        else:
            k.assume(z3.Not(body(k)))
    return pre


contract('X09', 'ParserState::pushContext', pre=comp_pre('Context'), handlers=body_handlers, abort=no_abort(), assumes=[TREE_PARSE_NOTE])(composition('Context', 'ports'))
contract('X09', 'ParserState::pushSwitch', pre=comp_pre('Switch'), handlers=body_handlers, abort=no_abort(), assumes=[TREE_PARSE_NOTE])(composition('Switch', 'rules'))


# ---------------------------------------------------------------- the end of a composition
RESOLVE_NOTE = 'what a component or interface resolves to (X04) depends on the scope and the element that names it'


def resolver(name, field):
    def h(eng, f, this, args):
        scope, elt = term(eng, args[0]), term(eng, args[1])
        ok = eng.choose(gfun(eng, 'resolves_' + name, I, I, B)(scope, elt))
        if ok:
            r = gfun(eng, name + '_of', I, I, I)(scope, elt)
            eng.st.assume(r > 0, fact=True)
            out_ptr(eng, args[2], r, field)
        else:
            set_error(eng, this)
        return eng.B(ok)
    return h


def known(eng, f, this, args):
    r = gfun(eng, 'elt_of_id', strs(eng), I)(term(eng, args[0]))
    eng.st.assume(r > 0, fact=True)
    out_ptr(eng, args[1], r, 'ParserElt')
    return V(z3.BoolVal(True), BOOL)


def end_pre(cls, **kinds):
    def pre(k):
        in_body((), cls=cls)(k)
        k.assume(stack(k, k.old)[0] > 1)
        k.data = cells(k, **{a: (b, t, o and (lambda: k.arg(1))) for a, (b, t, o) in kinds.items()})
    return pre


def end_handlers(k):
    d = record_handlers(k)
    d.update({'ParserState::resolveInterface': resolver('interface', 'Event'), 'ParserState::resolveComponent': resolver('component', 'Object'),
              'ParserState::eltCacheIndexById': known, 'Context::addPort': did('port'), 'ParserElt::getAttribute': getattr_h})

    def swport(eng, f, this, args):
        s = term(eng, args[0])
        v = eng.load(args[1])
        m = k.data['mappings'][1](gfun(eng, 'elt_of_id', strs(eng), I)(s))
        (n, a), (n0, a0) = lst(v.e), lst(m)
        i = fresh('mapping', I)
        eng.obligation(eng.st, 'a switch port has an event for each of its mappings', n == n0)
        eng.obligation(eng.st, 'the event that the mapping denotes', z3.Implies(z3.And(0 <= i, i < n0), a[i] == gfun(eng, 'interface_of', I, I, I)(peeked(k), a0[i])))
        eng.trace_append(eng.st, eng.mkcall('swport', o=this, s=s))
        return VOIDV
    d['Switch::addSwitchPort'] = swport
    return d


def end_hints(key, name, what, also=None):
    def hints(k):
        def h(loop, head, cursor):
            out = []
            if cursor is None or isinstance(cursor.head, bool) or cursor.head.sort() != I:
                return out
            n, a = lst(cell(k, k.old, k.data[key]))
            p, c, TR = z3.Int('p!end'), cursor.head, k.eng.Trace
            for l in loop.locs:
                if l.kind == 'trace':
                    t = l.head
                    out.append(('one for each so far', TR.len(t) == k.old.tlen + c))
                    out.append(('each is as declared', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < c), what(k, lambda f: cget(k, TR.a(t)[k.old.tlen + p], f), a[p])),
                                                                 patterns=[TR.a(t)[k.old.tlen + p], a[p]])))
            if also:
                out += also(k, loop, head, cursor)
            return out
        return [h]
    return hints


def finished(k):
    (n0, a0), (n1, a1) = stack(k, k.old), stack(k, k.new)
    i = k.sk('enclosing')
    return [('what follows is outside it', z3.Implies(k.ret, z3.And(n1 == n0 - 1, z3.Implies(z3.And(0 <= i, i < n1), a1[i] == a0[i])))),
            ('a refusal is reported', z3.Implies(z3.Not(k.ret), z3.And(k.new.f(ERRKEYS[0], k.arg(0)) != 0, k.new.f(ERRKEYS[1], k.arg(0)) != k.lit(''))))]


def elt_of(k, s):
    return gfun(k.eng, 'elt_of_id', strs(k.eng), I)(s)


def resolves(k, name, scope, elt):
    return gfun(k.eng, 'resolves_' + name, I, I, B)(scope, elt), gfun(k.eng, name + '_of', I, I, I)(scope, elt)


def port_step(k, get, pid):
    ok, e = resolves(k, 'interface', peeked(k), elt_of(k, pid))
    return z3.And(get('fn') == k.fn('port'), get('o') == peeked(k), get('x') == e, ok)


@contract('X09', 'ParserState::popContext', pre=end_pre('Context', ports=('ports', 'list<string>', True)), handlers=end_handlers,
          hints=end_hints('ports', 'port', port_step), abort=no_abort(), assumes=[DATA_NOTE, RESOLVE_NOTE])
def popcontext(k):
    h = Hist(k)
    n, a = lst(cell(k, k.old, k.data['ports']))
    i = k.sk('port')
    isin = z3.And(0 <= i, i < n)
    return [('every port it declares is added', z3.Implies(k.ret, h.len == n)),
            ('and is the interface that it names', z3.Implies(z3.And(k.ret, isin), port_step(k, lambda f: h.get(i, f), a[i]))),
            ('one that resolves nothing is refused', z3.Implies(z3.And(isin, z3.Not(resolves(k, 'interface', peeked(k), elt_of(k, a[i]))[0])), z3.Not(k.ret))),
            ] + finished(k) + unchanged(k, allow=tuple(ERRKEYS) + ('ParserState::_objStack',))


def first(e):
    return e.sort().accessor(0, 0)(e)


def second(e):
    return e.sort().accessor(0, 1)(e)


def swport_step(k, get, pid):
    return z3.And(get('fn') == k.fn('swport'), get('o') == peeked(k), get('s') == pid)


def maps_of(k, pid):
    return lst(k.data['mappings'][1](elt_of(k, pid)))


def sw_hints(k):
    base = end_hints('switchPorts', 'swport', swport_step)(k)[0]
    m, b = lst(cell(k, k.old, k.data['rules']))
    n, a = lst(cell(k, k.old, k.data['switchPorts']))
    p, q = z3.Int('p!sw'), z3.Int('q!sw')
    top = peeked(k)

    def h(loop, head, cursor):
        out = []
        if cursor is None or isinstance(cursor.head, bool) or cursor.head.sort() != I:
            return out
        c = cursor.head
        over = None
        if cursor.kind == 'it':
            it = head.store[cursor.key]
            over = getattr(it, 'lv', None)
        for l in loop.locs:
            x = l.head
            if not z3.is_expr(x) or l.kind == 'trace' or x.sort().kind() != z3.Z3_DATATYPE_SORT or x.sort().num_constructors() != 1 or x.sort().constructor(0).arity() != 2:
                continue
            s0, s1 = lst(x)
            if s0.sort() != I:
                continue
            if x.sort() == cell(k, k.old, k.data['rules']).sort():
                ok, o = resolves(k, 'component', top, first(b[p]))
                out.append(('no rule is lost', s0 == m))
                out.append(('the rules keep their elements', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < m), first(s1[p]) == first(b[p])), patterns=[s1[p]])))
                out.append(('the rules so far have their component', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < c), z3.And(ok, second(s1[p]) == o)), patterns=[s1[p], b[p]])))
            elif s1.sort().range() == I:
                v = loop.eng_load(head, over) if over is not None else None
                if v is None or v.e.sort() != x.sort():
                    continue
                t0, t1 = lst(v.e)
                ok, o = resolves(k, 'interface', top, t1[p])
                out.append(('an event for each mapping so far', s0 == c))
                out.append(('the event the mapping denotes', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < c), z3.And(ok, s1[p] == o)), patterns=[s1[p], t1[p]])))
        for nm, fm in base(loop, head, cursor):
            out.append((nm, fm))
            if nm == 'each is as declared':
                mm, ma = maps_of(k, a[p])
                out.append(('every mapping so far denotes something', z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < c, 0 <= q, q < mm), resolves(k, 'interface', top, ma[q])[0]),
                                                                                patterns=[z3.MultiPattern(a[p], ma[q])])))
        return out
    return [h]


def sw_pre(k):
    end_pre('Switch', rules=('rules', 'list<pair<ParserElt *, Object *>>', True), ports=('switchPorts', 'list<string>', True), maps=('mappings', 'list<ParserElt *>', None))(k)
    m, b = lst(cell(k, k.old, k.data['rules']))
    p = z3.Int('p!sr')
    k.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < m), first(b[p]) > 0), patterns=[b[p]]))


@contract('X09', 'ParserState::popSwitch', pre=sw_pre, handlers=end_handlers, hints=sw_hints, abort=no_abort(),
          assumes=[DATA_NOTE, RESOLVE_NOTE])
def popswitch(k):
    h = Hist(k)
    (m, b), (m1, b1) = [lst(cell(k, v, k.data['rules'])) for v in (k.old, k.new)]
    n, a = lst(cell(k, k.old, k.data['switchPorts']))
    i, j, q = k.sk('rule'), k.sk('port'), k.sk('mapping')
    top = peeked(k)
    isin, isp = z3.And(0 <= i, i < m), z3.And(0 <= j, j < n)
    mm, ma = maps_of(k, a[j])
    ok, o = resolves(k, 'component', top, first(b[i]))
    return [('each rule is bound to the component it names', z3.Implies(z3.And(k.ret, isin), z3.And(m1 == m, first(b1[i]) == first(b[i]), ok, second(b1[i]) == o))),
            ('every switch port it declares is added', z3.Implies(k.ret, h.len == n)),
            ('under its name', z3.Implies(z3.And(k.ret, isp), swport_step(k, lambda f: h.get(j, f), a[j]))),
            ('one whose mapping resolves nothing is refused', z3.Implies(z3.And(isp, 0 <= q, q < mm, z3.Not(resolves(k, 'interface', top, ma[q])[0])), z3.Not(k.ret))),
            ] + finished(k) + unchanged(k, allow=tuple(ERRKEYS) + ('ParserState::_objStack',))


# ---------------------------------------------------------------- media objects
REFERS = 'ParserState::_referMap'


def media_pre(k):
    in_body(('id',), cls='Context Switch')(k)
    st = k.arg(0)
    doc = k.old.f('ParserState::_doc', st)
    k.assume(doc > 0)
    s = z3.Const('s!mp', strs(k.eng))
    d, v = lst(k.old.f(REFERS, st))
    k.assume(z3.ForAll([s], z3.Implies(d[s], z3.And(v[s] > 0, v[s] < k.old.st.hwm, z3.Or(k.isa(v[s], 'Media'), k.isa(v[s], 'MediaSettings')))), patterns=[v[s]]))
    so = gfun(k.eng, 'settings', I, I)(doc)
    k.assume(z3.And(so > 0, so < k.old.st.hwm, k.isa(so, 'MediaSettings')))
    k.assume(k.old.f('ParserState::_referMap', st) == k.old.f('ParserState::_referMap', st))


def media_handlers(k):
    d = body_handlers(k)

    def index(eng, f, this, args):
        m = eng.sel(eng.st, REFERS, this)
        dom, val = lst(m)
        s = term(eng, args[0])
        ok = eng.choose(dom[s])
        if ok:
            out_ptr(eng, args[1], val[s], 'Media')
        return eng.B(ok)

    def add(eng, f, this, args):
        m = eng.sel(eng.st, REFERS, this)
        dom, val = lst(m)
        s, o = term(eng, args[0]), term(eng, args[1])
        new = m.sort().constructor(0)(z3.Store(dom, s, z3.BoolVal(True)), z3.If(dom[s], val, z3.Store(val, s, o)))
        r = z3.Not(dom[s])
        eng.st.heap[REFERS] = z3.Store(eng.hget(eng.st, REFERS), this, new)
        return V(r, BOOL)

    def find(eng, f, this, args):
        r = gfun(eng, 'object', I, strs(eng), I)(this, term(eng, args[0]))
        eng.st.assume(z3.And(r >= 0, r < k.old.st.hwm), fact=True)
        return V(r, T('ptr', T('class', 'Object')))

    def settings(eng, f, this, args):
        return V(gfun(eng, 'settings', I, I)(this), T('ptr', T('class', 'MediaSettings')))

    def new(eng, o, args):
        eng.trace_append(eng.st, eng.mkcall('newMedia', o=o.e if hasattr(o, 'e') else o, s=eng.load(eng.ev(args[0])).e))

    def gone(eng, v):
        eng.trace_append(eng.st, eng.mkcall('delete', o=term(eng, v)))
    text = lambda name: lambda eng, f, this, args: V(gfun(eng, name, strs(eng), strs(eng))(term(eng, args[0])), STR)
    d.update({'ParserState::referMapIndex': index, 'ParserState::referMapAdd': add, 'Document::getObjectByIdOrAlias': find, 'Document::getSettings': settings,
              'new Media': new, 'delete': gone, 'xmlBuildURIAsString': text('absolute'), 'xurifromsrc': text('uri'), 'ParserState::getURI': lambda e, f, t, a: V(fresh('base', strs(e)), STR),
              'xpathisuri': lambda eng, f, this, args: V(gfun(eng, 'is_uri', strs(eng), B)(term(eng, args[0])), BOOL), '(extern)': xmlfn(k),
              '(indirect)': xmlfree})
    return d


def media_hints(k):
    st = k.arg(0)
    d0, v0 = lst(k.old.f(REFERS, st))
    ln, at, pos, _ = k.eng.enumth.get(k.eng, strs(k.eng))
    s = z3.Const('s!mh', strs(k.eng))
    tmp, settings = v0[ident(k)], gfun(k.eng, 'settings', I, I)(k.old.f('ParserState::_doc', st))

    def h(loop, head, cursor):
        out = []
        if cursor is None or cursor.t is None or cursor.t.k != 'map':
            return out
        for l in loop.locs:
            if l.key == REFERS and l.kind in ('heap', 'cell'):
                m = l.head if l.kind == 'cell' else l.head[st]
                d, v = lst(m)
                out += [('no reference is lost', d == d0),
                        ('those to the stand-in become the settings so far', z3.ForAll([s], z3.Implies(d0[s], v[s] == z3.If(z3.And(v0[s] == tmp, pos(d0, s) < cursor.head), settings, v0[s])),
                                                                                       patterns=[v[s]]))]
        return out
    return [h]


def somewhere(h, most, name, **kw):
    return z3.Or([z3.And(i < h.len, h.is_(Iv(i), name, **kw)) for i in range(most)])


@contract('X09', 'ParserState::pushMedia', pre=media_pre, handlers=media_handlers, hints=media_hints, abort=no_abort(), strings=True, assumes=[TREE_PARSE_NOTE])
def pushmedia(k):
    st, elt = k.arg(0), k.arg(1)
    A = lambda n: attr(k, k.old, elt, n)
    lit = k.lit
    h = Hist(k)
    id = ident(k)
    (ht, type), (hr, refer), (hs, src) = [A(x) for x in ('type', 'refer', 'src')]
    clash = z3.And(hr, z3.Or(ht, hs))
    S = z3.And(z3.Not(hr), ht, z3.Or(type == lit('application/x-ginga-settings'), type == lit('application/x-ncl-settings')))
    plain = z3.And(z3.Not(hr), z3.Not(S))
    (d0, v0), (d1, v1) = [lst(v.f(REFERS, st)) for v in (k.old, k.new)]
    (n0, a0), (n1, a1) = stack(k, k.old), stack(k, k.new)
    doc = k.old.f('ParserState::_doc', st)
    settings = gfun(k.eng, 'settings', I, I)(doc)
    got = gfun(k.eng, 'object', I, strs(k.eng), I)(doc, refer)
    isM = z3.And(got > 0, z3.Or(k.isa(got, 'Media'), k.isa(got, 'MediaSettings')))
    m = a1[n1 - 1]
    top = peeked(k)
    i = k.sk('enclosing')
    new = lambda name: somewhere(h, 4, 'newMedia', o=m, s=name)
    absolute, uri = [gfun(k.eng, x, strs(k.eng), strs(k.eng)) for x in ('absolute', 'uri')]
    isuri = gfun(k.eng, 'is_uri', strs(k.eng), B)
    where = z3.If(z3.And(hs, src != lit('')), z3.If(isuri(absolute(src)), absolute(src), uri(absolute(src))), lit(''))
    s = k.sk('name', strs(k.eng))
    return [('it is refused exactly when what it shows is given twice', k.ret == z3.Not(clash)),
            ('a refusal is reported', z3.Implies(clash, z3.And(k.new.f(ERRKEYS[0], st) != 0, k.new.f(ERRKEYS[1], st) != lit('')))),
            ('a refused object is not created', z3.Implies(clash, z3.And(h.len == 0, n1 == n0))),
            ('what follows is inside it', z3.Implies(k.ret, z3.And(n1 == n0 + 1, z3.Implies(z3.And(0 <= i, i < n0), a1[i] == a0[i])))),
            ('a reference is the object that it names', z3.Implies(z3.And(k.ret, hr), z3.If(isM, m == got, z3.If(d0[refer], m == v0[refer], new(refer))))),
            ('which it may be referred to by', z3.Implies(z3.And(k.ret, hr), z3.And(somewhere(h, 4, 'alias', o=m, s=id, x=top), d1[id], z3.Implies(z3.Not(d0[id]), v1[id] == m)))),
            ('the settings are those of the document', z3.Implies(z3.And(k.ret, S), z3.And(m == settings))),
            ('the object is a child of the composition', z3.Implies(z3.And(k.ret, plain), somewhere(h, 4, 'child', o=top, x=m))),
            ('with the source that it names', z3.Implies(z3.And(k.ret, plain), somewhere(h, 4, 'property', o=m, s=lit('uri'), s2=where))),
            ('and its type', z3.Implies(z3.And(k.ret, plain), somewhere(h, 4, 'property', o=m, s=lit('type'), s2=z3.If(ht, type, lit(''))))),
            ('it is the object that stood for it, or a new one', z3.Implies(z3.And(k.ret, plain), z3.If(d0[id], m == v0[id], new(id)))),
            ('what referred to them before refers to them now', z3.Implies(z3.And(k.ret, S, d0[id], d0[s]), v1[s] == z3.If(v0[s] == v0[id], settings, v0[s]))),
            ('and can be referred to by its name', z3.Implies(z3.And(k.ret, S), z3.And(h.is_(h.len - 1, 'alias', o=m, s=id, x=top), d1[id], v1[id] == settings))),
            ('other references stay', z3.Implies(z3.And(d0[s], z3.Not(S)), z3.And(d1[s], v1[s] == v0[s]))),
            ('references are not forgotten', z3.Implies(d0[s], d1[s]))]


@contract('X07', 'ParserState::pushLink', pre=in_body((), cls='Context'), handlers=record_handlers, abort=no_abort(), assumes=[DATA_NOTE])
def pushlink(k):
    h = Hist(k)
    elt = k.arg(1)
    return [('it is accepted', k.ret), ('the link is of the context around it', somewhere(h, 3, 'attach', o=elt, s=k.lit('context'), e=peeked(k))),
            ('its binds are to be recorded with it', somewhere(h, 3, 'attach', o=elt, s=k.lit('binds'))),
            ('and so are its parameters', somewhere(h, 3, 'attach', o=elt, s=k.lit('params'))), ('and nothing else', h.len == 3)] + unchanged(k)


# ---------------------------------------------------------------- rules and assessments
from .documents import atom, connective


def atom_of(k, v, p):
    t, l, r = atom(k, v, p)
    return l, t, r


def pred_pre(*names, own=False):
    def pre(k):
        st, elt = k.arg(0), k.arg(1)
        k.assume(z3.And(st > 0, elt > 0, k.old.f('ParserElt::_node', elt) > 0))
        attrs_given(k, elt, *names)
        k.where = None
        p = gfun(k.eng, 'pred_of', I, I)
        up = parent_of(k.eng)(k.old.f('ParserElt::_node', elt))
        k.assume(up > 0)
        q = p(elt if own else up)
        k.assume(z3.And(q > 0, q < k.old.st.hwm, connective(k, k.old, q)))
    return pre


def pred_handlers(k):
    d = dict(err_handlers(k), **tables(k))
    d.update(attached(k))
    put = d['ParserElt::setData']

    def setd(eng, f, this, args):
        v = eng.load(args[1]) if not isinstance(args[1], PtrLV) else args[1]
        if isinstance(v, PtrLV) and v.lv is not None and v.lv.t == STR:
            eng.trace_append(eng.st, eng.mkcall('attach', o=this, s=term(eng, args[0]), s2=eng.read(eng.st, v.lv).e))
            return V(z3.BoolVal(True), BOOL)
        return put(eng, f, this, args)

    def get(eng, f, this, args):
        key = term(eng, args[0])
        out = args[1]
        for side in ('left', 'right'):
            if eng.lit(side).eq(key):
                ok = eng.choose(gfun(eng, 'has_' + side, I, B)(this))
                if ok and isinstance(out, PtrLV) and out.lv is not None:
                    t = gfun(eng, side + '_of', I, strs(eng))(this)
                    eng.write(eng.st, out.lv, PtrLV(LV(('local', eng.newlocal(eng.st, V(t, STR), 'side')), (), STR)))
                return eng.B(ok)
        if eng.lit('pred').eq(key):
            out_ptr(eng, out, gfun(eng, 'pred_of', I, I)(this), 'Predicate')
            return V(z3.BoolVal(True), BOOL)
        if eng.lit('conn-elt').eq(key):
            out_ptr(eng, out, gfun(eng, 'conn_of', I, I)(this), 'ParserElt')
            return V(z3.BoolVal(True), BOOL)
        if eng.lit('tests').eq(key):
            eng.obligation(eng.st, 'the data is that of the right element', this == gfun(eng, 'conn_of', I, I)(k.arg(0)))
            eng.write(eng.st, out.lv, PtrLV(k.tests))
            return V(z3.BoolVal(True), BOOL)
        raise Unsupported('user data %s' % key)

    def flag(eng, f, this, args):
        s = term(eng, args[0])
        ok = eng.choose(gfun(eng, 'is_bool', strs(eng), B)(s))
        if ok:
            eng.write(eng.st, args[1].lv, V(gfun(eng, 'bool_of', strs(eng), B)(s), BOOL))
        return eng.B(ok)
    d.update({'ParserState::setData': setd, 'ParserElt::setData': setd, 'ParserState::getData': get, 'ParserElt::getData': get, 'ParserState::eltCacheIndexParent': parent_handler,
              'parser_syntax_parse_bool': flag, 'delete': lambda e, v: None})
    return d


def operand_added(k, p, new):
    """the predicate around it gets one more operand"""
    n0, n1 = [v.len('Predicate::_children', p) for v in (k.old, k.new)]
    i = k.sk('operand')
    return z3.And(n1 == n0 + 1, k.new.at('Predicate::_children', p, n0) == new, z3.Implies(z3.And(0 <= i, i < n0), k.new.at('Predicate::_children', p, i) == k.old.at('Predicate::_children', p, i)))


def full(k, p):
    return z3.And(k.old.f('Predicate::_type', p) == k.enum('Predicate::NEGATION'), k.old.len('Predicate::_children', p) == 1)


def kept(k, q, but=None):
    """predicates that are already there stay as they are"""
    o = k.sk('predicate')
    old = z3.And(0 < o, o < k.old.st.hwm)
    same = z3.And([k.new.f(f, o) == k.old.f(f, o) for f in ('Predicate::_type', 'Predicate::_atom', 'Predicate::_parent')] +
                  [z3.Or(o == q, k.new.f('Predicate::_children', o) == k.old.f('Predicate::_children', o)) if but is None else
                   z3.Or(z3.And(o == q, but), k.new.f('Predicate::_children', o) == k.old.f('Predicate::_children', o))])
    return [('other predicates stay as they are', z3.Implies(old, same))]


def rule_pre(k):
    pred_pre()(k)
    elt = k.arg(1)
    tag = k.old.f('ParserElt::_tag', elt)
    r, c = [tag == k.lit(x) for x in ('rule', 'compositeRule')]
    k.assume(z3.Or(r, c))
    for t, n in ((r, 'var'), (r, 'comparator'), (r, 'value'), (c, 'operator')):
        k.assume(z3.Implies(t, attr(k, k.old, elt, n)[0]))


def refused(k, ok):
    st = k.arg(0)
    return [('it is accepted exactly when it is well formed', k.ret == ok),
            ('a refusal is reported', z3.Implies(z3.Not(k.ret), z3.And(k.new.f(ERRKEYS[0], st) != 0, k.new.f(ERRKEYS[1], st) != k.lit(''))))]


@contract('X08', 'ParserState::pushRule', pre=rule_pre, handlers=pred_handlers, strings=True, abort=no_abort(), assumes=[DATA_NOTE])
def pushrule(k):
    st, elt = k.arg(0), k.arg(1)
    A = lambda n: attr(k, k.old, elt, n)[1]
    up = parent_of(k.eng)(k.old.f('ParserElt::_node', elt))
    rule = k.old.f('ParserElt::_tag', elt) == k.lit('rule')
    top = k.old.f('ParserElt::_tag', up) == k.lit('ruleBase')
    (ck, cv), (ok, ov) = intab(k, 'comparator', A('comparator')), intab(k, 'connective', A('operator'))
    q = gfun(k.eng, 'pred_of', I, I)(up)
    good = z3.And(z3.If(rule, ck, ok), z3.Or(top, z3.Not(full(k, q))))
    h = Hist(k)
    p = h.get(Iv(0), 'e')
    left, test, right = atom_of(k, k.new, p)
    return refused(k, good) + [
        ('its predicate is recorded with it', z3.Implies(k.ret, z3.And(h.len == 1, h.is_(Iv(0), 'attach', o=elt, s=k.lit('pred')), p >= k.old.st.hwm))),
        ('a rule compares a variable with a value', z3.Implies(z3.And(k.ret, rule), z3.And(
            k.new.f('Predicate::_type', p) == k.enum('Predicate::ATOM'), left == joined(k, k.lit('$__settings__.'), A('var')),
            right == A('value')))),
        ('by the comparator it names', z3.Implies(z3.And(k.ret, rule), test == cv)),
        ('a composite rule has the connective it names', z3.Implies(z3.And(k.ret, z3.Not(rule)), z3.And(k.new.f('Predicate::_type', p) == ov, k.new.len('Predicate::_children', p) == 0))),
        ('a rule within another is an operand of it', z3.Implies(z3.And(k.ret, z3.Not(top)), operand_added(k, q, p))),
        ] + kept(k, q, z3.And(k.ret, z3.Not(top)))


@contract('X08', 'ParserState::pushCompoundStatement', pre=pred_pre('operator'), handlers=pred_handlers, abort=no_abort(), assumes=[DATA_NOTE])
def pushcompound(k):
    elt = k.arg(1)
    up = parent_of(k.eng)(k.old.f('ParserElt::_node', elt))
    q = gfun(k.eng, 'pred_of', I, I)(up)
    ok, ov = intab(k, 'connective', attr(k, k.old, elt, 'operator')[1])
    nd, ns = attr(k, k.old, elt, 'isNegated')
    isb, neg = gfun(k.eng, 'is_bool', strs(k.eng), B)(ns), z3.And(nd, gfun(k.eng, 'bool_of', strs(k.eng), B)(ns))
    h = Hist(k)
    p = h.get(Iv(0), 'e')
    n = k.new.at('Predicate::_children', q, k.old.len('Predicate::_children', q))
    T_ = lambda x: k.new.f('Predicate::_type', x)
    return refused(k, z3.And(ok, z3.Implies(nd, isb), z3.Not(full(k, q)))) + [
        ('its predicate is recorded with it', z3.Implies(k.ret, z3.And(h.len == 1, h.is_(Iv(0), 'attach', o=elt, s=k.lit('pred')), p >= k.old.st.hwm))),
        ('it has the connective it names and no operand yet', z3.Implies(k.ret, z3.And(T_(p) == ov, k.new.len('Predicate::_children', p) == 0))),
        ('it is an operand of the statement around it', z3.Implies(z3.And(k.ret, z3.Not(neg)), operand_added(k, q, p))),
        ('or its negation is', z3.Implies(z3.And(k.ret, neg), z3.And(operand_added(k, q, n), T_(n) == k.enum('Predicate::NEGATION'), n >= k.old.st.hwm, n != p,
                                                                     k.new.len('Predicate::_children', n) == 1, k.new.at('Predicate::_children', n, Iv(0)) == p))),
        ] + kept(k, q, k.ret)


@contract('X08', 'ParserState::popCompoundStatement', pre=pred_pre(own=True), handlers=pred_handlers, abort=no_abort(), assumes=[DATA_NOTE])
def popcompound(k):
    q = gfun(k.eng, 'pred_of', I, I)(k.arg(1))
    n = k.old.len('Predicate::_children', q)
    t = k.old.f('Predicate::_type', q)
    return refused(k, z3.If(t == k.enum('Predicate::NEGATION'), n != 0, n >= 2)) + unchanged(k, allow=ERRKEYS)


@contract('X08', 'ParserState::popAssessmentStatement', pre=pred_pre('comparator'), handlers=pred_handlers, abort=no_abort(), assumes=[DATA_NOTE])
def popassessment(k):
    elt = k.arg(1)
    up = parent_of(k.eng)(k.old.f('ParserElt::_node', elt))
    q = gfun(k.eng, 'pred_of', I, I)(up)
    ck, cv = intab(k, 'comparator', attr(k, k.old, elt, 'comparator')[1])
    hl, hr = [gfun(k.eng, 'has_' + s, I, B)(elt) for s in ('left', 'right')]
    p = k.new.at('Predicate::_children', q, k.old.len('Predicate::_children', q))
    left, test, right = atom_of(k, k.new, p)
    return refused(k, z3.And(ck, hl, hr, z3.Not(full(k, q)))) + [
        ('it is an operand of the statement around it', z3.Implies(k.ret, z3.And(operand_added(k, q, p), p >= k.old.st.hwm, k.new.f('Predicate::_type', p) == k.enum('Predicate::ATOM')))),
        ('it compares its first side with its second', z3.Implies(k.ret, z3.And(*[x == gfun(k.eng, s + '_of', I, strs(k.eng))(elt) for x, s in ((left, 'left'), (right, 'right'))]))),
        ('by the comparator it names', z3.Implies(k.ret, test == cv))] + kept(k, q, k.ret)


def assess_pre(k):
    pred_pre()(k)
    elt = k.arg(1)
    tag = k.old.f('ParserElt::_tag', elt)
    a, v = [tag == k.lit(x) for x in ('attributeAssessment', 'valueAssessment')]
    k.assume(z3.Or(a, v))
    k.assume(z3.Implies(a, attr(k, k.old, elt, 'role')[0]))
    k.assume(z3.Implies(v, attr(k, k.old, elt, 'value')[0]))
    T_ = k.eng.types.parse('set<string>')
    k.tests = LV(('local', k.eng.newlocal(k.old.st, k.eng.fresh_value(k.old.st, 'tests', T_), 'tests')), (), T_)
    k.assume(gfun(k.eng, 'conn_of', I, I)(k.arg(0)) > 0)


@contract('X08', 'ParserState::pushAttributeAssessment', pre=assess_pre, handlers=pred_handlers, strings=True, abort=no_abort(), assumes=[DATA_NOTE])
def pushassess(k):
    elt = k.arg(1)
    up = parent_of(k.eng)(k.old.f('ParserElt::_node', elt))
    hl, hr = [gfun(k.eng, 'has_' + s, I, B)(up) for s in ('left', 'right')]
    a = k.old.f('ParserElt::_tag', elt) == k.lit('attributeAssessment')
    role, value = [attr(k, k.old, elt, n)[1] for n in ('role', 'value')]
    h = Hist(k)
    t0, t1 = [cell(k, v, (None, k.tests)) for v in (k.old, k.new)]
    s = k.sk('other', strs(k.eng))
    return refused(k, z3.Not(z3.And(hl, hr))) + [
        ('the first side is given before the second', z3.Implies(k.ret, z3.And(h.len == 1, h.is_(Iv(0), 'attach', o=up, s=z3.If(hl, k.lit('right'), k.lit('left')))))),
        ('it is the property of the role or the value', z3.Implies(k.ret, h.get(Iv(0), 's2') == z3.If(a, joined(k, k.lit('$'), role), value))),
        ('the connector knows the roles that it tests', z3.Implies(a, t1[role])),
        ('and no other', z3.Implies(z3.Or(s != role, z3.Not(a)), t1[s] == t0[s]))] + unchanged(k, allow=ERRKEYS)


# ---------------------------------------------------------------- the other elements
def plain_handlers(k):
    d = record_handlers(k)

    def setattr_h(eng, f, this, args):
        eng.trace_append(eng.st, eng.mkcall('setattr', o=this, s=term(eng, args[0]), s2=term(eng, args[1])))
        return V(fresh('was_unset', B), BOOL)
    d['ParserElt::setAttribute'] = setattr_h
    return d


@contract('X10', 'ParserState::pushDescriptorParam', pre=record_pre(('name', 'value')), handlers=plain_handlers, abort=no_abort(), assumes=[DATA_NOTE])
def pushdescparam(k):
    elt = k.arg(1)
    h = Hist(k)
    up = parent_of(k.eng)(k.old.f('ParserElt::_node', elt))
    name, value = [attr(k, k.old, elt, x)[1] for x in ('name', 'value')]
    return [('it is accepted', k.ret), ('the descriptor has the parameter as an attribute', z3.And(h.len == 1, h.is_(Iv(0), 'setattr', o=up, s=name, s2=value)))] + unchanged(k)


@contract('X07', 'ParserState::pushCausalConnector', pre=record_pre(()), handlers=plain_handlers, abort=no_abort(), assumes=[DATA_NOTE])
def pushconnector(k):
    st, elt = k.arg(0), k.arg(1)
    h = Hist(k)
    return [('it is accepted', k.ret), ('the roles that follow are those of the connector', somewhere(h, 3, 'attach', o=st, s=k.lit('conn-elt'), e=elt)),
            ('its roles are to be recorded with it', somewhere(h, 3, 'attach', o=elt, s=k.lit('roles'))),
            ('and so are the roles that it tests', somewhere(h, 3, 'attach', o=elt, s=k.lit('tests'))), ('and nothing else', h.len == 3)] + unchanged(k)


@contract('X08', 'ParserState::pushCompoundCondition', pre=record_pre(()), handlers=plain_handlers, abort=no_abort(), assumes=[DATA_NOTE])
def pushcondition(k):
    elt = k.arg(1)
    h = Hist(k)
    p = h.get(Iv(0), 'e')
    return [('it is accepted', k.ret), ('its statements are to be recorded with it', z3.And(h.len == 1, h.is_(Iv(0), 'attach', o=elt, s=k.lit('pred')), p >= k.old.st.hwm)),
            ('all of them are to hold', z3.And(k.new.f('Predicate::_type', p) == k.enum('Predicate::CONJUNCTION'), k.new.len('Predicate::_children', p) == 0,
                                              k.new.f('Predicate::_parent', p) == 0))]


def reported(k):
    return [('a refusal is reported', z3.Implies(z3.Not(k.ret), z3.And(k.new.f(ERRKEYS[0], k.arg(0)) != 0, k.new.f(ERRKEYS[1], k.arg(0)) != k.lit(''))))]


def font_handlers(k):
    d = plain_handlers(k)
    text = lambda name: lambda eng, f, this, args: V(fresh(name, strs(eng)), STR)
    base = xmlfn(k)

    def ext(eng, name, vals, node):
        if name == 'FcConfigGetFonts':
            r = fresh('fonts', I)
            eng.st.assume(r >= 0, fact=True)
            k.fonts.append(r)
            # the calls before may have changed every set
            for q in ('nfont', 'fonts'):
                key = '_FcFontSet::' + q
                eng.st.heap[key] = fresh(q, eng.heap_sort(key))
            eng.st.assume(eng.sel(eng.st, '_FcFontSet::nfont', r) >= 0, fact=True)
            return V(r, eng.T(node))
        if name == 'g_filename_from_uri':
            return CStr(fresh(name, eng.types.STR), null=fresh(name + '_null', B))
        return base(eng, name, vals, node)
    def font(eng, a, i, t):
        sets = [o for o in k.fonts if z3.simplify(eng.sel(eng.st, '_FcFontSet::fonts', o)).eq(z3.simplify(a.e))]
        n = eng.sel(eng.st, '_FcFontSet::nfont', sets[-1]) if sets else Iv(0)
        eng.obligation(eng.st, 'only fonts of the set are looked at', z3.And(0 <= i, i < n))
        return V(fresh('font', I), t)
    k.fonts = []
    d['(index)'] = font
    d.update({'ParserState::getURI': text('base'), 'xmlBuildURIAsString': text('absolute'), 'xpathisuri': lambda e, f, t, a: V(fresh('is_uri', B), BOOL),
              'xpathmakeabs': text('path'), '(extern)': ext, '(indirect)': xmlfree})
    return d


@contract('X05', 'ParserState::pushFont', pre=record_pre(('fontFamily', 'src')), handlers=font_handlers, abort=no_abort(), assumes=['fontconfig functions return what they document'])
def pushfont(k):
    return reported(k)


def import_handlers(k):
    d = font_handlers(k)
    kids = lambda eng, f, this, args: eng.fresh_value(eng.st, 'children', T('list', eng.types.parse('_xmlNode *')))

    def peek(eng, f, this, args):
        ok = eng.choose(fresh('aliased', B))
        for a in args:
            if ok and isinstance(a, PtrLV) and a.lv is not None and (a.null is None or not eng.choose(a.null)):
                eng.write(eng.st, a.lv, V(fresh('text', strs(eng)), STR))
        return eng.B(ok)

    def push(eng, f, this, args):
        r = fresh('fresh_alias', B)
        eng.trace_append(eng.st, eng.mkcall('push', o=this, s=term(eng, args[0]), s2=term(eng, args[1]), r=r))
        return V(r, BOOL)

    def pop(eng, f, this, args):
        eng.trace_append(eng.st, eng.mkcall('pop', o=this))
        return V(z3.BoolVal(True), BOOL)

    def check(eng, f, this, args):
        r = fresh('syntax', I)
        eng.st.assume(r >= 0, fact=True)
        if not eng.choose(r > 0):
            set_error(eng, this)
        return V(r, T('ptr', T('class', 'ParserSyntaxElt')))

    def child(eng, f, this, args):
        ok = eng.choose(fresh('ok', B))
        if not ok:
            set_error(eng, this)
        eng.trace_append(eng.st, eng.mkcall('child', o=this, e=term(eng, args[0]), r=z3.BoolVal(ok)))
        return eng.B(ok)

    def xml(eng, name, vals, node):
        if name in ('xmlReadFile', 'xmlDocGetRootElement'):
            r = fresh(name, I)
            eng.st.assume(r >= 0 if name == 'xmlReadFile' else r > 0, fact=True)
            return V(r, eng.T(node))
        return d0(eng, name, vals, node)
    d0 = d['(extern)']
    text = lambda name: lambda eng, f, this, args: V(fresh(name, strs(eng)), STR)

    def first_text(eng, f, this, args):
        r = fresh('text', strs(eng))
        eng.st.assume(r != eng.lit(''), fact=True)
        return V(r, STR)
    d.update({'ParserState::aliasStackPeek': peek, 'ParserState::aliasStackPush': push, 'ParserState::aliasStackPop': pop, 'ParserState::checkNode': check,
              'ParserState::processNode': child, 'xmlFindAllChildren': kids, '(extern)': xml, 'xmlGetLastErrorAsString': first_text,
              'xpathisabs': lambda e, f, t, a: V(fresh('is_abs', B), BOOL)})
    for n in ('xpathbuild', 'xpathdirname', 'xpathfromuri', 'xurifromsrc'):
        d[n] = text(n)
    return d


def import_hints(k):
    def h(loop, head, cursor):
        if cursor is None or isinstance(cursor.head, bool) or cursor.head.sort() != I:
            return []
        return [('every base so far was accepted', z3.Implies(cursor.head > 0, l.head)) for l in loop.locs if z3.is_expr(l.head) and l.head.sort() == B and l.kind in ('u', 'v')]
    return [h]


@contract('X05', 'ParserState::pushImportBase', pre=record_pre(('alias', 'documentURI')), handlers=import_handlers, hints=import_hints, abort=no_abort(), assumes=['libxml2 documents have a root element'])
def pushimport(k):
    return reported(k)


@contract('X05', 'ParserState::pushNcl', pre=in_body((), cls='Context'), handlers=lambda k: dict(body_handlers(k), **{
    'Document::setData': lambda e, f, t, a: V(z3.BoolVal(True), BOOL), 'Document::getRoot': lambda e, f, t, a: (e.st.assume(z3.And(gfun(e, 'root', I, I)(t) > 0), fact=True), V(gfun(e, 'root', I, I)(t), T('ptr', T('class', 'Context'))))[1]}), abort=no_abort())
def pushncl(k):
    return [('it is accepted', k.ret)]

