"""Contracts of lib/Switch.cpp"""
from .common import *
from .contexts import STRUCTURE, STRUCT_NOTE, owner_of, enum_arg, event_enums, valid_set, valid_list
from .documents import holds

B = z3.BoolSort()


def h_pred(eng, f, this, args):
    """Document::evalPredicate (proved in P01 to change nothing): the evaluation is recorded"""
    p = term(eng, args[0])
    r = holds(eng, p)
    eng.trace_append(eng.st, eng.mkcall('pred', o=this, e=p, r=r))
    return V(r, BOOL)


def sw_handlers(k):
    return {'Document::evalPredicate': h_pred,
            'Event::transition': recorded('transition', lambda e, t, a: dict(o=t, e=t, n=a[0]), ret='bool',
                                          writes=['Event::transition'], keep=STRUCTURE | {'Switch::_selected'})}


def sw_pre(k):
    evt = k.arg(0)
    owner_of(k, evt)
    enum_arg(k, 1, 'Event::Transition')
    lam = k.old.arr('Object::_lambda')
    own = k.old.arr('Event::_object')
    S = valid_set(k, 'Composition::_children', k.this, also=lambda x: z3.And(lam[x] > 0, own[lam[x]] == x))
    k.assume(k.old.f('Event::_type', evt) == k.enum('Event::PRESENTATION'))
    n, i = k.old.len('Switch::_rules', k.this), z3.Int('i!ru')
    e = k.old.at('Switch::_rules', k.this, i)
    k.assume(n >= 0)
    k.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(pair(e, 0) > 0, pair(e, 1) > 0)), patterns=[e]))
    # an event of the switch other than its main one is one of its ports (they are made together: addSwitchPort)
    m = k.old.f('Switch::_switchPorts', k.this)
    dom = m.sort().accessor(0, 0)(m)
    k.assume(z3.Implies(evt != lam[k.this], dom[k.old.f('Event::_id', evt)]))
    lst = port(k, evt)
    L = lst.sort()
    a = L.accessor(0, 1)(lst)
    k.assume(z3.And(L.accessor(0, 0)(lst) >= 0))
    k.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L.accessor(0, 0)(lst)), a[i] > 0), patterns=[a[i]]))
    k.assume(k.old.f('Object::_doc', k.this) > 0)


def port(k, evt):
    m = k.old.f('Switch::_switchPorts', k.this)
    return m.sort().accessor(0, 1)(m)[k.old.f('Event::_id', evt)]


def candidate(k, e, w):
    """e can be started through what is being started (w: a position in the port's list)"""
    evt = k.arg(0)
    lam, own = k.old.arr('Object::_lambda'), k.old.arr('Event::_object')
    S = k.old.f('Composition::_children', k.this)
    lst = port(k, evt)
    L = lst.sort()
    main = evt == lam[k.this]
    return z3.If(main, z3.And(S[own[e]], lam[own[e]] == e), z3.And(0 <= w, w < L.accessor(0, 0)(lst), L.accessor(0, 1)(lst)[w] == e))


@contract('S01', 'Switch::beforeTransition', pre=lambda k: (sw_pre(k), k.assume(k.arg(1) == k.enum('Event::START'))), handlers=sw_handlers,
          name='Switch::beforeTransition(start)', assumes=[STRUCT_NOTE],
          abort=no_abort(lambda k: k.old.f('Switch::_selected', k.this) != 0))
def sw_start(k):
    evt, tr = k.arg(0), k.arg(1)
    h = Hist(k)
    n = k.old.len('Switch::_rules', k.this)
    rule = lambda i, j: pair(k.old.at('Switch::_rules', k.this, i), j)
    own = k.old.arr('Event::_object')
    last = h.len - 1
    T = z3.And(h.len >= 1, h.fn(last, 'transition'))
    M = z3.If(T, last, h.len)
    w, p = z3.Int('w!sw'), k.sk('p')
    x, e, i = z3.Int('x!sw'), k.sk('event'), k.sk('i')
    te = h.get(last, 'e')

    def reach(i_):
        return z3.Exists([x, w], z3.And(x != 0, own[x] == rule(i_, 0), candidate(k, x, w)))
    sel = k.new.f('Switch::_selected', k.this)
    return [
        ('a transition is requested at most once, last', z3.Implies(z3.And(0 <= p, p < M), h.fn(p, 'pred'))),
        ('conditions examined before it do not hold', z3.Implies(z3.And(0 <= p, p < z3.If(T, M - 1, M)), z3.Not(holds(k.eng, h.get(p, 'e'))))),
        ('the last examined one holds when something is started', z3.Implies(T, z3.And(M >= 1, holds(k.eng, h.get(M - 1, 'e'))))),
        ('it is started', z3.Implies(T, h.get(last, 'n') == tr)),
        ('what is started can be reached', z3.Implies(T, z3.Exists([w], candidate(k, te, w)))),
        ('the switch starts only when the component does', k.ret == z3.And(T, h.get(last, 'r') == 1)),
        ('the component is remembered', z3.Implies(k.ret, sel == own[te])),
        ('otherwise nothing is selected', z3.Implies(z3.Not(k.ret), sel == k.old.f('Switch::_selected', k.this))),
        examined(k, h, n, M, T, rule, own, last),
    ]


def examined(k, h, n, M, T, rule, own, last):
    """the conditions examined are those of the reachable rules, in order; and the component started is that of the last"""
    evt = k.arg(0)
    p, q, i, e, w = k.sk('p'), k.sk('q'), k.sk('i'), k.sk('event'), k.sk('w')
    can = z3.And(e != 0, own[e] == rule(i, 0), candidate(k, e, w))
    alts = []
    for nm, gs, gd, L0 in reversed(k.new.st.ghost.get('maps', ())):
        g = lambda x: z3.Select(gs, z3.simplify(L0 + x))
        d = lambda x: z3.Select(gd, x) - L0
        D = z3.If(T, M - 1, M)      # the last one is seen by the exit of the loop, not by its summary
        alts.append([
            z3.Implies(z3.And(0 <= p, p < D), z3.And(0 <= g(p), g(p) < n, h.get(p, 'e') == rule(g(p), 1))),
            z3.Implies(z3.And(0 <= p, p < q, q < D), g(p) < g(q)),
            z3.Implies(z3.And(z3.Not(T), 0 <= i, i < n, can), z3.And(0 <= d(i), d(i) < M, g(d(i)) == i)),
        ])
    alts.append([M == 0, z3.Implies(z3.And(0 <= i, i < n), z3.Not(can))])
    return ('the conditions of the reachable rules are examined in order', AnyOf(alts))


# ---------------------------------------------------------------- S01: building, finishing
@contract('S01', 'Switch::addRule', pre=lambda k: k.assume(k.old.len('Switch::_rules', k.this) >= 0),
          abort=no_abort(lambda k: k.arg(0) == 0, lambda k: k.arg(1) == 0))
def addRule(k):
    n0, n1 = (v.len('Switch::_rules', k.this) for v in (k.old, k.new))
    a0, a1 = (lambda i: k.old.at('Switch::_rules', k.this, i)), (lambda i: k.new.at('Switch::_rules', k.this, i))
    i = k.sk('i')
    return [('exactly one rule is added', n1 == n0 + 1),
            ('last, as given', z3.And(pair(a1(n0), 0) == k.arg(0), pair(a1(n0), 1) == k.arg(1))),
            ('the earlier rules keep their places', z3.Implies(z3.And(0 <= i, i < n0), z3.And(
                pair(a1(i), 0) == pair(a0(i), 0), pair(a1(i), 1) == pair(a0(i), 1))))] + \
        unchanged(k, only={'Switch::_rules': lambda x: x == k.this})


@contract(['S01', 'S02'], 'Switch::Switch')
def ctor(k):
    m = k.new.f('Switch::_switchPorts', k.this)
    dom = m.sort().accessor(0, 0)(m)
    return [('nothing is selected at first', k.new.f('Switch::_selected', k.this) == 0),
            ('no rules at first', k.new.len('Switch::_rules', k.this) == 0),
            ('no ports at first', z3.Not(dom[k.sk('id', dom.sort().domain())]))]


def after_handlers(k):
    return {'Object::doStart': recorded('doStart', lambda e, t, a: dict(o=t), writes=['Object::doStart'], keep=STRUCTURE | {'Switch::_selected'}, virtual=False),
            'Object::doStop': recorded('doStop', lambda e, t, a: dict(o=t), writes=['Object::doStop'], keep=STRUCTURE | {'Switch::_selected'}, virtual=False),
            'Document::evalAction': recorded('eval', lambda e, t, a: dict(o=t, e=a[0], n=a[1]), ret='int', writes=['Document::evalAction'],
                                             keep=STRUCTURE)}


def after_pre(k):
    owner_of(k, k.arg(0))
    enum_arg(k, 1, 'Event::Transition')
    k.assume(k.old.f('Event::_type', k.arg(0)) == k.enum('Event::PRESENTATION'))
    k.assume(k.old.f('Object::_doc', k.this) > 0)


@contract(['S01', 'S02', 'O05'], 'Switch::afterTransition', pre=after_pre, handlers=after_handlers, abort=no_abort(), assumes=[STRUCT_NOTE])
def sw_after(k):
    h = Hist(k)
    E = lambda n: k.enum('Event::' + n)
    tr = k.arg(1)
    start, stop = tr == E('START'), z3.Or(tr == E('STOP'), tr == E('ABORT'))
    none = k.old.f('Switch::_selected', k.this) == 0
    Z = Iv(0)
    return [('it is accepted', k.ret),
            ('the start bookkeeping is done once, first', z3.Implies(start, z3.And(h.len >= 1, h.is_(Z, 'doStart', o=k.this)))),
            ('a switch that runs nothing stops at once', z3.Implies(z3.And(start, none), z3.And(
                h.len == 2, h.is_(Iv(1), 'eval', e=k.arg(0), n=E('STOP'))))),
            ('otherwise nothing else is requested', z3.Implies(z3.And(start, z3.Not(none)), h.len == 1)),
            ('the stop bookkeeping is done once', z3.Implies(stop, z3.And(h.len == 1, h.is_(Z, 'doStop', o=k.this)))),
            ('pause and resume do nothing', z3.Implies(z3.Not(z3.Or(start, stop)), h.len == 0)),
            ('the selection is not changed by pause and resume', z3.Implies(z3.Not(z3.Or(start, stop)),
             k.new.f('Switch::_selected', k.this) == k.old.f('Switch::_selected', k.this)))]


# ---------------------------------------------------------------- S02
def fwd_pre(k):
    sw_pre(k)
    k.assume(z3.Or([k.arg(1) == k.enum('Event::' + t) for t in ('STOP', 'PAUSE', 'RESUME', 'ABORT')]))
    s = k.old.f('Switch::_selected', k.this)
    l = k.old.f('Object::_lambda', s)
    k.assume(z3.And(s >= 0, s < k.old.st.hwm, s != k.this))
    k.assume(z3.Implies(s > 0, z3.And(l > 0, l < k.old.st.hwm, k.old.f('Event::_object', l) == s)))


@contract('S02', 'Switch::beforeTransition', pre=fwd_pre, handlers=sw_handlers, name='Switch::beforeTransition(forward)',
          assumes=[STRUCT_NOTE, 'what the selected component does does not change the selection of the switch'], abort=no_abort())
def sw_forward(k):
    evt, tr = k.arg(0), k.arg(1)
    h = Hist(k)
    s0, s1 = (v.f('Switch::_selected', k.this) for v in (k.old, k.new))
    off = z3.Or(tr == k.enum('Event::STOP'), tr == k.enum('Event::ABORT'))
    x = k.sk('object')
    return [('it is accepted', k.ret),
            ('without selection nothing is requested', z3.Implies(s0 == 0, h.len == 0)),
            ('the same transition of the main event of the selected component, once', z3.Implies(s0 != 0, z3.And(
                h.len == 1, h.is_(Iv(0), 'transition', e=k.old.f('Object::_lambda', s0), n=tr)))),
            ('the selection survives pause and resume', z3.Implies(z3.Not(off), s1 == s0)),
            ('and is forgotten on stop and abort', z3.Implies(off, s1 == 0)),
            ('other switches keep theirs', z3.Implies(x != k.this, k.new.f('Switch::_selected', x) == k.old.f('Switch::_selected', x)))] + \
        [(n, z3.Implies(s0 == 0, g)) for n, g in unchanged(k, only={'Switch::_selected': lambda o: o == k.this})]


@contract('S02', 'Switch::addSwitchPort', abort=no_abort())
def addSwitchPort(k):
    m0, m1 = (v.f('Switch::_switchPorts', k.this) for v in (k.old, k.new))
    S = m0.sort()
    D, A = S.accessor(0, 0), S.accessor(0, 1)
    i = k.arg(0)
    j = k.sk('id', i.sort())
    lst, got = k.arg(1), A(m1)[i]
    L = got.sort()
    w = k.sk('w')
    x = k.sk('event')
    ev = k.new.f('Object::_events', k.this)
    n = lambda f: k.new.f('Event::' + f, x)
    x_ = z3.Int('x!sp')
    return [('the port is there', D(m1)[i]),
            ('it maps as many events as given', L.accessor(0, 0)(got) == L.accessor(0, 0)(lst)),
            ('exactly those given, in order', z3.Implies(z3.And(0 <= w, w < L.accessor(0, 0)(lst)), L.accessor(0, 1)(got)[w] == L.accessor(0, 1)(lst)[w])),
            ('no other port changes', z3.Implies(j != i, z3.And(D(m1)[j] == D(m0)[j], z3.Implies(D(m0)[j], A(m1)[j] == A(m0)[j])))),
            ('the port is an event of the switch', z3.Exists([x_], z3.And(ev[x_], k.new.f('Event::_type', x_) == k.enum('Event::PRESENTATION'),
                                                                        k.new.f('Event::_id', x_) == i)))]


for _q in ('getRules', 'getSwitchPorts'):
    @contract('S01' if _q == 'getRules' else 'S02', 'Switch::' + _q, abort=no_abort())
    def _g(k):
        return [('changes nothing', z3.And([z3.BoolVal(True)] + [g for _, g in unchanged(k)]))]
