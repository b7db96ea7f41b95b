"""Contracts of lib/Object.cpp"""
from .common import *

U64MAX = 2**64 - 1


def state(v, e):
    return v.f('Event::_state', e)


def lam(k):
    return k.old.f('Object::_lambda', k.this)


def has_lambda(k):
    k.assume(z3.And(lam(k) != 0, k.old.f('Event::_object', lam(k)) == k.this))


# ---------------------------------------------------------------- O01
def _lookup(qname, match, name=None, **kw):
    @contract('O01', qname, name=name or qname, **kw)
    def post(k):
        S = k.old.f('Object::_events', k.this)
        x = k.sk('event')
        return [('what is returned is an event of the object that matches', z3.Implies(k.ret != 0, z3.And(S[k.ret], match(k, k.ret)))),
                ('nothing is returned only when none matches', z3.Implies(z3.And(k.ret == 0, S[x]), z3.Not(match(k, x)))),
                ('looking up changes nothing', z3.And(k.new.arr('Object::_events') == k.old.arr('Object::_events'),
                                                      k.new.arr('Event::_state') == k.old.arr('Event::_state')))]


def _valid(k, S, x):
    """members of an event set are events"""
    return S[x]


def _nonnull_events(k):
    S = k.old.f('Object::_events', k.this)
    x = z3.Int('x!ev')
    k.assume(z3.ForAll([x], z3.Implies(S[x], z3.And(x > 0, x < k.old.st.hwm)), patterns=[S[x]]))


_is = lambda typ, i: (lambda k, e: z3.And(k.old.f('Event::_type', e) == (k.enum('Event::' + typ) if typ else k.arg(0)),
                                          k.old.f('Event::_id', e) == k.arg(i)))
_lookup('Object::getEvent', _is(None, 1), pre=_nonnull_events)
_lookup('Object::getAttributionEvent', _is('ATTRIBUTION', 0), pre=_nonnull_events)
_lookup('Object::getPresentationEvent', _is('PRESENTATION', 0), pre=_nonnull_events)
_lookup('Object::getSelectionEvent', _is('SELECTION', 0), pre=_nonnull_events)
_lookup('Object::getLookAtEvent', _is('LOOKAT', 0), pre=_nonnull_events)
_lookup('Object::getPresentationEventByLabel',
        lambda k, e: z3.And(k.old.f('Event::_type', e) == k.enum('Event::PRESENTATION'),
                            k.old.f('Event::_label', e) == k.arg(0)), pre=_nonnull_events)


def _adder(qname, typ, extra=None, name=None, **kw):
    @contract('O01', qname, name=name or qname, pre=_nonnull_events, **kw)
    def post(k):
        S0, S1 = k.old.f('Object::_events', k.this), k.new.f('Object::_events', k.this)
        T, i = k.enum('Event::' + typ), k.arg(0)
        x, y, o = k.sk('event'), k.sk('other'), k.sk('object')
        m0 = lambda e: z3.And(k.old.f('Event::_type', e) == T, k.old.f('Event::_id', e) == i)
        added = z3.And(S1[x], z3.Not(S0[x]))
        had = z3.And(S0[y], m0(y))
        n = lambda f, e=x: k.new.f('Event::' + f, e)
        g = [
            ('existing events are kept', z3.Implies(S0[x], S1[x])),
            ('nothing is added when there is one already', z3.Implies(z3.And(had, S1[x]), S0[x])),
            ('what is added has the type and id asked for and belongs to the object',
             z3.Implies(added, z3.And(n('_type') == T, n('_id') == i, n('_object') == k.this))),
            ('what is added is a new event', z3.Implies(added, x >= k.old.st.hwm)),
            ('what is added is sleeping', z3.Implies(added, n('_state') == k.enum('Event::SLEEPING'))),
            ('at most one event is added', z3.Implies(z3.And(added, S1[y], z3.Not(S0[y])), x == y)),
            ('existing events do not change', z3.Implies(x < k.old.st.hwm, z3.And(
                [k.new.f('Event::' + f, x) == k.old.f('Event::' + f, x) for f in
                 ('_type', '_id', '_state', '_begin', '_end', '_label', '_object')]))),
            ('other objects are not affected', z3.Implies(o != k.this, k.new.f('Object::_events', o) == k.old.f('Object::_events', o))),
        ]
        # some event matches afterwards: either one did, or the set grew by one
        E = k.eng.enumth
        g.append(('afterwards there is one', z3.Or(z3.Exists([x], z3.And(S0[x], m0(x))), z3.Exists([x], z3.And(
            S1[x], n('_type', x) == T, n('_id', x) == i)))))
        if extra:
            g += extra(k, x, added)
        return g


_adder('Object::addAttributionEvent', 'ATTRIBUTION')
_adder('Object::addSelectionEvent', 'SELECTION')
_adder('Object::addLookAtEvent', 'LOOKAT')
_adder('Object::addPresentationEvent', 'PRESENTATION', nparams=3, name='Object::addPresentationEvent(interval)',
       extra=lambda k, x, added: [('the interval is the one given', z3.Implies(added, z3.And(
           k.new.f('Event::_begin', x) == k.arg(1), k.new.f('Event::_end', x) == k.arg(2))))])
_adder('Object::addPresentationEvent', 'PRESENTATION', nparams=2, name='Object::addPresentationEvent(label)',
       extra=lambda k, x, added: [('the label is the one given', z3.Implies(added, k.new.f('Event::_label', x) == k.arg(1)))])


@contract(['O01', 'O03'], 'Object::Object')
def ctor(k):
    S = k.new.f('Object::_events', k.this)
    l = k.new.f('Object::_lambda', k.this)
    n = lambda f: k.new.f('Event::' + f, l)
    x = k.sk('event')
    return [('has its main presentation event', z3.And(l != 0, S[l], n('_type') == k.enum('Event::PRESENTATION'),
                                                       n('_id') == k.lit('@lambda'), n('_object') == k.this)),
            ('which is sleeping', n('_state') == k.enum('Event::SLEEPING')),
            ('and unbounded', z3.And(n('_begin') == 0, n('_end') == U64MAX)),
            ('and is the only event', z3.Implies(S[x], x == l)),
            ('the id is stored', k.new.f('Object::_id', k.this) == k.arg(0)),
            ('time is undefined', k.new.f('Object::_time', k.this) == U64MAX),
            ('nothing pending', k.new.len('Object::_delayed', k.this) == 0)]


@contract('O01', 'Object::getLambda', pre=has_lambda)
def getLambda(k):
    return [('the main event', k.ret == lam(k))]


for _q, _s in (('isOccurring', 'OCCURRING'), ('isPaused', 'PAUSED'), ('isSleeping', 'SLEEPING')):
    def _mk(q, s):
        @contract(['O03'], 'Object::' + q, pre=has_lambda)
        def post(k):
            return [('tells the state of the main event', k.ret == (state(k.old, lam(k)) == k.enum('Event::' + s)))]
    _mk(_q, _s)


# ---------------------------------------------------------------- O02
@contract('O02', 'Object::getProperty')
def getProperty(k):
    d, v = k.old.mapdom('Object::_properties', k.this), k.old.mapval('Object::_properties', k.this)
    n = k.arg(0)
    return [('the stored value', z3.Implies(d[n], k.ret == v[n])),
            ('empty when never set', z3.Implies(z3.Not(d[n]), k.ret == k.lit(''))),
            ('reading changes nothing', k.new.arr('Object::_properties') == k.old.arr('Object::_properties'))]


@contract('O02', 'Object::setProperty')
def setProperty(k):
    dv = lambda v, o: (v.mapdom('Object::_properties', o), v.mapval('Object::_properties', o))
    (d0, v0), (d1, v1) = dv(k.old, k.this), dv(k.new, k.this)
    n, m, o = k.arg(0), k.sk('name', k.arg(0).sort()), k.sk('object')
    return [('stored', z3.And(d1[n], v1[n] == k.arg(1))),
            ('no other property changes', z3.Implies(m != n, z3.And(d1[m] == d0[m], z3.Implies(d0[m], v1[m] == v0[m])))),
            ('no other object changes', z3.Implies(o != k.this, k.new.f('Object::_properties', o) == k.old.f('Object::_properties', o)))]


@contract('O02', 'Object::hasAlias')
def hasAlias(k):
    n = k.old.len('Object::_aliases', k.this)
    at = lambda i: pair(k.old.at('Object::_aliases', k.this, i), 0)
    x, w = k.sk('i'), z3.Int('w')
    return [('an alias that was added is found', z3.Implies(z3.And(0 <= x, x < n, at(x) == k.arg(0)), k.ret)),
            ('only an alias that was added is found', z3.Implies(k.ret, z3.Exists([w], z3.And(0 <= w, w < n, at(w) == k.arg(0))))),
            ('looking up changes nothing', k.new.arr('Object::_aliases') == k.old.arr('Object::_aliases'))]


@contract('O02', 'Object::addAlias')
def addAlias(k):
    n0, n1 = k.old.len('Object::_aliases', k.this), k.new.len('Object::_aliases', k.this)
    a0 = lambda i: k.old.at('Object::_aliases', k.this, i)
    a1 = lambda i: k.new.at('Object::_aliases', k.this, i)
    isit = lambda e: z3.And(pair(e, 0) == k.arg(0), pair(e, 1) == k.arg(1))
    x, o = k.sk('i'), k.sk('object')
    there = z3.And(0 <= x, x < n0, isit(a0(x)))
    return [('adding it again has no effect', z3.Implies(there, n1 == n0)),
            ('the earlier ones are kept', z3.Implies(z3.And(0 <= x, x < n0), a1(x) == a0(x))),
            ('at most one is added', z3.And(n1 >= n0, n1 <= n0 + 1)),
            ('what is added is the one given', z3.Implies(n1 == n0 + 1, isit(a1(n0)))),
            ('it is there afterwards', z3.Or(n1 == n0 + 1, z3.Exists([x], there))),
            ('other objects are not affected', z3.Implies(o != k.this, k.new.f('Object::_aliases', o) == k.old.f('Object::_aliases', o)))]


# ---------------------------------------------------------------- O03 O04
def act(k, a, f):
    return pod(k, a, 'Action', f)


def eval_rec(eng, this, a):
    """evalAction (Action) and evalAction (event, transition, value)"""
    class _K:
        pass
    kk = _K()
    kk.eng = eng
    if len(a) == 1:
        g = lambda f: pod(kk, a[0], 'Action', f)
        return dict(o=this, e=g('event'), n=g('transition'), s=g('value'), s2=g('duration'))
    return dict(o=this, e=a[0], n=a[1], s=a[2] if len(a) > 2 else eng.lit(''))


def ticking(k):
    """interface contract of evalAction, seen from a tick: it may do anything, except that it does not take away or
    reorder the pending actions of a still occurring object: it appends (with a defined due time)"""
    def extra(eng, this, a):
        return {}

    def h(eng, f, this, args):
        old = eng.sel(eng.st, 'Object::_delayed', k.this)
        st0 = state_of(eng, k)
        inner = recorded('eval', lambda e, t, a: dict(eval_rec(e, t, a), m=st0), ret='int', writes=['Document::evalAction'])
        r = inner(eng, f, this, args)
        new = eng.sel(eng.st, 'Object::_delayed', k.this)
        S = new.sort()
        ln, ar = S.accessor(0, 0), S.accessor(0, 1)
        j = z3.Int('j!app')
        eng.st.assume(ln(new) >= 0, fact=True)
        eng.st.assume(z3.Implies(state_of(eng, k) == k.enum('Event::OCCURRING'), z3.And(
            ln(new) >= ln(old),
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(old)), ar(new)[j] == ar(old)[j]), patterns=[ar(new)[j]]),
            z3.ForAll([j], z3.Implies(z3.And(ln(old) <= j, j < ln(new)), pair(ar(new)[j], 1) != U64MAX), patterns=[ar(new)[j]]))))
        return r
    h.virtual = True
    return {'Document::evalAction': h}


def state_of(eng, k):
    return eng.sel(eng.st, 'Event::_state', eng.sel(eng.st, 'Object::_lambda', k.this))


def tick_hints(k):
    def h(loop, head, cursor):
        out = []
        for l in loop.locs:
            if l.key == 'Object::_delayed' and l.kind == 'heap':
                N, O = z3.Select(l.head, k.this), z3.Select(l.init, k.this)
                S = N.sort()
                ln, ar = S.accessor(0, 0), S.accessor(0, 1)
                j = z3.Int('j!app')
                out.append(('pending kept', z3.And(ln(N) >= ln(O), z3.ForAll([j], z3.Implies(
                    z3.And(0 <= j, j < ln(O)), ar(N)[j] == ar(O)[j]), patterns=[ar(N)[j]]))))
                out.append(('appended have due times', z3.ForAll([j], z3.Implies(
                    z3.And(ln(O) <= j, j < ln(N)), pair(ar(N)[j], 1) != U64MAX), patterns=[ar(N)[j]])))
                lamb = k.eng.sel(head, 'Object::_lambda', k.this)
        for l in loop.locs:
            if l.kind in ('heap', 'cell') and l.key == 'Event::_state':
                e = k.eng.sel(head, 'Object::_lambda', k.this)
                out.append(('still occurring', k.eng.sel(head, 'Event::_state', e) == k.enum('Event::OCCURRING')))
            if l.kind == 'trace':
                p = z3.Int('p!tr')
                T = k.eng.Trace
                out.append(('occurring at each call', z3.ForAll([p], z3.Implies(
                    z3.And(p >= T.len(l.init), p < T.len(l.head)),
                    cget(k, T.a(l.head)[p], 'm') == k.enum('Event::OCCURRING')), patterns=[T.a(l.head)[p]])))
        return out
    return [h]


def tick_pre(k):
    has_lambda(k)
    # a running object has a defined time, and playback times stay below 2**63 ns (292 years)
    t = k.old.f('Object::_time', k.this)
    k.assume(z3.Implies(state(k.old, lam(k)) == k.enum('Event::OCCURRING'), t != U64MAX))
    k.assume(z3.And(k.arg(1) < 2**62, z3.Implies(t != U64MAX, t < 2**62)))
    i = z3.Int('i!d')
    # pending actions have a defined due time
    k.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k.old.len('Object::_delayed', k.this)),
                                       z3.And(pair(k.old.at('Object::_delayed', k.this, i), 1) != U64MAX,
                                              pair(k.old.at('Object::_delayed', k.this, i), 1) >= 0)),
                       patterns=[k.old.at('Object::_delayed', k.this, i)]))


@contract(['O03', 'O04'], 'Object::sendTick', pre=tick_pre, handlers=ticking, hints=tick_hints,
          assumes=['Document::evalAction does not remove or reorder pending actions of an object that is still occurring'])
def sendTick(k):
    occ = state(k.old, lam(k)) == k.enum('Event::OCCURRING')
    t0, diff = k.old.f('Object::_time', k.this), k.arg(1)
    T = t0 + diff
    h = Hist(k)
    n = k.old.len('Object::_delayed', k.this)
    D = lambda i: k.old.at('Object::_delayed', k.this, i)
    due = lambda i: pair(D(i), 1) <= T
    x, p = k.sk('object'), k.sk('p')
    stopped = state(k.new, lam(k)) != k.enum('Event::OCCURRING')
    nn = k.new.len('Object::_delayed', k.this)
    N = lambda i: k.new.at('Object::_delayed', k.this, i)
    a = lambda i, f: act(k, pair(D(i), 0), f)
    match = lambda p_, i: h.is_(p_, 'eval', e=a(i, 'event'), n=a(i, 'transition'), s=a(i, 'value'), s2=a(i, 'duration'))
    return [
        ('an object that is not occurring is not affected', z3.Implies(z3.Not(occ), z3.And(
            h.len == 0, k.new.arr('Object::_time') == k.old.arr('Object::_time'),
            k.new.arr('Object::_delayed') == k.old.arr('Object::_delayed'),
            k.new.arr('Event::_state') == k.old.arr('Event::_state')))),
        ('without due actions exactly the elapsed time is added', z3.Implies(z3.And(occ, h.len == 0), z3.And(
            k.new.f('Object::_time', k.this) == T,
            z3.Implies(x != k.this, k.new.f('Object::_time', x) == k.old.f('Object::_time', x))))),
        maybe(k, occ, selection(k, n, due, h.len, match, upto=stopped, name='fires exactly the due actions, in order')),
        ('fires only while occurring', z3.Implies(z3.And(occ, 0 <= p, p < h.len), h.get(p, 'm') == k.enum('Event::OCCURRING'))),
        maybe(k, z3.And(occ, z3.Not(stopped)), selection(
            k, n, lambda i: z3.Not(due(i)), nn, lambda p_, i: N(p_) == D(i), more=True,
            name='keeps the actions that are not due, in order')),
    ]


@contract('O03', 'Object::sendTick', name='Object::sendTick(clock)', pre=tick_pre, hints=tick_hints,
          handlers=lambda k: {'Document::evalAction': recorded('eval', eval_rec, ret='int')})
def sendTick_clock(k):
    """the actions fired are followed through their own contracts; here they are taken to leave clocks alone"""
    occ = state(k.old, lam(k)) == k.enum('Event::OCCURRING')
    t0, diff = k.old.f('Object::_time', k.this), k.arg(1)
    x = k.sk('object')
    return [('the clock advances by exactly the elapsed time', z3.Implies(occ, k.new.f('Object::_time', k.this) == t0 + diff)),
            ('no other clock changes', z3.Implies(x != k.this, k.new.f('Object::_time', x) == k.old.f('Object::_time', x))),
            ('a sleeping or paused object keeps its clock', z3.Implies(z3.Not(occ), k.new.f('Object::_time', k.this) == t0))]


@contract('O04', 'Object::addDelayedAction', pre=lambda k: k.assume(z3.And(
    k.old.f('Object::_time', k.this) + k.arg(3) <= U64MAX, k.arg(3) >= 0)))
def addDelayedAction(k):
    n0, n1 = k.old.len('Object::_delayed', k.this), k.new.len('Object::_delayed', k.this)
    a0 = lambda i: k.old.at('Object::_delayed', k.this, i)
    a1 = lambda i: k.new.at('Object::_delayed', k.this, i)
    x, o = k.sk('i'), k.sk('object')
    A = lambda f: act(k, pair(a1(n0), 0), f)
    return [('exactly one action is added', n1 == n0 + 1),
            ('earlier requests keep their places', z3.Implies(z3.And(0 <= x, x < n0), a1(x) == a0(x))),
            ('it is the action requested', z3.And(A('event') == k.arg(0), A('transition') == k.arg(1), A('value') == k.arg(2))),
            ('due after the given delay', pair(a1(n0), 1) == k.old.f('Object::_time', k.this) + k.arg(3)),
            ('other objects are not affected', z3.Implies(o != k.this, k.new.f('Object::_delayed', o) == k.old.f('Object::_delayed', o)))]


# ---------------------------------------------------------------- O05
FOCUS = {'MediaSettings::scheduleFocusUpdate': recorded('focus', lambda e, t, a: dict(o=t, s=a[0]),
                                                        writes=['MediaSettings::scheduleFocusUpdate'])}


def life_pre(k):
    has_lambda(k)
    par = k.old.f('Object::_parent', k.this)
    # counters stay within int
    x = z3.Int('x!c')
    aw = k.old.arr('Context::_awakeChildren')
    k.assume(z3.ForAll([x], z3.And(aw[x] > -2**31, aw[x] < 2**31 - 1), patterns=[aw[x]]))


def parent_ctx(k):
    par = k.old.f('Object::_parent', k.this)
    return par, z3.And(par != 0, k.isa(par, 'Context'))


@contract(['O03', 'O05'], 'Object::doStart', pre=life_pre, handlers=FOCUS)
def doStart(k):
    par, isctx = parent_ctx(k)
    x = k.sk('object')
    aw0, aw1 = k.old.arr('Context::_awakeChildren'), k.new.arr('Context::_awakeChildren')
    h = Hist(k)
    fi = k.lit('focusIndex')
    d, v = k.old.mapdom('Object::_properties', k.this), k.old.mapval('Object::_properties', k.this)
    return [('time is zero', k.new.f('Object::_time', k.this) == 0),
            ('no other time changes', z3.Implies(x != k.this, k.new.f('Object::_time', x) == k.old.f('Object::_time', x))),
            ('the enclosing context counts one more', z3.Implies(isctx, aw1[par] == aw0[par] + 1)),
            ('no other count changes', z3.Implies(z3.Or(x != par, z3.Not(isctx)), aw1[x] == aw0[x])),
            ('a focus update is requested exactly for an object with focusIndex', z3.If(
                z3.And(d[fi], v[fi] != k.lit('')), z3.And(h.len == 1, h.is_(Iv(0), 'focus', s=k.lit(''))), h.len == 0))]


@contract(['O03', 'O04', 'O05'], 'Object::doStop', pre=lambda k: (life_pre(k), _nonnull_events(k)))
def doStop(k):
    par, isctx = parent_ctx(k)
    x = k.sk('object')
    S = k.old.f('Object::_events', k.this)
    aw0, aw1 = k.old.arr('Context::_awakeChildren'), k.new.arr('Context::_awakeChildren')
    return [('time is undefined', k.new.f('Object::_time', k.this) == U64MAX),
            ('no other time changes', z3.Implies(x != k.this, k.new.f('Object::_time', x) == k.old.f('Object::_time', x))),
            ('every event of the object sleeps', z3.Implies(S[x], state(k.new, x) == k.enum('Event::SLEEPING'))),
            ('no other event changes', z3.Implies(z3.Not(S[x]), state(k.new, x) == state(k.old, x))),
            ('pending actions are discarded', k.new.len('Object::_delayed', k.this) == 0),
            ('pending actions of others are kept', z3.Implies(x != k.this, k.new.f('Object::_delayed', x) == k.old.f('Object::_delayed', x))),
            ('the enclosing context counts one less', z3.Implies(isctx, aw1[par] == aw0[par] - 1)),
            ('no other count changes', z3.Implies(z3.Or(x != par, z3.Not(isctx)), aw1[x] == aw0[x]))]


for _q, _d in (('incAwakeChildren', 1), ('decAwakeChildren', -1)):
    def _mk2(q, d):
        @contract('O05', 'Context::' + q, pre=lambda k: k.assume(z3.And(
            k.old.f('Context::_awakeChildren', k.this) > -2**31, k.old.f('Context::_awakeChildren', k.this) < 2**31 - 1)))
        def post(k):
            x = k.sk('context')
            a0, a1 = k.old.arr('Context::_awakeChildren'), k.new.arr('Context::_awakeChildren')
            return [('changes the count by one', a1[k.this] == a0[k.this] + d),
                    ('no other count changes', z3.Implies(x != k.this, a1[x] == a0[x]))]
    _mk2(_q, _d)
