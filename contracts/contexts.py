"""Contracts of lib/Context.cpp and of attribution in lib/Media.cpp"""
from .common import *
from .documents import resolves, refvalue

B = z3.BoolSort()
#: fields that say how objects are put together: running a document does not change them
STRUCTURE = {'Object::_id', 'Object::_doc', 'Object::_parent', 'Object::_lambda', 'Object::_events', 'Object::_aliases',
             'Composition::_children', 'Context::_ports', 'Context::_links', 'Event::_type', 'Event::_id', 'Event::_object',
             'Event::_label', 'Event::_begin', 'Event::_end', 'Switch::_rules', 'Switch::_switchPorts',
             'Document::_objects', 'Document::_objectsById', 'Document::_root', 'Document::_settings', 'Document::_medias',
             'Document::_mediasRemote', 'Document::_contexts', 'Document::_switches'}
STRUCT_NOTE = 'running transitions does not change how objects are put together (children, ports, links, rules, labels, ids)'


def owner_of(k, evt):
    """the event belongs to this object, and the object's main event is its own"""
    lam = k.old.f('Object::_lambda', k.this)
    E = k.enum
    t, i = k.old.f('Event::_type', evt), k.old.f('Event::_id', evt)
    k.assume(z3.And(evt > 0, evt < k.old.st.hwm, k.old.f('Event::_object', evt) == k.this,
                    lam > 0, lam < k.old.st.hwm, k.old.f('Event::_object', lam) == k.this,
                    k.old.f('Event::_type', lam) == E('Event::PRESENTATION'), k.old.f('Event::_id', lam) == k.lit('@lambda')))
    # a main presentation event of an object is the one it was made with (ids are unique per type: O01)
    k.assume(z3.Implies(z3.And(t == E('Event::PRESENTATION'), i == k.lit('@lambda')), evt == lam))


def enum_arg(k, i, name):
    vals = [v for en, vs in k.eng.prog.enums.items() if en.endswith(name) for v in vs.values()]
    k.assume(z3.Or([k.arg(i) == v for v in vals]))


def event_enums(k):
    x = z3.Int('x!et')
    for f, en in (('Event::_type', 'Event::Type'), ('Event::_state', 'Event::State')):
        a = k.old.arr(f)
        vals = [v for e, vs in k.eng.prog.enums.items() if e.endswith(en) for v in vs.values()]
        k.assume(z3.ForAll([x], z3.Or([a[x] == v for v in vals]), patterns=[a[x]]))


def child_transition(k):
    """Event::transition on a child: followed no further; anything dynamic may change"""
    def rec(eng, this, a):
        return dict(o=this, e=this, n=a[0], m=eng.sel(eng.st, 'Event::_state', k.arg(0)))
    return {'Event::transition': recorded('transition', rec, ret='bool', writes=['Event::transition'], keep=STRUCTURE)}


def lam_of(k, o):
    return k.old.f('Object::_lambda', o)


# ---------------------------------------------------------------- C02
def c02_pre(k):
    owner_of(k, k.arg(0))
    enum_arg(k, 1, 'Event::Transition')
    event_enums(k)
    valid_set(k, 'Composition::_children', k.this, also=lambda x: k.old.f('Object::_lambda', x) > 0)


@contract('C02', 'Context::beforeTransition', pre=c02_pre, handlers=child_transition, assumes=[STRUCT_NOTE],
          abort=no_abort(lambda k: z3.And(k.old.f('Event::_type', k.arg(0)) == k.enum('Event::PRESENTATION'),
                                          k.old.f('Event::_id', k.arg(0)) != k.lit('@lambda')),
                         lambda k: k.old.f('Event::_type', k.arg(0)) == k.enum('Event::LOOKAT')))
def ctx_before(k):
    evt, tr = k.arg(0), k.arg(1)
    E = lambda n: k.enum('Event::' + n)
    t = k.old.f('Event::_type', evt)
    main = t == E('PRESENTATION')
    fwd = z3.And(main, z3.Or([tr == E(x) for x in ('STOP', 'PAUSE', 'RESUME', 'ABORT')]))
    S = k.old.f('Composition::_children', k.this)
    h = Hist(k)
    c, p, q = k.sk('child'), k.sk('p'), k.sk('q')
    at, n = k.instance(S, c)
    st = k.old.f('Event::_state', evt)
    w = z3.Int('w!p')
    lam = lambda o: k.old.f('Object::_lambda', o)
    return [('selection is always refused', z3.Implies(t == E('SELECTION'), z3.Not(k.ret))),
            ('nothing else is refused', z3.Implies(t != E('SELECTION'), k.ret)),
            ('nothing is requested when the context starts, is selected or attributed', z3.Implies(z3.Not(fwd), h.len == 0)),
            ('one request per child', z3.Implies(fwd, h.len == n)),
            ('each request is the same transition', z3.Implies(z3.And(fwd, 0 <= p, p < h.len), h.is_(p, 'transition', n=tr))),
            ('of the main event', z3.Implies(z3.And(fwd, 0 <= p, p < h.len), h.get(p, 'e') == lam(k.eng.enumth.at(k.eng, S, p)))),
            ('of a child', z3.Implies(z3.And(fwd, 0 <= p, p < h.len), S[k.eng.enumth.at(k.eng, S, p)])),
            ('every child is asked', z3.Implies(z3.And(fwd, S[c]), h.is_(k.eng.enumth.pos(k.eng, S, c), 'transition', n=tr, e=lam(c)))),
            ('nothing changes when there is nothing to ask', z3.Implies(z3.Not(fwd), k.new.arr('Event::_state') == k.old.arr('Event::_state')))] + \
        [(a, z3.Implies(z3.Not(fwd), g)) for a, g in unchanged(k)]


# ---------------------------------------------------------------- C03
def tick_rec(eng, this, a):
    return dict(o=this, d=a[0], d2=a[1], n=a[2])


def c03_pre(k):
    lam = k.old.f('Object::_lambda', k.this)
    doc = k.old.f('Object::_doc', k.this)
    k.assume(z3.And(lam > 0, k.old.f('Event::_object', lam) == k.this, doc > 0,
                    k.old.f('Document::_settings', doc) > 0,
                    k.old.f('Object::_lambda', k.old.f('Document::_settings', doc)) > 0))


def c03_handlers(k):
    def eval_rec2(eng, this, a):
        from .objects import eval_rec
        d = eval_rec(eng, this, a)
        sl = eng.sel(eng.st, 'Object::_lambda', eng.sel(eng.st, 'Document::_settings', this))
        return dict(d, m=eng.sel(eng.st, 'Context::_awakeChildren', k.this), x=eng.sel(eng.st, 'Event::_state', sl))
    return {'Object::sendTick': recorded('tick', tick_rec, writes=['Object::sendTick'], keep=STRUCTURE,
                                         extra=lambda e, t, a: dict(m=e.sel(e.st, 'Context::_awakeChildren', k.this), x=e.sel(
                                             e.st, 'Event::_state', e.sel(e.st, 'Object::_lambda', e.sel(
                                                 e.st, 'Document::_settings', e.sel(e.st, 'Object::_doc', k.this)))))),
            'Document::evalAction': recorded('eval', eval_rec2, ret='int', writes=['Document::evalAction'], keep=STRUCTURE)}


def c03_only_settings(k):
    h = Hist(k)
    root = k.old.f('Object::_parent', k.this) == 0
    return z3.And(root, h.len >= 1, h.get(Iv(0), 'm') == 1), h.get(Iv(0), 'x') == k.enum('Event::OCCURRING')


def c03_abort(k):
    a, occ = c03_only_settings(k)
    return z3.And(a, z3.Not(occ))


@contract('C03', 'Context::sendTick', pre=c03_pre, handlers=c03_handlers, abort=no_abort(c03_abort),
          assumes=[STRUCT_NOTE, 'the settings object is awake while the document runs (the code asserts it)'])
def ctx_tick(k):
    h = Hist(k)
    lam, doc = k.old.f('Object::_lambda', k.this), k.old.f('Object::_doc', k.this)
    aw = h.get(Iv(0), 'm')
    only, occ = c03_only_settings(k)
    due = z3.Or(aw == 0, z3.And(only, occ))
    return [('the clock is advanced first', z3.And(h.len >= 1, h.is_(Iv(0), 'tick', o=k.this, d=k.arg(0), d2=k.arg(1), n=k.arg(2)))),
            ('a context with nothing awake asks for its own stop', z3.Implies(due, z3.And(
                h.len == 2, h.is_(Iv(1), 'eval', o=doc, e=lam, n=k.enum('Event::STOP'))))),
            ('otherwise nothing is requested', z3.Implies(z3.Not(due), h.len == 1))]


# ---------------------------------------------------------------- C01
def delay_rec(eng, this, a):
    return dict(o=this, e=a[0], n=a[1], s=a[2] if len(a) > 2 and a[2] is not None else eng.lit(''),
                d=a[3] if len(a) > 3 else Iv(0))


def param(eng, st, e, name):
    """parameter of an event (empty when absent), as a term"""
    m = eng.sel(st, 'Event::_parameters', e)
    S = m.sort()
    dom, val = S.accessor(0, 0)(m), S.accessor(0, 1)(m)
    n = eng.lit(name)
    return z3.If(dom[n], val[n], eng.lit(''))


def c01_handlers(k):
    evt = k.arg(0)

    def rec(eng, this, a):
        return dict(o=this, e=this, n=a[0], s=param(eng, eng.st, this, 'fromport'))

    def trans(eng, f, this, args):
        before = eng.sel(eng.st, 'Event::_parameters', evt)
        r = recorded('transition', rec, ret='bool', writes=['Event::transition'], keep=STRUCTURE)(eng, f, this, args)
        eng.st.assume(z3.Implies(this != evt, eng.sel(eng.st, 'Event::_parameters', evt) == before))
        return r
    trans.virtual = True
    return {'Event::transition': trans,
            'Object::addDelayedAction': recorded('delay', delay_rec, writes=['Object::addDelayedAction'], keep=STRUCTURE),
            'Object::doStart': recorded('doStart', lambda e, t, a: dict(o=t), writes=['Object::doStart'], keep=STRUCTURE),
            'Object::doStop': recorded('doStop', lambda e, t, a: dict(o=t), writes=['Object::doStop'], keep=STRUCTURE)}


def c01_pre(k):
    owner_of(k, k.arg(0))
    enum_arg(k, 1, 'Event::Transition')
    event_enums(k)
    valid_list(k, 'Context::_ports', k.this)
    par = k.old.f('Object::_parent', k.this)
    pl = k.old.f('Object::_lambda', par)
    k.assume(z3.And(par >= 0, par < k.old.st.hwm, par != k.this))
    k.assume(z3.Implies(par > 0, z3.And(pl > 0, pl < k.old.st.hwm, k.old.f('Event::_object', pl) == par)))
    k.assume(k.old.f('Object::_doc', k.this) > 0)
    k.assume(k.old.f('Event::_type', k.arg(0)) == k.enum('Event::PRESENTATION'))
    k.assume(k.old.f('Event::_id', k.arg(0)) == k.lit('@lambda'))


@contract('C01', 'Context::afterTransition', pre=c01_pre, handlers=c01_handlers, abort=no_abort(), name='Context::afterTransition(start)',
          assumes=[STRUCT_NOTE, 'starting the enclosing context does not touch the parameters of this one'])
def ctx_after(k):
    evt, tr = k.arg(0), k.arg(1)
    h = Hist(k)
    start = tr == k.enum('Event::START')
    par = k.old.f('Object::_parent', k.this)
    pl = k.old.f('Object::_lambda', par)
    up = z3.And(par != 0, k.isa(par, 'Context'), k.old.f('Event::_state', pl) == k.enum('Event::SLEEPING'))
    woken = param(k.eng, k.old.st, evt, 'fromport') != k.lit('')
    n = k.old.len('Context::_ports', k.this)
    at = lambda i: k.old.at('Context::_ports', k.this, i)
    due = lambda i: k.old.f('Event::_type', at(i)) == k.enum('Event::PRESENTATION')
    base = z3.If(up, Iv(2), Iv(1))
    M = z3.simplify(h.len - base)
    match = lambda p, i: h.is_(base + p, 'delay', o=k.this, e=at(i), n=k.enum('Event::START'), d=Iv(0))
    stopn = z3.Or(tr == k.enum('Event::STOP'), tr == k.enum('Event::ABORT'))
    first = z3.Or(h.is_(Iv(0), 'doStart', o=k.this), z3.And(up, h.is_(Iv(1), 'doStart', o=k.this)))
    upat = lambda i: h.is_(i, 'transition', e=pl, n=k.enum('Event::START'), s=k.lit('true'))
    return [('it is accepted', k.ret),
            ('the start bookkeeping is done once', z3.Implies(start, first)),
            ('a sleeping enclosing context is started, marked as woken by a child', z3.Implies(z3.And(start, up), z3.And(
                h.len >= 2, z3.Or(upat(Iv(0)), upat(Iv(1)))))),
            maybe(k, z3.And(start, z3.Not(woken)), selection(k, n, due, M, match, name='a start is scheduled for exactly the presentation ports, in order')),
            ('woken by a child it schedules nothing', z3.Implies(z3.And(start, woken), M == 0)),
            ('the mark is used once', z3.Implies(start, param(k.eng, k.new.st, evt, 'fromport') == k.lit(''))),
            ('stop and abort do the stop bookkeeping only', z3.Implies(stopn, z3.And(h.len == 1, h.is_(Iv(0), 'doStop', o=k.this)))),
            ('pause and resume do nothing', z3.Implies(z3.Not(z3.Or(start, stopn)), h.len == 0))]


@contract('C01', 'Context::addPort', pre=lambda k: (valid_list(k, 'Context::_ports', k.this),
                                                   k.assume(z3.And(k.arg(0) > 0, k.arg(0) < k.old.st.hwm))), abort=no_abort())
def addPort(k):
    n0, n1 = (v.len('Context::_ports', k.this) for v in (k.old, k.new))
    a0, a1 = (lambda i: k.old.at('Context::_ports', k.this, i)), (lambda i: k.new.at('Context::_ports', k.this, i))
    i, w = k.sk('i'), z3.Int('w!pt')
    there = z3.And(0 <= i, i < n0, a0(i) == k.arg(0))
    return [('the earlier ports stay in place', z3.Implies(z3.And(0 <= i, i < n0), a1(i) == a0(i))),
            ('at most one port is added', z3.And(n1 >= n0, n1 <= n0 + 1)),
            ('a port already there is not added again', z3.Implies(there, n1 == n0)),
            ('what is added is the event given', z3.Implies(n1 == n0 + 1, a1(n0) == k.arg(0))),
            ('it is a port afterwards', z3.Or(n1 == n0 + 1, z3.Exists([w], z3.And(0 <= w, w < n0, a0(w) == k.arg(0)))))] + \
        unchanged(k, only={'Context::_ports': lambda x: x == k.this})


@contract('C01', 'Context::getPorts', abort=no_abort())
def getPorts(k):
    return [('changes nothing', z3.And([z3.BoolVal(True)] + [g for _, g in unchanged(k)]))]


# ---------------------------------------------------------------- C04
def c04_handlers(k):
    def ref(eng, f, this, args):
        s = term(eng, args[0])
        ok = eng.choose(resolves(s))
        if ok and isinstance(args[1], PtrLV):
            eng.write(eng.st, args[1].lv, V(refvalue(s), STR))
        return eng.B(ok)

    def ptime(eng, f, this, args):
        s = term(eng, args[0])
        x = time_of(eng, s)
        eng.st.assume(z3.And(x >= 0, x < 2**64), fact=True)
        return V(x, U64)
    return {'Document::evalPropertyRef': ref, 'parse_time': ptime,
            'Object::setProperty': virt(recorded('set', lambda e, t, a: dict(o=t, s=a[0], s2=a[1], d=a[2] if len(a) > 2 else Iv(0)),
                                            writes=['Object::setProperty'], keep=STRUCTURE)),
            'Object::addDelayedAction': recorded('delay', delay_rec, writes=['Object::addDelayedAction'], keep=STRUCTURE)}


def virt(h):
    h.virtual = True
    return h


def time_of(eng, s):
    return ghost(eng, 'parse_time', s.sort(), I)(s)


def c04_pre(k):
    evt = k.arg(0)
    k.assume(z3.And(evt > 0, evt < k.old.st.hwm, k.old.f('Event::_object', evt) == k.this))
    k.assume(k.old.f('Event::_type', evt) == k.enum('Event::ATTRIBUTION'))
    k.assume(z3.Or(k.arg(1) == k.enum('Event::START'), k.arg(1) == k.enum('Event::STOP')))
    k.assume(k.old.f('Object::_doc', k.this) > 0)


def attribution(k):
    evt = k.arg(0)
    h = Hist(k)
    start = k.arg(1) == k.enum('Event::START')
    m = k.old.f('Event::_parameters', evt)
    S = m.sort()
    dom, val = S.accessor(0, 0)(m), S.accessor(0, 1)(m)
    empty = k.lit('')
    v0 = z3.If(dom[k.lit('value')], val[k.lit('value')], empty)
    v = z3.If(resolves(v0), refvalue(v0), v0)
    d0 = val[k.lit('duration')]
    d = z3.If(resolves(d0), refvalue(d0), d0)
    dur = z3.If(dom[k.lit('duration')], time_of(k.eng, d), Iv(0))
    name = k.old.f('Event::_id', evt)
    isset = lambda i: h.is_(i, 'set', o=k.this, s=name, s2=v, d=dur)
    isdel = lambda i: h.is_(i, 'delay', o=k.this, e=evt, n=k.enum('Event::STOP'), d=dur)
    Z, O = Iv(0), Iv(1)
    return [('it is accepted', k.ret),
            ('start sets exactly the named property to the resolved value, over the duration', z3.Implies(start, z3.And(
                h.len == 2, z3.Or(isset(Z), isset(O))))),
            ('start schedules the end after exactly the duration', z3.Implies(start, z3.Or(isdel(Z), isdel(O)))),
            ('stop does nothing', z3.Implies(z3.Not(start), h.len == 0))] + \
        [(n, z3.Implies(z3.Not(start), g)) for n, g in unchanged(k)]


for _c in ('Context', 'Media'):
    contract('C04', _c + '::afterTransition', pre=c04_pre, handlers=c04_handlers, abort=no_abort(),
             name=_c + '::afterTransition(attribution)')(attribution)


@contract('C04', 'Context::setProperty', handlers=lambda k: {'Object::setProperty': recorded(
    'set', lambda e, t, a: dict(o=t, s=a[0], s2=a[1], d=a[2] if len(a) > 2 else Iv(0)), virtual=False)}, abort=no_abort())
def ctx_set(k):
    h = Hist(k)
    return [('the value is recorded', z3.And(h.len == 1, h.is_(Iv(0), 'set', o=k.this, s=k.arg(0), s2=k.arg(1))))] + unchanged(k)
