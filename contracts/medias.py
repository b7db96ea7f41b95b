"""Contracts of lib/Media.cpp and lib/MediaSettings.cpp"""
from .common import *
from .contexts import STRUCTURE, STRUCT_NOTE, owner_of, enum_arg, event_enums, valid_set, delay_rec, virt

B = z3.BoolSort()
U64MAX = 2**64 - 1
#: what following a call on a player cannot change in the objects of the document
MEDIA = STRUCTURE | {'Object::_properties', 'Media::_player', 'Event::_parameters', 'Object::_time', 'Object::_delayed', 'Event::_state',
                     'Context::_awakeChildren', 'Context::_status', 'Switch::_selected', 'MediaSettings::_nextFocus',
                     'MediaSettings::_hasNextFocus'}
PLAYER_NOTE = 'calls on a player do not change the objects, events and properties of the document'
PREC = {'Player::start': lambda e, t, a: dict(o=t), 'Player::stop': lambda e, t, a: dict(o=t, n=e.sel(e.st, 'Player::_state', t)),
        'Player::pause': lambda e, t, a: dict(o=t), 'Player::resume': lambda e, t, a: dict(o=t),
        'Player::setProperty': lambda e, t, a: dict(o=t, s=a[0], s2=a[1]),
        'Player::sendKeyEvent': lambda e, t, a: dict(o=t, s=a[0], n=z3.If(a[1], Iv(1), Iv(0)) if z3.is_bool(a[1]) else a[1]),
        'Player::sendPresentationEvent': lambda e, t, a: dict(o=t, s=a[0], s2=a[1]),
        'Player::schedulePropertyAnimation': lambda e, t, a: dict(o=t, s=a[0], s2=a[1], s3=a[2], d=a[3])}


def player_calls(k, only=None):
    """calls on players are recorded (or, when not in `only', followed no further and not recorded)"""
    out = {}
    for q, rec in PREC.items():
        n = q.split('::')[1]
        if only is None or n in only:
            out[q] = recorded('player.' + n, rec, writes=[q], keep=MEDIA)
        else:
            out[q] = silent(q)
    return out


def silent(q, keep=MEDIA):
    def h(eng, f, this, args):
        havoc(eng, modset(eng).writes(q), keep)
        return VOIDV
    h.virtual = True
    return h


def create_player(k):
    def h(eng, f, this, args):
        a = [term(eng, x) for x in args]
        r = fresh('player', I)
        havoc(eng, modset(eng).writes('Player::createPlayer'), MEDIA)
        eng.st.assume(z3.Or(r == 0, r >= eng.st.hwm), fact=True)
        eng.trace_append(eng.st, eng.mkcall('create', o=a[0], e=a[1], s=a[2], s2=a[3], r=r != 0, n=r))
        hw = fresh('hwm', I)
        eng.st.assume(z3.And(hw >= eng.st.hwm, hw > r), fact=True)
        eng.st.hwm = hw
        return V(r, T('ptr', T('class', 'Player')))
    return h


def get_data(k):
    def h(eng, f, this, args):
        fmt = k.vars.setdefault('formatter', z3.Const('the_formatter', I))
        eng.st.assume(fmt > 0, fact=True)
        if isinstance(args[1], PtrLV):
            eng.write(eng.st, args[1].lv, V(fmt, T('ptr', T('class', 'Formatter'))))
        return eng.B(z3.BoolVal(True))
    return h


def parent_start(k):
    """the enclosing context is asked to start: what it does, it does to itself and its ancestors"""
    this = k.this
    keys = ['Object::_properties', 'Media::_player', 'Object::_time', 'Object::_delayed']

    def h(eng, f, o, args):
        lam = eng.sel(eng.st, 'Object::_lambda', this)
        old = [(q, this, eng.sel(eng.st, q, this)) for q in keys] + [('Event::_state', lam, eng.sel(eng.st, 'Event::_state', lam)),
                                                                     ('Event::_parameters', lam, eng.sel(eng.st, 'Event::_parameters', lam))]
        rec = lambda e, t, a: dict(o=t, e=t, n=a[0])
        r = recorded('transition', rec, ret='bool', writes=['Event::transition'], keep=STRUCTURE)(eng, f, o, args)
        for q, x, v in old:
            eng.st.assume(z3.Implies(o != lam, eng.sel(eng.st, q, x) == v))
        return r
    h.virtual = True
    return h


PARENT_NOTE = 'starting the enclosing context changes neither the properties, player, clock nor main event of the object that woke it'


def start_handlers(k):
    h = player_calls(k)
    h.update({'Player::createPlayer': create_player(k), 'Document::getData': get_data(k), 'Event::transition': parent_start(k)})
    return h


def main_event(k):
    evt = k.arg(0)
    owner_of(k, evt)
    k.assume(evt == k.old.f('Object::_lambda', k.this))
    k.assume(z3.And(k.old.f('Object::_doc', k.this) > 0, k.old.f('Object::_doc', k.this) < k.old.st.hwm))
    event_enums(k)


def up_pre(k):
    par = k.old.f('Object::_parent', k.this)
    pl = k.old.f('Object::_lambda', par)
    k.assume(z3.And(par >= 0, par < k.old.st.hwm, par != k.this))
    k.assume(z3.Implies(par > 0, z3.And(pl > 0, pl < k.old.st.hwm, k.old.f('Event::_object', pl) == par)))


def up(k):
    par = k.old.f('Object::_parent', k.this)
    pl = k.old.f('Object::_lambda', par)
    return pl, z3.And(par != 0, k.isa(par, 'Context'), k.old.f('Event::_state', pl) == k.enum('Event::SLEEPING'))


def m01_start_pre(k):
    main_event(k)
    up_pre(k)
    k.assume(k.arg(1) == k.enum('Event::START'))
    k.assume(k.old.f('Event::_state', k.arg(0)) == k.enum('Event::SLEEPING'))
    k.assume(k.old.f('Media::_player', k.this) == 0)


@contract('M01', 'Media::beforeTransition', pre=m01_start_pre, handlers=start_handlers, name='Media::beforeTransition(start)', abort=no_abort(),
          assumes=[STRUCT_NOTE, PLAYER_NOTE, PARENT_NOTE, 'a sleeping media object has no player', 'the document runs under a formatter'])
def media_start(k):
    h = Hist(k)
    pl, isup = up(k)
    base = z3.If(isup, Iv(1), Iv(0))
    v = lambda w: (w.mapdom('Object::_properties', k.this), w.mapval('Object::_properties', k.this))
    (d0, v0), (d1, v1) = v(k.old), v(k.new)
    prop = lambda n: z3.If(d0[k.lit(n)], v0[k.lit(n)], k.lit(''))
    pnew = k.new.f('Media::_player', k.this)
    made = h.get(base, 'r') == 1
    p, n = k.sk('p'), k.sk('name', k.lit('').sort())
    last = h.len - 1
    at, cnt = k.instance(d1, n)
    pos = k.eng.enumth.pos(k.eng, d1, n)
    return [('a sleeping enclosing context is started', z3.Implies(isup, h.is_(Iv(0), 'transition', e=pl, n=k.enum('Event::START')))),
            ('one player is created, for this object, from its uri and type', z3.And(h.len > base, h.is_(
                base, 'create', e=k.this, o=k.vars.get('formatter', Iv(-1)), s=prop('uri'), s2=prop('type')))),
            ('without a player the start is refused', z3.Implies(z3.Not(made), z3.And(z3.Not(k.ret), pnew == 0, h.len == base + 1))),
            ('with a player it is accepted', z3.Implies(made, k.ret)),
            ('it is the player of the object', z3.Implies(made, z3.And(pnew != 0, pnew == h.get(base, 'n')))),
            ('it is started, last', z3.Implies(made, z3.And(h.len >= base + 2, h.is_(last, 'player.start', o=pnew)))),
            ('before that it is only given properties of the object', z3.Implies(z3.And(made, base < p, p < last), z3.And(
                h.is_(p, 'player.setProperty', o=pnew), d1[h.get(p, 's')], h.get(p, 's2') == v1[h.get(p, 's')]))),
            ('it is given every property of the object', z3.Implies(z3.And(made, d0[n]), z3.And(
                base + 1 + pos < last, h.is_(base + 1 + pos, 'player.setProperty', o=pnew, s=n, s2=v0[n])))),
            ('the properties keep their values', z3.Implies(d0[n], z3.And(d1[n], v1[n] == v0[n]))),
            ('properties that were not set are empty', z3.Implies(z3.And(d1[n], z3.Not(d0[n])), v1[n] == k.lit('')))]


def stop_pre(k):
    main_event(k)
    k.assume(z3.Or(k.arg(1) == k.enum('Event::STOP'), k.arg(1) == k.enum('Event::ABORT')))


@contract('M01', 'Media::beforeTransition', pre=stop_pre, handlers=start_handlers, name='Media::beforeTransition(stop)', abort=no_abort())
def media_before_stop(k):
    return [('it is accepted', k.ret), ('nothing is requested', Hist(k).len == 0)] + unchanged(k)


def delete_rec(k):
    def h(eng, v):
        e = v.e if isinstance(v, V) else term(eng, v)
        eng.trace_append(eng.st, eng.mkcall('delete', o=e))
    return h


def dostop_handlers(k):
    h = player_calls(k)
    h['delete'] = delete_rec(k)
    h['Object::doStop'] = recorded('doStop', lambda e, t, a: dict(o=t), writes=['Object::doStop'], keep=STRUCTURE | {'Media::_player'}, virtual=False)
    return h


def stopped(k, h):
    pl = k.old.f('Media::_player', k.this)
    run = k.old.f('Player::_state', pl) != k.enum('Player::SLEEPING')
    a = z3.If(run, Iv(1), Iv(0))
    x = k.sk('object')
    return [('a running player is stopped', z3.Implies(run, h.is_(Iv(0), 'player.stop', o=pl))),
            ('then it is discarded and the stop bookkeeping done once', z3.And(h.len == a + 2, z3.Or(
                z3.And(h.is_(a, 'delete', o=pl), h.is_(a + 1, 'doStop', o=k.this)),
                z3.And(h.is_(a + 1, 'delete', o=pl), h.is_(a, 'doStop', o=k.this))))),
            ('the object has no player', k.new.f('Media::_player', k.this) == 0),
            ('other objects keep theirs', z3.Implies(x != k.this, k.new.f('Media::_player', x) == k.old.f('Media::_player', x)))]


@contract('M01', 'Media::afterTransition', pre=lambda k: (stop_pre(k), k.assume(k.old.f('Media::_player', k.this) > 0)), handlers=dostop_handlers,
          name='Media::afterTransition(stop)', abort=no_abort(), assumes=[STRUCT_NOTE, PLAYER_NOTE])
def media_after_stop(k):
    return [('it is accepted', k.ret)] + stopped(k, Hist(k))


@contract('M01', 'Media::doStop', pre=lambda k: k.assume(k.old.f('Media::_player', k.this) > 0), handlers=dostop_handlers,
          name='Media::doStop(player)', abort=no_abort(), assumes=[PLAYER_NOTE])
def media_dostop(k):
    return stopped(k, Hist(k))


def noplayer_pre(k):
    l = k.old.f('Object::_lambda', k.this)
    k.assume(z3.And(l > 0, k.old.f('Event::_object', l) == k.this, k.old.f('Event::_state', l) == k.enum('Event::SLEEPING'),
                    k.old.f('Media::_player', k.this) == 0))


@contract('M01', 'Media::doStop', pre=noplayer_pre, handlers=dostop_handlers, name='Media::doStop(no player)', abort=no_abort())
def media_dostop0(k):
    return [('nothing is done', Hist(k).len == 0)] + unchanged(k)


@contract('M01', 'Media::Media')
def media_ctor(k):
    return [('no player at first', k.new.f('Media::_player', k.this) == 0)]


# ---------------------------------------------------------------- M02
def anchor(k, e):
    return z3.And(e != k.old.f('Object::_lambda', k.this), k.old.f('Event::_type', e) == k.enum('Event::PRESENTATION'))


def events_pre(k):
    lam = k.old.f('Object::_lambda', k.this)
    typ, eid = k.old.arr('Event::_type'), k.old.arr('Event::_id')
    # at most one event per type and id (O01): the only main event is the one made with the object
    valid_set(k, 'Object::_events', k.this, also=lambda x: z3.And(
        k.old.f('Event::_object', x) == k.this,
        (x == lam) == z3.And(typ[x] == k.enum('Event::PRESENTATION'), eid[x] == k.lit('@lambda'))))


def m02_pre(k):
    main_event(k)
    events_pre(k)
    k.assume(k.arg(1) == k.enum('Event::START'))
    k.assume(k.old.f('Media::_player', k.this) > 0)


def m02_handlers(which):
    def f(k):
        h = player_calls(k)

        def delay(eng, f_, this, args):
            a = [term(eng, x) for x in args]
            is_start, is_stop = a[1] == k.enum('Event::START'), a[1] == k.enum('Event::STOP')
            mine = is_start if which == 'start' else is_stop
            if eng.choose(z3.And(z3.Or(is_start, is_stop), a[2] == eng.lit(''), this == k.this)):
                if eng.choose(mine):
                    eng.trace_append(eng.st, eng.mkcall('delay', **delay_rec(eng, this, a)))
            else:
                eng.trace_append(eng.st, eng.mkcall('other', **delay_rec(eng, this, a)))
            havoc(eng, modset(eng).writes('Object::addDelayedAction'), STRUCTURE)
            return VOIDV
        delay.virtual = True
        h['Object::addDelayedAction'] = delay
        if which == 'start':
            h['Object::doStart'] = recorded('doStart', lambda e, t, a: dict(o=t), writes=['Object::doStart'], keep=STRUCTURE, virtual=False)
        else:
            h['Object::doStart'] = silent('Object::doStart', STRUCTURE)
        return h
    return f


for _w, _W, _fld in (('start', 'START', '_begin'), ('stop', 'STOP', '_end')):
    def _mk(w, W, fld):
        @contract('M02', 'Media::afterTransition', pre=m02_pre, handlers=m02_handlers(w), name='Media::afterTransition(start: %ss of anchors)' % w,
                  abort=no_abort(), assumes=[STRUCT_NOTE, PLAYER_NOTE])
        def post(k):
            h = Hist(k)
            S = k.old.f('Object::_events', k.this)
            n, at = k.eng.enumth.len(k.eng, S), lambda i: k.eng.enumth.at(k.eng, S, i)
            due = lambda i: z3.And(S[at(i)], anchor(k, at(i)), k.old.f('Event::_label', at(i)) == k.lit(''))
            base = Iv(1 if w == 'start' else 0)
            M = z3.simplify(h.len - base)
            out = [('it is accepted', k.ret),
                   selection(k, n, due, M, lambda p, i: h.is_(base + p, 'delay', o=k.this, e=at(i), n=k.enum('Event::' + W), s=k.lit(''),
                                                              d=k.old.f('Event::' + fld, at(i))),
                             name='a %s is scheduled at the %s of exactly each unlabelled anchor' % (w, 'begin' if w == 'start' else 'end'))]
            if w == 'start':
                out.append(('the start bookkeeping is done once, before', h.is_(Iv(0), 'doStart', o=k.this)))
            return out
    _mk(_w, _W, _fld)


def m02b_pre(k):
    main_event(k)
    events_pre(k)
    k.assume(z3.Or(k.arg(1) == k.enum('Event::PAUSE'), k.arg(1) == k.enum('Event::RESUME')))
    k.assume(k.old.f('Media::_player', k.this) > 0)


def eval_rec3(e, t, a):
    return dict(o=t, e=a[0], n=a[1], s=a[2] if len(a) > 2 and a[2] is not None else e.lit(''))


def m02b_handlers(which):
    def f(k):
        h = player_calls(k, None if which == 'player' else ())
        keep = STRUCTURE | {'Media::_player'}
        if which == 'player':
            def ev(eng, f_, this, args):
                havoc(eng, modset(eng).writes('Document::evalAction'), keep)
                return V(fresh('n', I), I32)
            h['Document::evalAction'] = ev
        else:
            h['Document::evalAction'] = recorded('eval', eval_rec3, ret='int', writes=['Document::evalAction'], keep=keep)
        return h
    return f


PAUSE_NOTE = 'pausing or resuming an anchor does not replace the player'


@contract('M02', 'Media::beforeTransition', pre=m02b_pre, handlers=m02b_handlers('anchors'), name='Media::beforeTransition(pause: anchors)',
          abort=no_abort(), assumes=[STRUCT_NOTE, PLAYER_NOTE, PAUSE_NOTE])
def media_pause(k):
    h = Hist(k)
    S = k.old.f('Object::_events', k.this)
    n, at = k.eng.enumth.len(k.eng, S), lambda i: k.eng.enumth.at(k.eng, S, i)
    due = lambda i: z3.And(S[at(i)], anchor(k, at(i)))
    return [('it is accepted', k.ret),
            selection(k, n, due, h.len, lambda p, i: h.is_(p, 'eval', e=at(i), n=k.arg(1)), name='the same is requested of exactly each anchor')]


@contract('M02', 'Media::beforeTransition', pre=m02b_pre, handlers=m02b_handlers('player'), name='Media::beforeTransition(pause: player)',
          abort=no_abort(), assumes=[STRUCT_NOTE, PLAYER_NOTE, PAUSE_NOTE])
def media_pause_player(k):
    h = Hist(k)
    pl = k.old.f('Media::_player', k.this)
    pause = k.arg(1) == k.enum('Event::PAUSE')
    return [('the player is asked the same, once', z3.And(h.len == 1, z3.If(pause, h.is_(Iv(0), 'player.pause', o=pl), h.is_(Iv(0), 'player.resume', o=pl))))]


# ---------------------------------------------------------------- M06
def m06_pre(k):
    evt, lam = k.arg(0), k.old.f('Object::_lambda', k.this)
    owner_of(k, evt)
    has_main(k)
    up_pre(k)
    events_pre(k)
    event_enums(k)
    k.assume(k.old.f('Object::_events', k.this)[evt])
    k.assume(z3.And(evt != lam, k.old.f('Event::_type', evt) == k.enum('Event::PRESENTATION'), k.arg(1) == k.enum('Event::START'),
                    k.old.f('Event::_state', evt) == k.enum('Event::SLEEPING')))
    b, e = k.old.f('Event::_begin', evt), k.old.f('Event::_end', evt)
    k.assume(z3.And(0 <= b, z3.Or(b == U64MAX, b < 2**62), 0 <= e, z3.Or(e == U64MAX, e < 2**62)))
    # an interval does not end before it begins (X09)
    k.assume(z3.Implies(e != U64MAX, z3.If(b == U64MAX, 0, b) <= e))


def has_main(k):
    lam = k.old.f('Object::_lambda', k.this)
    k.assume(z3.And(lam > 0, lam < k.old.st.hwm, k.old.f('Event::_object', lam) == k.this))


def pending(k):
    """the pending actions of the object just after its main presentation was started"""
    return z3.Const('the_pending', k.old.f('Object::_delayed', k.this).sort())


def m06_handlers(k):
    h = player_calls(k)

    def tr(eng, f, this, args):
        a = [term(eng, x) for x in args]
        ok = fresh('accepted', B)
        lam = k.old.f('Object::_lambda', k.this)
        main = this == lam
        eng.trace_append(eng.st, eng.mkcall('transition', e=this, n=a[0], r=ok))
        if not eng.st.ghost.get('awake') and eng.choose(main):
            eng.st.ghost['awake'] = True
            keep = STRUCTURE | {'Event::_begin', 'Event::_end', 'Event::_label'}
            havoc(eng, modset(eng).writes('Event::transition') | {'Media::_player', 'Object::_time'}, keep)
            P = pending(k)
            S = P.sort()
            i = z3.Int('i!pend')
            ar = S.accessor(0, 1)(P)
            eng.st.assume(S.accessor(0, 0)(P) >= 0, fact=True)
            eng.st.assume(z3.ForAll([i], z3.And(pair(ar[i], 1) >= 0, pod(k, pair(ar[i], 0), 'Action', 'event') != lam), patterns=[ar[i]]), fact=True)
            at = eng.hget(eng.st, eng_key(k, 'Object::_delayed'))
            eng.st.heap[eng_key(k, 'Object::_delayed')] = z3.Store(at, k.this, P)
            eng.st.assume(eng.sel(eng.st, 'Media::_player', k.this) == z3.Const('the_player', I))
            eng.st.assume(z3.Const('the_player', I) > 0)
            eng.st.assume(eng.sel(eng.st, 'Object::_time', k.this) == 0)
        else:
            havoc(eng, modset(eng).writes('Event::transition'), MEDIA | {'Event::_begin', 'Event::_end', 'Event::_label'} - {'Event::_state'})
        return V(ok, BOOL)
    tr.virtual = True
    h['Event::transition'] = tr
    h['Event::setParameter'] = silent('Event::setParameter', STRUCTURE)
    return h


def eng_key(k, f):
    return k.key(f)


MAIN_NOTE = ('starting the main presentation creates the player and sets the clock to zero (M01, O05), and starting another anchor of the object '
             'leaves its pending actions alone (M02)')


@contract('M06', 'Media::beforeTransition', pre=m06_pre, handlers=m06_handlers, name='Media::beforeTransition(start: anchor)', abort=no_abort(),
          assumes=[STRUCT_NOTE, PLAYER_NOTE, PARENT_NOTE, MAIN_NOTE])
def media_anchor(k):
    from cdv.lib import fn_to_string
    h = Hist(k)
    evt, lam = k.arg(0), k.old.f('Object::_lambda', k.this)
    sleeping = k.old.f('Event::_state', lam) == k.enum('Event::SLEEPING')
    pl, isup = up(k)
    base = z3.If(isup, Iv(1), Iv(0))
    b0, e = k.old.f('Event::_begin', evt), k.old.f('Event::_end', evt)
    b = z3.If(b0 == U64MAX, Iv(0), b0)
    ends = e != U64MAX
    text = lambda t: fn_to_string(k.eng, [V(t / 1000000000, U64)], None).e
    P = pending(k)
    S = P.sort()
    n, ar = S.accessor(0, 0)(P), S.accessor(0, 1)(P)
    all_ = z3.If(ends, n + 1, n)        # with the stop of the anchor itself
    nn = k.new.len('Object::_delayed', k.this)
    N = lambda i: k.new.at('Object::_delayed', k.this, i)
    player = z3.Const('the_player', I)
    a = lambda x, f: pod(k, pair(x, 0), 'Action', f)
    due = lambda i: z3.If(i < n, pair(ar[i], 1), e)
    kept = lambda i: z3.And(due(i) != U64MAX, due(i) >= b, z3.Or(z3.Not(ends), due(i) <= e))
    is_stop = lambda x: z3.And(a(x, 'event') == evt, a(x, 'transition') == k.enum('Event::STOP'), a(x, 'value') == k.lit(''))
    passed = lambda i: z3.And(pair(ar[i], 1) < b, a(ar[i], 'transition') == k.enum('Event::START'))
    head = z3.If(ends, base + 3, base + 2)
    return [('it is accepted', k.ret),
            ('in an object already awake nothing else happens', z3.Implies(z3.Not(sleeping), h.len == base)),
            ('the object is started first', z3.Implies(sleeping, h.is_(base, 'transition', e=lam, n=k.enum('Event::START')))),
            ('then the player is moved to the begin time', z3.Implies(sleeping, h.is_(base + 1, 'player.setProperty', o=player, s=k.lit('time'), s2=text(b)))),
            ('and limited to the length of the anchor', z3.Implies(z3.And(sleeping, ends), h.is_(
                base + 2, 'player.setProperty', o=player, s=k.lit('duration'), s2=text(e - b)))),
            maybe(k, sleeping, selection(k, n, passed, h.len - head, lambda p, i: h.is_(head + p, 'transition', e=a(ar[i], 'event'), n=k.enum('Event::START')),
                                         name='anchors that begin earlier are started at once')),
            maybe(k, sleeping, selection(k, all_, kept, nn, lambda p, i: z3.And(
                z3.If(i < n, pair(N(p), 0) == pair(ar[i], 0), is_stop(N(p))), pair(N(p), 1) == due(i) - b),
                name='the remaining actions and the stop of the anchor keep their order and are due that much earlier'))]


# ---------------------------------------------------------------- M03
@contract('M03', 'Media::setProperty', handlers=player_calls, abort=no_abort(lambda k: k.arg(2) == 2**64 - 1), assumes=[PLAYER_NOTE])
def media_set(k):
    h = Hist(k)
    v = lambda w, o=k.this: (w.mapdom('Object::_properties', o), w.mapval('Object::_properties', o))
    (d0, v0), (d1, v1) = v(k.old), v(k.new)
    n, m = k.arg(0), k.sk('name', k.arg(0).sort())
    pl = k.old.f('Media::_player', k.this)
    frm = z3.If(d0[n], v0[n], k.lit(''))
    x = k.sk('object')
    return [('the value is recorded', z3.And(d1[n], v1[n] == k.arg(1))),
            ('no other property changes', z3.Implies(m != n, z3.And(d1[m] == d0[m], z3.Implies(d0[m], v1[m] == v0[m])))),
            ('nor that of another object', z3.Implies(x != k.this, k.new.f('Object::_properties', x) == k.old.f('Object::_properties', x))),
            ('without a player nothing else happens', z3.Implies(pl == 0, h.len == 0)),
            ('with zero duration the player receives it at once', z3.Implies(z3.And(pl != 0, k.arg(2) == 0), z3.And(
                h.len == 1, h.is_(Iv(0), 'player.setProperty', o=pl, s=n, s2=k.arg(1))))),
            ('with a positive one the player animates it, once, from the previous value', z3.Implies(z3.And(pl != 0, k.arg(2) > 0), z3.And(
                h.len == 1, h.is_(Iv(0), 'player.schedulePropertyAnimation', o=pl, s=n, s2=frm, s3=k.arg(1), d=k.arg(2)))))] + \
        [(a, z3.Implies(pl == 0, g)) for a, g in unchanged(k, allow=['Object::_properties'])]


# ---------------------------------------------------------------- M05
def m05_handlers(k):
    h = player_calls(k)
    this = k.this

    def mid(eng, t, a, r):
        p = eng.sel(eng.st, 'Media::_player', this)
        eos = eng.sel(eng.st, 'Player::_eos', p)
        eng.trace_append(eng.st, eng.mkcall('then', m=p, x=z3.If(eos, Iv(1), Iv(0)) if z3.is_bool(eos) else eos,
                                            d2=eng.sel(eng.st, 'Object::_time', this), d=duration(eng, p)))
    h['Object::sendTick'] = recorded('tick', lambda e, t, a: dict(o=t, d=a[0], d2=a[1], n=a[2]), writes=['Object::sendTick'],
                                     keep=STRUCTURE, post=mid, virtual=False)
    h['Player::incTime'] = recorded('incTime', lambda e, t, a: dict(o=t, d=a[0]), writes=['Player::incTime'], keep=MEDIA | {'Player::_eos', 'Player::_prop'})
    h['Document::evalAction'] = recorded('eval', eval_rec3, ret='int', writes=['Document::evalAction'], keep=STRUCTURE)
    return h


def duration(eng, p):
    lv = eng.sel(eng.st, 'Player::_prop', p)
    t = eng.hkey_type('Player::_prop')
    for i, (n, ft) in enumerate(eng.types.comps(t)):
        if n == 'duration':
            return eng.proj(lv.sort(), i, lv)
    raise Unsupported('Player duration')


def m05_pre(k):
    l = k.old.f('Object::_lambda', k.this)
    k.assume(z3.And(l > 0, l < k.old.st.hwm, k.old.f('Event::_object', l) == k.this, k.old.f('Object::_doc', k.this) > 0))


@contract('M05', 'Media::sendTick', pre=m05_pre, handlers=m05_handlers, abort=no_abort(), assumes=[STRUCT_NOTE, PLAYER_NOTE])
def media_tick(k):
    h = Hist(k)
    l = k.old.f('Object::_lambda', k.this)
    O = Iv(1)
    pl, eos, dur, now = h.get(O, 'm'), h.get(O, 'x') == 1, h.get(O, 'd'), h.get(O, 'd2')
    over = z3.Or(eos, z3.And(dur != 2**64 - 1, now > dur))
    return [('the clock is advanced first', z3.And(h.len >= 2, h.is_(Iv(0), 'tick', o=k.this, d=k.arg(0), d2=k.arg(1), n=k.arg(2)))),
            ('without a player nothing else happens', z3.Implies(pl == 0, h.len == 2)),
            ('the clock of the player advances by the elapsed time', z3.Implies(pl != 0, z3.And(h.len >= 3, z3.Or(
                h.is_(Iv(2), 'incTime', o=pl, d=k.arg(1)), z3.And(h.len == 4, h.is_(Iv(3), 'incTime', o=pl, d=k.arg(1))))))),
            ('its own stop is requested at the end of its content or past its duration', z3.Implies(z3.And(pl != 0, over), z3.And(h.len == 4, z3.Or(
                h.is_(Iv(3), 'eval', e=l, n=k.enum('Event::STOP')), h.is_(Iv(2), 'eval', e=l, n=k.enum('Event::STOP')))))),
            ('and in no other case', z3.Implies(z3.And(pl != 0, z3.Not(over)), h.len == 3))]


# ---------------------------------------------------------------- M04
def focused(eng, p):
    return ghost(eng, 'focused', I, B)(p)


def pprop(eng, p, n):
    return ghost(eng, 'player_property', I, n.sort(), n.sort())(p, n)


def m04_handlers(k):
    h = player_calls(k)

    def foc(eng, f, this, args):
        return V(focused(eng, this), BOOL)

    def gp(eng, f, this, args):
        return V(pprop(eng, this, term(eng, args[0])), STR)
    h['Player::isFocused'] = foc
    h['Player::getProperty'] = virt(gp)
    h['MediaSettings::scheduleFocusUpdate'] = recorded('focus', lambda e, t, a: dict(o=t, s=a[0]), writes=['MediaSettings::scheduleFocusUpdate'])
    h['Document::evalAction'] = recorded('eval', eval_rec3, ret='int', writes=['Document::evalAction'], keep=STRUCTURE)
    return h


def m04_pre(k):
    l = k.old.f('Object::_lambda', k.this)
    doc = k.old.f('Object::_doc', k.this)
    k.assume(z3.And(l > 0, l < k.old.st.hwm, k.old.f('Event::_object', l) == k.this, doc > 0, k.old.f('Document::_settings', doc) > 0))
    k.assume(k.old.f('Media::_player', k.this) >= 0)
    valid_set(k, 'Object::_events', k.this)
    for c, m in CURSOR:
        k.lit(c), k.lit(m)


CURSOR = (('CURSOR_UP', 'moveUp'), ('CURSOR_DOWN', 'moveDown'), ('CURSOR_LEFT', 'moveLeft'), ('CURSOR_RIGHT', 'moveRight'))
KEY_NOTE = 'giving a key to a player or scheduling a focus update does not change which object has the focus'


@contract('M04', 'Media::sendKey', pre=m04_pre, handlers=m04_handlers, abort=no_abort(), assumes=[STRUCT_NOTE, PLAYER_NOTE, KEY_NOTE])
def media_key(k):
    h = Hist(k)
    from cdv.lib import compare
    e = k.eng
    key, press = k.arg(0), k.arg(1)
    l, pl = k.old.f('Object::_lambda', k.this), k.old.f('Media::_player', k.this)
    awake = z3.And(k.old.f('Event::_state', l) != k.enum('Event::SLEEPING'), pl != 0)
    foc = focused(e, pl)
    empty = k.lit('')
    move = z3.Or([z3.And(key == k.lit(c), pprop(e, pl, k.lit(m)) != empty) for c, m in CURSOR])
    nxt = empty
    for c, m in CURSOR:
        nxt = z3.If(key == k.lit(c), pprop(e, pl, k.lit(m)), nxt)
    moves = z3.And(awake, press, foc, move)
    b = z3.If(moves, Iv(1), Iv(0)) + z3.If(foc, Iv(1), Iv(0))
    S = k.old.f('Object::_events', k.this)
    n, at = e.enumth.len(e, S), lambda i: e.enumth.at(e, S, i)
    ps = k.old.arr('Event::_parameters')

    def bound(ev):
        m = ps[ev]
        D = m.sort()
        v = z3.If(D.accessor(0, 0)(m)[k.lit('key')], D.accessor(0, 1)(m)[k.lit('key')], empty)
        none = z3.Or(v == empty, e.strop('char', v, Iv(0), ret=I) == ord('$'))
        return z3.Or(z3.And(none, key == k.lit('ENTER'), foc), z3.And(z3.Not(none), key == v))
    due = lambda i: z3.And(S[at(i)], k.old.f('Event::_type', at(i)) == k.enum('Event::SELECTION'), bound(at(i)))
    M = z3.simplify(h.len - b)
    trn = z3.If(press, k.enum('Event::START'), k.enum('Event::STOP'))
    settings = k.old.f('Document::_settings', k.old.f('Object::_doc', k.this))
    isfocus = lambda i: h.is_(i, 'focus', o=settings, s=nxt)
    passed = lambda i: h.is_(i, 'player.sendKeyEvent', o=pl, s=key, n=z3.If(press, Iv(1), Iv(0)))
    Z, O = Iv(0), Iv(1)
    return [('a sleeping object reacts to no key', z3.Implies(z3.Not(awake), h.len == 0)),
            ('a cursor key on the focused object requests the move it names', z3.Implies(moves, z3.And(h.len >= 2, z3.Or(isfocus(Z), isfocus(O))))),
            ('the key is passed to the player when focused', z3.Implies(z3.And(awake, foc), z3.And(h.len >= b, z3.Or(passed(Z), z3.And(moves, passed(O)))))),
            maybe(k, awake, selection(k, n, due, M, lambda p, i: h.is_(b + p, 'eval', e=at(i), n=trn), name='exactly the bound selection events are triggered'))]


# ---------------------------------------------------------------- F01
FOCUS = 'service.currentFocus'


def m_set(k):
    return {'Media::setProperty': recorded('set', lambda e, t, a: dict(o=t, s=a[0], s2=a[1], d=a[2]), writes=['Media::setProperty'],
                                           keep=STRUCTURE, virtual=False)}


@contract('F01', 'MediaSettings::setProperty', pre=lambda k: k.lit(FOCUS), handlers=m_set, abort=no_abort(),
          assumes=['recording a property of the settings object does not itself change the focus used by players'])
def settings_set(k):
    h = Hist(k)
    isf = k.arg(0) == k.lit(FOCUS)
    g0 = k.eng.glob(k.old.st, 'Player::_currentFocus', STR)
    g1 = k.eng.glob(k.new.st, 'Player::_currentFocus', STR)
    return [('the value of the current focus becomes the focus used by players', z3.Implies(isf, g1 == k.arg(1))),
            ('no other property changes it', z3.Implies(z3.Not(isf), g1 == g0)),
            ('the property is recorded as any other', z3.And(h.len == 1, h.is_(Iv(0), 'set', o=k.this, s=k.arg(0), s2=k.arg(1), d=k.arg(2))))]


@contract('F01', 'Player::setCurrentFocus', abort=no_abort())
def set_focus(k):
    return [('the focus is the given index', k.eng.glob(k.new.st, 'Player::_currentFocus', STR) == k.arg(0))] + unchanged(k, allow=[('glob', 'Player::_currentFocus')])


@contract('F01', 'Player::isFocused', abort=no_abort())
def is_focused(k):
    lv = k.old.f('Player::_prop', k.this)
    fi = prop_of(k, lv, 'focusIndex')
    g = k.eng.glob(k.old.st, 'Player::_currentFocus', STR)
    return [('a player is focused exactly when its non-empty focus index is the focus', k.ret == z3.And(fi != k.lit(''), fi == g))] + unchanged(k)


def prop_of(k, lv, name):
    for i, (n, ft) in enumerate(k.eng.types.comps(k.eng.hkey_type('Player::_prop'))):
        if n == name:
            return k.eng.proj(lv.sort(), i, lv)
    raise Unsupported('Player property ' + name)


def settings_tick_handlers(k):
    keep = MEDIA - {'MediaSettings::_hasNextFocus', 'MediaSettings::_nextFocus'}

    def flag(e, t):
        v = e.sel(e.st, 'MediaSettings::_hasNextFocus', t)
        return z3.If(v, Iv(1), Iv(0)) if z3.is_bool(v) else v
    after = lambda e, t, a: dict(m=flag(e, t))
    return {'MediaSettings::updateCurrentFocus': recorded('update', lambda e, t, a: dict(o=t, s=a[0], x=flag(e, t)), extra=after,
                                                          writes=['Document::evalAction', 'MediaSettings::scheduleFocusUpdate'], keep=keep, virtual=False),
            'Media::sendTick': recorded('tick', lambda e, t, a: dict(o=t, d=a[0], d2=a[1], n=a[2]), extra=after,
                                        writes=['Media::sendTick', 'MediaSettings::scheduleFocusUpdate'], keep=keep, virtual=False)}


@contract('F01', 'MediaSettings::sendTick', handlers=settings_tick_handlers, abort=no_abort())
def settings_tick(k):
    h = Hist(k)
    v = lambda x: z3.If(x, Iv(1), Iv(0)) if z3.is_bool(x) else x
    due = k.old.f('MediaSettings::_hasNextFocus', k.this)
    a = z3.If(due, Iv(1), Iv(0))
    return [('a pending update is carried out, with the requested index', z3.Implies(due, z3.And(h.len >= 1, h.is_(
                Iv(0), 'update', o=k.this, s=k.old.f('MediaSettings::_nextFocus', k.this))))),
            ('once: it is not pending any more', z3.Implies(due, h.get(Iv(0), 'x') == 0)),
            ('an update requested meanwhile stays pending', v(k.new.f('MediaSettings::_hasNextFocus', k.this)) == h.get(a, 'm')),
            ('then the tick is delivered as to any media object', z3.And(h.len == a + 1, h.is_(a, 'tick', o=k.this, d=k.arg(0), d2=k.arg(1), n=k.arg(2))))]


@contract('F01', 'MediaSettings::scheduleFocusUpdate', abort=no_abort())
def schedule_focus(k):
    return [('the update is pending', k.new.f('MediaSettings::_hasNextFocus', k.this)),
            ('with the requested index', k.new.f('MediaSettings::_nextFocus', k.this) == k.arg(0))] + unchanged(
                k, only={'MediaSettings::_hasNextFocus': lambda x: x == k.this, 'MediaSettings::_nextFocus': lambda x: x == k.this})


def focus_index(k, w, m):
    d, v = w.mapdom('Object::_properties', m), w.mapval('Object::_properties', m)
    return z3.If(d[k.lit('focusIndex')], v[k.lit('focusIndex')], k.lit(''))


def onscreen(k, m):
    return z3.And(k.old.f('Event::_state', k.old.f('Object::_lambda', m)) == k.enum('Event::OCCURRING'), focus_index(k, k.old, m) != k.lit(''))


def update_pre(k):
    doc = k.old.f('Object::_doc', k.this)
    k.lit('focusIndex'), k.lit(FOCUS), k.lit('')
    k.assume(doc > 0)
    k.vars['medias'] = k.old.f('Document::_medias', doc)
    valid_set(k, 'Document::_medias', doc)
    x = z3.Int('x!lam')
    l = k.old.arr('Object::_lambda')
    k.assume(z3.ForAll([x], z3.Implies(k.vars['medias'][x], z3.And(l[x] > 0, l[x] < k.old.st.hwm, k.old.f('Event::_object', l[x]) == x)), patterns=[l[x]]))
    k.assume(z3.ForAll([x], z3.Implies(k.vars['medias'][x], k.isa(x, 'Media')), patterns=[k.vars['medias'][x]]))


def update_handlers(k):
    def attr(eng, f, this, args):
        r = ghost(eng, 'attribution_event', I, k.lit('').sort(), I)(this, term(eng, args[0]))
        eng.st.assume(r > 0, fact=True)
        return V(r, T('ptr', T('class', 'Event')))
    return {'Object::getAttributionEvent': attr,
            'Document::evalAction': recorded('eval', lambda e, t, a: dict(o=t, e=a[0], n=a[1], s=a[2]), ret='int', writes=['Document::evalAction'],
                                             keep=MEDIA)}


def update_hints(k):
    from cdv.lib import rank

    def h(loop, head, cursor):
        out = []
        e = k.eng
        S = k.vars['medias']
        at = lambda j: e.enumth.at(e, S, j)
        j = z3.Int('j!f')
        for l in loop.locs:
            if getattr(l.head, 'sort', None) and l.head.sort() == k.lit('').sort():
                out.append(('smallest so far', z3.ForAll([j], z3.Implies(
                    z3.And(cursor.init <= j, j < cursor.head, onscreen(k, at(j))),
                    z3.And(l.head != k.lit(''), rank(e, l.head) <= rank(e, focus_index(k, k.old, at(j))))), patterns=[at(j)])))
        return out
    return [h]


@contract('F01', 'MediaSettings::updateCurrentFocus', pre=update_pre, handlers=update_handlers, hints=update_hints, abort=no_abort(),
          assumes=[STRUCT_NOTE])
def update_focus(k):
    from cdv.lib import rank
    h = Hist(k)
    e = k.eng
    doc = k.old.f('Object::_doc', k.this)
    S = k.vars['medias']
    n, at = e.enumth.len(e, S), lambda i: e.enumth.at(e, S, i)
    ev = ghost(e, 'attribution_event', I, k.lit('').sort(), I)(k.this, k.lit(FOCUS))
    v, req = h.get(Iv(0), 's'), k.arg(0)
    j, w = k.sk('j'), z3.Int('w')
    e.st = k.new.st
    rk = lambda s: rank(e, s)
    out = [('the current focus is set, once', z3.And(h.len == 1, h.is_(Iv(0), 'eval', o=doc, e=ev, n=k.enum('Event::START')))),
           ('to the requested index', z3.Implies(req != k.lit(''), v == req)),
           ('or to one not larger than any on screen', z3.Implies(z3.And(req == k.lit(''), 0 <= j, j < n, onscreen(k, at(j))), z3.And(
               v != k.lit(''), rk(v) <= rk(focus_index(k, k.old, at(j)))))),
           ('that is on screen, or empty', z3.Implies(z3.And(req == k.lit(''), v != k.lit('')), z3.Exists([w], z3.And(
               0 <= w, w < n, onscreen(k, at(w)), v == focus_index(k, k.old, at(w))))))]
    return out
