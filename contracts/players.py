"""Contracts of lib/Player.cpp"""
from .common import *
from .contexts import STRUCTURE, enum_arg
from .medias import silent

B = z3.BoolSort()
SELF = {'Player::_state', 'Player::_time', 'Player::_eos', 'Player::_properties', 'Player::_media', 'Player::_formatter', 'Player::_animator'}
PLAYER_NOTE = 'loading the content and setting properties do not change the state, clock and end-of-stream mark of the player'


def st(k, n):
    return k.enum('Player::' + n)


def r02_handlers(k):
    def sched(eng, f, this, args):
        eng.trace_append(eng.st, eng.mkcall('transition', o=this, s=term(eng, args[0])))
        return VOIDV
    return {'(extern)': extern, 'Player::reload': recorded('reload', lambda e, t, a: dict(o=t), writes=['Player::reload'], keep=STRUCTURE | SELF),
            'Player::setProperty': silent('Player::setProperty', STRUCTURE | SELF),
            'PlayerAnimator::scheduleTransition': sched}


def extern(eng, name, args, n):
    """functions of the multimedia libraries act outside of the objects considered here"""
    if not name.startswith(('gst_', 'g_object_', 'g_signal_', 'g_atomic_', 'g_type_', 'cairo_', 'g_value_', 'g_usleep', 'gdk_', 'pango_', 'g_free')):
        raise Unsupported('library function %s' % name)
    t = eng.T(n)
    if t.k == 'void':
        return VOIDV
    if t.k in ('unk', 'enum'):
        t = I32
    v = fresh(name, eng.types.sort(t))
    if t == I32:
        eng.st.assume(z3.And(-2**31 <= v, v < 2**31), fact=True)
    return V(v, t)


def r02_pre(k):
    S = k.old.f('Player::_state', k.this)
    k.assume(z3.Or([S == st(k, n) for n in ('SLEEPING', 'OCCURRING', 'PAUSED')]))
    k.assume(k.old.f('Player::_animator', k.this) > 0)


def was(*names):
    return lambda k: z3.Not(z3.Or([k.old.f('Player::_state', k.this) == st(k, n) for n in names]))


def others(k):
    x = k.sk('player')
    return ('other players are not touched', z3.Implies(x != k.this, z3.And([k.new.f(f, x) == k.old.f(f, x) for f in ('Player::_state', 'Player::_time', 'Player::_eos')])))


@contract('R02', 'Player::start', pre=r02_pre, handlers=r02_handlers, abort=no_abort(was('SLEEPING', 'PAUSED')), assumes=[PLAYER_NOTE])
def start(k):
    h = Hist(k)
    S = k.old.f('Player::_state', k.this)
    return [('only a player that is not occurring is started', S != st(k, 'OCCURRING')),
            ('it is occurring', k.new.f('Player::_state', k.this) == st(k, 'OCCURRING')),
            ('its clock is at zero', k.new.f('Player::_time', k.this) == 0),
            ('its content is not at the end', z3.Not(k.new.f('Player::_eos', k.this))),
            ('its content is loaded, then the start effect begins', z3.And(h.len == 2, h.is_(Iv(0), 'reload', o=k.this), h.is_(
                Iv(1), 'transition', o=k.old.f('Player::_animator', k.this), s=k.lit('start')))), others(k)]


@contract('R02', 'Player::stop', pre=r02_pre, handlers=r02_handlers, abort=no_abort(was('OCCURRING', 'PAUSED')), assumes=[PLAYER_NOTE])
def stop(k):
    return [('only a player that is not sleeping is stopped', k.old.f('Player::_state', k.this) != st(k, 'SLEEPING')),
            ('it is sleeping', k.new.f('Player::_state', k.this) == st(k, 'SLEEPING')), others(k)]


@contract('R02', 'Player::pause', pre=r02_pre, abort=no_abort(was('OCCURRING')))
def pause(k):
    return [('only an occurring player is paused', k.old.f('Player::_state', k.this) == st(k, 'OCCURRING')),
            ('it is paused', k.new.f('Player::_state', k.this) == st(k, 'PAUSED'))] + unchanged(k, only={'Player::_state': lambda x: x == k.this})


@contract('R02', 'Player::resume', pre=r02_pre, abort=no_abort(was('PAUSED')))
def resume(k):
    return [('only a paused player is resumed', k.old.f('Player::_state', k.this) == st(k, 'PAUSED')),
            ('it is occurring', k.new.f('Player::_state', k.this) == st(k, 'OCCURRING'))] + unchanged(k, only={'Player::_state': lambda x: x == k.this})


@contract('R02', 'Player::incTime', abort=no_abort())
def inctime(k):
    t0, t1 = k.old.f('Player::_time', k.this), k.new.f('Player::_time', k.this)
    return [('the clock advances by exactly that much', t1 == (t0 + k.arg(0)) % 2 ** 64)] + unchanged(k, only={'Player::_time': lambda x: x == k.this})


@contract('R02', 'Player::getTime', abort=no_abort())
def gettime(k):
    return [('the clock is read', k.ret == k.old.f('Player::_time', k.this))] + unchanged(k)


@contract('R02', 'Player::getState', abort=no_abort())
def getstate(k):
    return [('the state is read', k.ret == k.old.f('Player::_state', k.this))] + unchanged(k)


@contract('R02', 'Player::getEOS', abort=no_abort())
def geteos(k):
    return [('the mark is read', k.ret == k.old.f('Player::_eos', k.this))] + unchanged(k)


@contract('R02', 'Player::setEOS', abort=no_abort())
def seteos(k):
    return [('the mark is set', k.new.f('Player::_eos', k.this) == k.arg(0))] + unchanged(k, only={'Player::_eos': lambda x: x == k.this})


# ---------------------------------------------------------------- R01
TABLES = ['player_property_map', 'player_property_aliases']
#: what each documented property falls back to (None: not a property of this kind)
DEFAULTS = dict(background='', balance='0.0', bass='0', bottom='0%', bounds='0%,0%,100%,100%', debug='false', duration='indefinite', focusIndex='',
                focusBorderColor='yellow', focusBorderWidth='4', focusBorderTransparency='0%', selBorderColor='yellow', fontBgColor='', fontColor='black',
                fontFamily='sans', fontSize='12', fontStyle='', fontVariant='', fontWeight='', freeze='false', freq='440', remotePlayerBaseURL='',
                height='100%', horzAlign='left', left='0', location='0,0', mute='false', right='0%', size='100%,100%', speed='1',
                currentTime='indefinite', time='indefinite', top='0', transparency='0%', treble='0', vertAlign='top', visible='true', volume='100%',
                wave='sine', width='100%', zIndex='0', zOrder='0', uri='', type='application/x-ginga-timer')
CODES = dict(background='BACKGROUND', balance='BALANCE', bass='BASS', bottom='BOTTOM', bounds='BOUNDS', debug='DEBUG', duration='DURATION',
             focusIndex='FOCUS_INDEX', focusBorderColor='FOCUS_BORDER_COLOR', focusBorderWidth='FOCUS_BORDER_WIDTH',
             focusBorderTransparency='FOCUS_BORDER_TRANSPARENCY', selBorderColor='SEL_BORDER_COLOR', fontBgColor='FONT_BG_COLOR', fontColor='FONT_COLOR',
             fontFamily='FONT_FAMILY', fontSize='FONT_SIZE', fontStyle='FONT_STYLE', fontVariant='FONT_VARIANT', fontWeight='FONT_WEIGHT', freeze='FREEZE',
             freq='FREQ', remotePlayerBaseURL='REMOTE_PLAYER_BASE_URL', height='HEIGHT', horzAlign='HORZ_ALIGN', left='LEFT', location='LOCATION',
             mute='MUTE', right='RIGHT', size='SIZE', speed='SPEED', currentTime='TIME', time='TIME', top='TOP', transparency='TRANSPARENCY',
             treble='TREBLE', vertAlign='VERT_ALIGN', visible='VISIBLE', volume='VOLUME', wave='WAVE', width='WIDTH', zIndex='Z_INDEX', zOrder='Z_ORDER',
             uri='URI', type='TYPE')
ALTERNATIVE = dict(backgroundColor='background', balanceLevel='balance', bassLevel='bass', explicitDur='duration', soundLevel='volume', rate='speed',
                   trebleLevel='treble')


def names(k):
    for n in list(DEFAULTS) + list(ALTERNATIVE) + list(DEFAULTS.values()):
        k.lit(n)


@contract('R01', 'Player::getPlayerProperty', pre=names, abort=no_abort(), const=TABLES)
def table(k):
    name = k.arg(0)
    dv, code = k.out(1), k.ret
    every = {n: ALTERNATIVE.get(n, n) for n in list(DEFAULTS) + list(ALTERNATIVE)}

    def lookup(val, other):
        e = other
        for n, m in every.items():
            e = z3.If(name == k.lit(n), val(m), e)
        return e
    return [('every documented name designates its property, any other name none', code == lookup(lambda m: st(k, 'PROP_' + CODES[m]), st(k, 'PROP_UNKNOWN'))),
            ('every documented name has its default, any other none', z3.Implies(z3.Not(k.isnull(1)), dv == lookup(lambda m: k.lit(DEFAULTS[m]), k.lit(''))))
            ]


# values: what each notation denotes is specified by V01-V05
def parsers(k):
    from .animations import items, parts, percent, option
    e = k.eng

    def one(name, sort, t):
        def h(eng, f, this, args):
            return V(ghost(eng, name, eng.types.STR, sort)(term(eng, args[0])), t)
        return h

    def pct(eng, f, this, args):
        a = [term(eng, x) for x in args]
        r = percent(eng, *a)
        eng.st.assume(z3.And(a[2] <= r, r <= a[3]), fact=True)
        return V(r, I32)

    def col(eng, f, this, args):
        return V(parts(eng, term(eng, args[0])), T('class', 'GdkRGBA'))

    def pixel(eng, f, this, args):
        r = ghost(eng, 'parse_pixel', eng.types.STR, I)(term(eng, args[0]))
        eng.st.assume(z3.And(0 <= r, r <= 255), fact=True)
        return V(r, U8)

    def integer(eng, f, this, args):
        r = ghost(eng, 'strtoint', eng.types.STR, I, I)(*[term(eng, x) for x in args])
        eng.st.assume(z3.And(-2**31 <= r, r < 2**31), fact=True)
        return V(r, I32)

    def lst(eng, f, this, args):
        a = [term(eng, x) for x in args[:4]]
        v, t = items(eng, *a)
        n = v.sort().accessor(0, 0)(v)
        ok = ghost(eng, 'is_list', eng.types.STR, I, I, I, B)(*a)
        eng.st.assume(z3.Implies(ok, z3.And(a[2] <= n, n <= a[3])), fact=True)
        if eng.choose(ok):
            if isinstance(args[4], PtrLV) and eng.choose(z3.Not(args[4].null) if not isinstance(args[4].null, bool) else z3.BoolVal(not args[4].null)):
                eng.write(eng.st, args[4].lv, V(v, t))
            return eng.B(z3.BoolVal(True))
        return eng.B(z3.BoolVal(False))

    def opt(eng, f, this, args):
        return V(option(eng, this, term(eng, args[0])), I32)
    time = one('parse_time', I, U64)
    return {'parse_percent': pct, 'parse_color': col, 'parse_pixel': pixel, 'xstrtoint': integer, 'try_parse_list': lst, 'Formatter::getOptionInt': opt,
            'parse_bool': one('parse_bool', B, BOOL), 'parse_time': time}


KEEP = STRUCTURE | SELF | {'Player::_dirty', 'Player::_crop', 'Object::_properties', 'Player::_id'}


def setmedia(k):
    """changes asked of the media object: recorded together with the size of the player at that moment"""
    def rec(eng, o, a):
        return dict(o=o, s=a[0], s2=a[1], n=size(eng, eng.sel(eng.st, 'Player::_prop', k.this), 'width'), m=size(
            eng, eng.sel(eng.st, 'Player::_prop', k.this), 'height'))
    return recorded('set', rec, writes=['Media::setProperty'], keep=KEEP | {'Player::_prop'})


def fld(e, name):
    s = e.sort()
    for i in range(s.constructor(0).arity()):
        if s.accessor(0, i).name() == name or s.accessor(0, i).name().endswith('.' + name):
            return s.accessor(0, i)(e)
    raise Unsupported('no field %s of %s' % (name, s))


def upd(e, name, v):
    s = e.sort()
    vals = [s.accessor(0, i)(e) for i in range(s.constructor(0).arity())]
    ns = [s.accessor(0, i).name() for i in range(len(vals))]
    i = [j for j, n in enumerate(ns) if n == name or n.endswith('.' + name)][0]
    vals[i] = v
    return s.constructor(0)(*vals)


def size(eng, p, name):
    return fld(fld(p, 'rect'), name)


def dset_handlers(k):
    h = parsers(k)
    h['Media::setProperty'] = h['Object::setProperty'] = setmedia(k)

    def getp(eng, f, this, args):
        return V(ghost(eng, 'media_property', I, eng.types.STR, eng.types.STR)(this, term(eng, args[0])), STR)
    h['Object::getProperty'] = h['Media::getProperty'] = getp
    return h


def dset_pre(k):
    enum_arg(k, 0, 'Player::Property')
    k.assume(z3.And(k.old.f('Player::_media', k.this) > 0, k.old.f('Player::_formatter', k.this) > 0))


@contract('R01', 'Player::doSetProperty', pre=dset_pre, handlers=dset_handlers, abort=no_abort(),
          assumes=['a nested change of the media object changes no other field of the player than the one it names (its own contract)'])
def doset(k):
    from .animations import items, parts, percent, option
    e, h = k.eng, Hist(k)
    code, v = k.arg(0), k.arg(2)
    p0, p1 = k.old.f('Player::_prop', k.this), k.new.f('Player::_prop', k.this)
    fmt, med = k.old.f('Player::_formatter', k.this), k.old.f('Player::_media', k.this)
    W, H = option(e, fmt, k.lit('width')), option(e, fmt, k.lit('height'))
    MAX = Iv(2**31 - 1)
    g = lambda n, sort: ghost(e, n, e.types.STR, sort)(v)
    pct = lambda base: percent(e, v, base, Iv(0), MAX)
    rect = lambda n, x: upd(p0, 'rect', upd(fld(p0, 'rect'), n, x))
    num = ghost(e, 'strtoint', e.types.STR, I, I)(v, Iv(10))
    col = parts(e, v)
    black = col.sort().constructor(0)(*[z3.RealVal(0)] * 4)
    empty = k.lit('')
    pixel = g('parse_pixel', I)
    mprop = lambda n: ghost(e, 'media_property', I, e.types.STR, e.types.STR)(med, k.lit(n))
    is_ = lambda n: code == st(k, 'PROP_' + n)
    simple = dict(DEBUG=upd(p0, 'debug', g('parse_bool', B)), VISIBLE=upd(p0, 'visible', g('parse_bool', B)), FOCUS_INDEX=upd(p0, 'focusIndex', v),
                  URI=upd(p0, 'uri', v), TYPE=upd(p0, 'type', v), Z_INDEX=upd(p0, 'zindex', num), Z_ORDER=upd(p0, 'zorder', num),
                  FOCUS_BORDER_WIDTH=upd(p0, 'focusBorderWidth', num), FOCUS_BORDER_COLOR=upd(p0, 'focusBorderColor', col),
                  SEL_BORDER_COLOR=upd(p0, 'selBorderColor', col), TRANSPARENCY=upd(p0, 'alpha', 255 - pixel),
                  FOCUS_BORDER_TRANSPARENCY=upd(p0, 'focusBorderTransparency', 255 - pixel),
                  BACKGROUND=upd(p0, 'bgColor', z3.If(v == empty, black, col)),
                  DURATION=upd(p0, 'duration', z3.If(v == k.lit('indefinite'), Iv(2**64 - 1), g('parse_time', I))),
                  LEFT=rect('x', pct(W)), TOP=rect('y', pct(H)), RIGHT=rect('x', W - size(e, p0, 'width') - pct(W)),
                  BOTTOM=rect('y', H - size(e, p0, 'height') - pct(H)), WIDTH=rect('width', pct(W)), HEIGHT=rect('height', pct(H)))
    out = []
    for n, want in simple.items():
        out.append(('%s: the value is applied, nothing else' % n.lower(), z3.Implies(is_(n), z3.And(k.ret, p1 == want))))
    for n, back in (('WIDTH', 'right'), ('HEIGHT', 'bottom')):
        s = mprop(back)
        out.append(('%s: afterwards the %s distance is kept, if there is one' % (n.lower(), back), z3.Implies(is_(n), z3.If(
            s == empty, h.len == 0, z3.And(h.len == 1, h.is_(Iv(0), 'set', o=med, s=k.lit(back), s2=s, n=size(e, p1, 'width'), m=size(e, p1, 'height')))))))
    comp = dict(BOUNDS=('left', 'top', 'width', 'height'), LOCATION=('left', 'top'), SIZE=('width', 'height'))
    for n, parts_ in comp.items():
        a = (v, Iv(ord(',')), Iv(len(parts_)), Iv(len(parts_)))
        ok = ghost(e, 'is_list', e.types.STR, I, I, I, B)(*a)
        L, _ = items(e, *a)
        calls = [h.is_(Iv(i), 'set', o=med, s=k.lit(x), s2=L.sort().accessor(0, 1)(L)[i]) for i, x in enumerate(parts_)]
        out.append(('%s: its items are applied one by one' % n.lower(), z3.Implies(z3.And(is_(n), ok), z3.And([k.ret, h.len == len(parts_)] + calls))))
        out.append(('%s: a bad value is refused and changes nothing' % n.lower(), z3.Implies(z3.And(is_(n), z3.Not(ok)), z3.And(z3.Not(k.ret), h.len == 0, p1 == p0))))
    plain = z3.And([z3.Not(is_(n)) for n in list(simple) + list(comp)])
    out.append(('any other property has no effect here', z3.Implies(plain, z3.And(k.ret, p1 == p0))))
    out.append(('nothing else is asked of the media object', z3.Implies(z3.And([z3.Not(is_(n)) for n in ('WIDTH', 'HEIGHT', 'BOUNDS', 'LOCATION', 'SIZE')]), h.len == 0)))
    x = k.sk('player')
    out.append(('other players are not touched', z3.Implies(x != k.this, k.new.f('Player::_prop', x) == k.old.f('Player::_prop', x))))
    return out


GEOM = ['LEFT', 'RIGHT', 'TOP', 'BOTTOM', 'WIDTH', 'HEIGHT']


@contract('R01', 'Player::doSetProperty', pre=dset_pre, handlers=dset_handlers, name='Player::doSetProperty(redraw)')
def doset_dirty(k):
    geom = z3.Or([k.arg(0) == st(k, 'PROP_' + n) for n in GEOM])
    d0, d1 = k.old.f('Player::_dirty', k.this), k.new.f('Player::_dirty', k.this)
    return [('the content is to be loaded again after a change of geometry', z3.Implies(geom, d1)),
            ('and it is never forgotten', z3.Implies(d0, d1))]


def set_handlers(k):
    def info(eng, f, this, args):
        n = term(eng, args[0])
        if isinstance(args[1], PtrLV) and eng.choose(z3.Not(args[1].null) if not isinstance(args[1].null, bool) else z3.BoolVal(not args[1].null)):
            eng.write(eng.st, args[1].lv, V(ghost(eng, 'default', eng.types.STR, eng.types.STR)(n), STR))
        c = ghost(eng, 'property', eng.types.STR, I)(n)
        vals = sorted(set(k.eng.prog.enums['Player::Property'].values()))
        eng.st.assume(z3.Or([c == x for x in vals]), fact=True)
        return V(c, I32)

    def trans(eng, f, this, args):
        eng.trace_append(eng.st, eng.mkcall('effect', o=this, s=term(eng, args[0]), s2=term(eng, args[1])))
        return VOIDV
    return {'Player::getPlayerProperty': info, 'PlayerAnimator::setTransitionProperties': trans,
            'Player::doSetProperty': recorded('apply', lambda e, t, a: dict(o=t, n=a[0], s=a[1], s2=a[2]), ret='bool', writes=['Player::doSetProperty'],
                                              keep=STRUCTURE | SELF)}


def refused(k):
    h = Hist(k)
    return z3.And(h.len > 0, z3.Not(h.get(h.len - 1, 'r')) if z3.is_bool(h.get(h.len - 1, 'r')) else h.get(h.len - 1, 'r') == 0)


@contract('R01', 'Player::setProperty', pre=r02_pre, handlers=set_handlers, assumes=[
    'applying a property (doSetProperty) does not change the state, clock and stored properties of the player'])
def setprop(k):
    h, e = Hist(k), k.eng
    name, value = k.arg(0), k.arg(1)
    empty = k.lit('')
    code = ghost(e, 'property', e.types.STR, I)(name)
    dflt = ghost(e, 'default', e.types.STR, e.types.STR)(name)
    eff = z3.Or(name == k.lit('transIn'), name == k.lit('transOut'))
    d0, v0 = k.old.mapdom('Player::_properties', k.this), k.old.mapval('Player::_properties', k.this)
    d1, v1 = k.new.mapdom('Player::_properties', k.this), k.new.mapval('Player::_properties', k.this)
    lua = z3.And(d0[k.lit('type')], v0[k.lit('type')] == k.lit('application/x-ginga-NCLua'))
    applied = z3.Or(code != st(k, 'PROP_UNKNOWN'), lua)
    b = z3.If(eff, Iv(1), Iv(0))
    n = k.sk('name', empty.sort())
    return [('an effect is given to the animator', z3.Implies(eff, h.is_(Iv(0), 'effect', o=k.old.f('Player::_animator', k.this), s=name, s2=value))),
            ('a known property is applied once, with the value or, if that is empty, its default', z3.Implies(applied, z3.And(
                h.len == b + 1, h.is_(b, 'apply', o=k.this, n=code, s=name, s2=z3.If(value == empty, dflt, value))))),
            ('an unknown property has no effect', z3.Implies(z3.Not(applied), h.len == b)),
            ('the value is stored as it was given', z3.And(d1[name], v1[name] == value)),
            ('the other properties keep their values', z3.Implies(n != name, z3.And(d1[n] == d0[n], z3.Implies(d0[n], v1[n] == v0[n]))))]


@contract('R01', 'Player::getProperty', abort=no_abort())
def getprop(k):
    n = k.arg(0)
    d0, v0 = k.old.mapdom('Player::_properties', k.this), k.old.mapval('Player::_properties', k.this)
    return [('the stored value, or nothing', k.ret == z3.If(d0[n], v0[n], k.lit('')))] + unchanged(k)


def reset_handlers(k):
    return {'Player::setProperty': recorded('set', lambda e, t, a: dict(o=t, s=a[0], s2=a[1]), writes=['Player::setProperty'], keep=STRUCTURE)}


@contract('R01', 'Player::resetProperties', nparams=0, handlers=reset_handlers, abort=no_abort())
def reset(k):
    h, e = Hist(k), k.eng
    t = e.types.parse('map<string, PlayerPropertyInfo>', 'ginga')
    m = e.glob(k.old.st, 'player_property_map', t)
    dom, val = m.sort().accessor(0, 0)(m), m.sort().accessor(0, 1)(m)
    n, at = e.enumth.len(e, dom), lambda i: e.enumth.at(e, dom, i)
    x = k.sk('name', k.lit('').sort())
    return [selection(k, n, lambda i: fld(val[at(i)], 'init'), h.len, lambda p, i: h.is_(p, 'set', o=k.this, s=at(i), s2=k.lit('')),
                      name='exactly each property that has an initial state is given its default'),
            ('no value is stored', z3.Not(k.new.mapdom('Player::_properties', k.this)[x]))]


def names_pre(k):
    pass


@contract('R01', 'Player::resetProperties', nparams=1, handlers=reset_handlers, abort=no_abort(), name='Player::resetProperties(names)')
def reset_names(k):
    h, e = Hist(k), k.eng
    S = k.arg(0)
    if isinstance(S, PtrLV):
        S = k.old.local(S.lv).e
    p = k.sk('position')
    return [('each of the names is given its default, nothing else', z3.And(h.len == e.enumth.len(e, S), z3.Implies(
        z3.And(0 <= p, p < h.len), h.is_(p, 'set', o=k.this, s=e.enumth.at(e, S, p), s2=k.lit('')))))]


@contract('R01', 'Player::getZ', abort=no_abort())
def getz(k):
    p = k.old.f('Player::_prop', k.this)
    return [('the z-index is read', z3.Implies(z3.Not(k.isnull(0)), k.out(0) == fld(p, 'zindex'))),
            ('the z-order is read', z3.Implies(z3.Not(k.isnull(1)), k.out(1) == fld(p, 'zorder')))] + unchanged(k)


@contract('R01', 'Player::getDuration', abort=no_abort())
def getdur(k):
    return [('the duration is read', k.ret == fld(k.old.f('Player::_prop', k.this), 'duration'))] + unchanged(k)


@contract('R01', 'Player::setDuration', abort=no_abort())
def setdur(k):
    p0, p1 = k.old.f('Player::_prop', k.this), k.new.f('Player::_prop', k.this)
    return [('the duration is set, nothing else', p1 == upd(p0, 'duration', k.arg(0)))] + unchanged(k, only={'Player::_prop': lambda x: x == k.this})


@contract('R01', 'Player::isFocused', abort=no_abort())
def isfocused(k):
    f = fld(k.old.f('Player::_prop', k.this), 'focusIndex')
    cur = k.eng.glob(k.old.st, 'Player::_currentFocus', STR)
    return [('a player is focused when its focus index is the current one', k.ret == z3.And(f != k.lit(''), f == cur))] + unchanged(k)


@contract('R02', 'Player::Player', handlers=lambda k: {'Player::setProperty': silent('Player::setProperty', STRUCTURE | SELF),
                                                       'Formatter::getOptionBool': lambda eng, f, this, args: V(fresh('opt', B), BOOL),
                                                       'new PlayerAnimator': lambda eng, o, args: None},
          assumes=[PLAYER_NOTE])
def ctor(k):
    return [('it is sleeping', k.new.f('Player::_state', k.this) == st(k, 'SLEEPING')), ('its clock is at zero', k.new.f('Player::_time', k.this) == 0),
            ('its content is not at the end', z3.Not(k.new.f('Player::_eos', k.this))),
            ('it belongs to that media object', k.new.f('Player::_media', k.this) == k.arg(1))]


GST = 'functions of GStreamer, GLib objects and cairo change no field of the players'
for _q, _ms in (('PlayerVideo', ('start', 'stop', 'pause', 'resume')), ('PlayerSigGen', ('stop', 'pause', 'resume'))):
    for _m in _ms:
        def _mk(q, m):
            @contract('R02', q + '::' + m, pre=r02_pre, handlers=r02_handlers, assumes=[PLAYER_NOTE, GST])
            def post(k):
                S, S1 = k.old.f('Player::_state', k.this), k.new.f('Player::_state', k.this)
                was_, now = dict(start=(('SLEEPING', 'PAUSED'), 'OCCURRING'), stop=(('OCCURRING', 'PAUSED'), 'SLEEPING'),
                                 pause=(('OCCURRING',), 'PAUSED'), resume=(('PAUSED',), 'OCCURRING'))[m]
                out = [('only in the right state', z3.Or([S == st(k, w) for w in was_])), ('it is in the state asked for', S1 == st(k, now)), others(k)]
                if m == 'start':
                    out.append(('its clock is at zero', k.new.f('Player::_time', k.this) == 0))
                return out
        _mk(_q, _m)


# ---------------------------------------------------------------- R04
MIME = dict(ac3='audio/ac3', avi='video/x-msvideo', avif='image/avif', bmp='image/bmp', bpg='image/x-bpg', css='text/css', gif='image/gif',
            htm='text/html', html='text/html', heic='image/heic', heif='image/heic', jpeg='image/jpeg', jpg='image/jpeg', lua='application/x-ginga-NCLua',
            mov='video/quicktime', mp2='audio/mp2', mp3='audio/mp3', mp4='video/mp4', mpa='audio/mpa', mpeg='video/mpeg', mpg='video/mpeg',
            mpv='video/mpv', ncl360='application/x-ncl360', ncl='application/x-ginga-ncl', oga='audio/ogg', ogg='audio/ogg', ogv='video/ogg',
            opus='audio/ogg', png='image/png', smil='application/smil', spx='audio/ogg', srt='text/srt', ssml='application/ssml+xml',
            svg='image/svg+xml', svgz='image/svg+xml', ts='video/mpeg', txt='text/plain', wav='audio/basic', webp='image/x-webp',
            wmv='video/x-ms-wmv', xlet='application/x-ginga-NCLet', xlt='application/x-ginga-NCLet', xml='text/xml')
MIME['class'] = 'application/x-ginga-NCLet'


@contract('R04', 'mime_table_index', abort=no_abort(), const=['mime_table'], pre=lambda k: [k.lit(x) for x in list(MIME) + list(MIME.values())] and None)
def mime(k):
    s = k.arg(0)
    e = k.lit('')
    for n, m in MIME.items():
        e = z3.If(s == k.lit(n), k.lit(m), e)
    return [('a file name extension has a type exactly when it is known', k.ret == z3.Or([s == k.lit(n) for n in MIME])),
            ('and that type', z3.Implies(z3.And(k.ret, z3.Not(k.isnull(1))), k.out(1) == e)),
            ('otherwise the result is untouched', z3.Implies(z3.And(z3.Not(k.ret), z3.Not(k.isnull(1))), untouched(k, 1)))] + unchanged(k)


def ext_known(eng, s):
    return ghost(eng, 'ext_known', s.sort(), B)(s)


def ext_type(eng, s):
    return ghost(eng, 'ext_type', s.sort(), s.sort())(s)


def table_handlers(k):
    def index(eng, f, this, args):
        s = term(eng, args[0])
        ok = eng.choose(ext_known(eng, s))
        if ok and isinstance(args[1], PtrLV):
            eng.write(eng.st, args[1].lv, V(ext_type(eng, s), STR))
        return eng.B(ok)
    return {'mime_table_index': index}


@contract('R04', 'Player::getMimeForURI', strings=True, handlers=table_handlers, abort=no_abort())
def mime_uri(k):
    s = k.arg(0)
    i = z3.LastIndexOf(s, z3.StringVal('.'))
    ext = z3.SubString(s, i + 1, z3.Length(s) - i - 1)
    good = z3.And(i >= 0, i + 1 < z3.Length(s), ext_known(k.eng, ext))
    return [('the type of a uri is that of the part after the last dot, if known', k.ret == good),
            ('and it is told', z3.Implies(z3.And(good, z3.Not(k.isnull(1))), k.out(1) == ext_type(k.eng, ext)))]


def uri_type(eng, s):
    return ghost(eng, 'uri_known', s.sort(), B)(s), ghost(eng, 'uri_type', s.sort(), s.sort())(s)


def create_handlers(k):
    def mime(eng, f, this, args):
        ok, t = uri_type(eng, term(eng, args[0]))
        ok = eng.choose(ok)
        if ok and isinstance(args[1], PtrLV):
            eng.write(eng.st, args[1].lv, V(t, STR))
        return eng.B(ok)

    def made(cls):
        def h(eng, o, args):
            v = [eng.load(eng.ev(a)) for a in args]
            eng.trace_append(eng.st, eng.mkcall('made', o=o.e, s=eng.lit(cls), e=term(eng, v[0]), x=term(eng, v[1])))
        return h
    d = {'Player::getMimeForURI': mime,
         'PlayerRemote::usesPlayerRemote': lambda eng, f, this, args: V(ghost(eng, 'remote', I, B)(term(eng, args[0])), BOOL),
         'Object::getProperty': lambda eng, f, this, args: V(ghost(eng, 'property', I, eng.types.STR, eng.types.STR)(this, term(eng, args[0])), STR),
         'Media::setProperty': recorded('set', lambda e, t, a: dict(o=t, s=a[0], s2=a[1]), writes=['Object::setProperty'], keep=STRUCTURE)}
    d['Media::setProperty'].virtual = True
    for c in 'Player PlayerVideo PlayerSigGen PlayerImage PlayerText PlayerRemote PlayerSvg PlayerLua PlayerHTML'.split():
        d['new ' + c] = made(c)
    return d


def of_type(k):
    """the type a media object is taken to have"""
    uri, typ = k.arg(2), k.arg(3)
    ok, t = uri_type(k.eng, uri)
    empty = k.lit('')
    m = z3.If(z3.And(typ == empty, uri != empty, ok), t, typ)
    return z3.If(m == empty, k.lit('application/x-ginga-timer'), m)


def starts(k, m, p):
    return k.eng.strop('has_prefix', m, k.lit(p), ret=B)


def kind(k, m):
    """the player of a type"""
    L = k.lit
    e = z3.If(m == L('application/x-ginga-NCLua'), L('PlayerLua'), L('Player'))
    e = z3.If(ghost(k.eng, 'remote', I, B)(k.arg(1)), L('PlayerRemote'), e)
    e = z3.If(m == L('text/plain'), L('PlayerText'), e)
    e = z3.If(starts(k, m, 'image'), L('PlayerImage'), e)
    e = z3.If(m == L('application/x-ginga-siggen'), L('PlayerSigGen'), e)
    return z3.If(z3.Or(starts(k, m, 'audio'), starts(k, m, 'video')), L('PlayerVideo'), e)


def unknown(k):
    """a uri of unknown type: nothing could present it"""
    m = of_type(k)
    prop = ghost(k.eng, 'property', I, k.eng.types.STR, k.eng.types.STR)(k.arg(1), k.lit('uri'))
    return z3.And(kind(k, m) == k.lit('Player'), m != k.lit('application/x-ginga-timer'), k.arg(2) != k.lit(''), prop != k.lit(''))


def create_pre(k):
    k.assume(z3.And(k.arg(0) > 0, k.arg(1) > 0))
    m = of_type(k)
    # a string that begins with a longer word begins with its beginning
    k.assume(z3.Implies(starts(k, m, 'image/svg'), starts(k, m, 'image')))


@contract('R04', 'Player::createPlayer', handlers=create_handlers, abort=no_abort(lambda k: of_type(k) == k.lit('application/x-ginga-ncl'), unknown),
          pre=create_pre, assumes=['recording the type of the media object changes nothing else here'])
def create(k):
    h = Hist(k)
    m = of_type(k)
    return [('one player is made, of the kind its type asks for', z3.And(h.len == 2, h.is_(Iv(0), 'made', o=k.ret, s=kind(k, m)))),
            ('for that formatter and media object', z3.And(h.get(Iv(0), 'e') == k.arg(0), h.get(Iv(0), 'x') == k.arg(1))),
            ('and the type is recorded', h.is_(Iv(1), 'set', o=k.arg(1), s=k.lit('type'), s2=m))]
