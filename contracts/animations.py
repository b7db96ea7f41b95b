"""Contracts of lib/PlayerAnimator.cpp (animations; doubles are treated as real numbers)"""
from cdv.contract import View
from .common import *

R, B = z3.RealSort(), z3.BoolSort()
REALS = 'double-precision arithmetic is treated as exact; clocks stay below 2**62 ns'


def absr(x):
    return z3.If(x >= 0, x, -x)


def has_field(k, key):
    try:
        k.eng.heap_sort(key)
        return True
    except Exception:  # noqa
        return False


class Anim:
    """the state of one animation, and what is known about it since it was initialised at time t0 with value c0"""

    def __init__(self, k, w):
        f = lambda n: w.f('AnimInfo::' + n, k.this)
        self.cur, self.target, self.dur, self.last, self.speed, self.done, self.init = [
            f(n) for n in ('_current', '_target', '_duration', '_last_update', '_speed', '_done', '_init')]
        self.k, self.w = k, w

    def inv(self, c0, t0):
        D = absr(self.target - c0)
        out = [self.init, self.speed >= 0, t0 <= self.last, self.dur >= 0,
               z3.Implies(self.dur > 0, self.speed * z3.ToReal(self.dur) == D),
               z3.Implies(self.dur == 0, self.speed == 0),
               z3.Implies(z3.Not(self.done), absr(self.target - self.cur) == D - self.speed * z3.ToReal(self.last - t0)),
               z3.Implies(self.done, self.cur == self.target)]
        if has_field(self.k, 'AnimInfo::_start'):
            out.append(self.w.f('AnimInfo::_start', self.k.this) == t0)
        return out


def upd_pre(k):
    a = Anim(k, k.old)
    c0, t0 = z3.Real('c0'), z3.Int('t0')
    k.vars['c0'], k.vars['t0'] = c0, t0
    k.assume(z3.And(a.inv(c0, t0)))
    k.assume(z3.And(0 <= t0, a.last <= k.arg(0), k.arg(0) < 2**62, a.dur < 2**62, z3.Not(a.done)))


@contract('A01', 'AnimInfo::update', pre=upd_pre, abort=no_abort(), nparams=1, assumes=[REALS, 'the clock of a player does not run backwards'])
def anim_update(k):
    a, b = Anim(k, k.old), Anim(k, k.new)
    c0, t0, t = k.vars['c0'], k.vars['t0'], k.arg(0)
    step = a.speed * z3.ToReal(t - a.last)
    moved = absr(b.cur - a.cur)
    names = ['it stays initialised', 'the speed is not negative', 'time moves on', 'durations are not negative', 'the speed covers the distance in the duration',
             'a zero duration has no speed', 'the distance left is what is left at constant speed', 'a finished animation is at its target', 'its start is remembered']
    return [('it moves by at most the distance covered in the elapsed time', z3.Implies(a.dur > 0, moved <= step)),
            ('toward the target and never past it', z3.Or(z3.And(a.cur <= b.cur, b.cur <= a.target), z3.And(a.cur >= b.cur, b.cur >= a.target))),
            ('once the duration has elapsed it is at the target and finished', z3.Implies(t - t0 >= a.dur, z3.And(b.cur == a.target, b.done))),
            ('with zero duration it is finished, at the target', z3.Implies(a.dur == 0, z3.And(b.cur == a.target, b.done))),
            ('the target, the duration and the speed stay', z3.And(b.target == a.target, b.dur == a.dur, b.speed == a.speed)),
            ('the time of the update is remembered', b.last == t)] + \
        list(zip(names, b.inv(c0, t0))) + unchanged(k, only={f: lambda x: x == k.this for f in ('AnimInfo::_current', 'AnimInfo::_last_update', 'AnimInfo::_done')})


def init_pre(k):
    a = Anim(k, k.old)
    k.assume(z3.And(z3.Not(a.init), z3.Not(a.done), 0 <= k.arg(1), k.arg(1) < 2**62, a.dur >= 0))


@contract('A01', 'AnimInfo::init', pre=init_pre, abort=no_abort(), assumes=[REALS])
def anim_init(k):
    a, b = Anim(k, k.old), Anim(k, k.new)
    names = ['it is initialised', 'the speed is not negative', 'time starts now', 'durations are not negative', 'the speed covers the distance in the duration',
             'a zero duration has no speed', 'the whole distance is left', 'a finished animation is at its target', 'its start is remembered']
    return [('it starts at the given value', b.cur == k.arg(0)), ('now', b.last == k.arg(1)),
            ('the target and the duration stay', z3.And(b.target == a.target, b.dur == a.dur)), ('it is not finished', z3.Not(b.done))] + \
        list(zip(names, b.inv(k.arg(0), k.arg(1))))


@contract('A01', 'AnimInfo::AnimInfo', abort=no_abort())
def anim_ctor(k):
    b = Anim(k, k.new)
    return [('it has the given name', k.new.f('AnimInfo::_name', k.this) == k.arg(0)),
            ('start value, target and duration are the given ones', z3.And(b.cur == k.arg(1), b.target == k.arg(2), b.dur == k.arg(3))),
            ('it is neither initialised nor finished', z3.And(z3.Not(b.init), z3.Not(b.done)))]


# ---------------------------------------------------------------- A02: what is scheduled
TIME = z3.IntSort()


def strs(k):
    return k.lit('').sort()


def items(eng, S, sep, lo, hi):
    """the items of a list value (ghost: parse_list is specified by V04)"""
    t = T('list', STR)
    L = eng.types.sort(t)
    return ghost(eng, 'parse_list', eng.types.STR, I, I, I, L)(S, sep, lo, hi), t


def parts(eng, s):
    return ghost(eng, 'parse_color', eng.types.STR, eng.types.sort(T('class', 'GdkRGBA')))(s)


def percent(eng, s, base, lo, hi):
    return ghost(eng, 'parse_percent', eng.types.STR, I, I, I, I)(s, base, lo, hi)


def option(eng, fmt, name):
    return ghost(eng, 'option', I, eng.types.STR, I)(fmt, name)


def sched_handlers(k):
    def lst(eng, f, this, args):
        a = [term(eng, x) for x in args]
        e, t = items(eng, *a)
        n = e.sort().accessor(0, 0)(e)
        eng.st.assume(z3.And(a[2] <= n, n <= a[3]), fact=True)
        return V(e, t)

    def col(eng, f, this, args):
        return V(parts(eng, term(eng, args[0])), T('class', 'GdkRGBA'))
    return {'parse_list': lst, 'parse_color': col,
            'PlayerAnimator::doSchedule': recorded('schedule', lambda e, t, a: dict(o=t, s=a[0], s2=a[1], s3=a[2], d=a[3]), writes=['PlayerAnimator::doSchedule'],
                                                   virtual=False)}


COMPOUND = {'bounds': ('left', 'top', 'width', 'height'), 'location': ('left', 'top'), 'size': ('width', 'height')}
COLOR = ('background:r', 'background:g', 'background:b')


def sched_pre(k):
    for n in list(COMPOUND) + ['background', ''] + list(COLOR) + [x for v in COMPOUND.values() for x in v]:
        k.lit(n)


@contract('A02', 'PlayerAnimator::schedule', pre=sched_pre, handlers=sched_handlers, abort=no_abort(),
          assumes=['parse_list returns a number of items within the limits it is given (V04) and aborts otherwise', REALS])
def schedule(k):
    h = Hist(k)
    e = k.eng
    name, frm, to, dur = [k.arg(i) for i in range(4)]
    empty = k.lit('')
    out = []
    other = [name != k.lit('background')]

    def item(s, n, i):
        v, t = items(e, s, Iv(ord(',')), Iv(n), Iv(n))
        return v.sort().accessor(0, 1)(v)[i]

    def each(cond, what, comps, value):
        out.append(('%s schedules its %d parts' % (what, len(comps)), z3.Implies(cond, h.len == len(comps))))
        p = [k.sk('position') for c in comps]
        # in any order, but each once: the calls are matched by name
        for i, c in enumerate(comps):
            hit = [h.is_(Iv(j), 'schedule', o=k.this, s=k.lit(c), d=dur, s3=value(to, i),
                         s2=z3.If(frm == empty, empty, value(frm, i))) for j in range(len(comps))]
            out.append(('%s schedules %s from and to the items at its place, over the duration' % (what, c), z3.Implies(cond, z3.Or(hit))))
    for what, comps in COMPOUND.items():
        other.append(name != k.lit(what))
        each(name == k.lit(what), what, comps, lambda s, i, n=len(comps): item(s, n, i))

    def shade(s, i):
        c = parts(e, s)
        x = c.sort().accessor(0, i)(c) * 255
        x = z3.If(x > 255, z3.RealVal(255), z3.If(x < 0, z3.RealVal(0), x))
        return e.strop('of_int', z3.ToInt(x))
    each(name == k.lit('background'), 'background', COLOR, shade)
    out.append(('any other property schedules itself', z3.Implies(z3.And(other), z3.And(h.len == 1, h.is_(
        Iv(0), 'schedule', o=k.this, s=name, s2=frm, s3=to, d=dur)))))
    return out + unchanged(k, allow=sorted(modset(e).writes('PlayerAnimator::doSchedule')))


def dosched_handlers(k):
    def opt(eng, f, this, args):
        return V(option(eng, this, term(eng, args[0])), I32)

    def pct(eng, f, this, args):
        return V(percent(eng, *[term(eng, x) for x in args]), I32)
    return {'Formatter::getOptionInt': opt, 'parse_percent': pct}


def dosched_pre(k):
    for n in ('top', 'height', 'left', 'width', 'transparency', 'background', ''):
        k.lit(n)
    k.assume(k.old.f('PlayerAnimator::_formatter', k.this) > 0)
    k.assume(k.arg(3) >= 0)


@contract('A02', 'PlayerAnimator::doSchedule', pre=dosched_pre, handlers=dosched_handlers, abort=no_abort(),
          assumes=['the screen size options are what Formatter::getOptionInt returns', 'reading the clock pointer of the animator yields the time of the player'])
def doschedule(k):
    e = k.eng
    name, frm, to, dur = [k.arg(i) for i in range(4)]
    empty = k.lit('')
    fmt = k.old.f('PlayerAnimator::_formatter', k.this)
    MAXINT = 2**31 - 1

    def val(s):
        w, hgt = option(e, fmt, k.lit('width')), option(e, fmt, k.lit('height'))
        is_ = lambda *ns: z3.Or([name == k.lit(n) for n in ns])
        return z3.If(is_('left', 'width'), percent(e, s, w, Iv(0), Iv(MAXINT)),
                     z3.If(is_('top', 'height'), percent(e, s, hgt, Iv(0), Iv(MAXINT)),
                           z3.If(is_('transparency', 'background'), percent(e, s, Iv(255), Iv(0), Iv(255)), percent(e, s, Iv(100), Iv(0), Iv(MAXINT)))))
    L0, L1 = k.old.f('PlayerAnimator::_scheduled', k.this), k.new.f('PlayerAnimator::_scheduled', k.this)
    ln, ar = L0.sort().accessor(0, 0), L0.sort().accessor(0, 1)
    n = ln(L0)
    a = ar(L1)[n]
    j = k.sk('j')
    f = lambda x: k.new.f('AnimInfo::' + x, a)
    return [('one animation is scheduled, after those pending', z3.And(ln(L1) == n + 1, z3.Implies(z3.And(0 <= j, j < n), ar(L1)[j] == ar(L0)[j]))),
            ('a new one', a >= k.old.st.hwm),
            ('of the property', f('_name') == name),
            ('to the new value', f('_target') == z3.ToReal(val(to))),
            ('over the duration', f('_duration') == dur),
            ('it is not finished', z3.Not(f('_done'))),
            ('it starts now from the old value, if there is one', z3.Implies(frm != empty, z3.And(f('_init'), f('_current') == z3.ToReal(val(frm))))),
            ('or later, from the current value', z3.Implies(frm == empty, z3.Not(f('_init'))))] + unchanged(
                k, only={'PlayerAnimator::_scheduled': lambda x: x == k.this})


@contract('A02', 'Player::schedulePropertyAnimation', handlers=lambda k: {'PlayerAnimator::schedule': recorded(
    'schedule', lambda e, t, a: dict(o=t, s=a[0], s2=a[1], s3=a[2], d=a[3]), writes=['PlayerAnimator::schedule'], virtual=False)}, abort=no_abort())
def player_schedule(k):
    h = Hist(k)
    return [('the player schedules the animation it is asked for, once', z3.And(h.len == 1, h.is_(
        Iv(0), 'schedule', o=k.old.f('Player::_animator', k.this), s=k.arg(0), s2=k.arg(1), s3=k.arg(2), d=k.arg(3))))]


# ---------------------------------------------------------------- A03: what an update shows
SHOWN = ('left', 'top', 'width', 'height', 'transparency', 'background:r', 'background:g', 'background:b')
WIPES = ('barwipe:topToBottom', 'barwipe:leftToRight', 'diagonalwipe:topLeft:x', 'diagonalwipe:topLeft:y')


class Stage:
    """the pending animations of a player, and what it shows"""

    def __init__(self, k, w):
        self.k, self.w = k, w
        L = w.f('PlayerAnimator::_scheduled', k.this)
        self.n, self.arr = L.sort().accessor(0, 0)(L), L.sort().accessor(0, 1)(L)

    def f(self, name, a):
        return self.w.f('AnimInfo::' + name, a)

    def at(self, i):
        return self.arr[i]


def shown(k, w, what):
    """the value shown now"""
    arg, fld = {'transparency': (2, None), 'left': (0, 'x'), 'top': (0, 'y')}.get(what) or (
        (1, {'r': 'red', 'g': 'green', 'b': 'blue'}[what[-1]]) if what.startswith('background') else (0, what))
    lv = k.args[arg].lv
    v = w.local(lv)
    return v.e if fld is None else k.eng.step(v.e, v.t, ('f', fld))[0]


def current(k, w, what):
    """the value shown now, in the units of the animation"""
    v = shown(k, w, what)
    return v * 255 if what.startswith('background') else z3.ToReal(v)


def conv(what, x):
    """how a value of the animation is shown"""
    clamp = lambda y, lo, hi: z3.If(y > hi, hi, z3.If(y < lo, lo, y))
    if what.startswith('background'):
        return clamp(x, z3.RealVal(0), z3.RealVal(255)) / 255
    h = z3.RealVal('1/2')
    n = z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(-x + h))
    return clamp(n, Iv(0), Iv(255)) if what == 'transparency' else clamp(n, Iv(-2**31), Iv(2**31 - 1))


def clock_of(k):
    e, saved = k.eng, k.eng.st
    e.st = k.old.st
    try:
        return e.load(e.deref(V(k.old.f('PlayerAnimator::_time', k.this), T('ptr', U64)))).e
    finally:
        e.st = saved


def a03_pre(k):
    for n in SHOWN + WIPES:
        k.lit(n)
    s = Stage(k, k.old)
    k.now = clock_of(k)
    i, j = z3.Ints('i!a j!a')
    inr = lambda x: z3.And(0 <= x, x < s.n)
    k.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(s.at(i) > 0, s.at(i) < k.old.st.hwm, z3.Not(s.f('_done', s.at(i))),
                                                       *[s.f('_name', s.at(i)) != k.lit(w) for w in WIPES])), patterns=[s.at(i)]))
    k.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i != j), s.at(i) != s.at(j)), patterns=[z3.MultiPattern(s.at(i), s.at(j))]))
    k.j = k.sk('animation')
    for v in k.args[:3]:
        k.assume(z3.Not(v.null))


def a03_handlers(k):
    def now(eng):
        return View(k, eng.st)

    def put(eng, name, this, v, t):
        eng.write(eng.st, LV(('heap', k.key('AnimInfo::' + name), this), (), t), V(v, t))

    def init(eng, f, this, args):
        w = now(eng)
        name, v = w.f('AnimInfo::_name', this), term(eng, args[0])
        if v.sort() == I:
            v = z3.ToReal(v)
        eng.obligation(eng.st, 'an animation with no old value starts from the value shown',
                       z3.And([z3.Implies(name == k.lit(p), v == current(k, w, p)) for p in SHOWN]))
        eng.obligation(eng.st, 'an animation starts once, now', z3.And(z3.Not(w.f('AnimInfo::_init', this)), term(eng, args[1]) == k.now))
        put(eng, '_current', this, v, DBL)
        put(eng, '_init', this, z3.BoolVal(True), BOOL)
        put(eng, '_last_update', this, k.now, U64)
        return VOIDV

    def update(eng, f, this, args):
        if len(args) != 1:
            raise Unsupported('rescheduling of an animation')
        w = now(eng)
        eng.obligation(eng.st, 'animations are updated with the time of the player', term(eng, args[0]) == k.now)
        eng.obligation(eng.st, 'only started animations are updated', w.f('AnimInfo::_init', this))
        put(eng, '_current', this, fresh('current', R), DBL)
        put(eng, '_done', this, fresh('done', B), BOOL)
        put(eng, '_last_update', this, k.now, U64)
        return VOIDV
    def name_of(eng, f, this, args):
        n = now(eng).f('AnimInfo::_name', this)
        eng.st.assume(z3.And([n != k.lit(w) for w in WIPES]), fact=True)
        return V(n, STR)

    def release(eng, v):
        eng.trace_append(eng.st, eng.mkcall('release', e=term(eng, v)))
    return {'AnimInfo::getName': name_of, 'AnimInfo::init': init, 'AnimInfo::update': update, 'delete': release}


def lasts(k, s, c, what, j):
    """j is the last of the first c animations which is of that property"""
    i = z3.Int('i!l')
    of = lambda x: s.f('_name', s.at(x)) == k.lit(what)
    return z3.And(0 <= j, j < c, of(j), z3.ForAll([i], z3.Implies(z3.And(j < i, i < c), z3.Not(of(i))), patterns=[s.at(i)]))


def none(k, s, c, what):
    i = z3.Int('i!l')
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c), s.f('_name', s.at(i)) != k.lit(what)), patterns=[s.at(i)])


def presented(k, w, s, c):
    """what is shown after the first c animations"""
    out = []
    for p in SHOWN:
        x = w.f('AnimInfo::_current', s.at(k.j))
        big = z3.And(x < 2**62, x > -2**62)
        out += [('%s is the value of its last animation' % p, z3.Implies(z3.And(lasts(k, s, c, p, k.j), big), shown(k, w, p) == conv(p, x))),
                ('%s stays if it is not animated' % p, z3.Implies(none(k, s, c, p), shown(k, w, p) == shown(k, k.old, p)))]
    return out


def known(k, s, x):
    """it is of a property which can be animated"""
    return z3.Or([s.f('_name', x) == k.lit(p) for p in SHOWN])


def a03_hints(k):
    def h(loop, head, cursor):
        if cursor is None or not any(l.kind == 'heap' for l in loop.locs):
            return []
        s, w, c, i = Stage(k, k.old), View(k, head), cursor.head, z3.Int('i!h')
        f = lambda n, x: w.f('AnimInfo::' + n, x)
        return [('this one, if it is one of the first', z3.Implies(z3.And(0 <= k.j, k.j < c, known(k, s, s.at(k.j))), z3.And(f('_init', s.at(k.j)), f('_last_update', s.at(k.j)) == k.now))),
                ('the others are as they were', z3.ForAll([i], z3.Implies(z3.And(c <= i, i < s.n), z3.And(*[
                    f(n, s.at(i)) == s.f(n, s.at(i)) for n in ('_done', '_init', '_current', '_last_update')])), patterns=[s.at(i)]))] + presented(k, w, s, c)
    return [h]


@contract('A03', 'PlayerAnimator::update', pre=a03_pre, handlers=a03_handlers, hints=a03_hints, abort=no_abort(),
          assumes=[REALS, 'the pending animations are different objects, none of them finished (A02: a new one is scheduled unfinished; this contract: the finished ones are dropped)',
                   'the transition effects (wipes) are not among the pending animations'])
def animate(k):
    s, b = Stage(k, k.old), Stage(k, k.new)
    h = Hist(k)
    j, x = k.j, s.at(k.j)
    done = lambda i: b.f('_done', s.at(i))
    inr = z3.And(0 <= j, j < s.n)
    return [('every pending animation (of a property which can be animated) is started and updated to the time of the player', z3.Implies(z3.And(inr, known(k, s, x)), z3.And(b.f('_init', x), b.f('_last_update', x) == k.now)))] + \
        presented(k, k.new, s, s.n) + \
        [selection(k, s.n, lambda i: z3.Not(done(i)), b.n, lambda p, g: b.at(p) == s.at(g), name='the unfinished ones, and no other, stay pending, in their order'),
         selection(k, s.n, done, h.len, lambda p, g: h.is_(p, 'release', e=s.at(g)), name='the finished ones, and no other, are released, once')] + \
        unchanged(k, allow=['AnimInfo::_current', 'AnimInfo::_last_update', 'AnimInfo::_done', 'AnimInfo::_init'], only={'PlayerAnimator::_scheduled': lambda y: y == k.this})


def drop_handlers(k):
    def release(eng, v):
        eng.trace_append(eng.st, eng.mkcall('release', e=term(eng, v)))
    return {'delete': release}


def drop_pre(k):
    k.lit('')


def dropped(k, h, first, p):
    s = Stage(k, k.old)
    return [('every pending animation is released, once', z3.Implies(z3.And(0 <= p, p < s.n), h.is_(first + p, 'release', e=s.at(p))))]


@contract('A03', 'PlayerAnimator::clear', handlers=drop_handlers, abort=no_abort())
def drops(k):
    h, s = Hist(k), Stage(k, k.old)
    return [('as many releases as pending animations', h.len == s.n), ('none is pending', Stage(k, k.new).n == 0)] + dropped(k, h, 0, k.sk('position')) + unchanged(
        k, only={'PlayerAnimator::_scheduled': lambda y: y == k.this})


@contract('A03', 'PlayerAnimator::~PlayerAnimator', handlers=drop_handlers, abort=no_abort())
def animator_dtor(k):
    h, s = Hist(k), Stage(k, k.old)
    i, o = k.sk('position'), k.old
    other = [o.f('PlayerAnimator::' + n, k.this) for n in ('_transIn', '_transOut')]
    is_ = lambda j, x: h.is_(j, 'release', e=x)
    n = z3.Sum([z3.If(x != 0, Iv(1), Iv(0)) for x in other])
    inr = z3.And(0 <= i, i < s.n)
    return [('the pending animations are released, once, with the transitions', AnyOf([
        [z3.Implies(inr, is_(d + i, s.at(i)))] for d in (Iv(0), n, Iv(2))]))]
