"""Contracts of lib/Formatter.cpp"""
from .common import *
from .contexts import STRUCTURE
from .medias import delete_rec, silent
from .players import extern, fld

B = z3.BoolSort()
FORMATTER_NOTE = 'whatever runs during a call into the document (scripts included) does not start or stop the formatter'
#: the formatter's own fields are written by the formatter only
OWN = {'Formatter::' + x for x in '_doc _state _eos _docPath _lastTickTotal _lastTickDiff _lastTickFrameNo _opts _background'.split()} | STRUCTURE


def fst(k, n):
    for vals in k.eng.prog.enums.values():
        if 'GINGA_STATE_' + n in vals:
            return Iv(vals['GINGA_STATE_' + n])
    raise Unsupported('GINGA_STATE_' + n)


# ---------------------------------------------------------------- R03
def asleep(k):
    return ghost(k.eng, 'sleeping', I, B)


def zpair(k):
    """z-index and z-order of a media object: those of its player when it is presented, zero otherwise"""
    shown = lambda m: z3.And(z3.Not(k.tag(m, 'MediaSettings')), z3.Not(asleep(k)(m)), k.old.f('Media::_player', m) != 0)
    prop = lambda m: k.old.f('Player::_prop', k.old.f('Media::_player', m))
    return [lambda m, n=n: z3.If(shown(m), fld(prop(m), n), 0) for n in ('zindex', 'zorder')]


def sleeping(k):
    def h(eng, f, this, args):
        return eng.B(asleep(k)(this))
    h.virtual = True
    return {'Object::isSleeping': h}


@contract('R03', 'zcmp', pre=lambda k: k.assume(z3.And(k.arg(0) > 0, k.arg(1) > 0)), handlers=sleeping, abort=no_abort())
def compare(k):
    a, b = k.arg(0), k.arg(1)
    z, zo = zpair(k)
    less = lambda x, y: z3.Or(z(x) < z(y), z3.And(z(x) == z(y), zo(x) < zo(y)))
    return [('below means negative, above positive, level zero', z3.And((k.ret < 0) == less(a, b), (k.ret > 0) == less(b, a)))] + unchanged(k)


# ---------------------------------------------------------------- G01
def g_pre(k):
    k.assume((k.old.f('Formatter::_state', k.this) == fst(k, 'STOPPED')) == (k.old.f('Formatter::_doc', k.this) == 0))
    s = k.old.f('Formatter::_state', k.this)
    k.assume(z3.Or(s == fst(k, 'STOPPED'), s == fst(k, 'PLAYING')))


def ignored(eng, f, this, args):
    return eng.B(fresh('ignored', B))


def start_handlers(k):
    def parse(which):
        def h(eng, f, this, args):
            r = fresh('doc', I)
            old = eng.st.hwm
            eng.st.assume(z3.Or(r == 0, r >= old), fact=True)
            hw = fresh('hwm', I)
            eng.st.assume(z3.And(hw > r, hw >= old), fact=True)
            eng.st.hwm = hw
            a = [term(eng, args[0])]
            # a fresh document has its root and its settings
            root, sets = eng.sel(eng.st, 'Document::_root', r), eng.sel(eng.st, 'Document::_settings', r)
            eng.st.assume(z3.Implies(r != 0, z3.And(root > 0, sets > 0, eng.sel(eng.st, 'Object::_lambda', root) > 0, eng.sel(eng.st, 'Object::_lambda', sets) > 0)), fact=True)
            eng.trace_append(eng.st, eng.mkcall('parse', s=a[0], x=r, m=I_(which)))
            return V(r, T('ptr', T('class', 'Document')))
        return h
    return {'Parser::parseFile': parse(0), 'ParserLua::parseFile': parse(1), 'Document::setData': ignored,
            'Document::evalAction': recorded('eval', lambda e, t, a: dict(o=t, e=a[0], n=a[1]), ret='int', writes=['Document::evalAction'], keep=OWN),
            'Event::transition': recorded('transition', lambda e, t, a: dict(o=t, n=a[0]), ret='bool', writes=['Event::transition'], keep=OWN),
            'WebServices::start': ignored, 'delete': delete_rec(k)}


def I_(n):
    return z3.IntVal(n)


def begins(k):
    h = Hist(k)
    o, n, t = k.old, k.new, k.this
    stopped = o.f('Formatter::_state', t) == fst(k, 'STOPPED')
    cnt = h.len
    p = k.sk('p')
    d = n.f('Formatter::_doc', t)
    at = lambda i, *a, **kw: z3.And(i < cnt, h.is_(i, *a, **kw))
    i = k.sk('i')
    D = h.get(i, 'x')
    last = z3.And(i >= 0, at(i, 'parse'), D != 0)     # the document parsed at step i
    root, sets = n.f('Document::_root', D), n.f('Document::_settings', D)
    lam = lambda obj: n.f('Object::_lambda', obj)
    started = z3.And(i + 1 < cnt, h.is_(i + 1, 'eval', o=D, e=lam(root), n=k.enum('Event::START')))
    ok = h.get(i + 1, 'r') != 0
    return [
        ('a running formatter is not started again', z3.Implies(z3.Not(stopped), z3.And(z3.Not(k.ret), cnt == 0))),
        ('success means running', z3.Implies(k.ret, z3.And(n.f('Formatter::_state', t) == fst(k, 'PLAYING'), d != 0))),
        ('failure leaves the state as it was', z3.Implies(z3.Not(k.ret), z3.And(n.f('Formatter::_state', t) == o.f('Formatter::_state', t), d == o.f('Formatter::_doc', t)))),
        ('the file given is parsed', z3.Implies(stopped, z3.And(cnt >= 1, h.is_(Iv(0), 'parse', s=k.arg(0))))),
        ('a document that was parsed is started, with its settings if that works', z3.Implies(z3.And(stopped, last), z3.And(started, z3.If(
            ok, z3.And(k.ret, d == D, i + 2 < cnt, h.is_(i + 2, 'transition', o=lam(sets), n=k.enum('Event::START')), cnt == i + 3),
            z3.And(z3.Not(k.ret), i + 2 < cnt, h.is_(i + 2, 'delete', o=D), cnt == i + 3))))),
        ('without a document it fails', z3.Implies(z3.And(stopped, k.ret), z3.Or([z3.And(I_(j) < cnt, h.is_(I_(j), 'parse'), h.get(I_(j), 'x') == d) for j in range(2)]))),
        ('the presentation starts afresh', z3.Implies(k.ret, z3.And(z3.Not(n.f('Formatter::_eos', t)), n.f('Formatter::_docPath', t) == k.arg(0)))),
    ]


contract('G01', 'Formatter::start', strings=True, pre=g_pre, handlers=start_handlers, assumes=[FORMATTER_NOTE])(begins)


@contract('G01', 'Formatter::stop', pre=g_pre, handlers=lambda k: {'delete': delete_rec(k)}, abort=no_abort())
def ends(k):
    h = Hist(k)
    o, n, t = k.old, k.new, k.this
    stopped = o.f('Formatter::_state', t) == fst(k, 'STOPPED')
    only = {'Formatter::_state': lambda x: x == t, 'Formatter::_doc': lambda x: x == t}
    return [('a stopped formatter stays stopped', z3.Implies(stopped, z3.And(z3.Not(k.ret), h.len == 0, n.f('Formatter::_state', t) == o.f('Formatter::_state', t),
                                                                           n.f('Formatter::_doc', t) == o.f('Formatter::_doc', t)))),
            ('a running one releases its document', z3.Implies(z3.Not(stopped), z3.And(k.ret, h.len == 1, h.is_(Iv(0), 'delete', o=o.f('Formatter::_doc', t)),
                                                                                     n.f('Formatter::_state', t) == fst(k, 'STOPPED'), n.f('Formatter::_doc', t) == 0)))
            ] + unchanged(k, only=only)


@contract('G01', 'Formatter::getState', abort=no_abort())
def state_(k):
    return [('the state is read', k.ret == k.old.f('Formatter::_state', k.this))] + unchanged(k)


@contract('G01', 'Formatter::setEOS', abort=no_abort())
def seteos(k):
    return [('the mark is set', k.new.f('Formatter::_eos', k.this) == k.arg(0))] + unchanged(k, only={'Formatter::_eos': lambda x: x == k.this})


@contract('G01', 'Formatter::getEOS', abort=no_abort())
def geteos(k):
    return [('the mark is read', k.ret == k.old.f('Formatter::_eos', k.this))] + unchanged(k)


# ---------------------------------------------------------------- G02
def doc_of(k):
    return k.old.f('Formatter::_doc', k.this)


def g2_pre(k):
    g_pre(k)
    d = doc_of(k)
    k.assume(z3.Implies(d != 0, k.old.f('Document::_root', d) > 0))


def delivery_handlers(k):
    h = {'delete': delete_rec(k)}
    for q in ('isSleeping', 'isOccurring'):
        def st(eng, f, this, args, q=q):
            # the state of an object when the key or tick arrives (fixed until something is delivered)
            return eng.B(z3.And(ghost(eng, q, I, B)(this)))
        st.virtual = True
        h['Object::' + q] = st
    h['Object::sendKey'] = recorded('sendKey', lambda e, t, a: dict(o=t, s=a[0], r=a[1]), writes=['Object::sendKey'], keep=OWN)
    h['Object::sendTick'] = recorded('sendTick', lambda e, t, a: dict(o=t, n=a[0], m=a[1], x=a[2]), writes=['Object::sendTick'], keep=OWN)
    return h


def delivery(call, cond, fields):
    def post(k):
        h = Hist(k)
        o, n, t = k.old, k.new, k.this
        d = doc_of(k)
        running = o.f('Formatter::_state', t) == fst(k, 'PLAYING')
        S = o.f('Document::_objects', d)
        eh = k.eng.enumth
        over = z3.Or(ghost(k.eng, 'isSleeping', I, B)(o.f('Document::_root', d)), o.f('Formatter::_eos', t))
        N = eh.len(k.eng, S)
        pick = lambda i: cond(k, eh.at(k.eng, S, i))
        match = lambda p, i: h.is_(p, call, o=eh.at(k.eng, S, i), **fields(k))
        goes = z3.And(running, z3.Not(over))
        return [('a stopped formatter delivers nothing', z3.Implies(z3.Not(running), z3.And(z3.Not(k.ret), h.len == 0))),
                ('a presentation that is over is stopped instead', z3.Implies(z3.And(running, over), z3.And(
                    z3.Not(k.ret), h.len == 1, h.is_(Iv(0), 'delete', o=d), n.f('Formatter::_state', t) == fst(k, 'STOPPED'), n.f('Formatter::_doc', t) == 0))),
                ('otherwise it is delivered', z3.Implies(goes, z3.And(k.ret, n.f('Formatter::_state', t) == fst(k, 'PLAYING'), n.f('Formatter::_doc', t) == d))),
                maybe(k, goes, selection(k, N, pick, h.len, match, name='each object presented receives it once, no other'))]
    return post


contract('G02', 'Formatter::sendKey', strings=True, pre=g2_pre, handlers=delivery_handlers, abort=no_abort(), assumes=[FORMATTER_NOTE])(
    delivery('sendKey', lambda k, x: z3.Not(ghost(k.eng, 'isSleeping', I, B)(x)), lambda k: dict(s=k.arg(0), r=k.arg(1))))
contract('G02', 'Formatter::sendTick', pre=g2_pre, handlers=delivery_handlers, abort=no_abort(), assumes=[FORMATTER_NOTE])(
    delivery('sendTick', lambda k, x: ghost(k.eng, 'isOccurring', I, B)(x), lambda k: dict(n=k.arg(0), m=k.arg(1), x=k.arg(2))))
