"""Models of the C++ standard library containers/algorithms and of the C library functions the
repository calls.  These are trusted (listed in the evidence); the native harnesses cross-check them."""
import z3
from .ctypes_ import *
from .state import *


def same_lv(a, b):
    from .loops import same_lv as f
    return f(a, b)

from .engine import Iv, TWO

INT = z3.IntSort()


def uf(name, *sorts):
    return z3.Function(name, *sorts)


def sname(s):
    return str(s).replace(' ', '')


class EnumTheory:
    """Iteration order of sets and map domains: len/at/pos as functions of the set value."""

    def __init__(self):
        self.f = {}

    def get(self, eng, ks):
        k = sname(ks)
        if k not in self.f:
            ss = z3.ArraySort(ks, z3.BoolSort())
            ln = uf('enum_len_' + k, ss, INT)
            at = uf('enum_at_' + k, ss, INT, ks)
            pos = uf('enum_pos_' + k, ss, ks, INT)
            S, x, i = z3.Const('S!e', ss), z3.Const('x!e', ks), z3.Int('i!e')
            m = z3.Select(S, x)
            body = z3.Implies(m, z3.And(pos(S, x) >= 0, pos(S, x) < ln(S), at(S, pos(S, x)) == x))
            ax = [z3.ForAll([S], ln(S) >= 0, patterns=[ln(S)]),
                  z3.ForAll([S, x], body, patterns=[z3.MultiPattern(m, ln(S)), pos(S, x)]),
                  z3.ForAll([S, i], z3.Implies(z3.And(i >= 0, i < ln(S)),
                                               z3.And(z3.Select(S, at(S, i)), pos(S, at(S, i)) == i)),
                            patterns=[at(S, i)])]
            self.f[k] = (ln, at, pos, ax)
        r = self.f[k]
        for a in r[3]:
            eng.st.assume(a, fact=True)
        return r

    def at(self, eng, S, i):
        return self.get(eng, S.sort().domain())[1](S, i)

    def pos(self, eng, S, x):
        return self.get(eng, S.sort().domain())[2](S, x)

    def len(self, eng, S):
        return self.get(eng, S.sort().domain())[0](S)


def install(e):
    e.enumth = EnumTheory()
    for k, v in list(globals().items()):
        if k.startswith('fn_'):
            e.libfn[k[3:]] = v
    for nm in ('method', 'operator', 'it_advance', 'it_equal', 'it_deref', 'lib_construct', 'container_begin',
               'container_end', 'concat', 'slen', 'strop'):
        setattr(e, nm, globals()['m_' + nm].__get__(e))
    e.handlers['xstrbuild'] = h_xstrbuild
    e.handlers['xstrassign'] = h_xstrassign
    e.handlers['__ginga_strfunc'] = lambda eng, f, this, args: eng.S('')
    e.base_handlers = dict(e.handlers)


# ------------------------------------------------------------------------------ containers
def cval(e, c):
    """container value of an lvalue/value"""
    v = e.load(c)
    if isinstance(v, Undef):
        v = e.fresh_value(e.st, 'undef', v.t)
    if not isinstance(v, V):
        raise Unsupported('container %s' % type(v).__name__)
    return v


def domain(e, v):
    return v.e if v.t.k == 'set' else e.proj(e.types.sort(v.t), 0, v.e)


def lv_of(e, c):
    if isinstance(c, LV):
        return c
    if isinstance(c, V):
        return e.temp(c, c.t)
    raise Unsupported('container lvalue %s' % type(c).__name__)


def llen(e, v):
    s = e.types.sort(v.t)
    x = e.proj(s, 0, v.e)
    e.st.assume(x >= 0, fact=True)
    return x


def larr(e, v):
    return e.proj(e.types.sort(v.t), 1, v.e)


def csize(e, v):
    if v.t.k == 'list':
        return llen(e, v)
    ln, at, pos, _ = e.enumth.get(e, e.types.sort(v.t.a[0]))
    return ln(domain(e, v))


def m_container_begin(e, c, rev=False):
    lv = lv_of(e, c)
    v = cval(e, lv)
    en = None if v.t.k == 'list' else V(domain(e, v), T('set', v.t.a[0]))
    if en is not None:
        e.enumth.get(e, e.types.sort(v.t.a[0]))
    return It(v.t.k, lv, Iv(0), en, v.t, rev)


def m_container_end(e, c, rev=False):
    lv = lv_of(e, c)
    v = cval(e, lv)
    en = None if v.t.k == 'list' else V(domain(e, v), T('set', v.t.a[0]))
    return It(v.t.k, lv, csize(e, v), en, v.t, rev)


def m_it_advance(e, it, d):
    if isinstance(it, KeyIt):
        it = key_to_it(e, it)
    return It(it.kind, it.lv, z3.simplify(it.idx + d), it.en, it.t, it.rev)


def key_to_it(e, k):
    v = cval(e, k.lv)
    ln, at, pos, _ = e.enumth.get(e, e.types.sort(v.t.a[0]))
    S = domain(e, v)
    return It(k.kind, k.lv, z3.If(k.isend, ln(S), pos(S, k.key)), V(S, T('set', v.t.a[0])), k.t)


def it_key(e, it):
    ln, at, pos, _ = e.enumth.get(e, e.types.sort(it.en.t.a[0]))
    return at(it.en.e, it.idx)


def m_it_deref(e, it):
    if isinstance(it, KeyIt):
        e.st.assume(z3.simplify(z3.Not(it.isend)), fact=True)
        if it.kind == 'set':
            return V(it.key, it.t.a[0])
        return ME(it.lv, it.key, it.t)
    if it.kind == 'list':
        v = cval(e, it.lv)
        idx = it.idx
        if it.rev:
            idx = z3.simplify(llen(e, v) - 1 - it.idx)
        return LV(it.lv.root, it.lv.path + (('idx', idx),), it.t.a[0])
    k = it_key(e, it)
    e.type_facts(e.st, k, it.t.a[0])
    if it.kind == 'set':
        return V(k, it.t.a[0])
    return ME(it.lv, k, it.t)


def m_it_equal(e, x, y):
    if isinstance(x, KeyIt) and isinstance(y, KeyIt):
        return z3.Or(z3.And(x.isend, y.isend), z3.And(z3.Not(x.isend), z3.Not(y.isend), x.key == y.key))
    if isinstance(y, KeyIt):
        x, y = y, x
    if isinstance(x, KeyIt):
        ln, at, pos, _ = e.enumth.get(e, e.types.sort(x.t.a[0]))
        yi = z3.simplify(y.idx)
        if yi.eq(z3.simplify(ln(y.en.e))):
            return x.isend
        return z3.Or(z3.And(x.isend, y.idx >= ln(y.en.e)),
                     z3.And(z3.Not(x.isend), y.idx < ln(y.en.e), at(y.en.e, y.idx) == x.key))
    return x.idx == y.idx


def list_store(e, lv, t, ln, arr):
    s = e.types.sort(t)
    e.write(e.st, lv, V(s.mk(z3.simplify(ln), arr), t))


def list_erase(e, lv, v, i):
    s = e.types.sort(v.t)
    n, a = llen(e, v), larr(e, v)
    ii = z3.simplify(i)
    b = fresh('erased', a.sort())
    k = z3.Int('k!er')
    e.st.assume(z3.ForAll([k], z3.Select(b, k) == z3.If(k < ii, z3.Select(a, k), z3.Select(a, k + 1)),
                          patterns=[z3.Select(b, k)]))
    if z3.is_const(a):
        e.st.assume(z3.ForAll([k], z3.Implies(k != ii, z3.Select(a, k) == z3.Select(b, z3.If(k < ii, k, k - 1))),
                              patterns=[z3.Select(a, k)]))
    list_store(e, lv, v.t, n - 1, b)


def list_insert(e, lv, v, i, x):
    n, a = llen(e, v), larr(e, v)
    ii = z3.simplify(i)
    b = fresh('inserted', a.sort())
    k = z3.Int('k!in')
    e.st.assume(z3.ForAll([k], z3.Select(b, k) == z3.If(k < ii, z3.Select(a, k),
                                                        z3.If(k == ii, x, z3.Select(a, k - 1))),
                          patterns=[z3.Select(b, k)]))
    if z3.is_const(a):
        e.st.assume(z3.ForAll([k], z3.Select(a, k) == z3.Select(b, z3.If(k < ii, k, k + 1)),
                              patterns=[z3.Select(a, k)]))
    list_store(e, lv, v.t, n + 1, b)


def cat_fn(e, t):
    s = e.types.sort(t)
    return z3.Function('cat:' + e.types.mangle(t), s, s, s)


def list_cat(e, v, w):
    """one list followed by another"""
    s = e.types.sort(v.t)
    c = fresh('cat', s)
    e.st.assume(c == cat_fn(e, v.t)(v.e, w.e), fact=True)
    n, m, a, b, r = llen(e, v), llen(e, w), larr(e, v), larr(e, w), s.accessor(0, 1)(c)
    k = z3.Int('k!cat')
    e.st.assume(z3.And(s.accessor(0, 0)(c) == n + m, n >= 0, m >= 0), fact=True)
    e.st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n + m), z3.Select(r, k) == z3.If(k < n, z3.Select(a, k), z3.Select(b, k - n))),
                          patterns=[z3.Select(r, k)]), fact=True)
    return c


def m_method(e, base, name, args, node):
    if isinstance(base, (It, KeyIt)):
        if name in ('operator->', 'operator*'):
            return e.it_deref(base)
        raise Unsupported('iterator method %s' % name)
    if isinstance(base, CStr):
        base = V(e.cstr_str(base), STR)
    if isinstance(base, Opaque):
        h = e.handlers.get('opaque.' + name)
        if h:
            return h(e, None, base, args)
        raise Unsupported('method %s of an unmodelled library type' % name)
    lv = base if isinstance(base, LV) else None
    if isinstance(base, LV):
        cur = e.load(base)
        if isinstance(cur, (It, KeyIt, Opaque)):
            return m_method(e, cur, name, args, node)
    if isinstance(base, ME):
        base = e.load(base)
    v = cval(e, base)
    k = v.t.k
    if k == 'str':
        return str_method(e, lv, v, name, args, node)
    if k == 'list':
        return list_method(e, lv if lv is not None else base, v, name, args, node)
    if k in ('set', 'map'):
        return assoc_method(e, lv if lv is not None else base, v, name, args, node)
    if name == 'operator bool' and z3.is_bool(v.e):
        return V(v.e, BOOL)
    raise Unsupported('method %s on %r' % (name, v.t))


def elt(e, v, t):
    return e.term(e.st, e.load(v), t)


def list_method(e, lv, v, name, args, node):
    t = v.t.a[0]
    n = llen(e, v)
    if name in ('begin', 'cbegin'):
        return e.container_begin(lv)
    if name in ('end', 'cend'):
        return e.container_end(lv)
    if name in ('rbegin', 'crbegin'):
        return e.container_begin(lv, True)
    if name in ('rend', 'crend'):
        return e.container_end(lv, True)
    if name == 'size':
        return V(n, U64)
    if name == 'empty':
        return V(n == 0, BOOL)
    if name in ('push_back', 'emplace_back', 'push'):
        if len(args) != 1 and t.k in ('pair',):
            x = e.types.sort(t).constructor(0)(*[elt(e, a, ft) for a, (_, ft) in zip(args, e.types.comps(t))])
        else:
            x = elt(e, args[0], t)
        list_store(e, lv, v.t, n + 1, z3.Store(larr(e, v), n, x))
        return VOIDV
    if name == 'push_front':
        list_insert(e, lv, v, Iv(0), elt(e, args[0], t))
        return VOIDV
    if name in ('front', 'back', 'top'):
        i = Iv(0) if name == 'front' else z3.simplify(n - 1)
        e.st.assume(n > 0, fact=True)
        if isinstance(lv, LV):
            return LV(lv.root, lv.path + (('idx', i),), t)
        return V(z3.Select(larr(e, v), i), t)
    if name == 'clear':
        d = e.default_value(e.st, v.t)
        e.write(e.st, lv, d)
        return VOIDV
    if name in ('pop_back', 'pop'):
        e.st.assume(n > 0, fact=True)
        list_store(e, lv, v.t, n - 1, larr(e, v))
        return VOIDV
    if name == 'pop_front':
        e.st.assume(n > 0, fact=True)
        list_erase(e, lv, v, Iv(0))
        return VOIDV
    if name == 'erase' and len(args) == 1:
        it = e.load(args[0])
        list_erase(e, lv, v, it.idx)
        return It('list', lv, it.idx, None, v.t)
    if name == 'insert' and len(args) == 2:
        it = e.load(args[0])
        list_insert(e, lv, v, it.idx, elt(e, args[1], t))
        return It('list', lv, it.idx, None, v.t)
    if name == 'insert' and len(args) == 3 or name == 'splice' and len(args) == 2:
        # everything of another list, after the last element
        it = e.load(args[0])
        if name == 'insert':
            a, b = e.load(args[1]), e.load(args[2])
            ok = isinstance(a, It) and isinstance(b, It) and a.kind == b.kind == 'list' and not a.rev and not b.rev and same_lv(a.lv, b.lv)
            src = e.load(a.lv) if ok else None
            ok = ok and z3.simplify(a.idx).eq(Iv(0)) and z3.simplify(b.idx).eq(z3.simplify(csize(e, src)))
        else:
            src, ok = e.load(args[1]), isinstance(args[1], LV)
        if not ok or not z3.simplify(it.idx).eq(z3.simplify(llen(e, v))) or src.t != v.t:
            raise Unsupported('insertion of a range')
        n = llen(e, v)
        e.write(e.st, lv, V(list_cat(e, v, src), v.t))
        if name == 'splice':
            e.write(e.st, args[1], e.default_value(e.st, v.t))
        return It('list', lv, n, None, v.t)
    if name in ('at', 'operator[]'):
        i = e.num(args[0])
        if isinstance(lv, LV):
            return LV(lv.root, lv.path + (('idx', i),), t)
        return V(z3.Select(larr(e, v), i), t)
    if name in ('remove_if', 'remove'):
        pred = e.load(args[0])
        if name == 'remove':
            x = elt(e, args[0], t)
            pred = PyFn(lambda y: V(elt(e, y, t) == x, BOOL))
        return remove_if(e, lv, v, pred, node)
    if name == 'assign' and len(args) == 2:
        a, b = e.load(args[0]), e.load(args[1])
        if isinstance(a, It):
            e.write(e.st, lv, e.default_value(e.st, v.t))
            return VOIDV
    raise Unsupported('list method %s' % name)


def remove_if(e, lv, v, pred, node):
    """list::remove_if as a filtering loop over a snapshot"""
    src = e.temp(v, v.t)
    out = e.temp(e.default_value(e.st, v.t), v.t)
    key = ('py', mark())
    e.st.store[key] = It('list', src, Iv(0), None, v.t)
    n = llen(e, v)

    def iteration():
        it = e.st.store[key]
        if not e.choose(it.idx != n):
            return ('exit',)
        el = e.load(e.it_deref(it))
        if not e.choose(e.boolean(e.call_lambda(pred, [el]))):
            list_method(e, out, cval(e, out), 'push_back', [el], node)
        e.st.store[key] = e.it_advance(it, 1)
        return ('next',)
    e.loops.run(e, node, iteration)
    e.write(e.st, lv, e.load(out))
    return VOIDV


def assoc_method(e, lv, v, name, args, node):
    kt = v.t.a[0]
    dom = domain(e, v)
    s = e.types.sort(v.t)

    def put(d, val=None):
        if v.t.k == 'set':
            e.write(e.st, lv, V(d, v.t))
        else:
            e.write(e.st, lv, V(s.mk(d, e.proj(s, 1, v.e) if val is None else val), v.t))
    if name in ('begin', 'cbegin'):
        return e.container_begin(lv)
    if name in ('end', 'cend'):
        return e.container_end(lv)
    if name == 'size':
        return V(csize(e, v), U64)
    if name == 'empty':
        return V(csize(e, v) == 0, BOOL)
    if name == 'clear':
        e.write(e.st, lv, e.default_value(e.st, v.t))
        return VOIDV
    if name == 'count':
        k = elt(e, args[0], kt)
        return V(z3.If(z3.Select(dom, k), Iv(1), Iv(0)), U64)
    if name == 'find':
        k = elt(e, args[0], kt)
        return KeyIt(v.t.k, lv_of(e, lv), k, z3.Not(z3.Select(dom, k)), v.t)
    if name == 'erase' and len(args) == 1:
        a = e.load(args[0])
        if isinstance(a, KeyIt):
            k = a.key
        elif isinstance(a, It):
            k = it_key(e, a)
        else:
            k = e.term(e.st, a, kt)
        if isinstance(a, KeyIt):
            # erase(end()) is undefined: obligation
            e.obligation(e.st, 'erase of a valid iterator', z3.simplify(z3.Not(a.isend)))
        put(z3.Store(dom, k, z3.BoolVal(False)))
        if isinstance(a, It):
            return It(a.kind, a.lv, z3.simplify(a.idx + 1), a.en, a.t)
        return V(z3.If(z3.Select(dom, k), Iv(1), Iv(0)), U64)
    if v.t.k == 'set' and name in ('insert', 'emplace'):
        if len(args) == 1:
            k = elt(e, args[0], kt)
            put(z3.Store(dom, k, z3.BoolVal(True)))
            pt = T('pair', I32, BOOL)
            return V(e.types.sort(pt).mk(fresh('it', INT), z3.Not(z3.Select(dom, k))), pt)
        if len(args) == 2:
            raise Unsupported('set range insert')
    if v.t.k == 'map':
        if name in ('operator[]',):
            k = elt(e, args[0], kt)
            if not isinstance(lv, LV):
                raise Unsupported('map[] on rvalue')
            val = e.proj(s, 1, v.e)
            d = e.default_value(e.st, v.t.a[1])
            if isinstance(d, Undef):
                d = e.zero_value(v.t.a[1])
            e.write(e.st, lv, V(s.mk(z3.Store(dom, k, z3.BoolVal(True)),
                                     z3.Store(val, k, z3.If(z3.Select(dom, k), z3.Select(val, k), d.e))), v.t))
            return LV(lv.root, lv.path + (('key', k),), v.t.a[1])
        if name == 'at':
            k = elt(e, args[0], kt)
            if not e.choose(z3.Select(dom, k)):
                from .exec import AbortPath
                raise AbortPath('std::out_of_range')
            l2 = lv_of(e, lv)
            return LV(l2.root, l2.path + (('key', k),), v.t.a[1])
        if name in ('insert', 'emplace'):
            if len(args) == 1:
                p = e.load(args[0])
                ps = p.e.sort()
                k, x = e.proj(ps, 0, p.e), e.proj(ps, 1, p.e)
            elif isinstance(e.load(args[0]), It):
                raise Unsupported('map range insert')
            else:
                k, x = elt(e, args[0], kt), elt(e, args[1], v.t.a[1])
            val = e.proj(s, 1, v.e)
            had = z3.Select(dom, k)
            put(z3.Store(dom, k, z3.BoolVal(True)), z3.Store(val, k, z3.If(had, z3.Select(val, k), x)))
            pt = T('pair', I32, BOOL)
            return V(e.types.sort(pt).mk(fresh('it', INT), z3.Not(had)), pt)
    raise Unsupported('%s method %s' % (v.t.k, name))


# ------------------------------------------------------------------------------ strings
def rank(e, s):
    """strings under lexicographic order embed in the rationals"""
    return e.strop('rank', s, ret=z3.RealSort())


def compare(e, a, b):
    c = e.strop('compare', a, b, ret=INT)
    e.st.assume((c == 0) == (a == b), fact=True)
    if not e.types.strings:
        ra, rb = rank(e, a), rank(e, b)
        e.st.assume((c < 0) == (ra < rb), fact=True)
        e.st.assume((ra == rb) == (a == b), fact=True)
    return c


def m_slen(e, s):
    if e.types.strings:
        return z3.Length(s)
    f = uf('str_len', e.types.STR, INT)
    e.st.assume(z3.And(f(s) >= 0, (f(s) == 0) == (s == e.lit(''))), fact=True)
    return f(s)


def m_concat(e, a, b):
    if e.types.strings:
        return z3.Concat(a, b)
    if a.eq(e.lit('')):
        return b
    if b.eq(e.lit('')):
        return a
    return uf('str_concat', e.types.STR, e.types.STR, e.types.STR)(a, b)


def m_strop(e, name, *args, ret=None):
    return uf('str_' + name, *([a.sort() for a in args] + [ret if ret is not None else e.types.STR]))(*args)


NPOS = (1 << 64) - 1


def sstr(e, v):
    v = e.load(v)
    if isinstance(v, V) and v.t.k == 'int':
        return z3.StrFromCode(v.e) if e.types.strings else e.strop('of_char', v.e)
    if isinstance(v, CStr):
        off = z3.simplify(v.off)
        if z3.is_int_value(off) and off.as_long() == 0:
            return v.e
        if not e.types.strings:
            return e.strop('suffix', v.e, v.off)
    return e.str_of(e.st, v)


def str_method(e, lv, v, name, args, node):
    s = v.e
    Z = e.types.strings
    if name in ('c_str', 'data'):
        return CStr(s)
    if name in ('length', 'size'):
        return V(e.slen(s), U64)
    if name == 'empty':
        return V(s == e.lit(''), BOOL)
    if name == 'clear':
        e.write(e.st, lv, e.S(''))
        return VOIDV
    if name in ('operator=', 'assign') and len(args) == 1:
        e.write(e.st, lv, V(sstr(e, args[0]), STR))
        return lv
    if name == 'assign' and len(args) == 2 and Z:
        x = sstr(e, args[0])
        e.write(e.st, lv, V(z3.SubString(x, 0, e.num(args[1])), STR))
        return lv
    if name in ('append', 'operator+=', 'push_back'):
        e.write(e.st, lv, V(e.concat(s, sstr(e, args[0])), STR))
        return lv
    if name == 'compare' and len(args) == 1:
        return V(compare(e, s, sstr(e, args[0])), I32)
    if not Z:
        if name == 'substr':
            a = [e.num(x) for x in args] + [Iv(NPOS)]
            return V(e.strop('substr', s, a[0], a[1]), STR)
        if name in ('find', 'rfind', 'find_last_of', 'find_first_of'):
            r = e.strop(name, s, sstr(e, args[0]), ret=INT)
            e.st.assume(z3.Or(r == NPOS, z3.And(r >= 0, r < e.slen(s))), fact=True)
            return V(r, U64)
        if name in ('back', 'front', 'at', 'operator[]'):
            i = e.num(args[0]) if args else (Iv(0) if name == 'front' else e.slen(s) - 1)
            r = e.strop('char', s, i, ret=INT)
            e.type_facts(e.st, r, I8)
            return V(r, I8)
        raise Unsupported('string method %s' % name)
    n = z3.Length(s)
    if name == 'substr':
        p = e.num(args[0]) if args else Iv(0)
        cnt = e.num(args[1]) if len(args) > 1 else Iv(NPOS)
        if not e.choose(p <= n):
            from .exec import AbortPath
            raise AbortPath('std::out_of_range')
        cnt = z3.simplify(cnt)
        if z3.is_int_value(cnt) and cnt.as_long() == NPOS:
            cnt = n - p
        return V(z3.SubString(s, p, cnt), STR)
    if name in ('find',):
        x = sstr(e, args[0])
        p = e.num(args[1]) if len(args) > 1 else Iv(0)
        r = z3.IndexOf(s, x, p)
        e.st.assume(z3.And(r >= -1, r < (1 << 62)), fact=True)     # strings fit in memory
        return V(r if e.choose(r >= 0) else Iv(NPOS), U64)
    if name in ('rfind', 'find_last_of'):
        x = sstr(e, args[0])
        r = z3.LastIndexOf(s, x)
        e.st.assume(z3.And(r >= -1, r < (1 << 62)), fact=True)
        return V(r if e.choose(r >= 0) else Iv(NPOS), U64)
    if name in ('back', 'front', 'at', 'operator[]'):
        i = e.num(args[0]) if args else (Iv(0) if name == 'front' else n - 1)
        if name in ('back', 'front'):
            e.obligation(e.st, '%s() on a non-empty string' % name, n > 0)
        return V(e.char_at(e.st, s, i), I8)
    if name == 'erase' and len(args) in (1, 2):
        p = e.num(args[0])
        cnt = e.num(args[1]) if len(args) > 1 else n
        e.write(e.st, lv, V(z3.Concat(z3.SubString(s, 0, p), z3.SubString(s, p + cnt, n)), STR))
        return lv
    if name == 'pop_back':
        e.write(e.st, lv, V(z3.SubString(s, 0, n - 1), STR))
        return VOIDV
    raise Unsupported('string method %s' % name)


def m_lib_construct(e, n, t, args):
    if t.k == 'str':
        if not args:
            return e.S('')
        if len(args) == 1:
            v = e.ev(args[0])
            return V(sstr(e, v), STR)
        if len(args) == 2:
            a, b = e.load(e.ev(args[0])), e.load(e.ev(args[1]))
            if isinstance(a, CStr) and e.types.strings:
                return V(z3.SubString(e.cstr_str(a), 0, e.num(b)), STR)
            if isinstance(a, V) and a.t.k == 'int':
                return V(e.strop('repeat', a.e, e.num(b)), STR)
        raise Unsupported('string constructor')
    if t.k in ('list', 'set', 'map'):
        if not args:
            return e.default_value(e.st, t)
        if len(args) == 1:
            v = e.load(e.ev(args[0]))
            if isinstance(v, V) and v.t == t:
                return v
            if isinstance(v, V) and v.t.k == 'list' and t.k == 'list':
                return V(v.e, t) if v.e.sort() == e.types.sort(t) else v
            if isinstance(v, V) and v.t.k == 'list':
                return from_init_list(e, v, t)
        raise Unsupported('container constructor')
    if t == T('class', 'stringstream') and len(args) <= 2:
        x = sstr(e, e.ev(args[0])) if args and e.T(args[0]).k in ('str', 'ptr', 'arr', 'ref') else e.lit('')
        return V(e.types.sort(t).constructor(0)(x, Iv(0)), t)
    if t.k in ('pair', 'tuple'):
        if not args:
            return e.default_value(e.st, t)
        s = e.types.sort(t)
        if len(args) == 1:
            v = e.load(e.ev(args[0]))
            if v.t == t or v.e.sort() == s:
                return V(v.e, t)
            vs = v.e.sort()
            return V(s.constructor(0)(*[e.conv(e.st, V(e.proj(vs, i, v.e), ft), gt).e for i, ((_, ft), (_, gt)) in
                                        enumerate(zip(e.types.comps(v.t), e.types.comps(t)))]), t)
        vals = [e.ev(a) for a in args]
        return V(s.constructor(0)(*[elt(e, v, ft) for v, (_, ft) in zip(vals, e.types.comps(t))]), t)
    if len(args) == 1:
        return e.load(e.ev(args[0]))
    h = e.handlers.get('ctor ' + repr(t))
    if h:
        return h(e, n, t, args)
    if not args:
        return Opaque('default', t)
    return Opaque('constructed', t)


def from_init_list(e, v, t):
    """set/map from an initializer list of known length"""
    s = e.types.sort(v.t)
    n = z3.simplify(e.proj(s, 0, v.e))
    a = e.proj(s, 1, v.e)
    if not z3.is_int_value(n):
        raise Unsupported('container from unbounded list')
    out = e.default_value(e.st, t)
    lv = e.temp(out, t)
    for i in range(n.as_long()):
        el = V(z3.simplify(z3.Select(a, Iv(i))), v.t.a[0])
        m_method(e, lv, 'insert', [el], None)
    return e.load(lv)


# ------------------------------------------------------------------------------ operators
def m_operator(e, name, args, node):
    a = args[0]
    av = a
    if isinstance(a, LV):
        if not (a.root[0] == 'local' and isinstance(e.st.store.get(a.root[1]), Undef)):
            av = e.load(a) if name not in ('operator=',) else a
    if name == 'operator()':
        f = e.load(a)
        if isinstance(f, PtrLV):
            f = e.deref(f)
        return e.call_lambda(f, args[1:])
    if name == 'operator=':
        b = e.load(args[1])
        if isinstance(a, LV):
            tgt = e.st.store.get(a.root[1]) if a.root[0] == 'local' and not a.path else None
            if a.t.k == 'str' and not isinstance(b, Opaque):
                b = V(sstr(e, b), STR)
            if isinstance(b, Obj):
                raise Unsupported('class assignment')
            e.write(e.st, a, b)
            return a
        if isinstance(a, Opaque):
            return a
        raise Unsupported('operator= on %s' % type(a).__name__)
    if isinstance(av, (It, KeyIt)):
        if name == 'operator*':
            return e.it_deref(av)
        if name == 'operator->':
            r = e.it_deref(av)
            if isinstance(r, V):
                if r.t.k == 'ptr':
                    return PtrLV(e.temp(r, r.t))
                return PtrLV(e.temp(r, r.t))
            return PtrLV(r)
        if name in ('operator++', 'operator--'):
            new = e.it_advance(av, 1 if name == 'operator++' else -1)
            e.write(e.st, a, new)
            return av if len(args) > 1 else a
        if name in ('operator==', 'operator!='):
            r = e.it_equal(av, e.load(args[1]))
            return V(r if name == 'operator==' else z3.Not(r), BOOL)
        if name in ('operator+', 'operator-'):
            b = e.load(args[1])
            if isinstance(b, It):
                return V(av.idx - b.idx, I64)
            return e.it_advance(av, e.num(b) if name == 'operator+' else -e.num(b))
        if name in ('operator<', 'operator<=', 'operator>', 'operator>='):
            b = e.load(args[1])
            return V({'<': av.idx < b.idx, '<=': av.idx <= b.idx, '>': av.idx > b.idx,
                      '>=': av.idx >= b.idx}[name[8:]], BOOL)
        if name in ('operator+=', 'operator-='):
            d = e.num(args[1])
            e.write(e.st, a, e.it_advance(av, d if name == 'operator+=' else -d))
            return a
        raise Unsupported('iterator %s' % name)
    if name == 'operator[]':
        if isinstance(av, ME):
            av = e.load(av)
        if isinstance(av, CStr):
            return V(e.char_at(e.st, av.e, av.off + e.num(args[1])), I8)
        return m_method(e, a, 'operator[]', [args[1]], node)
    if name in ('operator+=',):
        return m_method(e, a, 'operator+=', [args[1]], node)
    if name == 'operator+':
        return V(e.concat(sstr(e, av), sstr(e, args[1])), STR)
    if name in ('operator==', 'operator!='):
        b = e.load(args[1])
        if isinstance(av, CStr) or isinstance(b, CStr):
            if isinstance(av, (CStr,)) and isinstance(b, CStr) or (isinstance(av, V) and av.t.k == 'str') or (
                    isinstance(b, V) and b.t.k == 'str'):
                r = sstr(e, av) == sstr(e, b)
                return V(r if name == 'operator==' else z3.Not(r), BOOL)
        r = e.equal(av, b)
        return V(r if name == 'operator==' else z3.Not(r), BOOL)
    if name in ('operator<', 'operator>', 'operator<=', 'operator>='):
        x, y = sstr(e, av), sstr(e, args[1])
        if e.types.strings:
            r = {'<': x < y, '<=': x <= y, '>': y < x, '>=': y <= x}[name[8:]]
        else:
            c = compare(e, x, y)
            r = {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[name[8:]]
        return V(r, BOOL)
    h = e.handlers.get(name)
    if h:
        return h(e, None, None, args)
    raise Unsupported('%s on %s' % (name, type(av).__name__))


# ------------------------------------------------------------------------------ algorithms
def rng(e, a, b):
    x, y = e.load(a), e.load(b)
    if isinstance(x, KeyIt):
        x = key_to_it(e, x)
    return x, y


def fn_count(e, args, n):
    x, y = rng(e, args[0], args[1])
    v = cval(e, x.lv)
    val = elt(e, args[2], v.t.a[0])
    if x.kind != 'list':
        full = z3.simplify(x.idx).eq(Iv(0)) and z3.simplify(y.idx).eq(z3.simplify(csize(e, v)))
        if not full or x.kind != 'set':
            raise Unsupported('count over %s' % x.kind)
        return V(z3.If(z3.Select(v.e, val), Iv(1), Iv(0)), I64)
    a = larr(e, v)
    nm = sname(a.sort())
    c = uf('count_' + nm, a.sort(), val.sort(), INT, INT, INT)(a, val, x.idx, y.idx)
    w = uf('countw_' + nm, a.sort(), val.sort(), INT, INT, INT)(a, val, x.idx, y.idx)
    k = z3.Int('k!c')
    e.st.assume(c >= 0, fact=True)
    el = z3.Select(a, k)
    e.st.assume(z3.Implies(c == 0, z3.ForAll([k], z3.Implies(z3.And(k >= x.idx, k < y.idx), el != val),
                                             patterns=pat(el))))
    e.st.assume(z3.Implies(c > 0, z3.And(w >= x.idx, w < y.idx, z3.Select(a, w) == val)))
    return V(c, I64)


def pat(el):
    ok = True

    def walk(t):
        nonlocal ok
        if z3.is_app(t):
            if t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_AND, z3.Z3_OP_OR,
                                   z3.Z3_OP_NOT):
                ok = False
            for c in t.children():
                walk(c)
    walk(el)
    return [el] if ok else []


def search(e, args, n, test, stop=True):
    """generic search loop; returns the iterator where it stopped"""
    x, y = rng(e, args[0], args[1])
    key = ('py', mark())
    e.st.store[key] = x

    def iteration():
        it = e.st.store[key]
        if not e.choose(z3.Not(e.it_equal(it, y))):
            return ('exit',)
        el = e.it_deref(it)
        if e.choose(test(el)):
            return ('break',)
        e.st.store[key] = e.it_advance(it, 1)
        return ('next',)
    out = e.loops.run(e, n, iteration, returns=True)
    it = e.st.store[key]
    return it, out


def fn_find(e, args, n):
    x, y = rng(e, args[0], args[1])
    val = elt(e, args[2], cval(e, x.lv).t.a[0])
    return search(e, args, n, lambda el: e.load(el).e == val)[0]


def fn_find_if(e, args, n):
    p = e.load(args[2])
    return search(e, args, n, lambda el: e.boolean(e.call_lambda(p, [el])))[0]


def fn_find_if_not(e, args, n):
    p = e.load(args[2])
    return search(e, args, n, lambda el: z3.Not(e.boolean(e.call_lambda(p, [el]))))[0]


def fn_any_of(e, args, n):
    p = e.load(args[2])
    _, out = search(e, args, n, lambda el: e.boolean(e.call_lambda(p, [el])))
    return e.B(out[0] == 'break')


def fn_none_of(e, args, n):
    p = e.load(args[2])
    _, out = search(e, args, n, lambda el: e.boolean(e.call_lambda(p, [el])))
    return e.B(out[0] != 'break')


def fn_all_of(e, args, n):
    p = e.load(args[2])
    _, out = search(e, args, n, lambda el: z3.Not(e.boolean(e.call_lambda(p, [el]))))
    return e.B(out[0] != 'break')


def fn_for_each(e, args, n):
    x, y = rng(e, args[0], args[1])
    f = e.load(args[2])
    key = ('py', mark())
    e.st.store[key] = x

    def iteration():
        it = e.st.store[key]
        if not e.choose(z3.Not(e.it_equal(it, y))):
            return ('exit',)
        e.call_lambda(f, [e.it_deref(it)])
        e.st.store[key] = e.it_advance(it, 1)
        return ('next',)
    e.loops.run(e, n, iteration)
    return VOIDV


def fn_count_if(e, args, n):
    x, y = rng(e, args[0], args[1])
    f = e.load(args[2])
    key = ('py', mark())
    cnt = ('py', mark())
    e.st.store[key] = x
    e.st.store[cnt] = V(Iv(0), I64)

    def iteration():
        it = e.st.store[key]
        if not e.choose(z3.Not(e.it_equal(it, y))):
            return ('exit',)
        if e.choose(e.boolean(e.call_lambda(f, [e.it_deref(it)]))):
            e.st.store[cnt] = V(z3.simplify(e.st.store[cnt].e + 1), I64)
        e.st.store[key] = e.it_advance(it, 1)
        return ('next',)
    e.loops.run(e, n, iteration)
    return e.st.store[cnt]


def index_of(e, s, sep, p):
    """position of the first separator at or after p, or the length"""
    if e.types.strings:
        q = z3.IndexOf(s, sep, p)
        return z3.If(q < 0, z3.Length(s), q)
    q = e.strop('index_of', s, sep, p, ret=INT)
    e.st.assume(z3.And(z3.Implies(p <= e.slen(s), q >= p), q <= e.slen(s)), fact=True)
    return q


def fn_getline(e, args, n):
    lv = e.ev(args[0]) if isinstance(args[0], dict) else args[0]
    st = e.load(lv)
    if not (isinstance(st, V) and st.t == T('class', 'stringstream')):
        raise Unsupported('getline from %r %s' % (getattr(st,'t',st), args[0]))
    S = st.e.sort()
    text, pos = z3.simplify(S.accessor(0, 0)(st.e)), z3.simplify(S.accessor(0, 1)(st.e))
    sep = sstr(e, args[2]) if len(args) > 2 else e.lit('\n')
    ln = e.slen(text)
    if not e.choose(pos < ln):
        e.write(e.st, args[1], e.S(''))
        return V(z3.BoolVal(False), BOOL)
    q = index_of(e, text, sep, pos)
    tok = z3.SubString(text, pos, q - pos) if e.types.strings else e.strop('between', text, pos, q)
    e.write(e.st, args[1], V(tok, STR))
    e.write(e.st, lv, V(S.constructor(0)(text, z3.If(q < ln, q + 1, ln)), st.t))
    return V(z3.BoolVal(True), BOOL)


def fn_begin(e, args, n):
    return e.container_begin(args[0])


def fn_end(e, args, n):
    return e.container_end(args[0])


def fn_advance(e, args, n):
    it = e.load(args[0])
    e.write(e.st, args[0], e.it_advance(it, e.num(args[1])))
    return VOIDV


def fn_next(e, args, n):
    return e.it_advance(e.load(args[0]), e.num(args[1]) if len(args) > 1 else 1)


def fn_prev(e, args, n):
    return e.it_advance(e.load(args[0]), -(e.num(args[1]) if len(args) > 1 else 1))


def fn_distance(e, args, n):
    return V(e.load(args[1]).idx - e.load(args[0]).idx, I64)


def fn_make_pair(e, args, n):
    t = e.T(n)
    vals = [e.load(a) for a in args]
    ts = [v.t if isinstance(v, V) else (STR if isinstance(v, CStr) else None) for v in vals]
    if t.k == 'pair':
        s = e.types.sort(t)
        return V(s.mk(*[elt(e, v, ft) for v, ft in zip(vals, t.a)]), t)
    if None in ts:
        raise Unsupported('make_pair')
    t = T('pair', *ts)
    return V(e.types.sort(t).mk(*[elt(e, v, ft) for v, ft in zip(vals, ts)]), t)


def fn_move(e, args, n):
    return args[0]


fn_forward = fn_move


def fn_swap(e, args, n):
    a, b = e.load(args[0]), e.load(args[1])
    e.write(e.st, args[0], b)
    e.write(e.st, args[1], a)
    return VOIDV


def _mm(e, args, n, op):
    x, y = e.load(args[0]), e.load(args[1])
    t = x.t
    return V(z3.simplify(z3.If(op(y.e, x.e), y.e, x.e)), t)


def fn_max(e, args, n):
    return _mm(e, args, n, lambda b, a: b > a)


def fn_min(e, args, n):
    return _mm(e, args, n, lambda b, a: b < a)


def fn_abs(e, args, n):
    x = e.load(args[0])
    return V(z3.If(x.e < 0, -x.e, x.e), x.t)


fn_fabs = fn_abs


def floor_(x):
    return z3.ToInt(x)


def round_half_away(x):
    h = z3.RealVal('1/2')
    return z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(-x + h))


def fn_lround(e, args, n):
    x = e.load(args[0])
    r = round_half_away(z3.ToReal(x.e) if x.e.sort() == INT else x.e)
    lo, hi = -(1 << 63), (1 << 63) - 1
    u = fresh('lround', INT)
    e.type_facts(e.st, u, I64)
    return V(z3.If(z3.And(r >= lo, r <= hi), r, u), I64)


def fn_round(e, args, n):
    x = e.load(args[0])
    if x.e.sort() == INT:
        return V(z3.ToReal(x.e), DBL)
    return V(z3.ToReal(round_half_away(x.e)), DBL)


def fn_floor(e, args, n):
    x = e.load(args[0])
    return V(z3.ToReal(z3.ToInt(x.e)), DBL)


def fn_ceil(e, args, n):
    x = e.load(args[0])
    return V(z3.ToReal(-z3.ToInt(-x.e)), DBL)


# ------------------------------------------------------------------------------ C strings
def fn_strlen(e, args, n):
    return V(e.slen(sstr(e, args[0])), U64)


def fn_strcmp(e, args, n):
    return V(compare(e, sstr(e, args[0]), sstr(e, args[1])), I32)


fn_g_strcmp0 = fn_strcmp


def fn_g_str_equal(e, args, n):
    return V(z3.If(sstr(e, args[0]) == sstr(e, args[1]), Iv(1), Iv(0)), I32)


def lower(e, s):
    f = uf('str_lower', e.types.STR, e.types.STR)
    if z3.is_string_value(s):
        return e.lit(s.as_string().lower())
    nm = str(s)
    if z3.is_const(s) and nm.startswith('lit:'):
        return e.lit(nm[4:].lower())
    e.st.assume(f(f(s)) == f(s), fact=True)
    # literals are their own lower case image when already lower case
    return f(s)


def fn_g_ascii_strcasecmp(e, args, n):
    a, b = sstr(e, args[0]), sstr(e, args[1])
    la, lb = lower(e, a), lower(e, b)
    for x in (a, b):
        # equal to a literal => lower case known
        pass
    c = e.strop('casecompare', a, b, ret=INT)
    e.st.assume((c == 0) == (la == lb), fact=True)
    e.st.assume(z3.Implies(a == b, la == lb), fact=True)
    return V(c, I32)


def fn_g_strdup(e, args, n):
    v = e.load(args[0])
    if isinstance(v, CStr):
        return CStr(v.e, v.off, v.null, mark())
    return v


def rewrite_buffer(e, c, new):
    """the bytes of a private copy change: every local pointer into it sees the new ones"""
    if c.buf is None:
        raise Unsupported('in-place change of a string that is not a private copy')
    st = e.st
    for k, v in list(st.store.items()):
        if isinstance(v, CStr) and v.buf == c.buf:
            st.store[k] = CStr(new, v.off, v.null, v.buf)
    return CStr(new, c.off, c.null, c.buf)


def suffix(e, s, off):
    off = z3.simplify(off)
    if z3.is_int_value(off) and off.as_long() == 0:
        return s
    if e.types.strings:
        return z3.SubString(s, off, z3.Length(s) - off)
    return e.strop('suffix', s, off)


def is_app(t, *names):
    for nm in names:
        if not (z3.is_app(t) and t.decl().name() == nm):
            return False
        t = t.arg(0) if t.num_args() else t
    return True


def strip_lead(e, s):
    if is_app(s, 'str_chomp', 'str_chug'):
        return s
    r = e.strop('chug', s)
    if e.types.strings:
        e.st.assume(z3.SuffixOf(r, s), fact=True)
    return r


def strip_trail(e, s):
    if is_app(s, 'str_chomp'):
        return s
    r = e.strop('chomp', s)
    if e.types.strings:
        e.st.assume(z3.PrefixOf(r, s), fact=True)
    return r


def inplace(f):
    def fn(e, args, n):
        v = e.load(args[0])
        if not isinstance(v, CStr):
            raise Unsupported('in-place string operation')
        if not z3.is_int_value(z3.simplify(v.off)) or z3.simplify(v.off).as_long():
            raise Unsupported('in-place string operation inside a string')
        return rewrite_buffer(e, v, f(e, v.e))
    return fn


fn_g_strchug = inplace(strip_lead)
fn_g_strchomp = inplace(strip_trail)
fn_g_strstrip = inplace(lambda e, s: strip_trail(e, strip_lead(e, s)))


def tail_of(s, off):
    """the text from an offset on, as a string and an offset in it (a suffix of a string is seen in that string)"""
    s, off = z3.simplify(s), z3.simplify(off)
    if s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        b, p, l = s.children()
        if z3.is_true(z3.simplify(l + p == z3.Length(b))):
            return b, z3.simplify(p + off)
    return s, off


def number(kind):
    """strtod and friends: the number a string begins with, and how many characters it takes.  The number is the
    unbounded one that the text denotes; what the function returns follows its documentation."""
    def fn(e, args, n):
        v = e.load(args[0])
        if not isinstance(v, CStr):
            raise Unsupported('number conversion of %s' % type(v).__name__)
        t, o = tail_of(v.e, v.off)
        if kind == 'd':
            x = e.strop('number', t, o, ret=z3.RealSort())
            ln = e.strop('number_length', t, o, ret=INT)
            r = V(x, DBL)
            e.st.assume(z3.Implies(ln == 0, x == 0), fact=True)
        else:
            base = e.num(args[2])
            x = e.strop('integer', t, o, base, ret=INT)
            ln = e.strop('integer_length', t, o, base, ret=INT)
            e.st.assume(z3.Implies(ln == 0, x == 0), fact=True)
            if kind == 'll':
                r = V(z3.If(x > 2**63 - 1, Iv(2**63 - 1), z3.If(x < -2**63, Iv(-2**63), x)), I64)
            else:
                r = V(z3.If(z3.Or(x > 2**64 - 1, x < -(2**64 - 1)), Iv(2**64 - 1), z3.If(x < 0, x + 2**64, x)), U64)
        e.st.assume(z3.And(ln >= 0, ln <= z3.If(e.slen(t) >= o, e.slen(t) - o, 0)), fact=True)
        e.st.assume(z3.Implies(e.char_at(e.st, t, o) == ord('%'), ln == 0), fact=True)
        end = e.load(args[1]) if len(args) > 1 else None
        if isinstance(end, PtrLV) and end.lv is not None:
            e.write(e.st, end.lv, CStr(v.e, z3.simplify(v.off + ln), v.null, v.buf))
        elif end is not None and not (isinstance(end, PtrLV) or (isinstance(end, V) and z3.is_int_value(z3.simplify(end.e)))):
            raise Unsupported('end pointer of a number conversion')
        return r
    return fn


fn_g_ascii_strtod = fn_g_strtod = number('d')
fn_g_ascii_strtoll = number('ll')
fn_g_ascii_strtoull = number('ull')


fn_g_strdup_inline = fn_g_strdup


def fn_g_free(e, args, n):
    return VOIDV


fn_free = fn_g_error_free = fn_g_clear_error = fn_g_object_unref = fn_g_free


def fn___builtin_constant_p(e, args, n):
    return V(Iv(0), I32)


def fn___builtin_expect(e, args, n):
    return e.load(args[0])


def fn_g_str_has_prefix(e, args, n):
    a, b = sstr(e, args[0]), sstr(e, args[1])
    r = z3.PrefixOf(b, a) if e.types.strings else e.strop('has_prefix', a, b, ret=z3.BoolSort())
    nm = str(b)
    if not e.types.strings and nm.startswith('lit:') and len(nm) == 5:
        c = e.strop('char', a, Iv(0), ret=INT)
        e.type_facts(e.st, c, I8)
        r = c == ord(nm[4])
    elif not e.types.strings and nm.startswith('lit:'):
        for s, c in list(e.lits.items()):
            e.st.assume(e.strop('has_prefix', c, b, ret=z3.BoolSort()) == z3.BoolVal(s.startswith(nm[4:])), fact=True)
    return V(z3.If(r, Iv(1), Iv(0)), I32)


def fn_g_str_has_suffix(e, args, n):
    a, b = sstr(e, args[0]), sstr(e, args[1])
    r = z3.SuffixOf(b, a) if e.types.strings else e.strop('has_suffix', a, b, ret=z3.BoolSort())
    return V(z3.If(r, Iv(1), Iv(0)), I32)


def fn_to_string(e, args, n):
    x = e.load(args[0])
    if e.types.strings and x.e.sort() == INT:
        return V(z3.If(x.e >= 0, z3.IntToStr(x.e), z3.Concat(z3.StringVal('-'), z3.IntToStr(-x.e))), STR)
    return V(e.strop('of_' + ('int' if x.e.sort() == INT else 'real'), x.e), STR)


def fn_stoi(e, args, n):
    return V(e.strop('stoi', sstr(e, args[0]), ret=INT), I32)


def fn_stod(e, args, n):
    return V(e.strop('stod', sstr(e, args[0]), ret=z3.RealSort()), DBL)


def lit_text(e, v):
    v = e.load(v)
    if not isinstance(v, CStr):
        return None
    if z3.is_string_value(v.e):
        return v.e.as_string()
    nm = str(v.e)
    if z3.is_const(v.e) and nm.startswith('lit:'):
        return nm[4:]
    return None


def h_xstrbuild(e, f, this, args):
    """printf-style formatting with a literal format"""
    import re
    fmt = lit_text(e, args[0])
    if fmt is None:
        return V(fresh('xstrbuild', e.types.STR), STR)
    out = e.lit('')
    rest = list(args[1:])
    for piece in re.split(r'(%[-+ #0]*[0-9.*]*(?:hh|h|ll|l|z)?[a-zA-Z%])', fmt):
        if not piece:
            continue
        if piece == '%%':
            out = e.concat(out, e.lit('%'))
        elif piece.startswith('%') and len(piece) > 1:
            a = e.load(rest.pop(0)) if rest else None
            if piece.endswith('s'):
                out = e.concat(out, sstr(e, a))
            elif piece in ('%d', '%i', '%u', '%lu', '%ld') and isinstance(a, V):
                out = e.concat(out, fn_to_string(e, [a], None).e)
            elif isinstance(a, V):
                out = e.concat(out, e.strop('fmt_' + piece, a.e))
            else:
                out = e.concat(out, fresh('fmt', e.types.STR))
        else:
            out = e.concat(out, e.lit(piece))
    return V(out, STR)


def h_xstrassign(e, f, this, args):
    e.write(e.st, args[0], V(fresh('xstrassign', e.types.STR), STR))
    return V(fresh('n', INT), I32)


# ---------------------------------------------------------------------- paths and URIs (GLib, by ghost functions)
def fn_g_uri_parse_scheme(e, args, n):
    s = sstr(e, args[0])
    has = e.strop('has_scheme', s, ret=z3.BoolSort())
    r = e.strop('scheme', s)
    e.st.assume(z3.Implies(has, e.slen(r) >= 1), fact=True)
    return CStr(r, null=z3.Not(has))


def fn_g_path_is_absolute(e, args, n):
    return V(z3.If(e.strop('is_absolute', sstr(e, args[0]), ret=z3.BoolSort()), Iv(1), Iv(0)), I32)


def fn_g_get_current_dir(e, args, n):
    return CStr(e.strop('cwd', Iv(0)))


def fn_g_build_filename(e, args, n):
    parts = []
    for a in args:
        v = e.load(a)
        if (isinstance(v, V) and v.e.sort() == INT) or (isinstance(v, (CStr, PtrLV)) and z3.is_true(z3.simplify(v.null))):
            break
        parts.append(sstr(e, v))
    r = parts[0]
    for p in parts[1:]:
        r = e.strop('filename', r, p)
    return CStr(r)


def fn_g_path_get_basename(e, args, n):
    return CStr(e.strop('basename', sstr(e, args[0])))


def fn_g_path_get_dirname(e, args, n):
    return CStr(e.strop('dirname', sstr(e, args[0])))


def fn_g_filename_to_uri(e, args, n):
    s = sstr(e, args[0])
    return CStr(e.strop('file_uri', s), null=z3.Not(e.strop('has_file_uri', s, ret=z3.BoolSort())))


def fn_g_filename_from_uri(e, args, n):
    s = sstr(e, args[0])
    return CStr(e.strop('uri_path', s), null=z3.Not(e.strop('has_uri_path', s, ret=z3.BoolSort())))
