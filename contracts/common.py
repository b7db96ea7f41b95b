"""Shared pieces of the contracts: recorded interface calls with computed frames."""
import z3
from cdv.contract import contract, K
from cdv.state import *
from cdv.ctypes_ import *
from cdv.modset import Modset

I = z3.IntSort()


def modset(eng):
    p = eng.prog
    if not hasattr(p, '_modset'):
        p._modset = Modset(p)
    return p._modset


def havoc(eng, keys, keep=()):
    st = eng.st
    for key in sorted(keys):
        if key in keep:
            continue
        cls = key.rsplit('::', 1)[0]
        if eng.types.is_pod(cls):
            continue        # a local value of struct type
        try:
            s = eng.heap_sort(key)
        except Unsupported:
            continue
        st.heap[key] = fresh('hv_' + key.replace('::', '.'), s)
    h = fresh('hwm', I)
    st.assume(h >= st.hwm, fact=True)
    st.hwm = h


def term(eng, v):
    v = eng.load(v)
    if isinstance(v, (V, Obj)):
        return v.e
    if isinstance(v, CStr):
        return eng.str_of(eng.st, v) if hasattr(eng, 'str_of') else v.e
    if v is None or isinstance(v, Opaque):
        return None
    raise Unsupported('interface argument %s' % type(v).__name__)


def recorded(name, rec, ret=None, writes=(), keep=(), post=None, virtual=True, extra=None):
    """A call that is not followed: it is recorded in the ghost history, may write every field the callee could
    (computed from the code), and returns anything."""
    def h(eng, f, this, args):
        a = [term(eng, x) for x in args]
        ks = set()
        for w in writes:
            ks |= modset(eng).writes(w)
        kw = dict(rec(eng, this, a))
        havoc(eng, ks, keep)
        r = None
        if ret == 'bool':
            r = fresh('ret_' + name, z3.BoolSort())
            kw['r'] = r
        elif ret == 'int':
            r = fresh('ret_' + name, I)
            kw['r'] = r
        if extra:
            kw.update(extra(eng, this, a))
        eng.trace_append(eng.st, eng.mkcall(name, **kw))
        if post:
            post(eng, this, a, r)
        if ret == 'bool':
            return V(r, BOOL)
        if ret == 'int':
            return V(r, I32)
        return VOIDV
    h.virtual = virtual
    return h


def cget(k, call, field):
    C = k.eng.Call
    names = ['fn', 'o', 'e', 'n', 'm', 's', 's2', 's3', 'r', 'x', 'd', 'd2']
    return C.accessor(0, names.index(field))(call)


class Hist:
    """The part of the ghost history added by the function."""

    def __init__(self, k, old=None, new=None):
        self.k = k
        self.o, self.n = old or k.old, new or k.new

    @property
    def len(self):
        return z3.simplify(self.n.tlen - self.o.tlen)

    def call(self, i):
        return self.n.call(self.o.tlen + i)

    def get(self, i, field):
        return cget(self.k, self.call(i), field)

    def fn(self, i, name):
        return self.get(i, 'fn') == self.k.fn(name)

    def is_(self, i, name, **kw):
        return z3.And([self.fn(i, name)] + [self.get(i, f) == v for f, v in kw.items()])


def low(k):
    """letter-case folding, as the models of the comparison functions use it"""
    from cdv.lib import lower
    def f(s):
        saved = k.eng.st
        k.eng.st = (k.new or k.old).st
        try:
            return lower(k.eng, s)
        finally:
            k.eng.st = saved
    return f


def Iv(n):
    return z3.IntVal(n)


def pod(k, e, tname, field):
    """field of a struct value"""
    t = k.eng.types.parse(tname)
    for i, (n, ft) in enumerate(k.eng.types.comps(t)):
        if n == field:
            return k.eng.proj(e.sort(), i, e)
    raise Unsupported('no field %s of %s' % (field, tname))


def pair(e, i):
    return e.sort().accessor(0, i)(e)


from cdv.contract import AnyOf


def selection(k, n, due, M, match, upto=None, name='selected', more=False):
    """the sequence of M entries is the order-preserving selection of the due ones among n (witnessed by one of the
    ghost position maps of the loops executed)"""
    p, q, i = k.sk('p'), k.sk('q'), k.sk('i')
    alts = []
    for nm, gs, gd, L0 in reversed(k.new.st.ghost.get('maps', ())):
        g = lambda x: z3.Select(gs, z3.simplify(L0 + x))
        d = lambda x: z3.Select(gd, x) - L0
        comp = due(i) if upto is None else z3.And(due(i), z3.Or(z3.Not(upto), i <= g(M - 1)))
        alts.append([
            z3.Implies(z3.And(0 <= p, p < M), z3.And(0 <= g(p), z3.Or(z3.And(g(p) < n, due(g(p)), match(p, g(p))), g(p) >= n if more else False))),
            z3.Implies(z3.And(0 <= p, p < q, q < M), g(p) < g(q)),
            z3.Implies(z3.And(0 <= i, i < n, comp), z3.And(0 <= d(i), d(i) < M, g(d(i)) == i))])
    alts.append([M == 0, z3.Implies(z3.And(0 <= i, i < n), z3.Or(z3.Not(due(i)), False if upto is None else upto))])
    return (name, AnyOf(alts))


def maybe(k, cond, goal):
    """goal under a condition"""
    nm, g = goal
    if isinstance(g, AnyOf):
        return nm, AnyOf([[z3.Implies(cond, x) for x in a] for a in g.alts])
    return nm, z3.Implies(cond, g)


def unchanged(k, allow=(), only=None, since=None):
    """frame: no field of an object that existed at entry changes, except the listed ones.
    allow: fields that may change everywhere; only: {field: set-membership function of the object}"""
    out = []
    o, n = k.old.st, k.new.st
    x = k.sk('object')
    lim = k.old.st.hwm if since is None else since
    allow = {a if isinstance(a, tuple) else k.key(a) for a in allow}
    only = {k.key(f): c for f, c in (only or {}).items()}
    for key, t in sorted(n.heap.items(), key=str):
        if key in allow:
            continue
        if isinstance(key, tuple):
            t0 = o.heap.get(key, k.eng.h0.get(key))
            if t0 is None or not t.eq(t0):
                out.append(('%s is not touched' % key[1], t == t0 if t0 is not None else z3.BoolVal(False)))
            continue
        t0 = k.eng.hget(o, key)
        if t.eq(t0):
            continue
        cond = z3.And(x < lim, z3.Not(only[key](x))) if key in only else (x < lim)
        out.append(('%s is not touched elsewhere' % key if key in only else '%s is not touched' % key,
                    z3.Implies(cond, z3.Select(t, x) == z3.Select(t0, x))))
    return out


def no_abort(*conds):
    """the function never gives up, except under the listed conditions (each a function of k)"""
    def f(k, why):
        return [('does not abort (%s)' % why, z3.Or([c(k) for c in conds]) if conds else z3.BoolVal(False))]
    return f


def ghost(eng, name, *sorts):
    return z3.Function('ghost_' + name, *sorts)


def valid_set(k, key, ref, also=None):
    S = k.old.f(key, ref)
    x = z3.Int('x!vs')
    c = z3.And(x > 0, x < k.old.st.hwm)
    if also is not None:
        c = z3.And(c, also(x))
    k.assume(z3.ForAll([x], z3.Implies(S[x], c), patterns=[S[x]]))
    return S


def valid_list(k, key, ref, also=None):
    n, i = k.old.len(key, ref), z3.Int('i!vl')
    k.assume(n >= 0)
    e = k.old.at(key, ref, i)
    c = z3.And(e > 0, e < k.old.st.hwm)
    if also is not None:
        c = z3.And(c, also(e))
    k.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), c), patterns=[e]))


def untouched(k, i):
    """the variable a pointer argument designates keeps its value"""
    return k.new.local(k.args[i].lv).e == k.old.local(k.args[i].lv).e
