"""Symbolic verifier: executes the clang AST of functions under contract and
generates proof obligations.  See DESIGN.md for the semantics and what is dropped."""
import os, pickle, re, select, signal, time
import z3
from . import front
from .front import ty, qty
from .ctypes_ import *
from .state import *

MAXDEPTH = 24
TWO = {8: 1 << 8, 16: 1 << 16, 32: 1 << 32, 64: 1 << 64}


def safe_check(s):
    """a resource limit of the solver is 'unknown'"""
    try:
        return s.check()
    except z3.Z3Exception:
        return z3.unknown


class Abort(Exception):
    pass


def Iv(n):
    return z3.IntVal(n)


def rsel(a, i):
    """select with read-over-write"""
    while z3.is_store(a):
        if a.arg(1).eq(i):
            return a.arg(2)
        if z3.is_int_value(a.arg(1)) and z3.is_int_value(i):
            a = a.arg(0)
            continue
        break
    return z3.Select(a, i)


class Engine:
    def __init__(self, prog, contracts=None, modset=None):
        self.prog = prog
        self.types = Types(prog)
        self.contracts = contracts or {}
        self.modset = modset
        self.obls = []            # collected obligations
        self.collect = True       # False during dry loop runs
        self.frames = 0
        self.tmp = 0
        self.inlined = set()
        self.used_contracts = set()
        self.lib_used = set()
        self.dropped = set()
        self.h0 = {}
        self.cells = {}
        self.enums_cache = {}
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', 400)
        self.solver.set('smt.mbqi', False)
        self.solver.set('smt.auto_config', False)
        self.sstack = []
        self.depth = 0
        self.cur = None           # current contract
        self.feas_calls = 0
        self.feas_time = 0
        self.tags = {}
        self.axioms = []
        self.tagf = z3.Function('typeTag', z3.IntSort(), z3.IntSort())
        self.paths = 0
        self.maxpaths = 4000
        self.callstack = []
        self._mk_call_sort()

    # ------------------------------------------------------------------ ghost call history
    def _mk_call_sort(self):
        S = self.types.STR
        d = z3.Datatype('Call')
        I, R = z3.IntSort(), z3.RealSort()
        d.declare('call', ('fn', I), ('o', I), ('e', I), ('n', I), ('m', I), ('s', S), ('s2', S), ('s3', S),
                  ('r', I), ('x', I), ('d', R), ('d2', R))
        self.Call = d.create()
        self.fncodes = {}
        t = z3.Datatype('Trace')
        t.declare('mk', ('len', I), ('a', z3.ArraySort(I, self.Call)))
        self.Trace = t.create()

    def fncode(self, name):
        return Iv(self.fncodes.setdefault(name, len(self.fncodes) + 1))

    def mkcall(self, fn, o=0, e=0, n=0, m=0, s=None, s2=None, s3=None, r=0, x=0, d=None, d2=None):
        z = self.lit('')

        def iv(v):
            if isinstance(v, bool):
                return Iv(1 if v else 0)
            if isinstance(v, int):
                return Iv(v)
            if v.sort() == z3.BoolSort():
                return z3.If(v, Iv(1), Iv(0))
            return v
        rz = z3.RealVal(0)
        return self.Call.call(self.fncode(fn), iv(o), iv(e), iv(n), iv(m), z if s is None else s,
                              z if s2 is None else s2, z if s3 is None else s3, iv(r), iv(x),
                              rz if d is None else d, rz if d2 is None else d2)

    def trace_append(self, st, call):
        t = st.trace
        ln, a = self.Trace.len(t), self.Trace.a(t)
        st.trace = self.Trace.mk(z3.simplify(ln + 1), z3.Store(a, z3.simplify(ln), call))

    # ------------------------------------------------------------------ feasibility
    def feasible(self, st):
        t0 = time.time()
        self.feas_calls += 1
        pc = st.pc
        k = 0
        n = min(len(self.sstack), len(pc))
        while k < n and self.sstack[k].eq(pc[k]):
            k += 1
        for _ in range(len(self.sstack) - k):
            self.solver.pop()
        del self.sstack[k:]
        for c in pc[k:]:
            self.solver.push()
            self.solver.add(c)
            self.sstack.append(c)
        r = safe_check(self.solver)
        self.feas_time += time.time() - t0
        return r != z3.unsat

    def implied(self, st, e):
        """Cheap check that st.pc implies e (used for invariant candidates)."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        return prove(st.pc, e, timeout=4000)[0] == 'unsat'

    def branch(self, st, cond):
        """Fork on a z3 Bool; returns (st_true or None, st_false or None)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return st, None
        if z3.is_false(cond):
            return None, st
        a, b = st.copy(), st
        b = st.copy()
        a.assume(cond)
        b.assume(z3.simplify(z3.Not(cond)))
        fa = self.feasible(a)
        fb = self.feasible(b)
        return (a if fa else None), (b if fb else None)

    # ------------------------------------------------------------------ obligations
    def obligation(self, st, name, goal, extra=None, cover=False):
        if not self.collect:
            return
        self.obls.append(dict(name=name, pc=list(st.pc) + (extra or []), goal=goal, notes=list(st.notes)))

    # ------------------------------------------------------------------ heap
    def hkey_type(self, key):
        if key in self.cells:
            return self.cells[key]
        cls, f = key.rsplit('::', 1)
        for n, t in self.types.fields(cls):
            if n == f:
                return t
        raise Unsupported('no field %s' % key)

    def heap_sort(self, key):
        t = self.hkey_type(key)
        return z3.ArraySort(z3.IntSort(), self.types.sort(t))

    def hget(self, st, key):
        a = st.heap.get(key)
        if a is None:
            a = self.h0.get(key)
            if a is None:
                a = z3.Const('H0_' + key.replace('::', '.'), self.heap_sort(key))
                self.h0[key] = a
        return a

    def hinit(self, key):
        a = self.h0.get(key)
        if a is None:
            a = z3.Const('H0_' + key.replace('::', '.'), self.heap_sort(key))
            self.h0[key] = a
        return a

    def owner(self, cls, field):
        """The class that declares field, searching bases."""
        for c in self.prog.supers(cls):
            r = self.prog.records.get(c)
            if r and any(n == field for n, _ in r.fields):
                return c
        raise Unsupported('field %s of %s' % (field, cls))

    def sel(self, st, key, ref):
        return rsel(self.hget(st, key), ref)

    # facts implied by the C++ type of a loaded value
    def type_facts(self, st, e, t):
        k = t.k
        if k not in ('int', 'enum', 'ptr', 'list', 'bool'):
            return
        i = e.get_id()
        if i in st.ranged:
            return
        st.ranged.add(i)
        self._keep(e)
        if z3.is_int_value(e):
            return
        if k == 'int':
            bits, sg = t.a
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            st.assume(z3.And(e >= lo, e <= hi), fact=True)
        elif k == 'enum':
            vals = list(self.prog.enums[t.a[0]].values())
            if vals:
                if sorted(vals) == list(range(min(vals), max(vals) + 1)):
                    st.assume(z3.And(e >= min(vals), e <= max(vals)), fact=True)
                else:
                    st.assume(z3.Or([e == v for v in vals]), fact=True)
        elif k == 'ptr':
            st.assume(z3.And(e >= 0, e < st.hwm), fact=True)
            if t.a[0].k == 'class' and not self.types.is_pod(t.a[0].a[0]):
                st.assume(z3.Or(e == 0, self.is_subtype(e, t.a[0].a[0])), fact=True)
        elif k == 'list':
            st.assume(self.types.sort(t).len(e) >= 0, fact=True)

    _kept = {}

    def _keep(self, e):
        self._kept[e.get_id()] = e

    # ------------------------------------------------------------------ class tags
    def tag(self, cls):
        return self.tags.setdefault(cls, len(self.tags) + 1)

    def is_subtype(self, ref, cls):
        cs = [c for c in self.prog.subs(cls) if not self.is_abstract(c)]
        if not cs:
            cs = [cls]
        return z3.Or([self.tagf(ref) == self.tag(c) for c in cs])

    def is_abstract(self, cls):
        r = self.prog.records.get(cls)
        if r is None:
            return False
        for c in self.prog.supers(cls):
            rr = self.prog.records.get(c)
            if not rr:
                continue
            for m, lst in rr.methods.items():
                if any(x['pure'] for x in lst) and not m.startswith('~'):
                    # overridden below?
                    ok = False
                    for d in self.prog.supers(cls):
                        if d == c:
                            break
                        if m in self.prog.records[d].methods:
                            ok = True
                    if not ok:
                        return True
        return False

    # ------------------------------------------------------------------ lvalues
    def newlocal(self, st, val, name='tmp'):
        self.tmp += 1
        key = ('t', self.tmp, name)
        st.store[key] = val
        return key

    def read(self, st, lv):
        """lvalue -> value"""
        if isinstance(lv, (Obj,)):
            return lv
        if not isinstance(lv, LV):
            return lv
        r = lv.root
        if r[0] == 'local':
            v = st.store.get(r[1])
            if v is None:
                raise Unsupported('unknown local %r' % (r[1],))
            if isinstance(v, Ref):
                return self.read(st, v.lv)
            if isinstance(v, Undef):
                v = self.fresh_value(st, 'undef', v.t)
                st.store[r[1]] = v
            if not lv.path:
                return v
            if not isinstance(v, V):
                raise Unsupported('path on special value %r' % v)
            e, t = v.e, v.t
        elif r[0] == 'heap':
            t = self.hkey_type(r[1])
            if t.k == 'class' and not self.types.is_pod(t.a[0]):
                return Obj(self.emb(r[1], r[2]), t.a[0])
            e = rsel(self.hget(st, r[1]), r[2])
        elif r[0] == 'glob':
            t = r[2]
            e = self.glob(st, r[1], t)
        else:
            raise Unsupported('read root %r' % (r,))
        for step in lv.path:
            e, t = self.step(e, t, step)
        self.type_facts(st, e, t)
        if r[0] == 'heap' and t.k == 'ptr' and r[1].startswith('_xml') and t.a[0].k == 'int' and t.a[0].a[0] == 8:
            return CStr(self.c_text()(e), null=e == 0)        # text of a node
        return V(e, t)

    def c_text(self):
        return z3.Function('c_text', z3.IntSort(), self.types.STR)

    def emb(self, key, ref):
        f = z3.Function('emb_' + key.replace('::', '.'), z3.IntSort(), z3.IntSort())
        return f(ref)

    def glob(self, st, name, t):
        key = ('glob', name)
        if key not in st.heap:
            k0 = self.h0.get(key)
            if k0 is None:
                k0 = z3.Const('G0_' + name.replace('::', '.'), self.types.sort(t))
                self.h0[key] = k0
            return k0
        return st.heap[key]

    def step(self, e, t, step):
        if step[0] == 'f':
            comps = self.types.comps(t)
            s = self.types.sort(t)
            for i, (n, ft) in enumerate(comps):
                if n == step[1]:
                    return self.proj(s, i, e), ft
            raise Unsupported('field %s of %r' % (step[1], t))
        if step[0] == 'idx':
            s = self.types.sort(t)
            return rsel(self.proj(s, 1, e), step[1]), t.a[0]
        if step[0] == 'key':
            s = self.types.sort(t)
            return rsel(self.proj(s, 1, e), step[1]), t.a[1]
        raise Unsupported('step %r' % (step,))

    def proj(self, s, i, e):
        # simplify projection of a constructor application
        if z3.is_app(e) and e.decl().eq(s.constructor(0)):
            return e.arg(i)
        return s.accessor(0, i)(e)

    def update(self, e, t, path, new):
        if not path:
            return new
        step, rest = path[0], path[1:]
        s = self.types.sort(t)
        sub, st_ = self.step(e, t, step)
        nv = self.update(sub, st_, rest, new)
        if step[0] == 'f':
            comps = self.types.comps(t)
            return s.constructor(0)(*[nv if n == step[1] else self.proj(s, i, e)
                                      for i, (n, _) in enumerate(comps)])
        if step[0] == 'idx':
            return s.mk(self.proj(s, 0, e), z3.Store(self.proj(s, 1, e), step[1], nv))
        if step[0] == 'key':
            return s.mk(z3.Store(self.proj(s, 0, e), step[1], z3.BoolVal(True)),
                        z3.Store(self.proj(s, 1, e), step[1], nv))
        raise Unsupported('update')

    def write(self, st, lv, val):
        if isinstance(lv, Obj):
            raise Unsupported('assignment to object %s' % lv.cls)
        r = lv.root
        if r[0] == 'local':
            cur = st.store.get(r[1])
            if isinstance(cur, Ref):
                tgt = cur.lv
                if lv.path:
                    tgt = LV(tgt.root, tgt.path + lv.path, lv.t)
                return self.write(st, tgt, val)
            if not lv.path:
                if isinstance(val, V) and isinstance(cur, (V, Undef)):
                    val = self.conv(st, val, cur.t)
                st.store[r[1]] = val
                return
            if isinstance(cur, Undef):
                cur = self.fresh_value(st, 'undef', cur.t)
            if not isinstance(cur, V):
                raise Unsupported('partial write to special value')
            nv = self.term(st, val, lv.t)
            st.store[r[1]] = V(self.update(cur.e, cur.t, lv.path, nv), cur.t)
        elif r[0] == 'heap':
            t = self.hkey_type(r[1])
            arr = self.hget(st, r[1])
            nv = self.term(st, val, lv.t)
            old = rsel(arr, r[2])
            st.heap[r[1]] = z3.Store(arr, r[2], self.update(old, t, lv.path, nv))
        elif r[0] == 'glob':
            old = self.glob(st, r[1], r[2])
            nv = self.term(st, val, lv.t)
            st.heap[('glob', r[1])] = self.update(old, r[2], lv.path, nv)
        else:
            raise Unsupported('write root %r' % (r,))

    def term(self, st, val, t):
        """Value -> z3 term of the sort of t (converting)."""
        if isinstance(val, V):
            return self.conv(st, val, t).e
        if isinstance(val, Obj) and t.k == 'ptr':
            return val.e
        if isinstance(val, FnRef):
            return self.fncode('fn:' + val.name)
        if isinstance(val, CStr) and t.k == 'str':
            return self.cstr_str(val)
        if isinstance(val, Undef):
            return fresh('undef', self.types.sort(t))
        if isinstance(val, PtrLV) and t.k == 'ptr':
            # address of an lvalue stored as an opaque pointer
            lv = val.lv
            if isinstance(lv, LV) and not lv.path and lv.root[0] == 'local':
                return fresh('addr', z3.IntSort())
        raise Unsupported('cannot store %s as %r' % (type(val).__name__, t))

    def conv(self, st, v, t):
        """Implicit conversion between scalar types (semantic casts are explicit in the AST)."""
        if v.t == t or t is None:
            return v
        if v.t.k == 'ref':
            return V(v.e, t)
        if t.k == 'dbl' and v.t.k in ('int', 'enum'):
            return V(z3.ToReal(v.e), t)
        if t.k == 'bool' and v.t.k in ('int', 'enum', 'ptr'):
            return V(v.e != 0, t)
        if t.k in ('int', 'enum') and v.t.k == 'bool':
            return V(z3.If(v.e, Iv(1), Iv(0)), t)
        if v.e.sort() == self.types.sort(t):
            return V(v.e, t)
        raise Unsupported('conversion %r -> %r' % (v.t, t))

    # ------------------------------------------------------------------ fresh values
    def fresh_value(self, st, name, t):
        if t.k == 'ref':
            t = t.a[0]
        if t.k == 'class' and not self.types.is_pod(t.a[0]):
            r = fresh(name, z3.IntSort())
            st.assume(z3.And(r > 0, r < st.hwm, self.tagf(r) == self.tag(t.a[0])))
            return Obj(r, t.a[0])
        if t.k == 'ptr' and self.is_lvptr(t):
            inner = t.a[0]
            if inner == I8 or inner == U8:
                return CStr(fresh(name, self.types.STR), null=fresh(name + '_null', z3.BoolSort()))
            key = self.newlocal(st, self.fresh_value(st, name + '_pt', inner) if inner.k != 'void'
                                else Opaque('void'), name)
            return PtrLV(LV(('local', key), (), inner), fresh(name + '_null', z3.BoolSort()))
        e = fresh(name, self.types.sort(t))
        self.type_facts(st, e, t)
        return V(e, t)

    def is_lvptr(self, t):
        """pointer to something that is not a heap object of the repository."""
        a = t.a[0]
        if a.k in ('class',):
            return self.types.is_pod(a.a[0])
        return a.k in ('str', 'int', 'bool', 'dbl', 'list', 'set', 'map', 'pair', 'tuple', 'enum', 'ptr')

    def no_elements(self, t):
        """what lies beyond the end of a list that never had elements: arbitrary, never looked at"""
        return z3.Const('emptyarr:' + self.types.mangle(t), self.types.sort(t).accessor(0, 1).range())

    def default_value(self, st, t):
        """Default-initialised value of class type; Undef for scalars."""
        k = t.k
        if k == 'str':
            return V(self.lit(''), t)
        if k == 'list':
            s = self.types.sort(t)
            return V(s.mk(Iv(0), self.no_elements(t)), t)
        if k == 'set':
            s = self.types.sort(t)
            return V(z3.K(self.types.sort(t.a[0]), z3.BoolVal(False)), t)
        if k == 'map':
            s = self.types.sort(t)
            return V(s.mk(z3.K(self.types.sort(t.a[0]), z3.BoolVal(False)),
                          fresh('mval', s.accessor(0, 1).range())), t)
        if k in ('pair', 'tuple', 'class'):
            s = self.types.sort(t)
            vals = []
            for n, ft in self.types.comps(t):
                d = self.default_value(st, ft)
                vals.append(fresh('undef', self.types.sort(ft)) if isinstance(d, Undef) else d.e)
                if isinstance(d, Undef):
                    self.type_facts(st, vals[-1], ft)
            return V(s.constructor(0)(*vals), t)
        if k == 'iter':
            return Undef(t)
        return Undef(t)

    def zero_value(self, t):
        if t.k in ('int', 'enum', 'ptr'):
            return V(Iv(0), t)
        if t.k == 'bool':
            return V(z3.BoolVal(False), t)
        if t.k == 'dbl':
            return V(z3.RealVal(0), t)
        return None

    # ------------------------------------------------------------------ set / map enumerations
    def enumerate_(self, st, v):
        """(len, arr) enumerating a set (elements) or map (keys), with defining axioms."""
        key = v.e.get_id()
        ks = self.types.sort(v.t.a[0])
        mem = v.e if v.t.k == 'set' else self.types.sort(v.t).dom(v.e)
        if key in self.enums_cache:
            ln, arr, pos, ax = self.enums_cache[key]
        else:
            self._keep(v.e)
            ln = fresh('n', z3.IntSort())
            arr = fresh('enum', z3.ArraySort(z3.IntSort(), ks))
            pos = z3.Function('pos!%d' % mark(), ks, z3.IntSort())
            x = z3.Const('x!e', ks)
            k = z3.Int('k!e')
            ax = [ln >= 0]
            tmem = z3.Select(mem, x)
            body = z3.Implies(tmem, z3.And(pos(x) >= 0, pos(x) < ln, z3.Select(arr, pos(x)) == x))
            pats = [tmem] if self.patternable(tmem) else []
            ax.append(z3.ForAll([x], body, patterns=pats + [pos(x)]))
            el = z3.Select(arr, k)
            ax.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ln),
                                                z3.And(z3.Select(mem, el), pos(el) == k)), patterns=[el]))
            if v.t.a[0].k == 'str' and v.t.k == 'map':
                j = z3.Int('j!e')
                ax.append(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < ln),
                                                       z3.Select(arr, j) < z3.Select(arr, k)),
                                    patterns=[z3.MultiPattern(z3.Select(arr, j), z3.Select(arr, k))]))
            self.enums_cache[key] = (ln, arr, pos, ax)
        for a in ax:
            st.assume(a)
        return ln, arr

    def patternable(self, e):
        # patterns must not contain interpreted boolean structure; Select over uninterpreted ok
        def ok(t):
            if z3.is_app(t):
                if t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_STORE,
                                       z3.Z3_OP_CONST_ARRAY):
                    return False
                return all(ok(c) for c in t.children())
            return z3.is_var(t)
        return ok(e)

    def size_of(self, st, v):
        """size() of a container value."""
        if v.t.k == 'list':
            s = self.types.sort(v.t)
            e = self.proj(s, 0, v.e)
            st.assume(e >= 0)
            return e
        if v.t.k in ('set', 'map'):
            ln, arr = self.enumerate_(st, v)
            return ln
        raise Unsupported('size of %r' % v.t)

    # ------------------------------------------------------------------ strings
    def cstr_str(self, c):
        off = z3.simplify(c.off)
        if z3.is_int_value(off) and off.as_long() == 0:
            return c.e
        return z3.SubString(c.e, c.off, z3.Length(c.e) - c.off)

    def char_at(self, st, s, i):
        """byte at position i as int, NUL at the end."""
        c = z3.StrToCode(z3.SubString(s, i, 1))
        inside = z3.And(i >= 0, i < z3.Length(s))
        st.assume(z3.Implies(inside, z3.And(c >= 1, c <= 255)), fact=True)      # strings hold no NUL
        return z3.If(inside, c, Iv(0))

    def str_of(self, st, v):
        if isinstance(v, V) and v.t.k == 'str':
            return v.e
        if isinstance(v, CStr):
            return self.cstr_str(v)
        if isinstance(v, V) and v.t.k == 'int':
            return z3.StrFromCode(v.e)
        if isinstance(v, V) and v.t.k == 'ptr':
            # opaque char pointer
            raise Unsupported('char pointer')
        raise Unsupported('string from %r' % (v,))


# ---------------------------------------------------------------------- proving
STATS = dict(z3=0, cvc5=0, time=0.0)


def prove(pc, goal, timeout=5000, mbqi=False, model=False):
    """unsat => proved.  Returns (result, model or reason)."""
    s = z3.Solver()
    s.set('timeout', timeout)
    if not mbqi:
        s.set('smt.mbqi', False)
        s.set('smt.auto_config', False)
    for c in pc:
        s.add(c)
    s.add(z3.Not(goal))
    t0 = time.time()
    r = safe_check(s)
    STATS['time'] += time.time() - t0
    STATS['z3'] += 1
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        return 'sat', s.model()
    return 'unknown', (s.reason_unknown(), s.model() if model else None)


def guarded(fn, secs):
    """run fn() in a child that is ended after secs: a solver may overrun its own limit"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.write(w, pickle.dumps(fn()))
        except BaseException:  # noqa
            pass
        finally:
            os._exit(0)
    os.close(w)
    out = b''
    end = time.time() + secs
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                out = b''
                break
            d = os.read(r, 65536)
            if not d:
                break
            out += d
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    return pickle.loads(out) if out else None


def second_try(pc, g, timeout=500):
    def run():
        s = z3.Solver()
        s.set('timeout', timeout)
        for c in pc:
            s.add(c)
        s.add(z3.Not(g))
        return safe_check(s) == z3.unsat
    STATS['z3'] += 1
    t0 = time.time()
    out = guarded(run, timeout / 1000 + 0.7)
    STATS['time'] += time.time() - t0
    return z3.unsat if out else z3.unknown


def prove_mbqi(pc, goal, timeout, text):
    """like prove() with model-based quantifier instantiation; a model is rendered by text()"""
    def run():
        s = z3.Solver()
        s.set('timeout', timeout)
        for c in pc:
            s.add(c)
        s.add(z3.Not(goal))
        r = safe_check(s)
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', text(s.model())
        return 'unknown', s.reason_unknown()
    t0 = time.time()
    out = guarded(run, timeout / 1000 + 2) or ('unknown', 'timeout')
    STATS['time'] += time.time() - t0
    STATS['z3'] += 1
    return out


def prove_many(pc, goals, timeout=3000, again=True):
    """prove each goal under the same assumptions (one incremental solver)"""
    s = z3.SimpleSolver()
    s.set('timeout', timeout)
    s.set('smt.mbqi', False)
    s.set('smt.auto_config', False)
    for c in pc:
        s.add(c)
    out = []
    t0 = time.time()
    for g in goals:
        g = z3.simplify(g) if not z3.is_quantifier(g) else g
        if z3.is_true(g):
            out.append(True)
            continue
        s.push()
        s.add(z3.Not(g))
        r = safe_check(s)
        STATS['z3'] += 1
        s.pop()
        if again and r == z3.unknown and 'incomplete' in s.reason_unknown():
            r = second_try(pc, g)
        out.append(r == z3.unsat)
    STATS['time'] += time.time() - t0
    return out
