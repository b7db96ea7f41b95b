"""Loop rule: invariants are inferred (or supplied as hints by contracts), proved initially and
preserved, and then assumed.  No loop is unrolled except loops whose trip count is a literal."""
import os
import z3
from .ctypes_ import *
from .state import *
from .engine import Iv, prove

INT = z3.IntSort()
UNROLL = 80


class Mods:
    """modified locations of a loop"""

    def __init__(self):
        self.store = {}      # key -> kind
        self.heap = set()
        self.fixed = {}      # heap key -> ref (single loop-invariant cell)
        self.trace = False
        self.hwm = False

    def sig(self):
        return (tuple(sorted(map(str, self.store))), tuple(sorted(map(str, self.heap))),
                tuple(sorted(self.fixed)), self.trace, self.hwm)


def symnum(c):
    nm = c.decl().name()
    i = nm.rfind('!')
    if i >= 0 and nm[i + 1:].isdigit():
        return int(nm[i + 1:])
    return 0


_consts_cache = {}


def consts(e):
    """uninterpreted constants (and numbered functions) occurring in e"""
    k = e.get_id()
    hit = _consts_cache.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    out = {}
    seen = set()
    todo = [e]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[t.decl().name()] = t
            todo += t.children()
    _consts_cache[k] = (e, out)
    return out


def maxfresh(e):
    m = 0
    for c in consts(e).values():
        m = max(m, symnum(c))
    return m


class Loc:
    """a modified location: init/head terms, and how to read its value in a state"""
    __slots__ = ('name', 'kind', 'key', 'ref', 'init', 'head', 't', 'get')

    def __init__(self, name, kind, key, init, head, get, t=None, ref=None):
        self.name, self.kind, self.key, self.init, self.head, self.get, self.t, self.ref = \
            name, kind, key, init, head, get, t, ref


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, V):
        return a.e.eq(b.e)
    if isinstance(a, It):
        return a.idx.eq(b.idx) and a.lv.root == b.lv.root
    if isinstance(a, CStr):
        return a.e.eq(b.e) and a.off.eq(b.off) and a.null.eq(b.null)
    if isinstance(a, Undef):
        return True
    if isinstance(a, (Ref,)):
        return same_lv(a.lv, b.lv)
    if isinstance(a, Obj):
        return a.e.eq(b.e)
    if isinstance(a, PtrLV):
        return a.lv is not None and b.lv is not None and same_lv(a.lv, b.lv) and a.null.eq(b.null)
    return False


def eqx(a, b):
    """structural equality of nested tuples of terms and plain values"""
    if a is b:
        return True
    if isinstance(a, z3.AstRef) or isinstance(b, z3.AstRef):
        return isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef) and a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(eqx(x, y) for x, y in zip(a, b))
    if isinstance(a, V):
        return a.e.eq(b.e)
    if isinstance(a, LV):
        return eqx(a.root, b.root) and eqx(a.path, b.path)
    if isinstance(a, (Obj,)):
        return a.e.eq(b.e)
    return a == b


def same_lv(a, b):
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.e.eq(b.e)
    if isinstance(a, LV) and isinstance(b, LV):
        return eqx(a.root, b.root) and eqx(a.path, b.path)
    return a is b


def stores(e, base):
    """e = Store(...Store(base, r1, v1)..., rn, vn) -> [(r1,v1),...] or None"""
    out = []
    while not e.eq(base):
        if z3.is_store(e):
            out.append((e.arg(1), e.arg(2)))
            e = e.arg(0)
        else:
            return None
    return list(reversed(out))


def run(eng, node, iteration, returns=False):
    """execute a loop; iteration() -> ('next',)|('exit',)|('break',) or raises"""
    # literal trip counts are executed directly
    out = unroll(eng, iteration) if not eng.exact else None
    if out is not None:
        return out
    key = ('loop', node.get('id') if node else 0)
    exits = eng.memoize(key, lambda: Loop(eng, node, iteration).solve())
    k = eng.pick(len(exits))
    st, out = exits[k]
    saved = eng.st
    eng.st = st.copy()
    if eng.st.frame is not saved.frame:
        eng.st.frame = saved.frame
    if out[0] in ('exit', 'break'):
        return out
    eng.reraise(out)


def unroll(eng, iteration):
    """run iterations while the loop condition is decided by constants alone"""
    n = 0
    while True:
        st0 = eng.st.copy()
        c0 = Ctr.n
        p = eng.pstack[-1]
        if len(p.taken) < len(p.prefix) and False:
            return None
        # probe: does the first decision of the iteration come from the loop condition?
        probe = eng.memoize(('probe', n), lambda: probe_cond(eng, iteration))
        if probe is None:
            eng.st = st0
            if n == 0:
                return None
            eng.loop_log.append('unrolled %d then summarised' % n)
            return None
        out = iteration()
        n += 1
        if out[0] != 'next':
            return out
        if n > UNROLL:
            raise Unsupported('constant loop too long')


class Probe(Exception):
    pass


def probe_cond(eng, iteration):
    """decide whether the iteration starts with a condition known without choosing: executes the
    iteration's condition only, by intercepting the first decision"""
    calls = []
    saved = eng.st
    c0 = Ctr.n
    eng.st = saved.copy()
    orig = eng.choose

    def choose(c):
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            raise Probe(True)
        raise Probe(False)
    eng.choose = choose
    col, eng.collect = eng.collect, False
    try:
        iteration()
        r = False
    except Probe as x:
        r = x.args[0]
    except Exception:  # noqa: anything else: not a constant loop
        r = False
    finally:
        del eng.choose
        eng.collect = col
        eng.st = saved
        Ctr.n = c0
    return True if r else None


class Loop:
    def __init__(self, eng, node, iteration):
        self.eng, self.node, self.it = eng, node, iteration
        self.S0 = eng.st.copy()
        self.nobl = 0
        eng.loopsused += 1

    def body(self):
        from .exec import Ctl, Return, Break, Continue, Goto, AbortPath
        try:
            return self.it()
        except Return as r:
            return ('ret', r.v)
        except Break:
            return ('break',)
        except Continue:
            return ('cont',)
        except Goto as g:
            return ('goto', g.label)
        except AbortPath as a:
            return ('abort', a.why)

    # -------------------------------------------------------------- modified locations
    def havoc(self, mods):
        eng = self.eng
        st = self.S0.copy()
        locs = []
        mark()
        if mods.hwm:
            h = fresh('hwm', INT)
            st.assume(h >= self.S0.hwm, fact=True)
            locs.append(Loc('hwm', 'hwm', None, self.S0.hwm, h, lambda s: s.hwm))
            st.hwm = h
        for key in sorted(mods.store, key=str):
            v = st.store[key]
            nm = 'l%s' % mark()
            if isinstance(v, V):
                x = fresh(nm, v.e.sort())
                eng.type_facts(st, x, v.t)
                st.store[key] = V(x, v.t)
                locs.append(Loc(nm, 'v', key, v.e, x, (lambda k: lambda s: s.store[k].e if isinstance(s.store[k], V)
                                                       else None)(key), v.t))
            elif isinstance(v, It):
                x = fresh('i' + nm, INT)
                st.store[key] = It(v.kind, v.lv, x, v.en, v.t, v.rev)
                locs.append(Loc('i' + nm, 'it', key, v.idx, x, (lambda k: lambda s: s.store[k].idx)(key), v.t))
            elif isinstance(v, CStr):
                x = fresh('o' + nm, INT)
                if mods.store[key] == 'off':
                    st.store[key] = CStr(v.e, x, v.null, v.buf)
                    locs.append(Loc('o' + nm, 'off', key, v.off, x, (lambda k: lambda s: s.store[k].off)(key)))
                else:
                    st.store[key] = CStr(fresh('s' + nm, v.e.sort()), x, fresh('n' + nm, z3.BoolSort()))
            elif isinstance(v, Undef):
                x = eng.fresh_value(st, nm, v.t)
                st.store[key] = x
                if isinstance(x, V):
                    locs.append(Loc(nm, 'u', key, None, x.e, (lambda k: lambda s: s.store[k].e
                                                              if isinstance(s.store[k], V) else None)(key), v.t))
            elif isinstance(v, (KeyIt,)):
                st.store[key] = KeyIt(v.kind, v.lv, fresh('k' + nm, v.key.sort()), fresh('e' + nm, z3.BoolSort()), v.t)
            else:
                raise Unsupported('loop modifies %s' % type(v).__name__)
        for key in sorted(mods.heap, key=str):
            if isinstance(key, tuple):
                old = st.heap.get(key) if key in st.heap else eng.h0[key]
                x = fresh('G_' + key[1], old.sort())
                locs.append(Loc('G_' + key[1], 'glob', key, old, x, (lambda k: lambda s: s.heap.get(k))(key)))
                st.heap[key] = x
                continue
            old = eng.hget(st, key)
            if key in mods.fixed:
                ref = mods.fixed[key]
                t = eng.hkey_type(key)
                x = fresh('c_' + key.replace('::', '.'), old.sort().range())
                eng.type_facts(st, x, t)
                st.heap[key] = z3.Store(old, ref, x)
                locs.append(Loc('c_' + key, 'cell', key, z3.simplify(z3.Select(old, ref)), x,
                                (lambda k, r, o: lambda s: self.cell(s, k, r, o))(key, ref, st.heap[key]), t, ref))
            else:
                x = fresh('H_' + key.replace('::', '.'), old.sort())
                st.heap[key] = x
                locs.append(Loc('H_' + key, 'heap', key, old, x, (lambda k: lambda s: eng.hget(s, k))(key),
                                eng.hkey_type(key)))
        if mods.trace:
            x = fresh('T', eng.Trace)
            locs.append(Loc('T', 'trace', None, self.S0.trace, x, lambda s: s.trace))
            st.trace = x
            st.assume(eng.Trace.len(x) >= 0, fact=True)
        return st, locs

    def cell(self, s, key, ref, base):
        a = self.eng.hget(s, key)
        if z3.is_store(a) and a.arg(1).eq(ref):
            return a.arg(2)
        return z3.simplify(z3.Select(a, ref))

    def diff(self, head, results, mods):
        changed = False
        for st, out in results:
            if out[0] != 'next':
                continue
            for k, v in head.store.items():
                w = st.store.get(k)
                if w is None or same(v, w):
                    continue
                if isinstance(v, Ref) or isinstance(w, Ref):
                    continue      # re-declared loop-local reference
                kind = 'x'
                if isinstance(v, CStr) and isinstance(w, CStr) and v.e.eq(w.e) and v.null.eq(w.null):
                    kind = 'off'
                if isinstance(v, Undef):
                    if mods.store.get(k) is None:
                        # assigned before use in each iteration? treated as havoc'd
                        if isinstance(w, V):
                            mods.store[k] = 'u'
                            changed = True
                    continue
                if type(v) is not type(w):
                    if isinstance(v, (PtrLV, Opaque)) or isinstance(w, (PtrLV, Opaque)):
                        raise Unsupported('loop changes %s' % type(v).__name__)
                if mods.store.get(k) != kind and not (mods.store.get(k) == 'x'):
                    mods.store[k] = kind
                    changed = True
            keys = set(st.heap) | set(head.heap)
            for k in keys:
                if isinstance(k, tuple):
                    a = st.heap.get(k)
                    b = head.heap.get(k, self.eng.h0.get(k))
                    if a is None or (b is not None and a.eq(b)):
                        continue
                    if k not in mods.heap:
                        mods.heap.add(k)
                        changed = True
                    continue
                a, b = self.eng.hget(st, k), self.eng.hget(head, k)
                if a.eq(b):
                    continue
                if k not in mods.heap:
                    mods.heap.add(k)
                    changed = True
            if not st.trace.eq(head.trace) and not mods.trace:
                mods.trace = changed = True
            if not st.hwm.eq(head.hwm) and not mods.hwm:
                mods.hwm = changed = True
        return changed

    def find_fixed(self, head, results, mods, headmark):
        """heap arrays written only at one loop-invariant cell"""
        fixed = {}
        for key in mods.heap:
            if isinstance(key, tuple):
                continue
            base = self.eng.hget(head, key)
            refs = []
            ok = True
            for st, out in results:
                if out[0] != 'next':
                    continue
                ss = stores(self.eng.hget(st, key), base)
                if ss is None:
                    ok = False
                    break
                refs += [r for r, _ in ss]
            if not ok or not refs:
                continue
            r0 = refs[0]
            if all(r.eq(r0) for r in refs) and maxfresh(r0) <= headmark and not self.depends(r0):
                fixed[key] = r0
        return fixed

    def depends(self, e):
        cs = consts(e)
        return any(l.head.decl().name() in cs for l in self.locs if z3.is_const(l.head))

    # -------------------------------------------------------------- main
    def solve(self):
        eng = self.eng
        saved_collect = eng.collect
        eng.collect = False
        try:
            mods = Mods()
            rounds = 0
            while True:
                head, self.locs = self.havoc(mods)
                self.hm = Ctr.n
                n0 = eng.loopsused
                results = eng.explore(head, self.body)
                rounds += 1
                if self.diff(head, results, mods):
                    if rounds > 12:
                        raise Unsupported('loop frame does not stabilise')
                    continue
                fx = self.find_fixed(head, results, mods, self.hm)
                if set(fx) != set(mods.fixed):
                    # only grow once, to stay monotone
                    if not mods.fixed and fx:
                        mods.fixed = fx
                        continue
                    bad = set(mods.fixed) - set(fx)
                    if bad and rounds < 12:
                        for b in bad:
                            mods.fixed.pop(b)
                        self.nofix = True
                        continue
                break
            nested = eng.loopsused > n0
            cursor, bound = self.cursor(head, results)
            cands, ghosts = self.candidates(head, results, cursor, bound)
            keep = self.houdini(head, results, cands, ghosts)
            if nested and keep:
                # re-explore the body knowing the invariants
                h2 = head.copy()
                for nm, c in keep:
                    h2.assume(c, fact=True)
                Ctr.n = max(Ctr.n, self.hm)
                results = eng.explore(h2, self.body)
                cands2, ghosts2 = self.candidates(head, results, cursor, bound)
                names = {c.get_id() for _, c in keep}
                allc = keep + [(n, c) for n, c in cands2 if c.get_id() not in names]
                gh = dict(ghosts)
                gh.update(ghosts2)
                keep = self.houdini(head, results, allc, gh)
            eng.loop_log.append('%s: cursor=%s kept=%s of %d' % (
                eng.callstack[-1] if eng.callstack else '', cursor.name if cursor else None,
                [n for n, _ in keep], len(cands)))
            # final states
            final = head.copy()
            for nm, c in keep:
                final.assume(c)
            if self.maps:
                final.ghost['maps'] = final.ghost.get('maps', ()) + tuple(self.maps)
            eng.collect = saved_collect
            npc = len(head.pc)
            Ctr.n = max(Ctr.n, self.hm)
            exits = []
            res = eng.explore(final, self.body) if (eng.collect or nested) else None
            if res is None:
                res = []
                for st, out in results:
                    s2 = final.copy()
                    for c in st.pc[npc:]:
                        s2.assume(c, fact=c.get_id() in st.facts)
                    s2.store, s2.heap, s2.trace, s2.hwm, s2.ranged = st.store, st.heap, st.trace, st.hwm, st.ranged
                    s2.ghost.update(st.ghost)
                    if self.maps:
                        s2.ghost['maps'] = final.ghost['maps']
                    if s2.pc and not eng.feasible(s2):
                        continue
                    res.append((s2, out))
            for st, out in res:
                if out[0] == 'next':
                    continue
                if out[0] == 'exit' and cursor is not None and bound is not None:
                    st = self.at_bound(st, cursor, bound)
                for f in eng.enumth.f.values():
                    for a in f[3]:
                        st.assume(a, fact=True)
                exits.append((st, out))
            if eng.collect:
                eng.obls_inv = getattr(eng, 'obls_inv', 0) + 2 * len(keep)
            return exits
        finally:
            eng.collect = saved_collect

    def at_bound(self, st, cursor, bound):
        """on normal exit the cursor equals its bound: substitute it"""
        r, _ = prove(st.pc, cursor.head == bound, timeout=1500)
        if r != 'unsat':
            return st
        sub = [(cursor.head, bound)]
        n = State()
        for c in st.pc:
            c2 = z3.substitute(c, *sub)
            n.assume(c2, fact=c.get_id() in st.facts)
        n.store = {k: sub_val(v, sub) for k, v in st.store.items()}
        n.heap = {k: z3.substitute(v, *sub) for k, v in st.heap.items()}
        n.trace = z3.substitute(st.trace, *sub)
        n.hwm = z3.substitute(st.hwm, *sub)
        n.notes, n.ranged, n.frame, n.ghost = list(st.notes), set(st.ranged), st.frame, dict(st.ghost)
        return n

    # -------------------------------------------------------------- cursor
    def cursor(self, head, results):
        nexts = [st for st, out in results if out[0] == 'next']
        if not nexts:
            return None, None
        for kinds in (('it',), ('off', 'v')):
            for l in self.locs:
                if l.kind not in kinds or (l.kind == 'v' and l.t.k != 'int'):
                    continue
                ok = True
                for st in nexts:
                    e = l.get(st)
                    if e is None or not inc_one(e, l.head, l.t if l.kind == 'v' else None):
                        ok = False
                        break
                if ok:
                    b = None
                    if l.kind == 'it':
                        it = head.store[l.key]
                        if it.kind == 'list':
                            v = self.eng_load(head, it.lv)
                            if v is not None:
                                s = self.eng.types.sort(v.t)
                                b = self.eng.proj(s, 0, v.e)
                        else:
                            ln = self.eng.enumth.f
                            ks = self.eng.types.sort(it.en.t.a[0])
                            from .lib import sname
                            b = ln[sname(ks)][0](it.en.e)
                        if b is not None and self.depends(b):
                            b0, b = b, None
                            if it.kind == 'list':
                                # elements may change in place as long as the length does not
                                for m in self.locs:
                                    if m.init is None or not v.e.eq(m.head):
                                        continue
                                    ends = [m.get(st) for st in nexts]
                                    if all(e is not None and z3.simplify(
                                            s.accessor(0, 0)(e) - s.accessor(0, 0)(m.head)).eq(Iv(0)) for e in ends):
                                        b = z3.simplify(s.accessor(0, 0)(m.init))
                    else:
                        b = self.guess_bound(l, head, results)
                    return l, b
        return None, None

    def eng_load(self, st, lv):
        saved = self.eng.st
        self.eng.st = st
        try:
            v = self.eng.load(lv)
            return v if isinstance(v, V) else None
        finally:
            self.eng.st = saved

    def guess_bound(self, l, head, results):
        """exit condition of the form ¬(i < n) / i == n"""
        for st, out in results:
            if out[0] != 'exit':
                continue
            for c in st.pc[len(head.pc):]:
                b = bound_of(c, l.head)
                if b is not None and not self.depends(b):
                    return b
        return None

    # -------------------------------------------------------------- closing terms over the index
    def closer(self, cursor, extra=()):
        """returns f(term, j) giving term at iteration j with modified locations replaced by their initial
        values, or None when the term depends on symbols created inside the iteration"""
        subs = []
        for l in self.locs:
            if l is cursor:
                continue
            if l.init is not None and z3.is_const(l.head):
                subs.append((l.head, l.init))
        hm = self.hm

        def f(e, j):
            if maxfresh(e) > hm:
                return None
            for l in self.locs:
                if l.init is None and l.head.decl().name() in consts(e):
                    return None
            e2 = z3.substitute(e, *(subs + [(cursor.head, j)])) if subs else z3.substitute(e, (cursor.head, j))
            return e2
        return f

    def resolve(self, e):
        return e

    def delta(self, head, st):
        """path condition of an iteration without type facts; equalities defining fresh symbols removed"""
        out = []
        for c in st.pc[len(head.pc):]:
            if c.get_id() in st.facts:
                continue
            out.append(c)
        # symbols made in this iteration that the path equates with something known
        sub = []
        seen = set()
        for c in out:
            for x in flat(c):
                if z3.is_eq(x):
                    a, b = x.arg(0), x.arg(1)
                    if not (z3.is_const(a) and symnum(a) > self.hm):
                        a, b = b, a
                    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and symnum(a) > self.hm \
                            and maxfresh(b) <= self.hm and a.get_id() not in seen:
                        seen.add(a.get_id())
                        sub.append((a, b))
                elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and symnum(x) > self.hm:
                    sub.append((x, z3.BoolVal(True)))
                elif z3.is_not(x) and z3.is_const(x.arg(0)) and x.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED \
                        and symnum(x.arg(0)) > self.hm:
                    sub.append((x.arg(0), z3.BoolVal(False)))
        if sub:
            out2 = []
            for c in out:
                d = z3.simplify(z3.substitute(c, *sub))
                if not z3.is_true(d):
                    out2.append(d)
            return out2
        return out

    # -------------------------------------------------------------- candidates
    def candidates(self, head, results, cursor, bound):
        eng = self.eng
        C = []
        self.maps = []
        ghosts = {}          # ghost head -> (init, {result index: end term})
        nexts = [(i, st) for i, (st, out) in enumerate(results) if out[0] == 'next']
        if cursor is not None:
            C.append(('lower bound', cursor.head >= cursor.init))
            if bound is not None:
                C.append(('upper bound', cursor.head <= bound))
        # generic: unchanged / simple arithmetic relations
        for l in self.locs:
            if l is cursor or l.init is None:
                continue
            if l.kind in ('v', 'cell', 'glob') and not z3.is_array_sort(l.head):
                C.append(('%s unchanged' % l.name, l.head == l.init))
                if l.head.sort() == INT and cursor is not None:
                    C.append(('%s counts' % l.name, l.head - l.init == cursor.head - cursor.init))
                if l.head.sort() == INT:
                    C.append(('%s grows' % l.name, l.head >= l.init))
            if l.kind == 'it' and l is not cursor:
                C.append(('%s pos' % l.name, l.head >= 0))
        given = []
        for h in eng.hints:
            given += h(self, head, cursor) or []
        if eng.exact and given:
            C = [c for c in C if c[0].endswith('bound')]
        C += given
        if eng.exact and given:
            return C, ghosts
        if nexts:
            self.filters(head, nexts, C, ghosts)
        if cursor is None or not nexts:
            return C, ghosts
        for l in self.locs:
            if l is not cursor and l.init is not None:
                C.append(('%s initially' % l.name, z3.Implies(cursor.head == cursor.init, l.head == l.init)))
        close = self.closer(cursor)
        j = z3.Int('j!inv')
        i0, i = cursor.init, cursor.head
        deltas = {k: self.delta(head, st) for k, st in nexts}

        notend = None
        if bound is not None:
            notend = {z3.simplify(z3.Not(i == bound)).get_id(), z3.simplify(z3.Not(bound == i)).get_id()}

        def conj(k, jj, weak):
            cs = []
            for c in deltas[k]:
                if notend and c.get_id() in notend:
                    continue      # within the loop the cursor is not at its bound
                x = close(c, jj)
                if x is None:
                    if not weak:
                        return None
                    continue
                cs.append(x)
            return z3.And(cs) if cs else z3.BoolVal(True)
        # search summary: every passed element satisfied the continuing condition
        alts = [conj(k, j, True) for k, _ in nexts]
        phi = z3.simplify(z3.Or(alts)) if alts else z3.BoolVal(True)
        cand_all = []
        phi = self.trivial(phi, j, bound)
        if not z3.is_true(phi):
            cand_all.append(('passed elements', phi))
            # each conjunct common to all paths on its own
        for nm, p in cand_all:
            C.append((nm, forall_j(j, i0, i, p)))
        if len(nexts) > 1:
            per = [set(x.get_id() for x in flat(a)) for a in alts]
            common = [x for x in flat(alts[0]) if all(x.get_id() in s for s in per)]
            for x in common:
                C.append(('passed elements (part)', forall_j(j, i0, i, x)))
        elif len(flat(phi)) > 1:
            for x in flat(phi):
                C.append(('passed elements (part)', forall_j(j, i0, i, x)))
        for l in self.locs:
            if l is cursor:
                continue
            try:
                self.summarise(l, head, nexts, cursor, close, conj, C, ghosts)
            except z3.Z3Exception:
                pass
        return C, ghosts

    def trivial(self, phi, j, bound):
        """drop the loop condition itself: a passed position is not the bound"""
        if bound is None:
            return phi
        c = z3.simplify(z3.Not(j == bound))
        d = z3.simplify(z3.Not(bound == j))
        return z3.simplify(z3.substitute(phi, (c, z3.BoolVal(True)), (d, z3.BoolVal(True))))

    def filters(self, head, nexts, C, ghosts):
        """in-place filtering: every step either erases the element under an iterator or advances it"""
        eng = self.eng
        for it in self.locs:
            if it.kind != 'it':
                continue
            itv = head.store[it.key]
            if itv.kind != 'list':
                continue
            for l in self.locs:
                if l.init is None or l.kind not in ('v', 'cell') or l.t is None or l.t.k != 'list':
                    continue
                v = self.eng_load(head, itv.lv)
                if v is None or not v.e.eq(l.head):
                    continue
                S = l.head.sort()
                L, A = S.accessor(0, 0)(l.head), S.accessor(0, 1)(l.head)
                L0, A0 = z3.simplify(S.accessor(0, 0)(l.init)), z3.simplify(S.accessor(0, 1)(l.init))
                i = it.head
                kind = {}
                value = {}          # what a kept element becomes
                for k, st in nexts:
                    e, ie = l.get(st), it.get(st)
                    if e is None or ie is None:
                        kind = None
                        break
                    di, dl = z3.simplify(ie - i), z3.simplify(S.accessor(0, 0)(e) - L)
                    if z3.is_int_value(di) and z3.is_int_value(dl):
                        p = (di.as_long(), dl.as_long())
                        if p == (1, 0):
                            ss = [] if e.eq(l.head) else stores(S.accessor(0, 1)(e) if not (
                                z3.is_app(e) and e.decl().eq(S.constructor(0))) else e.arg(1), A)
                            if ss is not None and all(z3.simplify(r - i).eq(Iv(0)) for r, _ in ss):
                                kind[k] = True
                                value[k] = ss[-1][1] if ss else z3.Select(A, i)
                                continue
                        if p == (0, -1):
                            kind[k] = False
                            continue
                    kind = None
                    break
                if not kind or all(kind.values()):
                    continue
                s = i + (L0 - L)
                j, k_, x_ = z3.Int('j!inv'), z3.Int('k!inv'), z3.Int('x!inv')
                subs = [(m.head, m.init) for m in self.locs if m.init is not None and z3.is_const(m.head)
                        and m is not l and m is not it]

                def close(e, jj, weak):
                    if maxfresh(e) > self.hm:
                        return z3.BoolVal(True) if weak else None
                    e2 = z3.substitute(e, *([(z3.Select(A, i), z3.Select(A0, jj))] + subs))
                    cs = consts(e2)
                    if l.head.decl().name() in cs or i.decl().name() in cs:
                        return z3.BoolVal(True) if weak else None
                    return e2

                def conj(k, jj, weak):
                    cs = []
                    st = dict(nexts)[k]
                    for c in self.delta(head, st):
                        # the loop condition itself is about the position
                        names = consts(c)
                        x = close(c, jj, True)
                        if x is not None and not z3.is_true(x):
                            cs.append(x)
                    return z3.And(cs) if cs else z3.BoolVal(True)
                gs = z3.Const('gsrc_%s!%d' % (l.name, self.hm), z3.ArraySort(INT, INT))
                gd = z3.Const('gdst_%s!%d' % (l.name, self.hm), z3.ArraySort(INT, INT))
                ghosts[gs] = (None, {k: (z3.Store(gs, i, s) if v else gs) for k, v in kind.items()})
                ghosts[gd] = (None, {k: (z3.Store(gd, s, i) if v else z3.Store(gd, s, Iv(-1)))
                                     for k, v in kind.items()})
                self.maps.append((l.name, gs, gd, Iv(0)))
                C.append(('%s position' % l.name, z3.And(i >= 0, i <= L, L <= L0)))
                rest = z3.And(k_ >= i, k_ < L)
                C.append(('%s rest' % l.name, z3.ForAll([k_], z3.Implies(
                    rest, z3.Select(A, k_) == z3.Select(A0, k_ + (L0 - L))), patterns=[z3.Select(A, k_)])))
                done = z3.And(k_ >= 0, k_ < i)
                kept = []
                for k, v in kind.items():
                    if v:
                        cv = close(value[k], z3.Select(gs, k_), False)
                        cw = conj(k, z3.Select(gs, k_), True)
                        kept.append(cw if cv is None else z3.And(cw, z3.Select(A, k_) == cv))
                same = all(v.eq(z3.Select(A, i)) for v in value.values())
                C.append(('%s kept' % l.name, z3.ForAll([k_], z3.Implies(done, z3.And(
                    [z3.Select(gs, k_) >= 0, z3.Select(gs, k_) < s, z3.Select(gd, z3.Select(gs, k_)) == k_]
                    + ([z3.Select(A, k_) == z3.Select(A0, z3.Select(gs, k_))] if same else []))),
                    patterns=[z3.Select(A, k_), z3.Select(gs, k_)])))
                C.append(('%s kept which' % l.name, z3.ForAll([k_], z3.Implies(done, z3.Or(kept)),
                                                              patterns=[z3.Select(A, k_), z3.Select(gs, k_)])))
                C.append(('%s order' % l.name, z3.ForAll([k_, x_], z3.Implies(
                    z3.And(k_ >= 0, k_ < x_, x_ < i), z3.Select(gs, k_) < z3.Select(gs, x_)),
                    patterns=[z3.MultiPattern(z3.Select(gs, k_), z3.Select(gs, x_))])))
                gone = [conj(k, j, True) for k, v in kind.items() if not v]
                C.append(('%s partition' % l.name, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s), z3.Or(
                    z3.And(z3.Select(gd, j) >= 0, z3.Select(gd, j) < i, z3.Select(gs, z3.Select(gd, j)) == j),
                    z3.Or(gone))), patterns=[z3.Select(gd, j), z3.Select(A0, j)] if clean(z3.Select(A0, j)) else
                    [z3.Select(gd, j)])))
                # what else a step does, by position in the list given
                class Pos:
                    init, head, name = it.init, s, it.name
                strict = lambda k, jj, weak: conj(k, jj, True) if weak else None
                for m in self.locs:
                    if m is not l and m is not it and m.init is not None and m.kind == 'trace':
                        self.summarise(m, head, nexts, Pos, lambda e, jj: close(e, jj, False), strict, C, ghosts)

    def summarise(self, l, head, nexts, cursor, close, conj, C, ghosts):
        eng = self.eng
        i0, i = cursor.init, cursor.head
        ends = {k: l.get(st) for k, st in nexts}
        if any(e is None for e in ends.values()) or l.init is None:
            return
        j, k_, x_ = z3.Int('j!inv'), z3.Int('k!inv'), z3.Int('x!inv')
        so = l.head.sort()
        if l.kind == 'heap':
            self.sum_heap(l, head, nexts, ends, cursor, close, conj, C, ghosts)
            return
        is_seq = l.kind == 'trace' or (l.t is not None and l.t.k == 'list' and l.kind in ('v', 'cell'))
        if is_seq:
            # element updates in place / appends
            S = so
            ln, arr = (lambda e: eng.proj(S, 0, e)), (lambda e: eng.proj(S, 1, e))
            L, A, L0, A0 = ln(l.head), arr(l.head), z3.simplify(ln(l.init)), z3.simplify(arr(l.init))
            app = {}
            upd = {}
            for k, e in ends.items():
                if e.eq(l.head):
                    app[k] = []
                    continue
                n2, a2 = z3.simplify(ln(e)), arr(e)
                ss = stores(a2, A)
                if ss is None:
                    if a2.eq(A):
                        ss = []
                    else:
                        return
                d = z3.simplify(n2 - L)
                if not z3.is_int_value(d):
                    return
                d = d.as_long()
                if d == 0 and ss:
                    upd[k] = ss
                    app[k] = []
                    continue
                vals = []
                for t, (r, v) in enumerate(ss):
                    if not z3.is_int_value(z3.simplify(r - L)) or z3.simplify(r - L).as_long() != t:
                        return
                    vals.append(v)
                if len(vals) != d:
                    return
                app[k] = vals
            if upd and not any(app.values()):
                self.sum_updates(l, nexts, upd, cursor, close, conj, C, ghosts, S)
                return
            C.append(('%s prefix' % l.name, z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < L0),
                                                                        z3.Select(A, k_) == z3.Select(A0, k_)),
                                                      patterns=pat_or_none(z3.Select(A, k_)))))
            C.append(('%s length' % l.name, L >= L0))
            cnts = {len(v) for v in app.values()}
            if len(cnts) == 1 and cnts != {0}:
                c = cnts.pop()
                C.append(('%s length exact' % l.name, L == L0 + c * (i - i0)))
                for t in range(c):
                    alts = []
                    weak = []
                    for k, vals in app.items():
                        v = close(vals[t], j)
                        cj = conj(k, j, True)
                        if v is None:
                            v2 = self.partial(vals[t], close, j, z3.Select(A, L0 + c * (j - i0) + t))
                            weak.append(z3.And(cj, v2))
                            continue
                        alts.append(z3.And(cj, z3.Select(A, L0 + c * (j - i0) + t) == v))
                    body = z3.simplify(z3.Or(alts + weak))
                    C.append(('%s element %d' % (l.name, t), forall_j(j, i0, i, body)))
                    tgt = z3.Select(A, L0 + c * (j - i0) + t)
                    for ci, eqs in self.components({k: v[t] for k, v in app.items()}, close, j, tgt):
                        b3 = z3.simplify(z3.Or([z3.And(conj(k, j, True), q) for k, q in eqs.items()]))
                        C.append(('%s element %d.%d' % (l.name, t, ci), forall_j(j, i0, i, b3)))
                        if c == 1:
                            jj = k_ - L0 + i0
                            b4 = z3.substitute(b3, (j, jj))
                            b4 = z3.substitute(b4, (z3.Select(A, L0 + (jj - i0)), z3.Select(A, k_)))
                            C.append(('%s element %d.%d by position' % (l.name, t, ci), z3.ForAll(
                                [k_], z3.Implies(z3.And(k_ >= L0, k_ < L), z3.simplify(b4)),
                                patterns=pat_or_none(z3.Select(A, k_)))))
                    if c == 1:
                        # same fact, stated by position in the sequence
                        jj = k_ - L0 + i0
                        alts2 = [z3.substitute(a, (j, jj)) for a in alts + weak]
                        b2 = z3.Or([z3.substitute(a, (z3.Select(A, L0 + (jj - i0)), z3.Select(A, k_))) for a in alts2])
                        C.append(('%s element by position' % l.name, z3.ForAll(
                            [k_], z3.Implies(z3.And(k_ >= L0, k_ < L), z3.simplify(b2)),
                            patterns=pat_or_none(z3.Select(A, k_)))))
                return
            if cnts == {0, 1}:
                gs = z3.Const('gsrc_%s!%d' % (l.name, self.hm), z3.ArraySort(INT, INT))
                gd = z3.Const('gdst_%s!%d' % (l.name, self.hm), z3.ArraySort(INT, INT))
                ghosts[gs] = (None, {k: (z3.Store(gs, L, i) if v else gs) for k, v in app.items()})
                ghosts[gd] = (None, {k: (z3.Store(gd, i, L) if v else gd) for k, v in app.items()})
                self.maps.append((l.name, gs, gd, L0))
                C.append(('%s at most one per step' % l.name, L - L0 <= i - i0))
                alts = []
                conds = []
                for k, vals in app.items():
                    if not vals:
                        continue
                    s = z3.Select(gs, k_)
                    v = close(vals[0], s)
                    cw = conj(k, s, True)
                    if v is None:
                        v2 = self.partial(vals[0], close, s, z3.Select(A, k_))
                        alts.append(z3.And(cw, v2))
                    else:
                        alts.append(z3.And(cw, z3.Select(A, k_) == v))
                    conds.append(conj(k, j, False))
                rngk = z3.And(k_ >= L0, k_ < L)
                C.append(('%s source' % l.name, z3.ForAll([k_], z3.Implies(
                    rngk, z3.And(z3.Select(gs, k_) >= i0, z3.Select(gs, k_) < i,
                                 z3.Select(gd, z3.Select(gs, k_)) == k_)),
                    patterns=[z3.Select(gs, k_)] + pat_or_none(z3.Select(A, k_)))))
                for ci, eqs in self.components({k: v[0] for k, v in app.items() if v}, close, z3.Select(gs, k_),
                                               z3.Select(A, k_)):
                    b3 = z3.Or([z3.And(conj(k, z3.Select(gs, k_), True), q) for k, q in eqs.items()])
                    C.append(('%s element .%d' % (l.name, ci), z3.ForAll([k_], z3.Implies(rngk, z3.simplify(b3)),
                                                                         patterns=[z3.Select(gs, k_)] + pat_or_none(z3.Select(A, k_)))))
                C.append(('%s element' % l.name, z3.ForAll([k_], z3.Implies(rngk, z3.simplify(z3.Or(alts))),
                                                           patterns=[z3.Select(gs, k_)] + pat_or_none(z3.Select(A, k_)))))
                C.append(('%s order' % l.name, z3.ForAll([k_, x_], z3.Implies(
                    z3.And(k_ >= L0, k_ < x_, x_ < L), z3.Select(gs, k_) < z3.Select(gs, x_)),
                    patterns=[z3.MultiPattern(z3.Select(gs, k_), z3.Select(gs, x_))])))
                mapped = z3.And(z3.Select(gd, j) >= L0, z3.Select(gd, j) < L, z3.Select(gs, z3.Select(gd, j)) == j)
                C.append(('%s disposition' % l.name, forall_j(j, i0, i, z3.Or(
                    [z3.And(conj(k, j, True), mapped) if v else conj(k, j, True) for k, v in app.items()]))))
                if all(c is not None for c in conds):
                    C.append(('%s complete' % l.name, forall_j(j, i0, i, z3.Implies(
                        z3.Or(conds), z3.And(z3.Select(gd, j) >= L0, z3.Select(gd, j) < L,
                                             z3.Select(gs, z3.Select(gd, j)) == j)))))
                    # non-selected ones
                    noc = [conj(k, j, False) for k, v in app.items() if not v]
                    if all(c is not None for c in noc):
                        C.append(('%s skipped' % l.name, forall_j(j, i0, i, z3.Implies(
                            z3.Not(z3.And(z3.Select(gd, j) >= L0, z3.Select(gd, j) < L,
                                          z3.Select(gs, z3.Select(gd, j)) == j)), z3.Or(noc)))))
            return
        if l.t is not None and l.t.k == 'set' and l.kind in ('v', 'cell'):
            ks = so.domain()
            x = z3.Const('x!set', ks)
            ins = {}
            for k, e in ends.items():
                ss = stores(e, l.head)
                if ss is None or any(not z3.is_true(v) for _, v in ss) or len(ss) > 1:
                    return
                ins[k] = ss[0][0] if ss else None
            gw = z3.Const('gwit_%s!%d' % (l.name, self.hm), z3.ArraySort(ks, INT))
            ghosts[gw] = (None, {k: (z3.Store(gw, r, i) if r is not None else gw) for k, r in ins.items()})
            m, m0, w = z3.Select(l.head, x), z3.Select(l.init, x), z3.Select(gw, x)
            C.append(('%s keeps' % l.name, z3.ForAll([x], z3.Implies(m0, m), patterns=pat_or_none(m0) or pat_or_none(m))))
            alts = []
            for k, r in ins.items():
                if r is None:
                    continue
                c, rr = conj(k, w, True), close(r, w)
                if rr is None:
                    return
                alts.append(z3.And(c, rr == x))
                c2 = conj(k, j, False)
                if c2 is not None:
                    C.append(('%s inserted' % l.name, forall_j(j, i0, i, z3.Implies(c2, z3.Select(l.head, close(r, j))))))
            C.append(('%s source' % l.name, z3.ForAll([x], z3.Implies(z3.And(m, z3.Not(m0)), z3.And(
                w >= i0, w < i, z3.Or(alts))), patterns=pat_or_none(m))))
            return
        if l.kind in ('v', 'cell', 'u', 'glob') and not z3.is_array_sort(l.head):
            # last assignment wins
            setp = {k: e for k, e in ends.items() if not e.eq(l.head)}
            if not setp:
                return
            gw = z3.Const('glast_%s!%d' % (l.name, self.hm), INT)
            ghosts[gw] = (i0 - 1, {k: (i if k in setp else gw) for k in ends})
            C.append(('%s witness' % l.name, z3.And(gw >= i0 - 1, gw < i)))
            nots = []
            sets = []
            alts = []
            ok = True
            for k, e in ends.items():
                if k in setp:
                    v = close(e, gw)
                    cw = conj(k, gw, True)
                    if v is None:
                        ok = False
                        alts.append(cw)
                    else:
                        alts.append(z3.And(cw, l.head == v))
                else:
                    nots.append(conj(k, j, True))
            C.append(('%s initial' % l.name, z3.Implies(gw < i0, l.head == l.init)))
            notj = [conj(k, j, True) for k in ends if k not in setp]
            C.append(('%s none' % l.name, z3.Implies(l.head == l.init, forall_j(j, i0, i, z3.Or(notj) if notj else z3.BoolVal(False)))))
            C.append(('%s assigned' % l.name, z3.Implies(gw >= i0, z3.Or(alts))))
            C.append(('%s since' % l.name, z3.ForAll([j], z3.Implies(z3.And(j > gw, j >= i0, j < i),
                                                                     z3.Or(nots) if nots else z3.BoolVal(False)),
                                                     patterns=pats_for(z3.Or(nots), j) if nots else [])
                      if nots else z3.Implies(i > i0, gw == i - 1)))
            # accumulators: x := x + f(j) are left to hints
            return

    def components(self, vals, close, j, target):
        """for values built by the constructor of a record: what each component is, one at a time (a component may
        close over the index while another one depends on the state of the iteration)"""
        vs = list(vals.values())
        if not vs or not all(z3.is_app(v) and v.sort().kind() == z3.Z3_DATATYPE_SORT and
                             v.decl().eq(v.sort().constructor(0)) for v in vs):
            return
        so = vs[0].sort()
        for t in range(vs[0].num_args()):
            eqs = {}
            for k, v in vals.items():
                c = close(v.arg(t), j)
                if c is None:
                    eqs = None
                    break
                eqs[k] = so.accessor(0, t)(target) == c
            if eqs:
                yield t, eqs

    def partial(self, v, close, j, target):
        """facts about the closed components of a datatype value"""
        cs = []
        if z3.is_app(v) and v.sort().kind() == z3.Z3_DATATYPE_SORT and v.decl().eq(v.sort().constructor(0)):
            for t in range(v.num_args()):
                c = close(v.arg(t), j)
                if c is not None:
                    cs.append(v.sort().accessor(0, t)(target) == c)
        return z3.And(cs) if cs else z3.BoolVal(True)

    def sum_updates(self, l, nexts, upd, cursor, close, conj, C, ghosts, S):
        """in-place update of the current element of a sequence"""
        eng = self.eng
        i0, i = cursor.init, cursor.head
        k_ = z3.Int('k!inv')
        L, A = eng.proj(S, 0, l.head), eng.proj(S, 1, l.head)
        L0, A0 = z3.simplify(eng.proj(S, 0, l.init)), z3.simplify(eng.proj(S, 1, l.init))
        C.append(('%s same length' % l.name, L == L0))
        for k, ss in upd.items():
            if len(ss) != 1 or not ss[0][0].eq(i):
                return
        C.append(('%s rest unchanged' % l.name, z3.ForAll([k_], z3.Implies(
            z3.Or(k_ >= i, k_ < i0), z3.Select(A, k_) == z3.Select(A0, k_)), patterns=pat_or_none(z3.Select(A, k_)))))
        alts = []
        for k, _ in nexts:
            cj = conj(k, k_, True)
            if k in upd:
                v = close(upd[k][0][1], k_)
                if v is None:
                    alts.append(cj)
                else:
                    alts.append(z3.And(cj, z3.Select(A, k_) == v))
            else:
                alts.append(z3.And(cj, z3.Select(A, k_) == z3.Select(A0, k_)))
        C.append(('%s updated' % l.name, z3.ForAll([k_], z3.Implies(
            z3.And(k_ >= i0, k_ < i), z3.simplify(z3.Or(alts))),
            patterns=pat_or_none(z3.Select(A, k_)) + pat_or_none(z3.Select(A0, k_)))))

    def sum_heap(self, l, head, nexts, ends, cursor, close, conj, C, ghosts):
        i0, i = cursor.init, cursor.head
        j, x = z3.Int('j!inv'), z3.Int('x!ref')
        wr = {}
        for k, e in ends.items():
            ss = stores(e, l.head)
            if ss is None:
                return
            wr[k] = ss
        gw = z3.Const('gheap_%s!%d' % (l.key.replace('::', '.'), self.hm), z3.ArraySort(INT, INT))

        def gend(ss):
            g = gw
            for r, _ in ss:
                g = z3.Store(g, r, i)
            return g
        ghosts[gw] = (z3.K(INT, i0 - 1), {k: gend(ss) for k, ss in wr.items()})
        w = z3.Select(gw, x)
        F, F0 = z3.Select(l.head, x), z3.Select(l.init, x)
        C.append(('%s witness' % l.name, z3.ForAll([x], z3.And(w >= i0 - 1, w < i), patterns=[w])))
        C.append(('%s unwritten' % l.name, z3.ForAll([x], z3.Implies(w < i0, F == F0),
                                                     patterns=[F, w] + pat_or_none(F0))))
        alts = []
        exact = True
        for k, ss in wr.items():
            for r, v in ss:
                rr, vv, cc = close(r, w), close(v, w), conj(k, w, True)
                if rr is None:
                    exact = False
                    alts.append(z3.BoolVal(True) if vv is None else F == vv)
                    continue
                a = [cc, rr == x]
                if vv is not None:
                    a.append(F == vv)
                alts.append(z3.And(a))
                cj = conj(k, j, False)
                rj = close(r, j)
                if cj is not None and rj is not None:
                    C.append(('%s covered' % l.name, forall_j(j, i0, i, z3.Implies(cj, z3.Select(gw, rj) >= j))))
        C.append(('%s written' % l.name, z3.ForAll([x], z3.Implies(w >= i0, z3.simplify(z3.Or(alts))), patterns=[F, w])))

    # -------------------------------------------------------------- Houdini
    def houdini(self, head, results, cands, ghosts):
        eng = self.eng
        S0 = self.S0
        sub0 = [(l.head, l.init) for l in self.locs if l.init is not None and z3.is_const(l.head)]
        for g, (init, _) in ghosts.items():
            if init is not None:
                sub0.append((g, init))
        keep = []
        from .engine import prove_many
        seen = set()
        uniq = []
        for nm, c in cands:
            if c.get_id() in seen:
                continue
            seen.add(c.get_id())
            uniq.append((nm, c))
        init_goals = [z3.substitute(c, *sub0) if sub0 else c for _, c in uniq]
        # ghosts without an initial value are universally quantified fresh symbols: sound
        ok = prove_many(S0.pc, init_goals, again=not eng.exact)
        keep = [x for x, o in zip(uniq, ok) if o]
        nexts = [(k, st) for k, (st, out) in enumerate(results) if out[0] == 'next']
        npc = len(head.pc)
        while keep:
            drop = set()
            for k, st in nexts:
                subn = []
                bad = False
                for l in self.locs:
                    e = l.get(st)
                    if e is None:
                        if z3.is_const(l.head):
                            e = z3.FreshConst(l.head.sort())
                        else:
                            continue
                    subn.append((l.head, e))
                for g, (_, ends) in ghosts.items():
                    subn.append((g, ends.get(k, g)))
                goals = []
                idx = []
                for t, (nm, c) in enumerate(keep):
                    if t in drop:
                        continue
                    goals.append(z3.substitute(c, *subn))
                    idx.append(t)
                res = prove_many(head.pc + [c for _, c in keep] + st.pc[npc:], goals, again=not eng.exact)
                for t, o in zip(idx, res):
                    if not o:
                        drop.add(t)
            if not drop:
                break
            keep = [x for t, x in enumerate(keep) if t not in drop]
        return keep


def flat(e):
    if z3.is_and(e):
        out = []
        for c in e.children():
            out += flat(c)
        return out
    return [e]


def forall_j(j, lo, hi, body):
    body = z3.simplify(body)
    if z3.is_true(body):
        return body
    p = pats_for(body, j)
    return z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), body), patterns=p)


def pats_for(body, j):
    """single-term patterns: selects / enumerations indexed exactly by j"""
    out = {}
    seen = set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return
        if z3.is_app(t):
            n = t.num_args()
            if n and t.arg(n - 1).eq(j) and (t.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED)) \
                    and clean(t):
                out[t.get_id()] = t
            for c in t.children():
                walk(c)
    walk(body)
    return list(out.values())


def clean(t):
    bad = (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT)
    if z3.is_quantifier(t):
        return False
    if z3.is_app(t):
        if t.decl().kind() in bad:
            return False
        return all(clean(c) for c in t.children())
    return True


def pat_or_none(t):
    return [t] if clean(t) else []


def inc_one(e, head, t):
    d = z3.simplify(e - head)
    if z3.is_int_value(d):
        return d.as_long() == 1
    # unsigned wrap: If(h+1 < 2^n, h+1, h+1-2^n)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        d = z3.simplify(e.arg(1) - head)
        if z3.is_int_value(d) and d.as_long() == 1:
            return True
        d = z3.simplify(e.arg(2) - head)
        if z3.is_int_value(d) and d.as_long() == 1:
            return True
    return False


def bound_of(c, i):
    neg = False
    if z3.is_not(c):
        neg = True
        c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    a, b = c.arg(0), c.arg(1)
    if not z3.is_arith(a) and not z3.is_eq(c):
        return None
    k = c.decl().kind()
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        if a.eq(i) and not b.eq(i):
            return b
        if b.eq(i):
            return a
    return None


def sub_val(v, sub):
    if isinstance(v, V):
        return V(z3.substitute(v.e, *sub), v.t)
    if isinstance(v, It):
        en = V(z3.substitute(v.en.e, *sub), v.en.t) if v.en is not None else None
        return It(v.kind, sub_lv(v.lv, sub), z3.substitute(v.idx, *sub), en, v.t, v.rev)
    if isinstance(v, KeyIt):
        return KeyIt(v.kind, sub_lv(v.lv, sub), z3.substitute(v.key, *sub), z3.substitute(v.isend, *sub), v.t)
    if isinstance(v, CStr):
        return CStr(z3.substitute(v.e, *sub), z3.substitute(v.off, *sub), z3.substitute(v.null, *sub), v.buf)
    if isinstance(v, Ref):
        return Ref(sub_lv(v.lv, sub))
    if isinstance(v, PtrLV):
        return PtrLV(sub_lv(v.lv, sub) if v.lv is not None else None, z3.substitute(v.null, *sub))
    if isinstance(v, Obj):
        return Obj(z3.substitute(v.e, *sub), v.cls)
    return v


def sub_lv(lv, sub):
    if isinstance(lv, Obj):
        return Obj(z3.substitute(lv.e, *sub), lv.cls)
    if isinstance(lv, ME):
        return ME(sub_lv(lv.lv, sub), z3.substitute(lv.key, *sub), lv.t)
    if not isinstance(lv, LV):
        return lv
    root = lv.root
    if root[0] == 'heap':
        root = ('heap', root[1], z3.substitute(root[2], *sub))
    path = tuple((s[0], z3.substitute(s[1], *sub)) if s[0] in ('idx', 'key') else s for s in lv.path)
    return LV(root, path, lv.t)


def merged_call(eng, d, this, args):
    """inline a callee, then join its normal outcomes into one state (If-terms under fresh selectors)"""
    def fn():
        from .exec import AbortPath
        try:
            return ('ret', eng.inline(d, this, args))
        except AbortPath as a:
            return ('abort', a.why)
    st0 = eng.st.copy()
    res = eng.memoize(('merge', d.qname), lambda: eng.explore(st0, fn))
    exits = merge(eng, st0, res)
    k = eng.pick(len(exits))
    st, out = exits[k]
    fr = eng.st.frame
    eng.st = st.copy()
    eng.st.frame = fr
    if out[0] == 'abort':
        eng.reraise(out)
    return out[1]


def merge(eng, st0, res):
    norm = [(s, o) for s, o in res if o[0] == 'ret']
    rest = [(s, o) for s, o in res if o[0] != 'ret']
    if len(norm) <= 1:
        return norm + rest
    # group by equal shapes of everything that cannot be merged
    r0 = norm[0][1][1]
    if not all(isinstance(o[1], V) and o[1].e.sort() == r0.e.sort() for _, o in norm) if isinstance(r0, V) \
            else not all(o[1] is r0 or isinstance(o[1], Opaque) for _, o in norm):
        return norm + rest
    n = len(st0.pc)
    out = st0.copy()
    sel = [fresh('path', z3.BoolSort()) for _ in norm]
    out.assume(z3.Or(sel))
    for b, (s, _) in zip(sel, norm):
        for c in s.pc[n:]:
            out.assume(z3.Implies(b, c))

    def ite(terms):
        t = terms[-1]
        for b, x in list(zip(sel, terms))[-2::-1]:
            if not x.eq(t):
                t = z3.If(b, x, t)
        return t
    for k in st0.store:
        vs = [s.store.get(k) for s, _ in norm]
        if all(same(v, st0.store[k]) for v in vs):
            continue
        if all(isinstance(v, V) and v.e.sort() == vs[0].e.sort() for v in vs):
            out.store[k] = V(ite([v.e for v in vs]), vs[0].t)
        elif all(isinstance(v, It) for v in vs):
            out.store[k] = It(vs[0].kind, vs[0].lv, ite([v.idx for v in vs]), vs[0].en, vs[0].t, vs[0].rev)
        else:
            return norm + rest
    for k in set().union(*[set(s.heap) for s, _ in norm]):
        vs = [s.heap.get(k) if k in s.heap else eng.h0.get(k) for s, _ in norm]
        if any(v is None for v in vs):
            return norm + rest
        out.heap[k] = ite(vs)
    out.trace = ite([s.trace for s, _ in norm])
    out.hwm = ite([s.hwm for s, _ in norm])
    r = V(ite([o[1].e for _, o in norm]), r0.t) if isinstance(r0, V) else r0
    return [(out, ('ret', r))] + rest
