"""Contracts: preconditions, postconditions and interface (assumed or separately proved) contracts;
obligation discharge."""
import os, re, subprocess, sys, tempfile, time, traceback
import z3
from . import front
from .front import ty, qty
from .ctypes_ import *
from .state import *
from .engine import Iv, prove, prove_mbqi, STATS
from .exec import Exec

REGISTRY = []


class AnyOf:
    """A goal with several sufficient forms (one per ghost witness): discharged when one of them is."""

    def __init__(self, alts):
        self.alts = list(alts)


class Contract:
    """One function under contract for one or more properties."""

    def __init__(self, props, qname, post, pre=None, name=None, cls=None, strings=False, setup=None, abort=None,
                 nparams=None, merge=(), hints=None, assumes=(), check_null=False, maxpaths=None, select=None,
                 trusted=(), budget=240, allow_missing=False, handlers=None, exact=False, const=()):
        self.props = [props] if isinstance(props, str) else list(props)
        self.qname, self.post, self.pre, self.cls = qname, post, pre, cls
        self.name = name or qname
        self.strings, self.setup, self.abort = strings, setup, abort
        self.nparams, self.merge, self.hints, self.assumes = nparams, merge, hints, list(assumes)
        self.check_null, self.maxpaths, self.select, self.trusted = check_null, maxpaths, select, list(trusted)
        self.budget = budget
        self.allow_missing = allow_missing
        self.handlers = handlers
        self.exact = exact      # where a loop has hints, they say everything about it: nothing else is inferred
        self.const = list(const)    # tables filled by their initialiser and (checked) never written
        REGISTRY.append(self)


def contract(props, qname, **kw):
    def deco(fn):
        Contract(props, qname, fn, **kw)
        return fn
    return deco


class Table(Contract):
    """Contract of a global table: obligations over the value its initialiser gives it, evaluated; the code is
    checked to look the table up only.  check(value) -> [(name, holds, what it is)]"""

    def __init__(self, props, name, check, **kw):
        self.table, self.check = name, check
        Contract.__init__(self, props, name, None, **kw)

    def decide(self, prog, R):
        front.only_read(prog, self.table)
        v = front.initial(prog, self.table)
        for nm, ok, what in (self.check(v, prog) if self.check.__code__.co_argcount > 1 else self.check(v)):
            R.obls.append((nm, 'discharged' if ok else 'failed', '' if ok else 'the table says %s' % (what,)))
            R.backends['evaluation'] = R.backends.get('evaluation', 0) + 1
        R.paths = 1


def table(props, name, **kw):
    def deco(fn):
        Table(props, name, fn, **kw)
        return fn
    return deco


class View:
    """A program state seen by a contract."""

    def __init__(self, k, st):
        self.k, self.st = k, st

    def f(self, key, ref):
        """field value (z3 term)"""
        return z3.Select(self.k.eng.hget(self.st, self.k.key(key)), ref)

    def arr(self, key):
        return self.k.eng.hget(self.st, self.k.key(key))

    def len(self, key, ref):
        e = self.f(key, ref)
        return e.sort().accessor(0, 0)(e)

    def at(self, key, ref, i):
        e = self.f(key, ref)
        return z3.Select(e.sort().accessor(0, 1)(e), i)

    def mapdom(self, key, ref):
        e = self.f(key, ref)
        return e.sort().accessor(0, 0)(e)

    def mapval(self, key, ref):
        e = self.f(key, ref)
        return e.sort().accessor(0, 1)(e)

    @property
    def tlen(self):
        return self.k.eng.Trace.len(self.st.trace)

    def call(self, i):
        return z3.Select(self.k.eng.Trace.a(self.st.trace), i)

    def local(self, v):
        """value of an lvalue"""
        s = self.k.eng.st
        self.k.eng.st = self.st
        try:
            return self.k.eng.load(v)
        finally:
            self.k.eng.st = s


class K:
    """Everything a pre/postcondition can see."""

    def __init__(self, eng, con, func):
        self.eng, self.con, self.func = eng, con, func
        self.args = []
        self.this = None
        self.old = None
        self.new = None
        self.ret = None
        self.vars = {}

    def key(self, key):
        """'Object::_time' -> heap key, searching bases; a missing field is a drift of the contract"""
        cls, f = key.rsplit('::', 1)
        return self.eng.owner(cls, f) + '::' + f

    def enum(self, name):
        """'Event::OCCURRING' -> Int"""
        cls, c = name.rsplit('::', 1)
        for en, vals in self.eng.prog.enums.items():
            if (en.startswith(cls + '::') or en == cls) and c in vals:
                return Iv(vals[c])
        raise Unsupported('enum %s' % name)

    def lit(self, s):
        saved = self.eng.st
        if self.eng.st is None:
            self.eng.st = self.new.st if self.new is not None else self.old.st
        try:
            return self.eng.lit(s)
        finally:
            self.eng.st = saved

    def assume(self, e):
        self.eng.st.assume(e)

    def arg(self, i):
        """z3 term of argument i (its value at entry)"""
        v = self.args[i]
        if isinstance(v, (LV, ME)):
            v = self.old.local(v)
        if isinstance(v, V):
            return v.e
        if isinstance(v, Obj):
            return v.e
        return v

    def out(self, i):
        """final value of a reference/pointer argument"""
        v = self.args[i]
        if isinstance(v, PtrLV):
            v = v.lv
        return self.new.local(v).e

    def isnull(self, i):
        v = self.args[i]
        return v.null

    def fn(self, name):
        return self.eng.fncode(name)

    def isa(self, ref, cls):
        return self.eng.is_subtype(ref, cls)

    def tag(self, ref, cls):
        return self.eng.tagf(ref) == self.eng.tag(cls)

    def forall(self, vs, body, pats=None):
        if not isinstance(vs, (list, tuple)):
            vs = [vs]
        return z3.ForAll(list(vs), body, patterns=pats or [])

    def sk(self, name, sort=None):
        """a fixed but arbitrary value (universally quantified goal)"""
        return fresh('any_' + name, sort if sort is not None else z3.IntSort())

    def instance(self, S, x):
        """name the position of x in the enumeration of the set S, so that loop facts apply to it"""
        saved = self.eng.st
        self.eng.st = self.new.st
        try:
            ln, at, pos, _ = self.eng.enumth.get(self.eng, S.sort().domain())
            return at(S, pos(S, x)), ln(S)
        finally:
            self.eng.st = saved


def find_func(prog, con):
    fs = prog.byname.get(con.qname, [])
    if con.nparams is not None:
        fs = [f for f in fs if len(f.params) == con.nparams]
    if con.select:
        fs = [f for f in fs if con.select(f)]
    return fs


class Result:
    def __init__(self, con):
        self.con = con
        self.obls = []          # (name, status, detail)
        self.error = None       # Unsupported etc.
        self.paths = 0
        self.invs = 0
        self.loops = 0
        self.inlined = set()
        self.used = set()
        self.lib = set()
        self.dropped = set()
        self.time = 0.0
        self.solver_time = 0.0
        self.backends = {}
        self.looplog = []

    def pack(self):
        d = dict(self.__dict__)
        d['con'] = self.con.name
        d['props'] = self.con.props
        d['function'] = self.con.qname
        d['assumes'] = self.con.assumes
        d['trusted'] = self.con.trusted
        for k in ('inlined', 'used', 'lib', 'dropped'):
            d[k] = sorted(d[k])
        return d


def verify(prog, con):
    t0 = time.time()
    st_time0 = STATS['time']
    R = Result(con)
    try:
        if isinstance(con, Table):
            con.decide(prog, R)
            R.time = time.time() - t0
            return R
        fs = find_func(prog, con)
        if not fs:
            raise Unsupported('function %s is not defined' % con.qname)
        for f in fs:
            run_one(prog, con, f, R)
    except Unsupported as u:
        if os.environ.get('CDV_TB'):
            traceback.print_exc()
        R.error = 'unsupported: %s' % u
    except RecursionError:
        R.error = 'unsupported: recursion'
    except Exception as x:  # noqa
        R.error = 'internal: %s\n%s' % (x, traceback.format_exc(limit=-6))
    R.time = time.time() - t0
    R.solver_time = STATS['time'] - st_time0
    return R


def run_one(prog, con, f, R):
    eng = Exec(prog) if not con.strings else Exec(prog)
    if not con.strings:
        eng.types = Types(prog, strings=False)
        eng._mk_call_sort()
        eng.solver.set('timeout', 250)
    eng.check_null = con.check_null
    eng.exact = con.exact
    for g in con.const:
        front.only_read(prog, g)
    eng.const_globals = set(con.const)
    if con.maxpaths:
        eng.maxpaths = con.maxpaths
    eng.merge = set(con.merge)
    Ctr.n = 0
    st = State()
    st.trace = z3.Const('trace0', eng.Trace)
    st.hwm = z3.Const('hwm0', z3.IntSort())
    st.assume(st.hwm > 1000, fact=True)
    st.assume(eng.Trace.len(st.trace) >= 0, fact=True)
    eng.st = st
    k = K(eng, con, f)
    cls = con.cls or f.cls
    if f.cls and not f.static:
        k.this = z3.Const('this', z3.IntSort())
        st.assume(z3.And(k.this > 0, k.this < st.hwm), fact=True)
        if con.cls:
            st.assume(eng.tagf(k.this) == eng.tag(con.cls), fact=True)
        else:
            st.assume(eng.is_subtype(k.this, f.cls), fact=True)
    for i, p in enumerate(f.params):
        pt = eng.types.parse(ty(p), f.cls)
        nm = 'arg%d' % i
        if pt.k == 'ref':
            it = pt.a[0]
            v = eng.fresh_value(st, nm, it)
            if isinstance(v, Obj):
                k.args.append(v)
            else:
                k.args.append(eng.temp(v, it))
        elif ty(p).replace(' ', '') in ('char*', 'guint8*'):         # a character to write to (texts are const)
            c = eng.fresh_value(st, nm + '_pt', pt.a[0])
            key = eng.newlocal(st, c, nm)
            k.args.append(PtrLV(LV(('local', key), (), pt.a[0]), z3.Const(nm + '_null', z3.BoolSort())))
        else:
            k.args.append(eng.fresh_value(st, nm, pt))
    if con.handlers:
        eng.handlers.update(con.handlers(k) if callable(con.handlers) else con.handlers)
    k.old = View(k, st)
    if con.setup:
        con.setup(k)
    if con.pre:
        con.pre(k)
    st = eng.st
    k.old = View(k, st.copy())
    if con.hints:
        eng.hints = con.hints(k) if callable(con.hints) else con.hints

    def body():
        if f.kind == 'CXXConstructorDecl':
            eng.run_ctor(Obj(k.this, cls), cls, f, k.args)
            return ('ret', None)
        return eng.outcome(lambda: (_ for _ in ()).throw(RetX(eng.inline(f, k.this, k.args))))

    def body2():
        from .exec import AbortPath
        try:
            if f.kind == 'CXXConstructorDecl':
                eng.run_ctor(Obj(k.this, cls), cls, f, k.args)
                return ('ret', None)
            return ('ret', eng.inline(f, k.this, k.args))
        except AbortPath as a:
            return ('abort', a.why)
    results = eng.explore(st, body2)
    R.paths += len(results)
    obls = list(eng.obls)
    normal = 0
    reach = []
    for s, out in results:
        k.new = View(k, s)
        eng.st = s
        if out[0] == 'ret':
            normal += 1
            k.ret = None
            r = out[1]
            if isinstance(r, (LV, ME)):
                r = eng.load(r)
            k.ret = r.e if isinstance(r, (V, Obj)) else r
            reach.append(s)
            goals = con.post(k) or []
            for nm, g in goals:
                obls.append(dict(name=nm, pc=list(s.pc), goal=g, notes=list(s.notes)))
        else:
            if con.abort:
                for nm, g in con.abort(k, out[1]) or []:
                    obls.append(dict(name=nm, pc=list(s.pc), goal=g, notes=list(s.notes)))
    if normal == 0 and not getattr(con, 'may_abort', False):
        R.obls.append(('some normal path is reachable', 'failed', 'no feasible path returns'))
    # vacuity guard: the assumptions of at least one path must not be contradictory
    if reach:
        vac = all(prove(s.pc, z3.BoolVal(False), timeout=1000)[0] == 'unsat' for s in reach[:3])
        R.obls.append(('assumptions are satisfiable (vacuity guard)', 'failed' if vac else 'discharged', ''))
        R.backends['z3, vacuity guards'] = R.backends.get('z3, vacuity guards', 0) + 1
    R.inlined |= eng.inlined
    R.used |= eng.used_contracts
    R.lib |= eng.lib_used
    R.dropped |= eng.dropped
    R.invs += getattr(eng, 'obls_inv', 0)
    R.loops += eng.loopsused
    R.looplog += eng.loop_log
    deadline = time.time() + con.budget
    failed = set()
    for o in obls:
        if o['name'] in failed:
            continue
        if isinstance(o['goal'], AnyOf):
            stt, det, be = 'failed', 'no witness', 'none'
            for alt in o['goal'].alts:
                oks = True
                for g in alt:
                    stt, det, be = discharge(o['pc'], g, deadline, quick=len(o['goal'].alts) > 1)
                    if stt != 'discharged':
                        oks = False
                        break
                if oks:
                    break
        else:
            stt, det, be = discharge(o['pc'], o['goal'], deadline)
        R.backends[be] = R.backends.get(be, 0) + 1
        if stt != 'discharged':
            failed.add(o['name'])
        R.obls.append((o['name'], stt, det))


class RetX(Exception):
    pass


def parts(g, under=()):
    """the conjuncts of a goal, each with the premises it stands under"""
    if z3.is_and(g):
        for c in g.children():
            yield from parts(c, under)
    elif z3.is_implies(g):
        yield from parts(g.arg(1), under + (g.arg(0),))
    elif z3.is_or(g) and len([c for c in g.children() if not z3.is_false(c)]) == 1:
        yield from parts([c for c in g.children() if not z3.is_false(c)][0], under)
    else:
        yield under, g


def discharge(pc, goal, deadline, quick=False):
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    g = goal
    ps = list(parts(g))
    if len(ps) > 1:
        r, m = prove(pc, g, timeout=1500)
        if r == 'unsat':
            return 'discharged', '', 'z3'
        for under, c in ps:
            out = discharge(list(pc) + list(under), c, deadline, quick)
            if out[0] != 'discharged':
                return out
        return out
    if not z3.is_quantifier(g):
        g = z3.simplify(g)
    if z3.is_true(g):
        return 'discharged', '', 'simplifier'
    left = max(2, min(10, deadline - time.time()))
    r, m = prove(pc, g, timeout=int(left * 1000))
    if r == 'unsat':
        return 'discharged', '', 'z3'
    if quick:
        from .engine import second_try
        if second_try(pc, g, 3000) == z3.unsat:
            return 'discharged', '', 'z3-mbqi'
        return ('timeout' if 'cancel' in str(m) or 'timeout' in str(m) else 'failed'), 'goal: %s' % g.sexpr()[:900], 'none'
    reason = m[0] if isinstance(m, tuple) else ''
    # second opinion: model-based quantifier instantiation, which can also give a genuine model
    left = max(2, min(15, deadline - time.time()))
    r2, m2 = prove_mbqi(pc, g, int(left * 1000), model_text)
    if r2 == 'unsat':
        return 'discharged', '', 'z3-mbqi'
    if r2 == 'sat':
        return 'failed', 'counterexample: ' + m2, 'z3-mbqi'
    c = cvc5(pc, g, int(max(3, min(20, deadline - time.time()))))
    if c == 'unsat':
        return 'discharged', '', 'cvc5'
    if c == 'sat':
        return 'failed', 'cvc5 reports a counterexample; goal: %s' % g.sexpr()[:900], 'cvc5'
    if 'timeout' in str(reason) or 'canceled' in str(reason) or 'cancel' in str(reason):
        return 'timeout', 'z3: %s cvc5: %s goal: %s' % (reason, c, g.sexpr()[:900]), 'none'
    return 'failed', 'not provable (z3: %s, cvc5: %s); goal: %s' % (reason, c, g.sexpr()[:900]), 'none'


def model_text(m):
    out = []
    for d in m.decls():
        if d.arity() == 0 and not d.name().startswith(('H0_',)):
            out.append('%s=%s' % (d.name(), m[d].sexpr()[:80]))
    return '; '.join(sorted(out)[:40])


def cvc5(pc, goal, secs):
    s = z3.Solver()
    for c in pc:
        s.add(c)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write('(set-logic ALL)\n' + txt)
    try:
        t0 = time.time()
        p = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), '--strings-exp', fh.name], capture_output=True,
                           text=True, timeout=secs + 5)
        STATS['cvc5'] += 1
        STATS['time'] += time.time() - t0
        o = p.stdout.strip().split('\n')[-1] if p.stdout.strip() else 'error'
        return o if o in ('sat', 'unsat', 'unknown') else 'unknown'
    except Exception:  # noqa
        return 'unknown'
    finally:
        os.unlink(fh.name)
