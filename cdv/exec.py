"""Statement and expression semantics over the clang AST (direct style, path re-execution)."""
import re
import z3
from . import front
from .front import ty, qty
from .ctypes_ import *
from .state import *
from .engine import Engine, Iv, TWO, prove


class Infeasible(Exception):
    pass


class Ctl(Exception):
    pass


class Return(Ctl):
    def __init__(self, v):
        self.v = v


class Break(Ctl):
    pass


class Continue(Ctl):
    pass


class Goto(Ctl):
    def __init__(self, label):
        self.label = label


class AbortPath(Ctl):
    def __init__(self, why):
        self.why = why


class Path:
    __slots__ = ('prefix', 'taken', 'alts')

    def __init__(self, prefix):
        self.prefix, self.taken, self.alts = prefix, [], []


class Frame:
    __slots__ = ('fid', 'func', 'this', 'parent', 'scope', 'static')

    def __init__(self, fid, func, this, parent=None):
        self.fid, self.func, self.this, self.parent = fid, func, this, parent
        self.scope = func.cls if func else ''


LOGFNS = {'g_log', 'g_log_structured_standard', 'g_print', 'g_printerr', 'g_message', 'printf', 'fprintf',
          'g_debug', 'g_warning'}
TRANSPARENT = ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr')


class Exec(Engine):
    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.st = None
        self.pstack = []
        self.memo = {}
        self.handlers = {}
        self.merge = set()
        self.libfn = {}
        self.libm = {}
        self.nulls = False
        self.check_null = False
        self.exact = False
        self.loopnodes = 0
        self.callstack = []
        self.loop_log = []
        self.hints = []
        self.lits = {}
        self.loopsused = 0
        self.strconst = {}
        self.inline_depth = 40
        from . import lib, loops
        lib.install(self)
        self.loops = loops

    # ------------------------------------------------------------------ exploration
    def explore(self, st0, fn, limit=None):
        results, work = [], [()]
        mark()
        c0 = Ctr.n
        cmax = c0
        saved = self.st
        n = 0
        while work:
            pre = work.pop()
            Ctr.n = c0
            p = Path(pre)
            self.pstack.append(p)
            self.st = st0.copy()
            try:
                out = fn()
                results.append((self.st, out))
            except Infeasible:
                pass
            finally:
                self.pstack.pop()
            work += reversed(p.alts)
            cmax = max(cmax, Ctr.n)
            n += 1
            if n > (limit or self.maxpaths):
                self.st = saved
                raise Unsupported('too many paths')
        self.st = saved
        Ctr.n = cmax
        return results

    def choose(self, cond):
        """Decide a condition on the current path; explores both sides."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        p = self.pstack[-1]
        st = self.st
        i = len(p.taken)
        if i < len(p.prefix):
            d = p.prefix[i]
            p.taken.append(d)
            st.assume(cond if d % 2 else z3.simplify(z3.Not(cond)))
            return bool(d % 2)
        ncond = z3.simplify(z3.Not(cond))
        a = st.copy()
        a.assume(cond)
        b = st.copy()
        b.assume(ncond)
        fa = self.feasible(a)
        fb = self.feasible(b) if fa else True
        if fa and fb:
            p.alts.append(tuple(p.taken) + (0,))
            p.taken.append(1)
            self.st = a
            return True
        if fa:
            p.taken.append(1)
            self.st = a
            return True
        if not self.feasible(b):
            raise Infeasible()
        p.taken.append(0)
        self.st = b
        return False

    def pick(self, n):
        p = self.pstack[-1]
        i = len(p.taken)
        if i < len(p.prefix):
            d = p.prefix[i]
            p.taken.append(d)
            return d
        if n == 0:
            raise Infeasible()
        for k in range(1, n):
            p.alts.append(tuple(p.taken) + (k,))
        p.taken.append(0)
        return 0

    def memoize(self, key, fn):
        """Results of a nested exploration are reused when an outer path is re-executed."""
        mark()
        k = (tuple(tuple(p.taken) for p in self.pstack), key, Ctr.n)
        hit = self.memo.get(k)
        if hit is not None:
            Ctr.n = hit[1]
            return hit[0]
        r = fn()
        self.memo[k] = (r, Ctr.n)
        return r

    def outcome(self, fn):
        try:
            fn()
            return ('fall',)
        except Return as r:
            return ('ret', r.v)
        except Break:
            return ('break',)
        except Continue:
            return ('cont',)
        except Goto as g:
            return ('goto', g.label)
        except AbortPath as a:
            return ('abort', a.why)

    def reraise(self, out):
        k = out[0]
        if k == 'ret':
            raise Return(out[1])
        if k == 'break':
            raise Break()
        if k == 'cont':
            raise Continue()
        if k == 'goto':
            raise Goto(out[1])
        if k == 'abort':
            raise AbortPath(out[1])

    # ------------------------------------------------------------------ helpers
    def T(self, n):
        fr = self.st.frame
        return self.types.parse(ty(n) or qty(n), fr.scope if fr else '')

    def Ts(self, s):
        fr = self.st.frame
        return self.types.parse(s, fr.scope if fr else '')

    def lit(self, s):
        if self.types.strings:
            return z3.StringVal(s)
        c = self.lits.get(s)
        if c is None:
            c = z3.Const('lit:%s' % s, self.types.STR)
            self.lits[s] = c
        code = z3.Function('strcode', self.types.STR, z3.IntSort())
        idx = list(self.lits).index(s)
        if self.st is not None:
            self.st.assume(code(c) == idx, fact=True)
            self.st.assume(z3.Function('str_char', self.types.STR, z3.IntSort(), z3.IntSort())(c, z3.IntVal(0)) == (
                (ord(s[0]) + 128) % 256 - 128 if s and ord(s[0]) < 256 else 0), fact=True)
        return c

    def S(self, s):
        return V(self.lit(s), STR)

    def I(self, n, t=I32):
        return V(Iv(n), t)

    def B(self, b):
        return V(z3.BoolVal(b) if isinstance(b, bool) else b, BOOL)

    def temp(self, val, t):
        """materialise a value as a temporary lvalue"""
        key = ('t', mark())
        self.st.store[key] = val
        return LV(('local', key), (), t)

    def load(self, x):
        """lvalue-to-rvalue"""
        if isinstance(x, LV):
            return self.read(self.st, x)
        if isinstance(x, ME):
            return self.me_value(x)
        return x

    def me_value(self, m):
        pt = T('pair', m.t.a[0], m.t.a[1])
        v = self.read(self.st, LV(m.lv.root, m.lv.path + (('key', m.key),), m.t.a[1]))
        s = self.types.sort(pt)
        return V(s.mk(m.key, v.e), pt)

    def boolean(self, v):
        """value -> z3 Bool"""
        v = self.load(v)
        if isinstance(v, V):
            if v.t.k == 'bool':
                return v.e
            if v.e.sort() == z3.IntSort():
                return v.e != 0
            if v.t.k == 'dbl':
                return v.e != 0
        if isinstance(v, (PtrLV, CStr)):
            return z3.Not(v.null)
        if isinstance(v, FnRef):
            return z3.BoolVal(True)
        if isinstance(v, Undef):
            return fresh('undef', z3.BoolSort())
        raise Unsupported('boolean of %s' % type(v).__name__)

    def num(self, v):
        v = self.load(v)
        if isinstance(v, V):
            if v.t.k == 'bool':
                return z3.If(v.e, Iv(1), Iv(0))
            return v.e
        if isinstance(v, Undef):
            x = self.fresh_value(self.st, 'undef', v.t)
            return x.e
        raise Unsupported('number of %s' % type(v).__name__)

    # ------------------------------------------------------------------ statements
    def ex(self, n):
        k = n.get('kind')
        if k is None:
            return
        m = getattr(self, 'ex_' + k, None)
        if m is not None:
            return m(n)
        if k.endswith('Expr') or k.endswith('Operator') or k in ('CXXDefaultArgExpr', 'ExprWithCleanups', 'ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr'):
            self.ev(n)
            return
        raise Unsupported('statement %s' % k)

    def ex_CompoundStmt(self, n):
        self.run_seq(n.get('inner', []))

    def run_seq(self, stmts, start=0):
        i = start
        while True:
            try:
                while i < len(stmts):
                    s = stmts[i]
                    self.ex(s)
                    i += 1
                return
            except Goto as g:
                j = self.find_label(stmts, g.label)
                if j is None or j <= i:
                    raise
                i = j

    def find_label(self, stmts, label):
        for j, s in enumerate(stmts):
            if s.get('kind') == 'LabelStmt' and (s.get('declId') == label or s.get('name') == label):
                return j
        return None

    def ex_LabelStmt(self, n):
        for c in n.get('inner', []):
            self.ex(c)

    def ex_GotoStmt(self, n):
        raise Goto(n.get('targetLabelDeclId') or n.get('name'))

    def ex_NullStmt(self, n):
        pass

    def ex_AttributedStmt(self, n):
        for c in n.get('inner', []):
            if not c.get('kind', '').endswith('Attr'):
                self.ex(c)

    def ex_DeclStmt(self, n):
        for c in n.get('inner', []):
            if c.get('kind') == 'VarDecl':
                self.declare(c)

    def ex_IfStmt(self, n):
        inner = n['inner']
        i = 0
        if n.get('hasInit'):
            self.ex(inner[i])
            i += 1
        if n.get('hasVar'):
            self.ex(inner[i])
            i += 1
        cond = inner[i]
        if self.is_assert(n, inner[i:]):
            c = self.boolean(self.ev(cond))
            if not self.choose(c):
                raise AbortPath('assertion')
            return
        c = self.cond(cond)
        if c:
            self.ex(inner[i + 1])
        elif len(inner) > i + 2:
            self.ex(inner[i + 2])

    def cond(self, n):
        """evaluate a condition with short-circuit forking"""
        n = self.strip(n)
        if n['kind'] == 'BinaryOperator' and n['opcode'] == '&&':
            return self.cond(n['inner'][0]) and self.cond(n['inner'][1])
        if n['kind'] == 'BinaryOperator' and n['opcode'] == '||':
            return self.cond(n['inner'][0]) or self.cond(n['inner'][1])
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '!':
            return not self.cond(n['inner'][0])
        return self.choose(self.boolean(self.ev(n)))

    def strip(self, n):
        while n['kind'] in TRANSPARENT or (n['kind'] == 'ImplicitCastExpr' and
                                           n.get('castKind') in ('NoOp',)):
            n = [c for c in n['inner'] if c.get('kind')][0]
        return n

    def is_assert(self, n, parts):
        if len(parts) < 3 or parts[1].get('kind') != 'NullStmt':
            return False
        return self.calls_noreturn(parts[2])

    def calls_noreturn(self, n):
        if n.get('kind') == 'DeclRefExpr':
            return n.get('referencedDecl', {}).get('name', '').startswith('g_assertion_message')
        return any(self.calls_noreturn(c) for c in n.get('inner', [])[:1])

    def ex_ReturnStmt(self, n):
        inner = n.get('inner', [])
        if not inner:
            raise Return(None)
        v = self.ev(inner[0])
        fr = self.st.frame
        rt = fr.func.rettype if fr.func is not None else ''
        if rt.endswith('&'):
            raise Return(v)
        v = self.load(v)
        raise Return(v)

    def ex_BreakStmt(self, n):
        raise Break()

    def ex_ContinueStmt(self, n):
        raise Continue()

    def ex_SwitchStmt(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        if n.get('hasInit'):
            self.ex(inner.pop(0))
        if n.get('hasVar'):
            self.ex(inner.pop(0))
        v = self.num(self.ev(inner[0]))
        body = inner[-1]
        flat = []      # (labels, stmt)

        def add(s):
            if s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                labels = []
                while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                    kids = [c for c in s.get('inner', []) if c.get('kind')]
                    if s['kind'] == 'CaseStmt':
                        labels.append(self.num(self.ev(kids[0])))
                        s = kids[-1] if len(kids) > 1 else None
                    else:
                        labels.append(None)
                        s = kids[-1] if kids else None
                    if s is None:
                        break
                flat.append((labels, s))
            else:
                flat.append(([], s))
        for s in (body.get('inner', []) if body.get('kind') == 'CompoundStmt' else [body]):
            add(s)
        start = None
        default = None
        for i, (labels, s) in enumerate(flat):
            vals = [l for l in labels if l is not None]
            if any(l is None for l in labels):
                default = i
            if vals and start is None:
                if self.choose(z3.Or([v == l for l in vals])):
                    start = i
                    break
        if start is None:
            start = default
        if start is None:
            return
        try:
            self.run_seq([s for _, s in flat if s is not None] if all(s is not None for _, s in flat)
                         else [s or {'kind': 'NullStmt'} for _, s in flat], start)
        except Break:
            pass

    def const_false(self, n):
        n = self.strip(n)
        while n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr'):
            n = self.strip(n['inner'][0])
        return (n['kind'] == 'IntegerLiteral' and n.get('value') == '0') or \
               (n['kind'] == 'CXXBoolLiteralExpr' and not n.get('value'))

    def ex_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        if self.const_false(cond):
            try:
                self.ex(body)
            except (Break, Continue):
                pass
            return

        def iteration():
            try:
                self.ex(body)
            except Continue:
                pass
            except Break:
                return ('break',)
            return ('next',) if self.cond(cond) else ('exit',)
        self.loops.run(self, n, iteration)

    def ex_WhileStmt(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        var = inner.pop(0) if n.get('hasVar') else None
        cond, body = inner[0], inner[-1]

        def iteration():
            if var is not None:
                self.ex(var)
            if not self.cond(cond):
                return ('exit',)
            try:
                self.ex(body)
            except Continue:
                pass
            except Break:
                return ('break',)
            return ('next',)
        self.loops.run(self, n, iteration)

    def ex_ForStmt(self, n):
        inner = n['inner']
        init, cond, inc, body = inner[0], inner[2], inner[3], inner[4]
        if init.get('kind'):
            self.ex(init)

        def iteration():
            if cond.get('kind') and not self.cond(cond):
                return ('exit',)
            try:
                self.ex(body)
            except Continue:
                pass
            except Break:
                return ('break',)
            if inc.get('kind'):
                self.ev(inc)
            return ('next',)
        self.loops.run(self, n, iteration)

    def ex_CXXForRangeStmt(self, n):
        inner = n['inner']
        init = inner[0]
        if init.get('kind'):
            self.ex(init)
        self.ex(inner[1])
        self.ex(inner[2])
        self.ex(inner[3])
        cond, inc, var, body = inner[4], inner[5], inner[6], inner[7]

        def iteration():
            if not self.cond(cond):
                return ('exit',)
            try:
                self.ex(var)
                self.ex(body)
            except Continue:
                pass
            except Break:
                return ('break',)
            self.ev(inc)
            return ('next',)
        self.loops.run(self, n, iteration)

    def ex_CXXTryStmt(self, n):
        # exceptions are not modelled: the handler is unreachable unless a model raises
        self.dropped.add('catch handlers (C++ exceptions are not modelled)')
        self.ex(n['inner'][0])

    # ------------------------------------------------------------------ declarations
    def declare(self, d):
        fr = self.st.frame
        key = (fr.fid, d['id'])
        ts = ty(d)
        t = self.types.parse(ts, fr.scope)
        inner = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')
                 and 'Comment' not in c['kind']]
        if d.get('storageClass') == 'static':
            # function-local static: initialised once with a constant
            nm = 'static:%s:%s' % (fr.func.qname, d['name'])
            if 'const' not in qty(d) and t.k != 'class':      # keeps its value between calls
                self.st.store[key] = Ref(LV(('glob', nm, t), (), t))
                return
            if inner:
                v = self.load(self.ev(inner[0]))
                self.st.store[key] = v
                self.dropped.add('static local %s treated as initialised on entry' % d['name'])
                return
            raise Unsupported('static local')
        if not inner or not d.get('init'):
            if t.k == 'class' and not self.types.is_pod(t.a[0]):
                self.st.store[key] = Ref(self.construct(t.a[0], None, []))
            elif t.k == 'arr':
                self.st.store[key] = Opaque('array', t)
            elif t.k == 'unk':
                self.st.store[key] = self.lib_default(t)
            else:
                self.st.store[key] = self.default_value(self.st, t)
            return
        ini = inner[-1]
        if t.k == 'ref':
            lv = self.ev(ini)
            if not isinstance(lv, (LV, Obj, ME)):
                if isinstance(lv, (It, KeyIt, Lam)):
                    self.st.store[key] = lv
                    return
                lv = self.temp(lv, t.a[0])
            self.st.store[key] = Ref(lv)
            return
        v = self.ev(ini)
        if isinstance(v, ME):
            v = self.load(v)
        if isinstance(v, LV):
            v = self.load(v)
        if isinstance(v, Obj):
            self.st.store[key] = Ref(v)
            return
        if isinstance(v, V) and t.k not in ('unk', 'iter', 'func'):
            v = self.coerce(v, t)
        self.st.store[key] = v

    def lib_default(self, t):
        return Opaque('default', t)

    def coerce(self, v, t):
        if v.t == t:
            return v
        try:
            return self.conv(self.st, v, t)
        except Unsupported:
            return v

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        k = n['kind']
        if k in TRANSPARENT:
            for c in n['inner']:
                if c.get('kind') and c['kind'] != 'APValue':
                    return self.ev(c)
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('expression %s' % k)
        return m(n)

    def rv(self, n):
        return self.load(self.ev(n))

    def ev_IntegerLiteral(self, n):
        return V(Iv(int(n['value'])), self.T(n))

    def ev_CharacterLiteral(self, n):
        return V(Iv(int(n['value'])), self.T(n))

    def ev_FloatingLiteral(self, n):
        return V(z3.RealVal(str(n['value'])), DBL)

    def ev_CXXBoolLiteralExpr(self, n):
        return V(z3.BoolVal(bool(n['value'])), BOOL)

    def ev_StringLiteral(self, n):
        return CStr(self.lit(unescape(n['value'])))

    def ev_PredefinedExpr(self, n):
        return CStr(self.lit(''))

    def ev_CXXNullPtrLiteralExpr(self, n):
        return V(Iv(0), T('ptr', VOID))

    def ev_GNUNullExpr(self, n):
        return V(Iv(0), I64)

    def ev_UnaryExprOrTypeTraitExpr(self, n):
        at = n.get('argType', {}).get('desugaredQualType') or n.get('argType', {}).get('qualType')
        if n.get('name') == 'sizeof' and at:
            t = self.Ts(at)
            if t.k == 'int':
                return V(Iv(t.a[0] // 8), U64)
        x = fresh('sizeof', z3.IntSort())
        self.st.assume(x > 0)
        return V(x, U64)

    def ev_CXXThisExpr(self, n):
        fr = self.st.frame
        t = self.T(n)
        return V(fr.this, t)

    def lookup(self, did, name=''):
        fr = self.st.frame
        while fr is not None:
            key = (fr.fid, did)
            if key in self.st.store:
                return key
            fr = fr.parent
        return None

    def ev_DeclRefExpr(self, n):
        r = n['referencedDecl']
        rk = r['kind']
        if rk in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            key = self.lookup(r['id'])
            if key is not None:
                v = self.st.store[key]
                if isinstance(v, Ref):
                    return v.lv
                if isinstance(v, Obj):
                    return v
                return LV(('local', key), (), self.T(n))
            return self.global_ref(n, r)
        if rk == 'EnumConstantDecl':
            d = self.st.frame.func.tu.decl.get(r['id'])
            t = self.T(n)
            if d is not None and '_value' in d:
                return V(Iv(d['_value']), t)
            if t.k == 'enum':
                return V(Iv(self.prog.enums[t.a[0]][r['name']]), t)
            return V(self.fncode('enumconst:' + r['name']) + 0, t if t.k == 'int' else I32)
        if rk in ('FunctionDecl', 'CXXMethodDecl'):
            d = self.st.frame.func.tu.decl.get(r['id'])
            f = d.get('_func') if d else None
            return FnRef(r['name'], f)
        raise Unsupported('reference to %s %s' % (rk, r.get('name')))

    def global_ref(self, n, r):
        d = self.st.frame.func.tu.decl.get(r['id'])
        t = self.T(n)
        if r.get('name') == 'npos' and (d is None or t.k == 'int'):
            return V(z3.IntVal((1 << 64) - 1), U64)
        if d is None:
            if self.types.parse(ty(n)).k == 'unk':
                return Opaque('global', r.get('name'))
            return LV(('glob', r['name'], t), (), t)
        if '_gkey' not in d and d.get('storageClass') not in ('static', 'extern'):
            raise Unsupported('local variable %s used before its declaration' % r.get('name'))
        key = d.get('_gkey', r['name'])
        return self.global_lv(key, t, d)

    def global_lv(self, key, t, d):
        """global variable; tables with a constant initialiser are evaluated from the AST"""
        lkey = ('g', key)
        if lkey in self.st.store:
            v = self.st.store[lkey]
            return v.lv if isinstance(v, Ref) else LV(('local', lkey), (), t)
        const = 'const' in qty(d) or key in getattr(self, 'const_globals', ())
        if const:
            tu, node = self.prog.globals.get(key, (None, None))
            inner = [c for c in (node or d).get('inner', []) if c.get('kind') and 'Comment' not in c['kind']
                     and not c['kind'].endswith('Attr')]
            if inner:
                saved = self.st.frame
                f = front.Func.__new__(front.Func)
                f.tu, f.node, f.cls, f.name, f.qname, f.params = tu, node, d.get('_scope', ''), key, key, []
                self.st.frame = Frame(mark(), f, Iv(0))
                self.st.frame.scope = d.get('_scope', '')
                try:
                    v = self.load(self.ev(inner[-1]))
                finally:
                    self.st.frame = saved
                self.st.store[lkey] = v
                return LV(('local', lkey), (), t)
        return LV(('glob', key, t), (), t)

    def ev_MaterializeTemporaryExpr(self, n):
        v = self.ev(n['inner'][0])
        if isinstance(v, (LV, Obj, ME, It, KeyIt, PtrLV, CStr, Lam, Opaque, FnRef)):
            return v
        return self.temp(v, v.t if isinstance(v, V) else self.T(n))

    def ev_CXXDefaultInitExpr(self, n):
        raise Unsupported('CXXDefaultInitExpr')

    def ev_ImplicitValueInitExpr(self, n):
        t = self.T(n)
        return self.zero_value(t) or self.default_value(self.st, t)

    def ev_CXXScalarValueInitExpr(self, n):
        return self.ev_ImplicitValueInitExpr(n)

    # -- casts
    def ev_ImplicitCastExpr(self, n):
        return self.cast(n)

    ev_CStyleCastExpr = ev_CXXStaticCastExpr = ev_CXXFunctionalCastExpr = ev_ImplicitCastExpr
    ev_CXXConstCastExpr = ev_CXXReinterpretCastExpr = ev_ImplicitCastExpr

    def cast(self, n):
        ck = n.get('castKind')
        kid = [c for c in n['inner'] if c.get('kind')][0]
        if ck == 'LValueToRValue':
            return self.load(self.ev(kid))
        if ck in ('NoOp', 'ConstructorConversion', 'FunctionToPointerDecay', 'UserDefinedConversion',
                  'BuiltinFnToFnPtr', 'ArrayToPointerDecay', 'LValueBitCast'):
            if ck == 'NoOp' and n['kind'] != 'ImplicitCastExpr' and n.get('valueCategory') == 'prvalue':
                return self.load(self.ev(kid)) if kid.get('valueCategory') != 'lvalue' else self.ev(kid)
            return self.ev(kid)
        if ck == 'ToVoid':
            self.ev(kid)
            return VOIDV
        if ck == 'NullToPointer':
            if not self.pure(n['inner'][0]):
                self.ev(n['inner'][0])
            t = self.T(n)
            if t.k == 'ptr' and t.a[0] in (I8, U8):
                return CStr(self.lit(''), null=z3.BoolVal(True))
            if t.k == 'ptr' and self.is_lvptr(t):
                return PtrLV(None, z3.BoolVal(True))
            return V(Iv(0), t)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            v = self.ev(kid)
            if isinstance(v, Obj):
                return Obj(v.e, self.T(n).a[0] if self.T(n).k == 'class' else v.cls)
            if isinstance(v, LV) and v.t == T('class', 'stringstream'):
                return v
            v = self.load(v)
            if isinstance(v, V):
                return V(v.e, self.T(n))
            return v
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return V(self.boolean(self.ev(kid)), BOOL)
        v = self.load(self.ev(kid))
        t = self.T(n)
        if ck == 'IntegralCast':
            if isinstance(v, Undef):
                v = self.fresh_value(self.st, 'undef', v.t)
            return self.int_cast(v, t)
        if ck == 'IntegralToFloating':
            return V(z3.ToReal(self.num(v)), DBL)
        if ck == 'FloatingCast':
            return V(v.e, DBL)
        if ck == 'FloatingToIntegral':
            e = v.e
            tr = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
            if t.k != 'int':
                return V(tr, t)
            bits, sg = t.a
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            u = fresh('fcast', z3.IntSort())
            self.type_facts(self.st, u, t)
            return V(z3.If(z3.And(tr >= lo, tr <= hi), tr, u), t)
        if ck in ('BitCast', 'IntegralToPointer', 'PointerToIntegral', 'AnyPointerToBlockPointerCast'):
            if isinstance(v, V):
                return V(v.e, t)
            return v
        if ck == 'Dynamic':
            return self.dyncast(v, t)
        raise Unsupported('cast %s' % ck)

    def int_cast(self, v, t):
        e = self.num(v)
        if t.k == 'enum' or v.t.k == 'enum' and t.k == 'int' and t.a[0] >= 32:
            return V(e, t)
        if t.k == 'bool':
            return V(e != 0, t)
        if t.k != 'int':
            return V(e, t)
        src = v.t
        if src.k == 'bool':
            return V(e, t)
        if src.k == 'int':
            sb, ss = src.a
            db, ds = t.a
            if (ss == ds and db >= sb) or (not ss and ds and db > sb):
                return V(e, t)
        return V(self.wrap(e, t), t)

    def wrap(self, e, t):
        bits, sg = t.a
        m = TWO[bits]
        e = z3.simplify(e)
        if z3.is_int_value(e):
            x = e.as_long() % m
            if sg and x >= m // 2:
                x -= m
            return Iv(x)
        lo, hi = (-(m // 2), m // 2 - 1) if sg else (0, m - 1)
        if sg:
            w = (e + m // 2) % m - m // 2
        else:
            w = e % m
        return z3.If(z3.And(e >= lo, e <= hi), e, w)

    def ev_CXXDynamicCastExpr(self, n):
        return self.dyncast(self.load(self.ev(n['inner'][0])), self.T(n))

    def dyncast(self, v, t):
        if t.k == 'ptr' and t.a[0].k == 'class':
            c = z3.And(v.e != 0, self.is_subtype(v.e, t.a[0].a[0]))
            st_t = v.t
            if st_t.k == 'ptr' and st_t.a[0].k == 'class' and t.a[0].a[0] in self.prog.supers(st_t.a[0].a[0]):
                return V(v.e, t)
            return V(z3.If(c, v.e, Iv(0)), t)
        raise Unsupported('dynamic_cast')

    # -- member access
    def ev_MemberExpr(self, n):
        v = self.member(n)
        if isinstance(v, (LV, V)) and v.t.k == 'class' and v.t.a[0] in self.types.BYREF:
            return Obj(self.load(v).e, v.t.a[0])        # an entry of the syntax table, used in place
        return v

    def member(self, n):
        base_n = n['inner'][0]
        name = n.get('name', '')
        rid = n.get('referencedMemberDecl')
        d = self.st.frame.func.tu.decl.get(rid)
        base = self.ev(base_n)
        if n.get('isArrow'):
            base = self.load(base)
            base = self.deref(base)
        if d is not None and d.get('kind') == 'VarDecl':
            return self.global_lv(d.get('_gkey', name), self.T(n), d)
        if isinstance(base, Obj):
            own = d.get('_owner') if d is not None else None
            if own is None:
                own = self.owner(base.cls, name)
            t = self.hkey_type(own + '::' + name)
            lv = LV(('heap', own + '::' + name, base.e), (), t)
            if t.k == 'class' and not self.types.is_pod(t.a[0]):
                return Obj(self.emb(own + '::' + name, base.e), t.a[0])
            if t.k == 'ref':
                raise Unsupported('reference member')
            return lv
        if isinstance(base, ME):
            if name == 'first':
                return V(base.key, base.t.a[0])
            return LV(base.lv.root, base.lv.path + (('key', base.key),), base.t.a[1])
        if isinstance(base, LV):
            t = base.t
            cur = self.st.store.get(base.root[1]) if base.root[0] == 'local' and not base.path else None
            if isinstance(cur, V):
                t = cur.t
            if isinstance(cur, Opaque):
                return Opaque('member', (cur, name))
            for fn_, ft in self.types.comps(t):
                if fn_ == name:
                    return LV(base.root, base.path + (('f', name),), ft)
            raise Unsupported('member %s of %r' % (name, t))
        if isinstance(base, V):
            if base.t.k in ('pair', 'tuple', 'class'):
                e, ft = self.step(base.e, base.t, ('f', name))
                return V(e, ft)
        if isinstance(base, Opaque):
            return Opaque('member', (base, name))
        raise Unsupported('member %s of %s' % (name, type(base).__name__))

    def deref(self, p):
        """*p as an lvalue"""
        if isinstance(p, V):
            if p.t.k == 'ptr' and p.t.a[0].k == 'class':
                if self.check_null:
                    if not self.choose(p.e != 0):
                        raise AbortPath('null dereference')
                else:
                    self.st.assume(p.e != 0, fact=True)
                return Obj(p.e, p.t.a[0].a[0])
            if p.t.k == 'ptr' and p.t.a[0].k in ('int', 'bool', 'dbl', 'str', 'list', 'set', 'map', 'enum'):
                # memory reached through a stored pointer: cells of that type, separate from the fields of objects
                t = p.t.a[0]
                key = 'cell ' + self.types.mangle(t) + '::value'
                self.cells[key] = t
                self.dropped.add('pointers to %r held in fields do not point into the objects under contract' % (t,))
                if self.check_null:
                    if not self.choose(p.e != 0):
                        raise AbortPath('null dereference')
                else:
                    self.st.assume(p.e != 0, fact=True)
                return LV(('heap', key, p.e), (), t)
            if p.t.k == 'ptr':
                return Opaque('deref', p)
        if isinstance(p, PtrLV):
            if self.check_null and not z3.is_false(p.null):
                if self.choose(p.null):
                    raise AbortPath('null dereference')
            else:
                self.st.assume(z3.simplify(z3.Not(p.null)), fact=True)
            if p.lv is None:
                raise Infeasible()
            return p.lv
        if isinstance(p, (Obj, ME, LV)):
            return p
        if isinstance(p, CStr):
            return V(self.char_at(self.st, p.e, p.off), I8)
        if isinstance(p, Opaque):
            return p
        if isinstance(p, (FnRef, Lam)):
            return p
        raise Unsupported('deref of %s' % type(p).__name__)

    # -- operators
    def ev_UnaryOperator(self, n):
        op = n['opcode']
        kid = n['inner'][0]
        if op == '!':
            return V(z3.Not(self.boolean(self.ev(kid))), BOOL)
        if op == '-':
            v = self.load(self.ev(kid))
            if v.t.k == 'dbl':
                return V(-v.e, DBL)
            t = self.T(n)
            e = z3.simplify(-self.num(v))
            if t.k == 'int' and not t.a[1]:
                e = self.wrap(e, t)
            return V(e, t)
        if op == '+':
            return self.load(self.ev(kid))
        if op == '*':
            return self.deref(self.load(self.ev(kid)))
        if op == '&':
            lv = self.ev(kid)
            if isinstance(lv, Obj):
                return V(lv.e, T('ptr', T('class', lv.cls)))
            if isinstance(lv, FnRef):
                return lv
            if isinstance(lv, (LV, ME)):
                return PtrLV(lv)
            if isinstance(lv, Opaque):
                return lv
            if isinstance(lv, V):
                return PtrLV(self.temp(lv, lv.t))
            raise Unsupported('address of %s' % type(lv).__name__)
        if op in ('++', '--'):
            lv = self.ev(kid)
            old = self.load(lv)
            d = 1 if op == '++' else -1
            if isinstance(old, CStr):
                new = CStr(old.e, z3.simplify(old.off + d), old.null, old.buf)
            elif isinstance(old, It):
                new = self.it_advance(old, d)
            else:
                t = old.t
                e = self.num(old) + d
                if t.k == 'int' and not t.a[1]:
                    e = self.wrap(e, t)
                new = V(z3.simplify(e), t)
            self.write(self.st, lv, new)
            if n.get('isPostfix'):
                return old
            return lv
        if op == '~':
            v = self.load(self.ev(kid))
            return V(self.wrap(-v.e - 1, v.t), v.t)
        if op == '__extension__':
            return self.ev(kid)
        raise Unsupported('unary %s' % op)

    def pure(self, n):
        k = n.get('kind')
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXNewExpr', 'CXXDeleteExpr',
                 'CompoundAssignOperator', 'StmtExpr', 'LambdaExpr', 'ConditionalOperator', 'CXXConstructExpr'):
            return False
        if k == 'BinaryOperator' and n['opcode'] in ('=', ',', '&&', '||'):
            if n['opcode'] in ('=', ','):
                return False
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--', '*'):
            return False
        return all(self.pure(c) for c in n.get('inner', []))

    def ev_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner'][0], n['inner'][1]
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op in ('&&', '||'):
            if self.pure(b):
                x = self.boolean(self.ev(a))
                y = self.boolean(self.ev(b))
                return V(z3.simplify(z3.And(x, y) if op == '&&' else z3.Or(x, y)), BOOL)
            x = self.cond(a)
            if op == '&&':
                return V(self.boolean(self.ev(b)), BOOL) if x else self.B(False)
            return self.B(True) if x else V(self.boolean(self.ev(b)), BOOL)
        if op == '=':
            v = self.load(self.ev(b))
            lv = self.ev(a)
            self.assign(lv, v)
            return lv
        x = self.load(self.ev(a))
        y = self.load(self.ev(b))
        return self.binop(op, x, y, self.T(n))

    def assign(self, lv, v):
        if isinstance(lv, Opaque):
            return
        if isinstance(v, Obj) and isinstance(lv, Obj):
            raise Unsupported('class assignment')
        if not isinstance(lv, LV):
            raise Unsupported('assign to %s' % type(lv).__name__)
        self.write(self.st, lv, v)

    def ev_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        y = self.load(self.ev(n['inner'][1]))
        lv = self.ev(n['inner'][0])
        x = self.load(lv)
        ct = self.Ts((n.get('computeResultType') or {}).get('desugaredQualType')
                     or (n.get('computeResultType') or {}).get('qualType') or ty(n))
        if isinstance(x, CStr):
            self.write(self.st, lv, CStr(x.e, z3.simplify(x.off + self.num(y) * (1 if op == '+' else -1)), x.null, x.buf))
            return lv
        if ct.k == 'dbl' and x.t.k != 'dbl':
            x = V(z3.ToReal(self.num(x)), DBL)
        r = self.binop(op, x, y, ct)
        t = self.T(n)
        if ct.k == 'int' and t.k == 'int' and ct != t:
            r = self.int_cast(r, t)
        elif ct.k == 'dbl' and t.k == 'int':
            raise Unsupported('float to int compound')
        self.write(self.st, lv, r)
        return lv

    def ptr_id(self, v):
        if isinstance(v, V):
            return v.e
        raise Unsupported('pointer comparison')

    def binop(self, op, x, y, t):
        if op in ('==', '!='):
            e = self.equal(x, y)
            return V(e if op == '==' else z3.simplify(z3.Not(e)), BOOL)
        if isinstance(x, CStr):
            if isinstance(y, CStr) and op == '-':
                return V(x.off - y.off, I64)
            if op in '+-':
                d = self.num(y)
                return CStr(x.e, z3.simplify(x.off + d if op == '+' else x.off - d), x.null, x.buf)
            if isinstance(y, CStr) and op in ('<', '>', '<=', '>='):
                return V({'<': x.off < y.off, '>': x.off > y.off, '<=': x.off <= y.off, '>=': x.off >= y.off}[op], BOOL)
        if isinstance(x, Undef):
            x = self.fresh_value(self.st, 'undef', x.t)
        if isinstance(y, Undef):
            y = self.fresh_value(self.st, 'undef', y.t)
        dbl = isinstance(x, V) and x.t.k == 'dbl' or isinstance(y, V) and y.t.k == 'dbl'
        a, b = self.num(x), self.num(y)
        if dbl:
            if a.sort() == z3.IntSort():
                a = z3.ToReal(a)
            if b.sort() == z3.IntSort():
                b = z3.ToReal(b)
        if op in ('<', '>', '<=', '>='):
            return V({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op], BOOL)
        if dbl:
            e = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
            return V(e, DBL)
        if op in '+-*':
            e = z3.simplify(a + b if op == '+' else a - b if op == '-' else a * b)
            if t.k == 'int' and not t.a[1] and not z3.is_int_value(e):
                m = TWO[t.a[0]]
                if op == '+':
                    e = z3.If(e < m, e, e - m)
                elif op == '-':
                    e = z3.If(e >= 0, e, e + m)
                else:
                    e = z3.If(e < m, e, e % m)
            elif t.k == 'int' and not t.a[1]:
                e = self.wrap(e, t)
            else:
                self.dropped.add('signed overflow (undefined behaviour) excluded')
            return V(e, t)
        if op in '/%':
            # C division truncates towards zero
            q = z3.If(z3.And(a >= 0, b > 0), a / b, self.tdiv(a, b))
            if op == '/':
                return V(z3.simplify(q), t)
            return V(z3.simplify(z3.If(z3.And(a >= 0, b > 0), a % b, a - b * self.tdiv(a, b))), t)
        if op in ('<<', '>>'):
            bv = z3.simplify(b)
            if z3.is_int_value(bv):
                k = 1 << bv.as_long()
                return V(self.wrap(a * k, t) if op == '<<' else a / k, t)
        if op in ('&', '|', '^'):
            av, bv = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(av) and z3.is_int_value(bv):
                f = {'&': int.__and__, '|': int.__or__, '^': int.__xor__}[op]
                return V(Iv(f(av.as_long(), bv.as_long())), t)
            for x, y in ((a, bv), (b, av)):
                if op == '&' and z3.is_int_value(y) and 0 <= y.as_long() < 1 << 31 and bin(y.as_long()).count('1') <= 8:
                    return V(z3.simplify(z3.Sum([z3.If(self.bit(x, j), Iv(1 << j), Iv(0)) for j in range(31) if y.as_long() >> j & 1] or [Iv(0)])), t)
            f = z3.Function('bit' + {'&': 'and', '|': 'or', '^': 'xor'}[op], z3.IntSort(), z3.IntSort(), z3.IntSort())
            return V(f(a, b), t)
        raise Unsupported('binary %s' % op)

    def bit(self, x, j):
        if z3.is_app(x) and x.decl().name() == 'ascii_class':
            c = x.arg(0)
            r = lambda a, b: z3.And(c >= ord(a), c <= ord(b))
            up, lo, dg = r('A', 'Z'), r('a', 'z'), r('0', '9')
            known = {0: z3.Or(up, lo, dg), 1: z3.Or(up, lo), 3: dg, 5: lo, 8: z3.Or(c == 32, r('\t', '\n'), r('\f', '\r')), 9: up,
                     10: z3.Or(dg, r('A', 'F'), r('a', 'f'))}
            if j in known:
                return known[j]
        return z3.Function('bit', z3.IntSort(), z3.IntSort(), z3.BoolSort())(x, Iv(j))

    def tdiv(self, a, b):
        qa = z3.If(a >= 0, a, -a)
        qb = z3.If(b >= 0, b, -b)
        return z3.If((a >= 0) == (b >= 0), qa / qb, -(qa / qb))

    def equal(self, x, y):
        x, y = self.load(x), self.load(y)
        if isinstance(x, Undef):
            x = self.fresh_value(self.st, 'undef', x.t)
        if isinstance(y, Undef):
            y = self.fresh_value(self.st, 'undef', y.t)
        if isinstance(x, (It, KeyIt)) or isinstance(y, (It, KeyIt)):
            return self.it_equal(x, y)
        if isinstance(x, (PtrLV, CStr)) or isinstance(y, (PtrLV, CStr)):
            for a, b in ((x, y), (y, x)):
                if isinstance(a, (PtrLV, CStr)) and isinstance(b, (PtrLV, CStr)) and z3.is_true(z3.simplify(b.null)):
                    return a.null
                if isinstance(a, (PtrLV, CStr)) and isinstance(b, V) and z3.is_int_value(b.e):
                    return a.null
                if isinstance(a, CStr) and isinstance(b, V) and b.t.k == 'str':
                    return self.cstr_str(a) == b.e
            if isinstance(x, CStr) and isinstance(y, CStr):
                return x.off == y.off
            if isinstance(x, PtrLV) and isinstance(y, PtrLV) and x.lv is not None and y.lv is not None:
                if x.lv.root == y.lv.root and x.lv.path == y.lv.path:
                    return z3.BoolVal(True)
            raise Unsupported('pointer comparison')
        if isinstance(x, (FnRef, Lam)) or isinstance(y, (FnRef, Lam)):
            if isinstance(x, V) or isinstance(y, V):
                return z3.BoolVal(False)
            return z3.BoolVal(x.name == y.name)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return fresh('opaque_eq', z3.BoolSort())
        if x.t.k == 'dbl' or y.t.k == 'dbl':
            a = z3.ToReal(x.e) if x.e.sort() == z3.IntSort() else x.e
            b = z3.ToReal(y.e) if y.e.sort() == z3.IntSort() else y.e
            return a == b
        if x.t.k == 'bool' and y.t.k == 'bool':
            return x.e == y.e
        if x.t.k == 'list':
            raise Unsupported('list equality')
        if x.e.sort() != y.e.sort():
            return self.num(x) == self.num(y)
        return x.e == y.e

    def ev_ConditionalOperator(self, n):
        c, a, b = n['inner'][0], n['inner'][1], n['inner'][2]
        if n.get('valueCategory') == 'prvalue' and self.pure(a) and self.pure(b):
            t = self.T(n)
            if t.k in ('int', 'bool', 'enum', 'dbl'):
                cv = self.boolean(self.ev(c))
                x, y = self.load(self.ev(a)), self.load(self.ev(b))
                if isinstance(x, V) and isinstance(y, V) and x.e.sort() == y.e.sort():
                    return V(z3.simplify(z3.If(cv, x.e, y.e)), t)
        if self.cond(c):
            return self.ev(a)
        return self.ev(b)

    def ev_BinaryConditionalOperator(self, n):
        raise Unsupported('?:')

    def ascii_class(self, c):
        """the character class table of glib, by its documented bits"""
        return V(z3.Function('ascii_class', z3.IntSort(), z3.IntSort())(z3.simplify(c)), I32)

    def ev_ArraySubscriptExpr(self, n):
        b = n['inner'][0]
        while b.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            b = b['inner'][0]
        if b.get('kind') == 'DeclRefExpr' and b['referencedDecl'].get('name') == 'g_ascii_table':
            return self.ascii_class(self.num(self.ev(n['inner'][1])))
        a = self.load(self.ev(n['inner'][0]))
        i = self.num(self.ev(n['inner'][1]))
        if isinstance(a, CStr):
            return V(self.char_at(self.st, a.e, z3.simplify(a.off + i)), I8)
        if isinstance(a, LV) and a.t.k == 'list':
            return LV(a.root, a.path + (('idx', i),), a.t.a[0])
        if isinstance(a, V) and a.t.k == 'list':
            return self.read(self.st, LV(self.temp(a, a.t).root, (('idx', i),), a.t.a[0]))
        if isinstance(a, Opaque):
            return Opaque('index', a)
        if isinstance(a, V) and a.t.k == 'ptr' and '(index)' in self.handlers:
            return self.handlers['(index)'](self, a, i, a.t.a[0])
        raise Unsupported('subscript')

    def ev_StmtExpr(self, n):
        body = n['inner'][0]['inner']
        for s in body[:-1]:
            self.ex(s)
        return self.load(self.ev(body[-1])) if body[-1]['kind'].endswith(('Expr', 'Operator', 'Literal')) else self.ex(body[-1])

    def ev_InitListExpr(self, n):
        t = self.T(n)
        kids = [c for c in n.get('inner', []) if c.get('kind')]
        if t.k == 'arr':
            lt = T('list', t.a[0])
            return self.mklist([self.load(self.ev(c)) for c in kids], lt)
        if t.k in ('class', 'pair'):
            s = self.types.sort(t)
            comps = self.types.comps(t)
            vals = []
            for i, (nm, ft) in enumerate(comps):
                if i < len(kids):
                    vals.append(self.term(self.st, self.load(self.ev(kids[i])), ft))
                else:
                    z = self.zero_value(ft) or self.default_value(self.st, ft)
                    vals.append(z.e)
            return V(s.constructor(0)(*vals), t)
        if len(kids) == 1:
            return self.ev(kids[0])
        if not kids:
            return self.zero_value(t) or self.default_value(self.st, t)
        raise Unsupported('init list %r' % t)

    def mklist(self, vals, lt):
        s = self.types.sort(lt)
        arr = self.default_arr(lt)
        for i, v in enumerate(vals):
            arr = z3.Store(arr, Iv(i), self.term(self.st, v, lt.a[0]))
        return V(s.mk(Iv(len(vals)), arr), lt)

    def default_arr(self, lt):
        return self.no_elements(lt)

    def ev_CXXStdInitializerListExpr(self, n):
        return self.ev(n['inner'][0])

    def ev_CXXDefaultArgExpr(self, n):
        raise Unsupported('default argument in library call')

    def ev_LambdaExpr(self, n):
        op = None
        rec = n['inner'][0]
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
        return Lam(op, self.st.frame, None)

    def ev_CXXDeleteExpr(self, n):
        v = self.load(self.ev(n['inner'][0]))
        h = self.handlers.get('delete')
        if h:
            h(self, v)
        else:
            self.dropped.add('delete: destructor effects are not modelled')
        return VOIDV

    def ev_CXXNewExpr(self, n):
        t = self.T(n)
        if t.k == 'ptr' and t.a[0].k == 'class' and not self.types.is_pod(t.a[0].a[0]):
            cls = t.a[0].a[0]
            kids = [c for c in n.get('inner', []) if c.get('kind')]
            ctor = None
            args = []
            if kids:
                c = self.strip(kids[0])
                if c['kind'] == 'CXXConstructExpr':
                    ctor = c
                    args = [a for a in c.get('inner', []) if a.get('kind')]
            o = self.construct(cls, ctor, args)
            return V(o.e, t)
        if t.k == 'ptr' and self.is_lvptr(t) and not n.get('isArray'):
            # a container of its own: a cell that nothing else names
            kids = [c for c in n.get('inner', []) if c.get('kind')]
            c = self.load(self.ev(kids[0])) if kids else None
            v = V(self.term(self.st, c, t.a[0]), t.a[0]) if c is not None else self.zero_value(t.a[0]) or self.default_value(self.st, t.a[0])
            return PtrLV(LV(('local', self.newlocal(self.st, v, 'new')), (), t.a[0]))
        raise Unsupported('new %r' % t)

    # ------------------------------------------------------------------ object construction
    def alloc(self, cls):
        st = self.st
        r = st.hwm
        ref = fresh('new_' + cls.replace('::', '.'), z3.IntSort())
        st.assume(ref == r, fact=True)
        st.hwm = z3.simplify(r + 1)
        st.assume(ref > 0, fact=True)
        st.assume(self.tagf(ref) == self.tag(cls), fact=True)
        return Obj(ref, cls)

    def construct(self, cls, node, argnodes):
        o = self.alloc(cls)
        ctor = None
        if node is not None:
            ct = front.canon_t((node.get('ctorType') or {}).get('qualType', ''))
            ctor = self.find_ctor(cls, ct, len(argnodes))
        h = self.handlers.get('new ' + cls)
        if h:
            h(self, o, argnodes)
            return o
        args = []
        if ctor is not None:
            args = self.eval_args(ctor, argnodes)
        self.run_ctor(o, cls, ctor, args)
        return o

    def find_ctor(self, cls, ctype, nargs):
        simple = cls.split('::')[-1]
        cands = [f for f in self.prog.decls.values() if f.cls == cls and f.kind == 'CXXConstructorDecl']
        for f in cands:
            if front.canon_t(qty(f.node)) == ctype:
                return f
        c2 = [f for f in cands if len(f.params) >= nargs]
        if len(c2) == 1:
            return c2[0]
        return None

    def init_fields(self, o, cls):
        r = self.prog.records.get(cls)
        for nm, ts in (r.fields if r else []):
            t = self.types.parse(ts, cls)
            if t.k in ('class',) and not self.types.is_pod(t.a[0]):
                continue
            if t.k in ('arr', 'func', 'ref', 'iter'):
                continue
            d = self.default_value(self.st, t)
            try:
                key = cls + '::' + nm
                if isinstance(d, Undef):
                    e = fresh('uninit', self.types.sort(t))
                else:
                    e = d.e
                self.st.heap[key] = z3.Store(self.hget(self.st, key), o.e, e)
            except Unsupported:
                pass

    def run_ctor(self, o, cls, ctor, args):
        rec = self.prog.records.get(cls)
        self.init_fields(o, cls)
        d = self.prog.definition(ctor) if ctor is not None else None
        if d is None:
            for b in (rec.bases if rec else []):
                if b in self.prog.records:
                    self.run_ctor(Obj(o.e, b), b, None, [])
            if ctor is not None and args:
                raise Unsupported('constructor %s has no body' % cls)
            return
        fr = Frame(mark(), d, o.e)
        saved = self.st.frame
        self.st.frame = fr
        self.bind(fr, d, args)
        donebases = set()
        try:
            for ini in d.inits:
                kid = [c for c in ini.get('inner', []) if c.get('kind')]
                if 'baseInit' in ini:
                    bt = self.types.parse(ini['baseInit'].get('desugaredQualType') or ini['baseInit']['qualType'], cls)
                    b = bt.a[0] if bt.k == 'class' else None
                    if b is None or not kid:
                        continue
                    donebases.add(b)
                    c = self.strip(kid[0])
                    if c['kind'] == 'CXXConstructExpr':
                        an = [a for a in c.get('inner', []) if a.get('kind')]
                        bc = self.find_ctor(b, front.canon_t((c.get('ctorType') or {}).get('qualType', '')), len(an))
                        bargs = self.eval_args(bc, an) if bc is not None else []
                        self.run_ctor(Obj(o.e, b), b, bc, bargs)
                elif 'anyInit' in ini and kid:
                    nm = ini['anyInit'].get('name')
                    t = self.hkey_type(cls + '::' + nm)
                    c = self.strip(kid[0])
                    if c['kind'] in ('CXXConstructExpr',) and not [x for x in c.get('inner', []) if x.get('kind')]:
                        continue
                    if c['kind'] == 'CXXDefaultInitExpr':
                        c = self.default_init(cls, nm)
                        if c is None:
                            continue
                    v = self.load(self.ev(c))
                    self.write(self.st, LV(('heap', cls + '::' + nm, o.e), (), t), v)
            for b in (rec.bases if rec else []):
                if b in self.prog.records and b not in donebases:
                    self.run_ctor(Obj(o.e, b), b, None, [])
            try:
                self.ex(d.body)
            except Return:
                pass
        finally:
            self.st.frame = saved

    def default_init(self, cls, nm):
        for tu in self.prog.tus:
            for dd in tu.decl.values():
                if dd.get('kind') == 'FieldDecl' and dd.get('name') == nm and dd.get('_owner') == cls:
                    for c in dd.get('inner', []):
                        if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator')):
                            return c
        return None

    def ev_CXXConstructExpr(self, n):
        t = self.T(n)
        args = [c for c in n.get('inner', []) if c.get('kind') and c['kind'] != 'CXXDefaultArgExpr']
        if t.k == 'class' and not self.types.is_pod(t.a[0]):
            if len(args) == 1:
                v = self.ev(args[0])
                if isinstance(v, Obj):
                    return v
            return self.construct(t.a[0], n, args)
        if t.k == 'class' and t.a[0] != 'stringstream':
            if not args:
                return self.default_value(self.st, t)
            v = self.load(self.ev(args[0]))
            return v
        return self.lib_construct(n, t, args)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    # ------------------------------------------------------------------ calls
    def eval_args(self, f, nodes):
        """evaluate call arguments according to the parameter types"""
        out = []
        for i, p in enumerate(f.params):
            pt = self.types.parse(ty(p), f.cls)
            if i < len(nodes) and nodes[i]['kind'] != 'CXXDefaultArgExpr':
                v = self.ev(nodes[i])
            else:
                d = getattr(f, 'defaults', {}).get(i) or getattr(self.prog.decls.get(f.mangled), 'defaults', {}).get(i)
                if d is None:
                    raise Unsupported('missing default argument of %s' % f.qname)
                ini = [c for c in d.get('inner', []) if c.get('kind') and 'Comment' not in c['kind'] and not c['kind'].endswith('Attr')][-1]
                v = self.ev(ini)
            if pt.k == 'ref':
                if isinstance(v, V):
                    v = self.temp(v, v.t)
                out.append(v)
            else:
                v = self.load(v)
                if isinstance(v, V) and pt.k not in ('unk', 'func', 'iter'):
                    v = self.coerce(v, pt)
                out.append(v)
        return out

    def bind(self, fr, d, args):
        for p, v in zip(d.params, args):
            pt = self.types.parse(ty(p), d.cls)
            if pt.k == 'ref' or isinstance(v, Obj):
                self.st.store[(fr.fid, p['id'])] = Ref(v) if isinstance(v, (LV, Obj, ME)) else v
            else:
                self.st.store[(fr.fid, p['id'])] = v

    def call_func(self, f, this, args, node=None):
        """call of a repository function; this is a z3 ref or None"""
        h = self.handlers.get(f.qname)
        if h is not None:
            self.used_contracts.add(f.qname)
            return h(self, f, this, args)
        d = self.prog.definition(f)
        if d is None:
            h = self.libfn.get(f.name)
            if h is not None and not f.cls:
                return h(self, args, node)
            raise Unsupported('no body for %s' % f.qname)
        if len(self.callstack) > self.inline_depth or self.callstack.count(d.qname) > 2:
            raise Unsupported('recursion into %s' % d.qname)
        self.inlined.add(d.qname)
        if d.qname in self.merge:
            return self.loops.merged_call(self, d, this, args)
        return self.inline(d, this, args)

    def inline(self, d, this, args):
        fr = Frame(mark(), d, this if this is not None else Iv(0))
        saved = self.st.frame
        self.callstack.append(d.qname)
        self.st.frame = fr
        self.bind(fr, d, args)
        try:
            self.ex(d.body)
            r = None
        except Return as x:
            r = x.v
        finally:
            self.callstack.pop()
            self.st.frame = saved
        rt = self.types.parse(d.rettype, d.cls)
        if r is None:
            return VOIDV
        if isinstance(r, V) and rt.k not in ('ref', 'unk', 'void', 'iter', 'func'):
            r = self.coerce(r, rt)
        return r

    def call_lambda(self, lam, args):
        if isinstance(lam, PyFn):
            return lam.fn(*args)
        if isinstance(lam, FnRef):
            if lam.func is None:
                raise Unsupported('call through %s' % lam.name)
            a = []
            for p, v in zip(lam.func.params, args):
                pt = self.types.parse(ty(p), lam.func.cls)
                a.append(v if pt.k == 'ref' else self.load(v))
            return self.call_func(lam.func, None, a)
        if not isinstance(lam, Lam):
            raise Unsupported('call of %s' % type(lam).__name__)
        op = lam.node
        f = front.Func(lam.frame.func.tu, op, lam.frame.func.cls, 'lambda')
        fr = Frame(mark(), f, lam.frame.this, lam.frame)
        saved = self.st.frame
        self.st.frame = fr
        for p, v in zip(f.params, args):
            pt = self.types.parse(ty(p), f.cls)
            if pt.k == 'ref':
                if isinstance(v, V):
                    v = self.temp(v, v.t)
                self.st.store[(fr.fid, p['id'])] = Ref(v) if isinstance(v, (LV, Obj, ME)) else v
            else:
                v = self.load(v)
                self.st.store[(fr.fid, p['id'])] = Ref(v) if isinstance(v, Obj) else v
        try:
            self.ex(f.body)
            r = VOIDV
        except Return as x:
            r = x.v
        finally:
            self.st.frame = saved
        return r

    def ev_CallExpr(self, n):
        inner = n['inner']
        callee = self.strip(inner[0])
        while callee['kind'] == 'ImplicitCastExpr':
            callee = self.strip(callee['inner'][0])
        args = inner[1:]
        if callee['kind'] == 'DeclRefExpr' and callee['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            name = callee['referencedDecl']['name']
            d = self.st.frame.func.tu.decl.get(callee['referencedDecl']['id'])
            f = d.get('_func') if d else None
            if name.startswith('g_assertion_message') or name in ('abort', 'g_abort', 'exit', '_exit'):
                raise AbortPath('assertion' if name.startswith('g_ass') else name)
            if name in LOGFNS:
                lv = None
                if name == 'g_log':
                    try:
                        lv = int(self.strip(self.strip(args[1])['inner'][0] if self.strip(args[1])['kind'] == 'ImplicitCastExpr' else args[1]).get('value', 0))
                    except Exception:  # noqa
                        lv = None
                    if self.is_error_level(args[1]):
                        raise AbortPath('g_error')
                self.dropped.add('logging calls (%s) and their arguments' % name)
                return VOIDV
            if f is not None:
                return self.call_func(f, None, self.eval_args(f, args) +
                                      [self.load(self.ev(a)) for a in args[len(f.params):]], n)
            h = self.handlers.get(name)
            if h is not None:
                return h(self, None, None, [self.ev(a) for a in args])
            h = self.libfn.get(name)
            if h is None and '(extern)' in self.handlers:
                h = lambda eng, vs, node: self.handlers['(extern)'](eng, name, vs, node)
            if h is None:
                raise Unsupported('library function %s' % name)
            self.lib_used.add(name)
            return h(self, [self.ev(a) for a in args], n)
        fn = self.load(self.ev(inner[0]))
        fn = self.deref(fn) if isinstance(fn, PtrLV) else fn
        if isinstance(fn, (Lam, FnRef, PyFn)):
            return self.call_lambda(fn, [self.ev(a) for a in args])
        h = self.handlers.get('(indirect)')
        if h:
            return h(self, fn, [self.load(self.ev(a)) for a in args], n)
        raise Unsupported('indirect call')

    def is_error_level(self, n):
        n = self.strip(n)
        while n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr'):
            n = self.strip(n['inner'][0])
        return n['kind'] == 'DeclRefExpr' and n['referencedDecl'].get('name') == 'G_LOG_LEVEL_ERROR'

    def qualified(self, me):
        """is the member access written with a class qualifier (non-virtual call)?"""
        r = me.get('range', {})
        b, e = r.get('begin', {}), r.get('end', {})
        if 'expansionLoc' in e:
            e = e['expansionLoc']
        if 'expansionLoc' in b:
            b = b['expansionLoc']
        off0, off1 = b.get('offset'), e.get('offset')
        if off0 is None or off1 is None:
            return False
        txt = self.st.frame.func.tu.text(self.st.frame.func.tu.path)[off0:off1 + e.get('tokLen', 0)]
        txt = txt.decode(errors='replace')
        return bool(re.search(r'::\s*~?\w+$', txt))

    def ev_CXXMemberCallExpr(self, n):
        inner = n['inner']
        me = self.strip(inner[0])
        args = inner[1:]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through %s' % me['kind'])
        rid = me.get('referencedMemberDecl')
        d = self.st.frame.func.tu.decl.get(rid)
        f = d.get('_func') if d else None
        base = self.ev(me['inner'][0])
        if f is None:
            if me.get('isArrow'):
                base = self.deref(self.load(base))
            nodes = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
            vals = [self.ev(a) for a in nodes]
            return self.method(base, me['name'], vals, n)
        if me.get('isArrow'):
            base = self.deref(self.load(base))
        if isinstance(base, LV):
            base = self.read(self.st, base)
        if not isinstance(base, Obj):
            raise Unsupported('method %s on %s' % (f.qname, type(base).__name__))
        vals = self.eval_args(f, args)
        virt = self.prog.is_virtual(f.cls, f.name) and not self.qualified(me)
        return self.dispatch(f, base, vals, virt, n)

    def dispatch(self, f, obj, vals, virt, n=None):
        if f.static:
            return self.call_func(f, None, vals, n)
        if not virt:
            return self.call_func(f, obj.e, vals, n)
        for c in self.prog.supers(obj.cls):
            if c + '::' + f.name in self.handlers and (c + '::' + f.name == f.qname or True):
                q = c + '::' + f.name
                if q in self.handlers and getattr(self.handlers[q], 'virtual', False):
                    self.used_contracts.add(q)
                    return self.handlers[q](self, f, obj.e, vals)
        proto = front.params_of(f)
        impls = {}
        for c in self.prog.subs(obj.cls):
            if self.is_abstract(c):
                continue
            m = self.prog.find_method(c, f.name, proto=proto)
            if m is None:
                continue
            impls.setdefault(m.mangled, (m, []))[1].append(c)
        items = list(impls.values())
        if not items:
            raise Unsupported('no implementation of %s' % f.qname)
        for i, (m, cs) in enumerate(items):
            if i == len(items) - 1:
                return self.call_func(m, obj.e, vals, n)
            if self.choose(z3.Or([self.tagf(obj.e) == self.tag(c) for c in cs])):
                return self.call_func(m, obj.e, vals, n)

    def ev_CXXOperatorCallExpr(self, n):
        inner = n['inner']
        callee = self.strip(inner[0])
        while callee['kind'] == 'ImplicitCastExpr':
            callee = self.strip(callee['inner'][0])
        name = callee['referencedDecl']['name']
        d = self.st.frame.func.tu.decl.get(callee['referencedDecl']['id'])
        f = d.get('_func') if d else None
        if f is not None and name != 'operator()':
            if f.cls:
                base = self.ev(inner[1])
                if not isinstance(base, Obj):
                    if name == 'operator=':
                        v = self.load(self.ev(inner[2]))
                        self.assign(base, v)
                        return base
                    raise Unsupported('operator on %s' % type(base).__name__)
                return self.call_func(f, base.e, self.eval_args(f, inner[2:]), n)
            return self.call_func(f, None, self.eval_args(f, inner[1:]), n)
        args = [self.ev(a) for a in inner[1:] if a['kind'] != 'CXXDefaultArgExpr']
        return self.operator(name, args, n)


def unescape(s):
    """clang prints the literal as source text"""
    s = s.strip()
    m = re.match(r'^(u8|L|u|U)?"(.*)"$', s, re.S)
    if not m:
        return s
    s = m.group(2)
    out, i = [], 0
    simple = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', '"': '"', "'": "'", 'a': '\a', 'b': '\b',
              'f': '\f', 'v': '\v', '?': '?'}
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            d = s[i + 1]
            if d in simple:
                out.append(simple[d])
                i += 2
            elif d in '01234567':
                m = re.match(r'[0-7]{1,3}', s[i + 1:])
                out.append(chr(int(m.group(0), 8)))
                i += 1 + len(m.group(0))
            elif d == 'x':
                m = re.match(r'[0-9a-fA-F]+', s[i + 2:])
                out.append(chr(int(m.group(0), 16)))
                i += 2 + len(m.group(0))
            else:
                out.append(d)
                i += 2
        else:
            out.append(c)
            i += 1
    return ''.join(out)
