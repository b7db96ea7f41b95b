"""Computed frames: which fields a call may write, transitively, over every repository function the loaded
translation units contain (virtual calls reach every override).  Syntactic and conservative: a field counts as
written when it is assigned, its address is taken, a mutating operation is applied to it, or it is handed to a
function by mutable reference."""
from .front import ty, qty

CONST_METHODS = {'size', 'empty', 'count', 'length', 'c_str', '_', 'substr', 'compare', 'str', 'at', 'front', 'back',
                 'find_first_of', 'find_last_of', 'rfind', 'data', 'cbegin', 'cend'}
ITER_METHODS = {'begin', 'end', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound'}
PURE_ALGO = {'find', 'find_if', 'count', 'count_if', 'any_of', 'all_of', 'none_of', 'distance', 'begin', 'end', 'next',
             'advance', 'min_element', 'max_element', 'copy', 'accumulate', 'find_if_not', 'prev', 'move'}


def strip(n):
    while n['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr',
                        'CXXBindTemporaryExpr', 'ConstantExpr', 'CXXStaticCastExpr', 'CStyleCastExpr',
                        'CXXFunctionalCastExpr', 'CXXConstCastExpr'):
        n = n['inner'][0]
    return n


def cont_type(t):
    return t.replace('const ', '').replace('ginga::', '').replace('std::', '').replace('class ', '').rstrip(' *&') \
        .replace(' ', '').replace('__cxx11::', '').replace('basic_string<char>', 'string')


class Modset:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.direct_cache = {}

    def member_key(self, f, n):
        """the field designated by a member expression (through nested members / subscripts)"""
        n = strip(n)
        while True:
            if n['kind'] == 'MemberExpr':
                d = f.tu.decl.get(n.get('referencedMemberDecl'))
                if d is None or d.get('kind') != 'FieldDecl':
                    return None
                own = d.get('_owner')
                base = strip(n['inner'][0]) if n.get('inner') else None
                # member of an embedded struct: the outer field is what is written
                if base is not None and not n.get('isArrow') and base['kind'] == 'MemberExpr':
                    k = self.member_key(f, base)
                    if k:
                        return k
                return own + '::' + d['name'] if own else None
            if n['kind'] in ('ArraySubscriptExpr', 'CXXOperatorCallExpr', 'UnaryOperator') and n.get('inner'):
                if n['kind'] == 'CXXOperatorCallExpr':
                    n = strip(n['inner'][1]) if len(n['inner']) > 1 else None
                else:
                    n = strip(n['inner'][0])
                if n is None:
                    return None
                continue
            return None

    def exposed(self):
        """container type -> fields whose address some function returns"""
        if hasattr(self, '_exposed'):
            return self._exposed
        self._exposed = out = {}

        def visit(f, n):
            if n.get('kind') == 'ReturnStmt' and n.get('inner'):
                e = strip(n['inner'][0])
                if e['kind'] == 'UnaryOperator' and e.get('opcode') == '&':
                    key = self.member_key(f, e['inner'][0])
                    if key:
                        out.setdefault(cont_type(ty(e['inner'][0])), set()).add(key)
            for c in n.get('inner', []):
                if c.get('kind'):
                    visit(f, c)
        for f in self.prog.funcs.values():
            if f.body is not None:
                visit(f, f.body)
        return out

    def direct(self, f):
        if f.mangled in self.direct_cache:
            return self.direct_cache[f.mangled]
        w, calls = set(), set()
        viaiter = set()     # containers of which the function obtained an iterator
        flag = [False]      # the function writes through an iterator or a local reference
        tu = f.tu

        def through(n):
            n = strip(n)
            while True:
                if n['kind'] == 'CXXOperatorCallExpr':
                    nm = (strip(n['inner'][0]).get('referencedDecl') or {}).get('name', '')
                    if nm in ('operator*', 'operator->'):
                        return True
                    n = strip(n['inner'][1])
                elif n['kind'] in ('MemberExpr', 'ArraySubscriptExpr') and n.get('inner'):
                    n = strip(n['inner'][0])
                else:
                    return False

        def const_type(t):
            return t.strip().startswith('const ') or ' const' in t

        def indirect(n):
            if n['kind'] == 'UnaryOperator':
                return True
            if n['kind'] == 'DeclRefExpr':
                return qty(n.get('referencedDecl') or {}).rstrip().endswith(('&', '*'))
            return False

        def visit(n, ret=False):
            k = n.get('kind')
            inner = [c for c in n.get('inner', []) if c.get('kind')]
            if k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode', '').endswith('=') and \
                    n['opcode'] not in ('==', '!=', '<=', '>='):
                key = self.member_key(f, inner[0])
                if key:
                    w.add(key)
                elif through(inner[0]):
                    flag[0] = True
            elif k == 'ReturnStmt' and inner and strip(inner[0])['kind'] == 'UnaryOperator' and \
                    strip(inner[0]).get('opcode') == '&':
                pass        # exposure: see exposed()
            elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&') and not ret:
                key = self.member_key(f, inner[0])
                if key:
                    w.add(key)
            elif k == 'CXXOperatorCallExpr':
                callee = strip(inner[0])
                nm = (callee.get('referencedDecl') or {}).get('name', '')
                if nm in ('operator=', 'operator+=', 'operator-=', 'operator[]', 'operator++', 'operator--',
                          'operator<<', 'operator|=') and len(inner) > 1:
                    key = self.member_key(f, inner[1])
                    if key:
                        w.add(key)
                    elif nm == 'operator=' and through(inner[1]):
                        flag[0] = True
                g = tu.decl.get((callee.get('referencedDecl') or {}).get('id'))
                if g is not None and g.get('_func'):
                    calls.add((g['_func'].mangled, False))
            elif k == 'CXXMemberCallExpr':
                me = strip(inner[0])
                if me['kind'] == 'MemberExpr':
                    d = tu.decl.get(me.get('referencedMemberDecl'))
                    g = d.get('_func') if d else None
                    if g is None:
                        nm = me.get('name', '').lstrip('>-.')
                        if nm not in CONST_METHODS and me.get('inner'):
                            key = self.member_key(f, me['inner'][0])
                            if key:
                                (viaiter if nm in ITER_METHODS else w).add(key)
                            elif nm not in ITER_METHODS and (me.get('isArrow') or
                                                             indirect(strip(me['inner'][0]))):
                                w.update(self.exposed().get(cont_type(ty(me['inner'][0])), set()))
                    else:
                        calls.add((g.mangled, True))
            elif k == 'CallExpr':
                callee = strip(inner[0])
                r = callee.get('referencedDecl') or {}
                g = tu.decl.get(r.get('id'))
                gf = g.get('_func') if g else None
                if gf is not None:
                    calls.add((gf.mangled, False))
                elif r.get('name') not in PURE_ALGO and any('iterator' in qty(a) or 'iterator' in ty(a)
                                                            for a in inner[1:]):
                    flag[0] = True
                pts = []
                if gf is not None:
                    pts = [ty(p) for p in gf.params]
                for i, a in enumerate(inner[1:]):
                    t = pts[i] if i < len(pts) else None
                    key = None
                    sa = strip(a)
                    if a.get('valueCategory') == 'lvalue' and sa['kind'] == 'MemberExpr':
                        key = self.member_key(f, a)
                    if key and (t is None or (t.rstrip().endswith('&') and not const_type(t))):
                        w.add(key)
            elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXNewExpr'):
                t = (n.get('type') or {}).get('desugaredQualType') or qty(n)
                import re
                c = re.sub(r'^(const )?(class |struct )?(ginga::)?', '', t).rstrip(' *')
                for g in self.prog.byname.get(c + '::' + c.split('::')[-1], []):
                    calls.add((g.mangled, False))
            elif k == 'CXXDeleteExpr':
                t = ty(inner[0])
                import re
                c = re.sub(r'^(class |struct )?(ginga::)?', '', t).rstrip(' *')
                for s in self.prog.subs(c):
                    for b in self.prog.supers(s):
                        for g in self.prog.byname.get(b + '::~' + b.split('::')[-1], []):
                            calls.add((g.mangled, False))
            elif k == 'DeclRefExpr':
                r = n.get('referencedDecl') or {}
                g = tu.decl.get(r.get('id'))
                if g is not None and g.get('_func'):
                    calls.add((g['_func'].mangled, False))     # function used as a value: may be called
            elif k in ('VarDecl',) and not n.get('name', '').startswith('__range'):
                t = ty(n)
                if t.rstrip().endswith('&') and not const_type(t) and inner:
                    key = self.member_key(f, inner[-1])
                    if key:
                        w.add(key)
            elif k == 'CXXForRangeStmt':
                # auto &x : _field
                last = [c for c in inner if c['kind'] == 'DeclStmt']
                if last:
                    v = last[-1]['inner'][0]
                    t = ty(v)
                    if t.rstrip().endswith('&') and not const_type(t):
                        for c in last[:1] if last[0]['inner'][0].get('name', '').startswith('__range') else last[:2]:
                            for vv in c.get('inner', []):
                                if vv.get('inner'):
                                    key = self.member_key(f, vv['inner'][-1])
                                    if key:
                                        w.add(key)
            for c in inner:
                visit(c, k == 'ReturnStmt' or (ret and k in ('ParenExpr', 'ImplicitCastExpr')))

        if f.body is not None:
            visit(f.body)
        for i in f.inits:
            for c in i.get('inner', []):
                visit(c)
        if flag[0]:
            w |= viaiter
        self.direct_cache[f.mangled] = (w, calls)
        return w, calls

    def overrides(self, f):
        out = [f]
        if f.cls and self.prog.is_virtual(f.cls, f.name):
            for c in self.prog.subs(f.cls):
                for m in self.prog.records[c].methods.get(f.name, []):
                    out.append(m['func'])
        return out

    def reach(self, starts):
        seen, todo = set(), list(starts)
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            f = self.prog.funcs.get(m)
            if f is None:
                d = self.prog.decls.get(m)
                if d is not None:
                    for o in self.overrides(d):
                        todo.append(o.mangled)
                continue
            for (c, virt) in self.direct(f)[1]:
                d = self.prog.decls.get(c)
                if d is None:
                    continue
                for o in (self.overrides(d) if virt else [d]):
                    if o.mangled not in seen:
                        todo.append(o.mangled)
        return seen

    def writes(self, *qnames):
        """fields possibly written (on pre-existing objects) by a call of any of these functions"""
        key = tuple(sorted(qnames))
        if key in self.cache:
            return self.cache[key]
        starts = []
        for q in qnames:
            cls, _, m = q.rpartition('::')
            if cls:
                for c in self.prog.subs(cls):
                    r = self.prog.records.get(c)
                    for x in r.methods.get(m, []):
                        starts.append(x['func'].mangled)
                if cls in self.prog.records:
                    for x in self.prog.records[cls].methods.get(m, []):
                        starts.append(x['func'].mangled)
            else:
                starts += [f.mangled for f in self.prog.byname.get(q, [])]
        out = set()
        for m in self.reach(starts):
            f = self.prog.funcs.get(m)
            if f is not None and f.kind != 'CXXConstructorDecl':
                out |= self.direct(f)[0]
        self.cache[key] = out
        return out
