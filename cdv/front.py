"""Front end: runs clang on /repo's current sources and loads the typed AST (JSON).

Nothing is copied by hand: every run re-parses the sources.  Only nodes of the
repository's own namespace are kept (std/glib declarations are not dumped)."""
import json, os, re, subprocess, sys, shlex, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('CDV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(os.path.dirname(HERE), 'native', 'stubs')
PKGS = ('glib-2.0 gobject-2.0 gio-2.0 gthread-2.0 gmodule-2.0 libsoup-2.4 libxml-2.0 gdk-3.0 '
        'gdk-pixbuf-2.0 cairo fontconfig pango pangocairo librsvg-2.0 gstreamer-1.0 '
        'gstreamer-base-1.0 gstreamer-app-1.0 gstreamer-video-1.0 gtk+-3.0 atk jsoncpp').split()


def cflags():
    out = subprocess.run(['pkg-config', '--cflags'] + PKGS, capture_output=True, text=True).stdout
    fl = shlex.split(out)
    return (['-std=c++11', '-I' + REPO + '/lib', '-I' + config_dir(), '-I' + STUBS,
             '-I/usr/include/lua5.3', '-Wno-everything'] + fl)


def config_dir():
    """config.h: the build's one if present, else a generated equivalent."""
    if os.path.exists(REPO + '/_build/config.h'):
        return REPO + '/_build'
    return os.path.join(STUBS, 'config')


class FrontError(Exception):
    pass


def run_clang(src, filt, flags):
    cmd = ['clang++', '-fsyntax-only'] + flags + ['-Xclang', '-ast-dump=json', '-Xclang',
           '-ast-dump-filter=' + filt, src]
    p = subprocess.run(cmd, capture_output=True)
    if p.returncode != 0:
        raise FrontError('clang failed on %s:\n%s' % (src, p.stderr.decode(errors='replace')[-2000:]))
    return p.stdout.decode(errors='replace')


def load_multi(s):
    d = json.JSONDecoder()
    i, n, out = 0, len(s), []
    while i < n:
        while i < n and s[i] in ' \r\n\t':
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


def ty(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


def qty(n):
    return (n.get('type') or {}).get('qualType') or ''


class TU:
    """One translation unit: its declarations by id."""

    def __init__(self, path):
        self.path = path
        self.decl = {}
        self.parent = {}
        self._text = {}
        self.anon = {}

    def text(self, f):
        if f not in self._text:
            try:
                self._text[f] = open(f, 'rb').read()
            except OSError:
                self._text[f] = b''
        return self._text[f]


class Func:
    def __init__(self, tu, node, cls, name):
        self.tu, self.node, self.cls, self.name = tu, node, cls, name
        self.qname = (cls + '::' if cls else '') + name
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.body = None
        for c in node.get('inner', []):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                self.body = c
        self.inits = [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        self.mangled = node.get('mangledName', '')
        self.kind = node['kind']
        self.static = node.get('storageClass') == 'static'

    def __repr__(self):
        return '<Func %s>' % self.qname

    @property
    def rettype(self):
        t = qty(self.node)
        # return type = text before the parameter list at depth 0
        d = 0
        for i, ch in enumerate(t):
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif ch == '(' and d == 0:
                return t[:i].strip()
        return t


class Record:
    def __init__(self, name):
        self.name = name
        self.bases = []
        self.fields = []       # (name, typestring)
        self.methods = {}      # name -> list of method decl info
        self.virtuals = set()
        self.complete = False
        self.byref = False     # objects of this record have identity


#: public structures of the C libraries, used by reference
_NODE = [('type', 'int'), ('name', 'const char *'), ('children', '_xmlNode *'), ('last', '_xmlNode *'), ('parent', '_xmlNode *'),
         ('next', '_xmlNode *'), ('prev', '_xmlNode *'), ('doc', '_xmlDoc *'), ('properties', '_xmlAttr *'), ('line', 'unsigned short')]
PUBLIC = [(('GList', '_GList'), [('data', 'void *'), ('next', 'GList *'), ('prev', 'GList *')]),
          (('_xmlNode', 'xmlNode'), _NODE),
          (('_xmlAttr', 'xmlAttr'), [('name', 'const char *'), ('next', '_xmlAttr *'), ('prev', '_xmlAttr *'), ('parent', '_xmlNode *'), ('doc', '_xmlDoc *')]),
          (('_xmlDoc', 'xmlDoc'), [('URL', 'const char *'), ('children', '_xmlNode *')]),
          (('_FcFontSet', 'FcFontSet'), [('nfont', 'int'), ('sfont', 'int'), ('fonts', '_FcPattern **')])]


class Program:
    """All loaded translation units of the repository."""

    def __init__(self):
        self.tus = []
        self.records = {}
        self.funcs = {}        # mangled -> Func (with body)
        self.decls = {}        # mangled -> Func (any declaration; has default args)
        self.byname = {}       # qname -> [Func]
        self.enums = {}        # enum name -> {const: value}
        self.enumconst = {}    # const qualified -> value
        self.typedefs = {}
        self.globals = {}      # name -> (tu,node)
        self.errors = []
        self._anon_ids = {}
        for names, fields in PUBLIC:
            r = self.records[names[0]] = Record(names[0])
            r.fields, r.complete, r.byref = list(fields), True, True
            for n in names[1:]:
                self.typedefs[n] = names[0]

    def load(self, files, filt='inga'):
        flags = cflags()
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda f: self._try(f, filt, flags), files))
        for f, o in zip(files, outs):
            if isinstance(o, Exception):
                self.errors.append((f, str(o)))
                continue
            tu = TU(f)
            self.tus.append(tu)
            for top in load_multi(o):
                self._scan(tu, top, '', None)
        for r in list(self.records.values()):
            for k, v in r.methods.items():
                if any(m.get('virtual') or m.get('override') for m in v):
                    r.virtuals.add(k)
        return self

    def _try(self, f, filt, flags):
        try:
            return run_clang(f, filt, flags)
        except Exception as e:  # noqa
            return e

    # -- scanning -----------------------------------------------------------
    def _scan(self, tu, n, scope, rec):
        k = n.get('kind')
        if k is None:
            return
        if 'id' in n:
            tu.decl[n['id']] = n
            n['_scope'] = scope
        inner = n.get('inner', [])
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in inner:
                self._scan(tu, c, scope, rec)
        elif k == 'CXXRecordDecl':
            name = n.get('name')
            if n.get('isImplicit'):
                return
            if name is None:
                if n['id'] in self._anon_ids:
                    name = self._anon_ids[n['id']]
                else:
                    cnt = tu.anon.get(scope, 0)
                    tu.anon[scope] = cnt + 1
                    name = '$anon%d' % cnt if scope else '$anon%s' % n['id']
            full = (scope + '::' if scope else '') + name
            n['_rec'] = full
            r = self.records.setdefault(full, Record(full))
            if n.get('completeDefinition') and not r.complete:
                r.complete = True
                r.bases = [re.sub(r'^ginga::', '', b['type'].get('desugaredQualType') or b['type']['qualType'])
                           for b in n.get('bases', [])]
                last = None
                ac = 0
                for c in inner:
                    if c.get('kind') == 'CXXRecordDecl' and c.get('name') is None:
                        last = full + '::$anon%d' % ac
                        ac += 1
                    if c.get('kind') == 'FieldDecl':
                        t = ty(c)
                        if '(unnamed' in t or '(anonymous' in t:
                            self.typedefs[t] = last
                        r.fields.append((c.get('name', ''), t))
            for c in inner:
                if c.get('kind') == 'FieldDecl':
                    c['_owner'] = full
                self._scan(tu, c, full, r)
        elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FunctionDecl',
                   'CXXConversionDecl'):
            cls = scope
            prev = n.get('previousDecl')
            if prev and prev in tu.decl:
                cls = tu.decl[prev].get('_scope', scope)
            elif n.get('parentDeclContextId') and n['parentDeclContextId'] in tu.decl:
                cls = tu.decl[n['parentDeclContextId']].get('_rec', scope)
            n['_cls'] = cls
            n['_scope'] = cls
            f = Func(tu, n, cls, n.get('name', ''))
            n['_func'] = f
            if f.mangled == '':
                f.mangled = '%s@%s@%s' % (f.qname, qty(n), tu.path)
            if f.mangled.startswith('_ZL') or (k == 'FunctionDecl' and f.static):
                f.mangled = f.mangled + '@' + tu.path
            if rec is not None and scope:
                over = any(c.get('kind') == 'OverrideAttr' for c in inner)
                rec.methods.setdefault(f.name, []).append(
                    dict(virtual=n.get('virtual', False), override=over, pure=n.get('pure', False),
                         mangled=f.mangled, func=f))
            old = self.decls.get(f.mangled)
            if old is None:
                self.decls[f.mangled] = f
                f.defaults = {i: p for i, p in enumerate(f.params) if p.get('init')}
            else:
                f.defaults = getattr(old, 'defaults', {})
                for i, p in enumerate(f.params):
                    if p.get('init'):
                        f.defaults[i] = p
            if f.body is not None and f.mangled not in self.funcs:
                self.funcs[f.mangled] = f
                self.byname.setdefault(f.qname, []).append(f)
            self._index(tu, n)
        elif k == 'EnumDecl':
            nm = n.get('name') or '(anon)'
            full = (scope + '::' if scope else '') + nm
            cur = -1
            d = self.enums.setdefault(full, {})
            for c in inner:
                if c.get('kind') == 'EnumConstantDecl':
                    tu.decl[c['id']] = c
                    v = find_value(c)
                    cur = v if v is not None else cur + 1
                    c['_value'] = cur
                    d[c['name']] = cur
                    self.enumconst[(scope + '::' if scope else '') + c['name']] = cur
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            self.typedefs[(scope + '::' if scope else '') + n['name']] = ty(n)
            nm = n['name']
            # typedef struct {...} X
            for c in inner:
                self._index(tu, c)
                own = (c.get('ownedTagDecl') or {}).get('id')
                if own and own in tu.decl and '_rec' in tu.decl[own]:
                    anon = tu.decl[own]['_rec']
                    if anon.split('::')[-1].startswith('$anon'):
                        full = (scope + '::' if scope else '') + nm
                        r = self.records.get(anon)
                        if r and not self.records.get(full, Record('')).complete:
                            r2 = Record(full)
                            r2.fields, r2.complete = r.fields, True
                            self.records[full] = r2
                        for cc in tu.decl[own].get('inner', []):
                            if cc.get('kind') == 'FieldDecl':
                                cc['_owner'] = full
        elif k == 'VarDecl':
            n['_scope'] = scope
            n['_global'] = True
            self._index(tu, n)
            key = (scope + '::' if scope else '') + n['name']
            prev = n.get('previousDecl')
            if prev and prev in tu.decl and tu.decl[prev].get('_gkey'):
                key = tu.decl[prev]['_gkey']
            n['_gkey'] = key
            if key not in self.globals or n.get('inner'):
                self.globals[key] = (tu, n)
        else:
            self._index(tu, n)

    def _index(self, tu, n):
        for c in n.get('inner', []):
            if c.get('kind') is None:
                continue
            if 'id' in c and c['id'] not in tu.decl:
                tu.decl[c['id']] = c
            self._index(tu, c)

    # -- hierarchy ----------------------------------------------------------
    def rec(self, name):
        return self.records.get(name)

    def supers(self, name):
        out, todo = [], [name]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            r = self.records.get(x)
            if r:
                todo += r.bases
        return out

    def subs(self, name):
        return sorted(x for x in self.records if name in self.supers(x))

    def is_virtual(self, cls, m):
        return any(m in self.records[c].virtuals for c in self.supers(cls) if c in self.records)

    def find_method(self, cls, name, mangled_tail=None, proto=None):
        """Most derived definition of a method visible from cls."""
        for c in self.supers(cls):
            r = self.records.get(c)
            if r and name in r.methods:
                for m in r.methods[name]:
                    if proto is None or params_of(m['func']) == proto:
                        return m['func']
        return None

    def definition(self, f):
        return self.funcs.get(f.mangled)


def params_of(f):
    return tuple(canon_t(ty(p)) for p in f.params)


def canon_t(s):
    return re.sub(r'\bginga::|\bstd::|\s+', '', s).replace('basic_string<char>', 'string')


def find_value(n):
    for c in n.get('inner', []):
        if c.get('kind') in ('ConstantExpr', 'IntegerLiteral') and 'value' in c:
            return int(c['value'])
        v = find_value(c)
        if v is not None:
            return v
    return None


READS = {'find', 'end', 'begin', 'cend', 'cbegin', 'size', 'count', 'empty'}


def only_read(prog, name):
    """a global table is used in look-ups and traversals only (by name of the operation, at every use)"""
    from .ctypes_ import Unsupported
    if name not in prog.globals:
        raise Unsupported('there is no table %s' % name)
    own = prog.globals[name][0]

    def walk(tu, n, up):
        if n.get('kind') == 'DeclRefExpr':
            r = n.get('referencedDecl', {})
            d = tu.decl.get(r.get('id'))
            if d is not None and d.get('_gkey') == name:
                ps = [p for p in reversed(up) if p.get('kind') not in ('ImplicitCastExpr', 'ParenExpr')]
                p = ps[0] if ps else {}
                ok = p.get('kind') == 'MemberExpr' and p.get('name') in READS
                if p.get('kind') == 'VarDecl' and p.get('name', '').startswith('__range'):
                    ok = True
                if not ok:
                    raise Unsupported('%s is used other than by looking it up (%s)' % (name, p.get('kind')))
        for c in n.get('inner', []):
            if isinstance(c, dict) and c:
                walk(tu, c, up + [n])
    for f in prog.funcs.values():
        if f.body is not None and f.tu is own:
            walk(f.tu, f.body, [])


WRAP = {'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CXXFunctionalCastExpr', 'ConstantExpr',
        'ParenExpr', 'CXXStdInitializerListExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'SubstNonTypeTemplateParmExpr'}


def initial(prog, name):
    """value given to a global by its initialiser: nested lists of strings, numbers and names of functions"""
    from .ctypes_ import Unsupported
    if name not in prog.globals:
        raise Unsupported('there is no table %s' % name)
    tu, node = prog.globals[name]
    ini = [c for c in node.get('inner', []) if c.get('kind') and 'Comment' not in c['kind'] and not c['kind'].endswith('Attr')]
    if not ini:
        raise Unsupported('%s has no initialiser' % name)

    def enum(n):
        for vals in prog.enums.values():
            if n in vals:
                return vals[n]
        raise Unsupported('constant %s' % n)

    def ev(n):
        k = n['kind']
        kids = [c for c in n.get('inner', []) if c.get('kind') and c['kind'] != 'CXXDefaultArgExpr' and 'Comment' not in c['kind']]
        if k in WRAP:
            return ev(kids[-1])
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            v = [ev(c) for c in kids]
            return v[0] if len(v) == 1 else v
        if k == 'InitListExpr':
            return [ev(c) for c in kids]
        if k == 'ImplicitValueInitExpr':
            return None
        if k == 'StringLiteral':
            import ast
            return ast.literal_eval(n['value'])
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return int(n['value'])
        if k == 'CXXBoolLiteralExpr':
            return bool(n['value'])
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return None
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            if r['kind'] == 'EnumConstantDecl':
                return enum(r['name'])
            return r['name']
        if k == 'UnaryOperator' and n.get('opcode') == '&':
            return ev(kids[0])
        if k == 'BinaryOperator':
            a, b = ev(kids[0]), ev(kids[1])
            if isinstance(a, int) and isinstance(b, int):
                return {'|': a | b, '&': a & b, '+': a + b, '<<': a << min(b, 64), '^': a ^ b, '-': a - b}[n['opcode']]
        raise Unsupported('initialiser of %s: %s' % (name, k))
    return ev(ini[-1])
