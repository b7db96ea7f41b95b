"""C++ type strings -> normalised types -> SMT sorts."""
import re
import z3

INTS = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
        'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
        'unsigned': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
        'unsigned long long': (64, False), 'size_t': (64, False), 'std::size_t': (64, False),
        'gint': (32, True), 'guint': (32, False), 'guint8': (8, False), 'gint8': (8, True),
        'guint32': (32, False), 'gint32': (32, True), 'guint64': (64, False), 'gint64': (64, True),
        'gsize': (64, False), 'gssize': (64, True), 'Time': (64, False), 'GstClockTime': (64, False),
        'ginga::Time': (64, False), 'gboolean': (32, True), 'GingaState': (32, False), 'gchar': (8, True), 'guchar': (8, False),
        'size_type': (64, False), 'difference_type': (64, True), 'gulong': (64, False), 'glong': (64, True),
        'ssize_t': (64, True), 'uint8_t': (8, False), 'int64_t': (64, True), 'uint64_t': (64, False),
        'short int': (16, True), 'long int': (64, True), 'guint16': (16, False), 'gint16': (16, True),
        'xmlChar': (8, False), 'gunichar': (32, False), 'lua_Integer': (64, True)}


class T:
    """Normalised type: kind + args."""
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __eq__(self, o):
        return isinstance(o, T) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        if self.k == 'int':
            return ('s' if self.a[1] else 'u') + str(self.a[0])
        return self.k + ('<' + ','.join(map(str, self.a)) + '>' if self.a else '')


BOOL, STR, DBL, VOID = T('bool'), T('str'), T('dbl'), T('void')
I32, U32, I64, U64, U8, I8 = (T('int', 32, True), T('int', 32, False), T('int', 64, True),
                              T('int', 64, False), T('int', 8, False), T('int', 8, True))


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    def __init__(self, prog, strings=True):
        self.prog = prog
        self.cache = {}
        self.sorts = {}
        self.structs = {}
        self.STR = z3.StringSort() if strings else z3.DeclareSort('Str')
        self.strings = strings

    def parse(self, s, scope=''):
        key = (s, scope)
        if key not in self.cache:
            self.cache[key] = self._parse(s.strip(), scope)
        return self.cache[key]

    def _parse(self, s, scope):
        s = s.strip()
        s = re.sub(r'^(struct|class|enum|typename) ', '', s)
        # strip cv
        while True:
            n = re.sub(r'^(const|volatile)\b\s*', '', s)
            n = re.sub(r'\s*\b(const|volatile|noexcept)$', '', n)
            if re.search(r'[*&]\s*const$', s):
                n = re.sub(r'const$', '', s)
            n = n.strip()
            if n == s:
                break
            s = n
        if s in ('this',):
            return T('unk', s)
        if s.endswith('&&'):
            return T('ref', self.parse(s[:-2], scope))
        if s.endswith('&'):
            return T('ref', self.parse(s[:-1], scope))
        out = s
        while '<' in out and re.search(r'<[^<>]*>', out):
            out = re.sub(r'<[^<>]*>', '', out)
        s, full = out, s
        isf = re.search(r'\(\*?\s*(const)?\)\s*\(', s) or re.search(r'\)\s*(const|noexcept|noexcept\(true\))*$', s) and '(' in s and '(unnamed' not in s and '(anonymous' not in s and '(lambda' not in s
        s = full
        if isf:
            return T('func', s)
        if s.endswith('*'):
            return T('ptr', self.parse(s[:-1], scope))
        m = re.match(r'^(.*)\[(\d*)\]$', s)
        if m:
            return T('arr', self.parse(m.group(1), scope), int(m.group(2) or 0))
        if s in ('bool', '_Bool'):
            return BOOL
        if s == 'void':
            return VOID
        if s in ('std::nullptr_t', 'nullptr_t'):
            return T('ptr', VOID)
        if s in INTS:
            return T('int', *INTS[s])
        if s in ('double', 'float', 'gdouble', 'gfloat', 'long double'):
            return DBL
        if s in self.prog.typedefs:
            return self.parse(self.prog.typedefs[s], scope)
        b = re.sub(r'^(::)?ginga::', '', s)
        m = re.match(r'^(?:std::)?(?:__cxx11::)?(\w+)<(.*)>$', b)
        if m:
            nm, args = m.group(1), split_args(m.group(2))
            if nm == 'basic_string':
                return STR
            if nm in ('list', 'vector', 'deque'):
                return T('list', self.parse(args[0], scope))
            if nm in ('set', 'unordered_set'):
                return T('set', self.parse(args[0], scope))
            if nm in ('map', 'unordered_map'):
                return T('map', self.parse(args[0], scope), self.parse(args[1], scope))
            if nm == 'pair':
                return T('pair', self.parse(args[0], scope), self.parse(args[1], scope))
            if nm == 'tuple':
                return T('tuple', *[self.parse(a, scope) for a in args])
            if 'iterator' in nm:
                return T('iter', b)
            if nm == 'initializer_list':
                return T('list', self.parse(args[0], scope))
            if nm == 'function':
                return T('func', b)
            if nm in ('basic_stringstream', 'basic_istringstream'):
                return T('class', 'stringstream')
            if nm == 'stack':
                return T('list', self.parse(args[0], scope))
        if b in ('std::stringstream', 'stringstream', 'std::istringstream', 'istringstream'):
            return T('class', 'stringstream')
        if b in ('string', 'std::string', 'std::__cxx11::string'):
            return STR
        if b in self.prog.typedefs and self.prog.typedefs[b] not in (s, b, 'ginga::' + b):
            return self.parse(self.prog.typedefs[b], scope)
        # enum
        for sc in self._scopes(scope):
            q = sc + b
            if q in self.prog.enums:
                return T('enum', q)
        for sc in self._scopes(scope):
            q = sc + b
            if q in self.prog.records:
                return T('class', q)
        if b in ('_GdkRGBA', 'GdkRGBA', 'Color'):
            return T('class', 'GdkRGBA')
        if b in ('_cairo_rectangle_int', 'GdkRectangle', 'Rect', 'cairo_rectangle_int_t', '_GdkRectangle'):
            return T('class', 'GdkRectangle')
        for sc in self._scopes(scope):
            q = sc + b
            if q in self.prog.typedefs and self.prog.typedefs[q] != s:
                return self.parse(self.prog.typedefs[q], scope)
        # last component enum match (e.g. 'Event::Type' desugared w/o ginga)
        return T('unk', b)

    def _scopes(self, scope):
        out = []
        parts = scope.split('::') if scope else []
        while parts:
            out.append('::'.join(parts) + '::')
            parts.pop()
        out.append('')
        return out

    BUILTIN = {'stringstream': [('text', 'std::string'), ('pos', 'unsigned long')],
               'GdkRGBA': [('red', 'double'), ('green', 'double'), ('blue', 'double'), ('alpha', 'double')],
               'GdkRectangle': [('x', 'int'), ('y', 'int'), ('width', 'int'), ('height', 'int')]}

    def fields(self, cls):
        if cls in self.BUILTIN:
            return [(f, self.parse(t)) for f, t in self.BUILTIN[cls]]
        out = []
        for c in reversed(self.prog.supers(cls)):
            r = self.prog.records.get(c)
            if r is None:
                continue
            out += [(f, self.parse(t, c)) for f, t in r.fields]
        return out

    #: structures that are only used in place (entries of the syntax table)
    BYREF = {'ParserSyntaxElt'}

    def is_pod(self, cls):
        """Value-semantics struct: no methods of its own."""
        if cls in self.BUILTIN:
            return True
        if cls in self.BYREF:
            return False
        r = self.prog.records.get(cls)
        return r is not None and not r.byref and all(m['func'].node.get('isImplicit') for ms in r.methods.values() for m in ms)

    def mangle(self, t):
        return re.sub(r'\W+', '_', repr(t)).strip('_')

    def sort(self, t):
        if t in self.sorts:
            return self.sorts[t]
        s = self._sort(t)
        self.sorts[t] = s
        return s

    def _sort(self, t):
        k = t.k
        if k == 'bool':
            return z3.BoolSort()
        if k in ('int', 'enum', 'ptr', 'func'):
            return z3.IntSort()
        if k == 'dbl':
            return z3.RealSort()
        if k == 'str':
            return self.STR
        if k == 'set':
            return z3.ArraySort(self.sort(t.a[0]), z3.BoolSort())
        nm = self.mangle(t)
        if k == 'list':
            d = z3.Datatype('L_' + nm)
            d.declare('mk', ('len', z3.IntSort()), ('a', z3.ArraySort(z3.IntSort(), self.sort(t.a[0]))))
            return d.create()
        if k == 'map':
            d = z3.Datatype('M_' + nm)
            ks = self.sort(t.a[0])
            d.declare('mk', ('dom', z3.ArraySort(ks, z3.BoolSort())), ('val', z3.ArraySort(ks, self.sort(t.a[1]))))
            return d.create()
        if k in ('pair', 'tuple'):
            d = z3.Datatype('P_' + nm)
            names = ('first', 'second') if k == 'pair' else ['e%d' % i for i in range(len(t.a))]
            d.declare('mk', *[(n, self.sort(x)) for n, x in zip(names, t.a)])
            return d.create()
        if k == 'class':
            if t.a[0] in self.BYREF:
                return z3.IntSort()
            if not self.is_pod(t.a[0]):
                raise Unsupported('by-value class %s' % t.a[0])
            d = z3.Datatype('S_' + nm)
            d.declare('mk', *[(n, self.sort(x)) for n, x in self.fields(t.a[0])])
            return d.create()
        if k == 'unk':
            return z3.DeclareSort('U_' + nm)
        raise Unsupported('sort of %r' % t)

    def comps(self, t):
        """field names of a struct-like type."""
        if t.k == 'pair':
            return [('first', t.a[0]), ('second', t.a[1])]
        if t.k == 'tuple':
            return [('e%d' % i, x) for i, x in enumerate(t.a)]
        if t.k == 'class':
            return self.fields(t.a[0])
        raise Unsupported('components of %r' % t)


class Unsupported(Exception):
    pass
