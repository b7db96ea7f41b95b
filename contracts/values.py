"""Contracts of lib/aux-ginga.cpp (numbers, percentages, times, lists, tables, paths).

Strings are sequences of characters without NUL.  The number a string begins with is a ghost function of the string
(`str_number` real, `str_integer` unbounded integer in a base), with its length; the C library functions are specified
over it as documented.  Doubles are treated as reals."""
from .common import *
from cdv.lib import suffix, lower

R = z3.RealSort()
REALS = 'double-precision arithmetic is treated as exact'


class Str:
    """ghost functions of strings"""

    def __init__(self, k):
        self.k, self.e = k, k.eng
        self.e.st = (k.new or k.old).st

    def num(self, s, o=0):
        return self.e.strop('number', s, z3.simplify(Iv(0) + o), ret=R)

    def numlen(self, s, o=0):
        o = z3.simplify(Iv(0) + o)
        n = self.e.strop('number_length', s, o, ret=I)
        self.e.st.assume(z3.And(n >= 0, n <= z3.If(self.len(s) >= o, self.len(s) - o, 0), z3.Implies(self.is_(s, o, '%'), n == 0)), fact=True)
        return n

    def int(self, s, base):
        return self.e.strop('integer', s, Iv(0), base, ret=I)

    def intlen(self, s, base):
        return self.e.strop('integer_length', s, Iv(0), base, ret=I)

    def len(self, s):
        return self.e.slen(s)

    def at(self, s, i):
        return self.e.char_at(self.e.st, s, i)

    def is_(self, s, i, c):
        return self.at(s, i) == ord(c)

    def suf(self, s, i):
        return suffix(self.e, s, i)

    def strip(self, s):
        return self.e.strop('chomp', self.e.strop('chug', s))

    def chomp(self, s):
        return self.e.strop('chomp', s)


def clamp(x, lo, hi):
    return z3.If(x > hi, hi, z3.If(x < lo, lo, x))


# ---------------------------------------------------------------- V01
def text_to(fn, signed):
    @contract('V01', fn, strings=True, abort=no_abort())
    def c(k):
        g = Str(k)
        s, base = k.arg(0), k.arg(2)
        x, ok = g.int(s, base), g.intlen(s, base) > 0
        lim = (-2**63, 2**63 - 1) if signed else (0, 2**64 - 1)
        nn = z3.Not(k.isnull(1))
        return [('accepted exactly when it begins with a number', k.ret == ok),
                ('the number it denotes, or the nearest of that width', z3.Implies(z3.And(ok, nn), k.out(1) == clamp(x, Iv(lim[0]), Iv(lim[1])))),
                ('rejected leaves the output untouched', z3.Implies(z3.And(z3.Not(ok), nn), untouched(k, 1)))]
    return c


text_to('_xstrtoll', True)
text_to('_xstrtoull', False)


@contract('V01', '_xstrtod', strings=True, abort=no_abort())
def text_to_double(k):
    g = Str(k)
    s = k.arg(0)
    ok, nn = g.numlen(s) > 0, z3.Not(k.isnull(1))
    return [('accepted exactly when it begins with a number', k.ret == ok),
            ('the number it denotes', z3.Implies(z3.And(ok, nn), k.out(1) == g.num(s))),
            ('rejected leaves the output untouched', z3.Implies(z3.And(z3.Not(ok), nn), untouched(k, 1)))]


@contract('V01', 'xstrtod', strings=True, abort=lambda k, why: [('only a string that does not begin with a number is given up on', Str(k).numlen(k.arg(0)) == 0)])
def asserted_double(k):
    g = Str(k)
    return [('a string that does not begin with a number is rejected', g.numlen(k.arg(0)) > 0), ('the number it denotes', k.ret == g.num(k.arg(0)))]


def asserted(fn, lo, hi):
    @contract('V01', fn, strings=True, abort=lambda k, why: [('only a string that does not begin with a number is given up on', Str(k).intlen(k.arg(0), k.arg(1)) == 0)])
    def c(k):
        g = Str(k)
        s, base = k.arg(0), k.arg(1)
        return [('a string that does not begin with a number is rejected', g.intlen(s, base) > 0),
                ('the number it denotes, or the nearest of that width', k.ret == clamp(g.int(s, base), Iv(lo), Iv(hi)))]
    return c


for w, n in (('', 32), ('8', 8), ('64', 64)):
    asserted('xstrtoint' + w, -2**(n - 1), 2**(n - 1) - 1)
    asserted('xstrtouint' + w, 0, 2**n - 1)


# ---------------------------------------------------------------- V02
def is_percent(g, s):
    return z3.And(g.numlen(s) > 0, g.is_(s, g.numlen(s), '%'))


@contract('V02', 'xstrispercent', strings=True, abort=no_abort())
def ispercent(k):
    g = Str(k)
    return [("a percent value has '%' right after its leading number", k.ret == is_percent(g, k.arg(0)))]


def percent_val(g, s):
    return z3.If(is_percent(g, s), g.num(s) / 100, g.num(s))


@contract('V02', 'xstrtodorpercent', strings=True, abort=no_abort(), assumes=[REALS])
def todorpercent(k):
    g = Str(k)
    s = k.arg(0)
    return [("a percent value has '%' right after its leading number", z3.Implies(z3.Not(k.isnull(1)), k.out(1) == is_percent(g, s))),
            ('a percent value denotes its number divided by one hundred, another its number', k.ret == percent_val(g, s))]


def rnd(x):
    """nearest integer, halves away from zero"""
    return z3.If(x >= 0, z3.ToInt(x + z3.RealVal('1/2')), -z3.ToInt(-x + z3.RealVal('1/2')))


def pct(g, s, base, lo, hi):
    v = z3.If(is_percent(g, s), percent_val(g, s) * z3.ToReal(base), percent_val(g, s))
    return clamp(rnd(v), lo, hi)


@contract('V02', 'parse_percent', strings=True, pre=lambda k: k.assume(k.arg(2) <= k.arg(3)), abort=no_abort(),
          assumes=[REALS, 'the minimum is not above the maximum; the string does not denote a NaN'])
def parsepercent(k):
    g = Str(k)
    return [('rounded and limited', k.ret == pct(g, *[k.arg(i) for i in range(4)]))]


@contract('V02', 'parse_pixel', strings=True, abort=no_abort(), assumes=[REALS])
def parsepixel(k):
    return [('relative to 255, between 0 and 255', k.ret == pct(Str(k), k.arg(0), Iv(255), Iv(0), Iv(255)))]


# ---------------------------------------------------------------- V03
def time_form(g, s):
    t = g.chomp(s)
    a, i = g.num(t), g.numlen(t)
    secs = z3.Or(i == g.len(t), z3.And(i + 1 == g.len(t), g.is_(t, i, 's')))
    b, j = g.num(t, i + 1), i + 1 + g.numlen(t, i + 1)
    c, l = g.num(t, j + 1), j + 1 + g.numlen(t, j + 1)
    hms = z3.And(z3.Not(secs), g.is_(t, i, ':'), g.is_(t, j, ':'), l == g.len(t))
    return z3.Or(secs, hms), z3.If(secs, a, 3600 * a + 60 * b + c)


TIMES = ['the duration denoted is representable: not negative and below 2**64 ns', REALS]


def time_pre(k):
    g = Str(k)
    ok, secs = time_form(g, k.arg(0))
    k.assume(z3.Implies(ok, z3.And(secs >= 0, secs * 10**9 < 2**64)))


@contract('V03', 'try_parse_time', strings=True, pre=time_pre, abort=no_abort(), assumes=TIMES)
def parsetime(k):
    g = Str(k)
    ok, secs = time_form(g, k.arg(0))
    nn = z3.Not(k.isnull(1))
    return [("accepted exactly when of the form 'N', 'Ns' or 'H:M:S'", k.ret == ok),
            ('the duration denoted, in nanoseconds', z3.Implies(z3.And(ok, nn), k.out(1) == z3.ToInt(secs * 10**9))),
            ('rejected leaves the output untouched', z3.Implies(z3.And(z3.Not(ok), nn), untouched(k, 1)))]


@contract('V03', 'parse_time', strings=True, pre=time_pre, assumes=TIMES,
          abort=lambda k, why: [('only an invalid string is given up on', z3.Not(time_form(Str(k), k.arg(0))[0]))])
def parsetime2(k):
    ok, secs = time_form(Str(k), k.arg(0))
    return [('an invalid string is rejected', ok), ('the duration denoted, in nanoseconds', k.ret == z3.ToInt(secs * 10**9))]


# ---------------------------------------------------------------- V04
def bool_form(k, s):
    e = k.eng
    l = lower(e, s)
    return l == e.lit('true'), l == e.lit('false')


@contract('V04', 'try_parse_bool', strings=True, abort=no_abort())
def parsebool(k):
    Str(k)
    t, f = bool_form(k, k.arg(0))
    nn = z3.Not(k.isnull(1))
    return [("accepted exactly when 'true' or 'false' in any case", k.ret == z3.Or(t, f)),
            ('the value it names', z3.Implies(z3.And(k.ret, nn), k.out(1) == t)),
            ('rejected leaves the output untouched', z3.Implies(z3.And(z3.Not(k.ret), nn), untouched(k, 1)))]


# ---------------------------------------------------------------- V05
def is_uri(g, s):
    """a scheme of two or more characters"""
    sch = g.e.strop('scheme', s)
    return z3.And(g.e.strop('has_scheme', s, ret=z3.BoolSort()), g.len(sch) >= 2)


@contract('V05', 'xpathisuri', strings=True, abort=no_abort())
def isuri(k):
    g = Str(k)
    return [('a URI has a scheme of two or more characters', k.ret == is_uri(g, k.arg(0)))]


def isabs(g, s):
    return g.e.strop('is_absolute', s, ret=z3.BoolSort())


def makeabs(g, s):
    return z3.If(isabs(g, s), s, g.e.strop('filename', g.e.strop('cwd', Iv(0)), s))


@contract('V05', 'xpathmakeabs', strings=True, abort=no_abort())
def mkabs(k):
    g = Str(k)
    return [('an absolute path is not changed; another is taken in the current directory', k.ret == makeabs(g, k.arg(0)))]


def buildabs(g, a, b):
    return makeabs(g, z3.If(a == g.e.lit('.'), b, g.e.strop('filename', a, b)))


@contract('V05', 'xpathbuildabs', strings=True, abort=no_abort())
def bldabs(k):
    g = Str(k)
    return [('the absolute path of the second in the first', k.ret == buildabs(g, k.arg(0), k.arg(1)))]


def file_uri(g, s):
    return g.e.strop('file_uri', s)


@contract('V05', 'xurifromsrc', strings=True, abort=lambda k, why: [('only a path that has no URI is given up on', z3.Not(Str(k).e.strop(
    'has_file_uri', z3.If(isabs(Str(k), k.arg(0)), k.arg(0), buildabs(Str(k), k.arg(1), k.arg(0))), ret=z3.BoolSort())))])
def urifromsrc(k):
    g = Str(k)
    src, base = k.arg(0), k.arg(1)
    p = z3.If(isabs(g, src), src, buildabs(g, base, src))
    return [('a source that is a URI is used as it is', z3.Implies(is_uri(g, src), k.ret == src)),
            ('another becomes the file URI of its absolute path', z3.Implies(z3.Not(is_uri(g, src)), k.ret == file_uri(g, p)))]


class Pieces:
    """ghost: the pieces of s between separators, by the position each starts at"""

    def __init__(self, k, s, sep):
        g = Str(k)
        self.k, self.s, self.e = k, s, k.eng
        self.sep = z3.StrFromCode(sep) if k.eng.types.strings else k.eng.strop('of_char', sep)
        self.start = lambda i: self.e.strop('piece_start', s, self.sep, i, ret=I)
        self.step = lambda i: self.e.strop('piece', s, self.sep, i, ret=z3.BoolSort())
        self.len = g.len(s)

    def end(self, i):
        q = z3.IndexOf(self.s, self.sep, self.start(i))
        return z3.If(q < 0, self.len, q)

    def text(self, i):
        return self.e.strop('piece_text', self.s, self.sep, i)

    def axioms(self):
        i = z3.Int('i!p')
        return [self.start(Iv(0)) == 0, z3.ForAll([i], z3.Implies(i >= 0, z3.And(self.step(i), z3.Implies(
            self.start(i) < self.len, z3.And(self.start(i + 1) == z3.If(self.end(i) < self.len, self.end(i) + 1, self.len),
                                             self.text(i) == z3.SubString(self.s, self.start(i), self.end(i) - self.start(i)))))), patterns=[self.step(i)])]


def split_pre(k):
    k.assume(z3.And(k.arg(1) > 0, k.arg(1) < 128))
    P = k.vars['pieces'] = Pieces(k, k.arg(0), k.arg(1))
    for a in P.axioms():
        k.assume(a)


def split_hints(k):
    def h(loop, head, cursor):
        P = k.vars['pieces']
        out = []
        LS = k.eng.types.sort(T('list', STR))
        lists = [l for l in loop.locs if getattr(l.head, 'sort', None) and l.head.sort() == LS]
        SS = k.eng.types.sort(T('class', 'stringstream'))
        j = z3.Int('j!s')
        for l in lists:
            n, a = LS.accessor(0, 0)(l.head), LS.accessor(0, 1)(l.head)
            out.append(('pieces so far', z3.And(n >= 0, P.step(n), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
                P.start(j) < P.len, a[j] == P.text(j))), patterns=[a[j], P.start(j), P.text(j)]))))
            for m in loop.locs:
                if getattr(m.head, 'sort', None) is None:
                    continue
                if m.head.sort() == SS:
                    out.append(('at the next piece', z3.And(SS.accessor(0, 0)(m.head) == P.s, SS.accessor(0, 1)(m.head) == P.start(n))))
                if m.head.sort() == I:
                    out.append(('at the next piece', m.head == P.start(n)))
        return out
    return [h]


@contract('V04', 'xstrsplit', strings=True, pre=split_pre, hints=split_hints, abort=no_abort())
def split(k):
    P = k.vars['pieces']
    S = k.ret.sort()
    n, a = S.accessor(0, 0)(k.ret), S.accessor(0, 1)(k.ret)
    j = k.sk('j')
    return [('it ends at the last piece', z3.And(n >= 0, P.start(n) >= P.len)),
            ('the pieces, in order', z3.Implies(z3.And(0 <= j, j < n), z3.And(P.start(j) < P.len, a[j] == P.text(j))))]


def counted(k, P):
    """ghost: how many pieces there are"""
    N = z3.Int('pieces')
    j = z3.Int('j!n')
    k.assume(z3.And(N >= 0, P.start(N) >= P.len, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N), P.start(j) < P.len), patterns=[P.start(j)])))
    return N


def list_pre(k):
    split_pre(k)
    k.vars['n'] = counted(k, k.vars['pieces'])
    if len(k.args) > 4:
        L = k.old.local(k.args[4].lv).e
        k.assume(L.sort().accessor(0, 0)(L) == 0)
    k.assume(z3.And(k.arg(2) >= 0, k.arg(3) >= 0))


def list_ok(k):
    n = k.vars['n']
    return z3.And(k.arg(2) <= n, n <= k.arg(3))


def is_items(k, L, j):
    P, g = k.vars['pieces'], Str(k)
    return z3.And(L.sort().accessor(0, 0)(L) == k.vars['n']), \
        z3.Implies(z3.And(0 <= j, j < k.vars['n']), L.sort().accessor(0, 1)(L)[j] == g.strip(P.text(j)))


EMPTY = ['the output list is empty to begin with', 'a final piece that is empty does not count as an item (getline)']


@contract('V04', 'try_parse_list', strings=True, pre=list_pre, hints=split_hints, abort=no_abort(), assumes=EMPTY)
def parselist(k):
    ok, nn = list_ok(k), z3.Not(k.isnull(4))
    n, items = is_items(k, k.out(4), k.sk('j'))
    return [('accepted exactly when the number of items is within the limits', k.ret == ok),
            ('as many items as pieces', z3.Implies(z3.And(ok, nn), n)),
            ('each piece with surrounding blanks removed, in order', z3.Implies(z3.And(ok, nn), items)),
            ('rejected leaves the output untouched', z3.Implies(z3.And(z3.Not(ok), nn), untouched(k, 4)))]


@contract('V04', 'parse_list', strings=True, pre=list_pre, hints=split_hints, assumes=EMPTY[1:],
          abort=lambda k, why: [('only a list with a number of items outside the limits is given up on', z3.Not(list_ok(k)))])
def parselist2(k):
    n, items = is_items(k, k.ret, k.sk('j'))
    return [('the number of items is within the limits', list_ok(k)), ('as many items as pieces', n),
            ('each piece with surrounding blanks removed, in order', items)]


class Table:
    """ghost: the key/value pairs of a table string"""

    def __init__(self, k, s):
        self.k, self.g = k, Str(k)
        g = self.g
        self.str = g.strip(s)
        L = g.len(self.str)
        self.braces = z3.And(L >= 2, g.is_(self.str, Iv(0), '{'), g.is_(self.str, L - 1, '}'))
        self.inner = z3.SubString(self.str, 1, L - 2)
        self.n = count(k.eng, self.inner, self.sep(','))
        self.MD, self.MV = z3.ArraySort(z3.StringSort(), z3.BoolSort()), z3.ArraySort(z3.StringSort(), z3.StringSort())
        self.step = lambda i: k.eng.strop('pair', self.inner, i, ret=z3.BoolSort())
        self.dom = lambda i: k.eng.strop('table_keys', self.inner, i, ret=self.MD)
        self.val = lambda i: k.eng.strop('table_values', self.inner, i, ret=self.MV)
        self.good = lambda i: k.eng.strop('pair_valid', self.inner, i, ret=z3.BoolSort())

    def sep(self, c):
        return z3.StrFromCode(Iv(ord(c)))

    def piece(self, i):
        return piece_text(self.k.eng, self.inner, self.sep(','), i)

    def axioms(self):
        g, e = self.g, self.k.eng
        i = z3.Int('i!t')
        p = self.piece(i)
        key, v = [g.strip(piece_text(e, p, self.sep('='), Iv(x))) for x in (0, 1)]
        L = z3.Length(v)
        ch = lambda at: z3.StrToCode(z3.SubString(v, at, 1))
        ok = z3.And(count(e, p, self.sep('=')) == 2, L >= 2, ch(0) == ch(L - 1), z3.Or(ch(0) == ord('"'), ch(0) == ord("'")))
        return [self.dom(Iv(0)) == z3.K(z3.StringSort(), z3.BoolVal(False)),
                z3.ForAll([i], z3.And(self.step(i), self.good(i) == ok, self.dom(i + 1) == z3.Store(self.dom(i), key, True),
                                      self.val(i + 1) == z3.Store(self.val(i), key, z3.SubString(v, 1, L - 2))), patterns=[self.step(i)])]

    def valid(self):
        j = z3.Int('j!v')
        return z3.And(self.braces, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), self.good(j)), patterns=[self.good(j)]))


def count(eng, s, sep):
    n = eng.strop('pieces', s, sep, ret=I)
    return n


def piece_text(eng, s, sep, i):
    return eng.strop('piece_text', s, sep, i)


def table_handlers(k):
    LS = lambda e: e.types.sort(T('list', STR))

    def spl(e, f, this, args):
        s, sep = term(e, args[0]), z3.simplify(z3.StrFromCode(term(e, args[1])))
        n = count(e, s, sep)
        L = fresh('pieces', LS(e))
        ln, a = LS(e).accessor(0, 0)(L), LS(e).accessor(0, 1)(L)
        j = z3.Int('j!h')
        e.st.assume(z3.And(n >= 0, ln == n), fact=True)
        e.st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), a[j] == piece_text(e, s, sep, j)), patterns=[a[j]]), fact=True)
        return V(L, T('list', STR))

    def lst(e, f, this, args):
        s, sep, lo, hi = [z3.simplify(term(e, x)) for x in args[:4]]
        sep = z3.simplify(z3.StrFromCode(sep))
        n = count(e, s, sep)
        e.st.assume(n >= 0, fact=True)
        ok = z3.And(lo <= n, n <= hi)
        if not (z3.is_int_value(lo) and lo.eq(hi) and lo.as_long() <= 4):
            raise Unsupported('a list with a number of items that is not fixed')
        p = args[4]
        cur = e.load(p.lv) if isinstance(p, PtrLV) and p.lv is not None else None
        if cur is None or not z3.is_true(z3.simplify(LS(e).accessor(0, 0)(cur.e) == 0)):
            raise Unsupported('items added to a list that is not empty')
        if e.choose(ok):
            a = LS(e).accessor(0, 1)(cur.e)
            for i in range(lo.as_long()):
                a = z3.Store(a, i, e.strop('chomp', e.strop('chug', piece_text(e, s, sep, Iv(i)))))
            e.write(e.st, p.lv, V(LS(e).constructor(0)(lo, a), cur.t))
            return V(z3.BoolVal(True), BOOL)
        return V(z3.BoolVal(False), BOOL)
    return {'xstrsplit': spl, 'try_parse_list': lst}


def table_pre(k):
    t = k.vars['table'] = Table(k, k.arg(0))
    for a in t.axioms():
        k.assume(a)


def table_hints(k):
    def h(loop, head, cursor):
        t = k.vars['table']
        out = []
        c = cursor.head
        MS = k.eng.types.sort(T('map', STR, STR))
        j, x = z3.Int('j!w'), z3.Const('x!w', z3.StringSort())
        out.append(('valid so far', z3.And(t.step(c), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c), t.good(j)), patterns=[t.good(j)]))))
        for l in loop.locs:
            if getattr(l.head, 'sort', None) and l.head.sort() == MS:
                d, v = MS.accessor(0, 0)(l.head), MS.accessor(0, 1)(l.head)
                out.append(('the pairs so far', z3.And(d == t.dom(c), z3.ForAll([x], z3.Implies(t.dom(c)[x], v[x] == t.val(c)[x]), patterns=[v[x], t.val(c)[x]]))))
        return out
    return [h]


def is_table(k, m):
    t = k.vars['table']
    d, v = m.sort().accessor(0, 0)(m), m.sort().accessor(0, 1)(m)
    x = k.sk('key', z3.StringSort())
    return d == t.dom(t.n), z3.Implies(t.dom(t.n)[x], v[x] == t.val(t.n)[x])


SPLIT = ['splitting at a separator is specified by the contracts of xstrsplit and try_parse_list']


@contract('V04', 'try_parse_table', strings=True, pre=table_pre, hints=table_hints, handlers=table_handlers, abort=no_abort(), assumes=SPLIT)
def parsetable(k):
    t = k.vars['table']
    ok, nn = t.valid(), z3.Not(k.isnull(1))
    d, v = is_table(k, k.out(1))
    return [('a table string is accepted', z3.Implies(ok, k.ret)), ('any other string is rejected', z3.Implies(k.ret, ok)),
            ('the keys are those of its pairs', z3.Implies(z3.And(k.ret, nn), d)),
            ('with the values of its pairs, later ones prevailing', z3.Implies(z3.And(k.ret, nn), v)),
            ('rejected leaves the output untouched', z3.Implies(z3.And(z3.Not(k.ret), nn), untouched(k, 1)))]


@contract('V04', 'parse_table', strings=True, pre=table_pre, hints=table_hints, handlers=table_handlers, assumes=SPLIT,
          abort=lambda k, why: [('only a string that is not a table is given up on', z3.Not(k.vars['table'].valid()))])
def parsetable2(k):
    d, v = is_table(k, k.ret)
    return [('only a table string is accepted', k.vars['table'].valid()), ('the keys are those of its pairs', d),
            ('with the values of its pairs, later ones prevailing', v)]


@contract('V04', 'parse_bool', strings=True, abort=lambda k, why: [('only another word is given up on', z3.Not(z3.Or(*bool_form(k, k.arg(0)))))])
def parsebool2(k):
    Str(k)
    t, f = bool_form(k, k.arg(0))
    return [('another word is rejected', z3.Or(t, f)), ('the value it names', k.ret == t)]


@contract('V04', 'xstrstrip', strings=True, abort=no_abort())
def stripped(k):
    g = Str(k)
    return [('without the blanks around it', k.ret == g.strip(k.arg(0)))]
