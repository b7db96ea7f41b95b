"""Contract of Formatter::redraw (lib/Formatter.cpp)"""
from cdv.engine import prove_many
from cdv.exec import AbortPath
from .common import *
from .formatters import B, OWN, fst, g_pre, zpair, sleeping, ignored, FORMATTER_NOTE, doc_of
from .players import extern

LIST_NOTE = 'GLib lists (g_list_insert_sorted, g_list_delete_link) behave as documented; a list is used only through the pointer last returned for it'


INNER = 'removal of an inner element of a list'


def no_abort_but(k, why):
    if why == INNER:
        if prove_many(k.new.st.pc, [z3.BoolVal(False)])[0]:
            return [('only first elements are removed', z3.BoolVal(True))]
        raise Unsupported(INNER)
    return no_abort()(k, why)


def glist():
    return z3.Function('glist_len', I, I), z3.Function('glist_at', I, I, I), z3.Function('glist_node', I, I, I)


def insert_sorted(k):
    def h(eng, name, vals, node):
        l, d, fn = term(eng, vals[0]), term(eng, vals[1]), eng.load(vals[2])
        if getattr(fn, 'name', None) != 'zcmp':
            raise Unsupported('comparison function %s' % fn)
        n, at, nd = glist()
        old = eng.st.hwm
        r, p, hw = fresh('glist', I), fresh('gpos', I), fresh('hwm', I)
        i = z3.Int('i!gl')
        z, zo = zpair(k)
        above = lambda x, y: z3.Or(z(x) > z(y), z3.And(z(x) == z(y), zo(x) > zo(y)))
        N = z3.If(l == 0, 0, n(l))
        eng.st.assume(z3.And(
            r >= old, hw > r, n(r) == N + 1, N >= 0, 0 <= p, p <= N, nd(r, 0) == r, at(r, p) == d,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p), z3.And(at(r, i) == at(l, i), above(d, at(l, i)))), patterns=[at(r, i)]),
            z3.ForAll([i], z3.Implies(z3.And(p < i, i <= N), at(r, i) == at(l, i - 1)), patterns=[at(r, i)]),
            z3.Implies(p < N, z3.Not(above(d, at(l, p)))),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= N), z3.And(
                nd(r, i) >= old, nd(r, i) < hw, eng.sel(eng.st, 'GList::data', nd(r, i)) == at(r, i),
                eng.sel(eng.st, 'GList::next', nd(r, i)) == z3.If(i == N, 0, nd(r, i + 1)))), patterns=[nd(r, i)])), fact=True)
        eng.st.hwm = hw
        return V(r, T('ptr', T('class', 'GList')))
    return h


def delete_link(k):
    def h(eng, name, vals, node):
        l, x = term(eng, vals[0]), term(eng, vals[1])
        if eng.choose(l == x):
            return V(eng.sel(eng.st, 'GList::next', l), T('ptr', T('class', 'GList')))
        raise AbortPath(INNER)
    return h


def ext(k):
    fs = {'g_list_insert_sorted': insert_sorted(k), 'g_list_delete_link': delete_link(k)}

    def h(eng, name, vals, node):
        if name in fs:
            return fs[name](eng, name, vals, node)
        if name in ('beginDraw', 'clear_scene', 'draw_quad'):
            return VOIDV
        return extern(eng, name, vals, node)
    return h


def redraw_handlers(k):
    h = dict(sleeping(k))
    h['(extern)'] = ext(k)
    h['PlayerText::renderSurface'] = lambda eng, f, this, args: V(fresh('surface', I), T('ptr', T('unk', 'cairo_surface_t')))
    h['Media::redraw'] = recorded('draw', lambda e, t, a: dict(o=t), writes=['Media::redraw'], keep=OWN)
    return h


def list_hints(k):
    """the list holds the media seen so far, in order; afterwards its elements are drawn one after the other"""
    def h(loop, head, cursor):
        n, at, nd = glist()
        eng = k.eng
        ls = [l for l in loop.locs if l.kind == 'v' and l.t is not None and repr(l.t) == repr(T('ptr', T('class', 'GList'))) and l.init is not None]
        tr = [l for l in loop.locs if l.kind == 'trace']
        i, j = z3.Int('i!gl'), z3.Int('j!gl')
        z, zo = zpair(k)
        le = lambda x, y: z3.Or(z(x) < z(y), z3.And(z(x) == z(y), zo(x) <= zo(y)))
        S = k.old.f('Document::_medias', doc_of(k))
        _, _, pos, _ = eng.enumth.get(eng, S.sort().domain())
        out = []
        for l in ls:
            L = l.head
            if cursor is not None:
                c = cursor.head
                out += [('the list has as many elements', z3.And((L == 0) == (c == 0), L >= 0, z3.Implies(L != 0, z3.And(n(L) == c, nd(L, 0) == L)))),
                        ('its elements are linked', z3.ForAll([i], z3.Implies(z3.And(L != 0, 0 <= i, i < n(L)), z3.And(
                            nd(L, i) > 0, eng.sel(head, 'GList::data', nd(L, i)) == at(L, i),
                            eng.sel(head, 'GList::next', nd(L, i)) == z3.If(i + 1 == n(L), 0, nd(L, i + 1)))), patterns=[nd(L, i)])),
                        ('its elements are media seen', z3.ForAll([i], z3.Implies(z3.And(L != 0, 0 <= i, i < n(L)), z3.And(
                            S[at(L, i)], pos(S, at(L, i)) < c)), patterns=[at(L, i)])),
                        ('its elements are different and in order', z3.ForAll([i, j], z3.Implies(z3.And(L != 0, 0 <= i, i < j, j < n(L)), z3.And(
                            at(L, i) != at(L, j), le(at(L, i), at(L, j)))), patterns=[z3.MultiPattern(at(L, i), at(L, j))]))]
            elif tr:
                Z, TR = l.init, eng.Trace
                c = TR.len(tr[0].head) - TR.len(tr[0].init)
                q = TR.a(tr[0].head)[j]
                out += [('as many are left', z3.And(c >= 0, L == z3.If(Z == 0, 0, z3.If(c < n(Z), nd(Z, c), 0)), c <= z3.If(Z == 0, 0, n(Z)))),
                        ('the first ones are drawn', z3.ForAll([j], z3.Implies(z3.And(TR.len(tr[0].init) <= j, j < TR.len(tr[0].head)), z3.And(
                            cget(k, q, 'fn') == k.fn('draw'), cget(k, q, 'o') == at(Z, j - TR.len(tr[0].init)))), patterns=[q]))]
        return out
    return [h]


def redraw_pre(k):
    g_pre(k)


@contract('R03', 'Formatter::redraw', strings=False, pre=redraw_pre, handlers=redraw_handlers, hints=list_hints, abort=no_abort_but, assumes=[FORMATTER_NOTE, LIST_NOTE])
def draws(k):
    h, o, t = Hist(k), k.old, k.this
    running = o.f('Formatter::_state', t) == fst(k, 'PLAYING')
    S = o.f('Document::_medias', doc_of(k))
    p, q, m = k.sk('p'), k.sk('q'), k.sk('media')
    z, zo = zpair(k)
    at = lambda i: h.get(i, 'o')
    inr = lambda i: z3.And(0 <= i, i < h.len)
    return [('nothing is drawn when stopped', z3.Implies(z3.Not(running), h.len == 0)),
            ('every media of the document is drawn once', z3.Implies(running, h.len == k.eng.enumth.len(k.eng, S))),
            ('only media of the document are drawn', z3.Implies(z3.And(running, inr(p)), z3.And(h.is_(p, 'draw'), S[at(p)]))),
            ('none is drawn twice', z3.Implies(z3.And(running, inr(p), inr(q), p != q), at(p) != at(q))),
            ('a higher one is drawn later', z3.Implies(z3.And(running, inr(p), inr(q), p < q), z3.Or(
                z(at(p)) < z(at(q)), z3.And(z(at(p)) == z(at(q)), zo(at(p)) <= zo(at(q))))))]
