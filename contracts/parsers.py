"""Contracts of lib/Parser.cpp"""
from .common import *
from cdv.contract import table as constant_table

B = z3.BoolSort()


# ---------------------------------------------------------------- X02
def is_ref(s):
    return z3.And(z3.Length(s) > 0, z3.SubString(s, 0, 1) == z3.StringVal('$'))


def name_of(s):
    return z3.SubString(s, 1, z3.Length(s) - 1)


def table(k, i):
    v = k.args[i]
    m = k.old.local(v.lv if isinstance(v, PtrLV) else v).e
    return m.sort().accessor(0, 0)(m), m.sort().accessor(0, 1)(m)


def tables_given(k):
    for i in (1, 2, 3):
        if isinstance(k.args[i], PtrLV):
            k.assume(z3.Not(k.args[i].null))


@contract('X02', 'ParserState::resolveParameter', strings=True, pre=tables_given, abort=no_abort())
def resolve(k):
    ref = k.arg(0)
    (bd, bv), (ld, lv), (gd, gv) = [table(k, i) for i in (1, 2, 3)]
    n = name_of(ref)
    found = z3.Or(bd[n], ld[n])
    val = z3.If(bd[n], bv[n], lv[n])
    g = name_of(val)
    return [('a value that is not a reference is used literally', z3.Implies(z3.Not(is_ref(ref)), k.ret == ref)),
            ('an unknown parameter has the empty value', z3.Implies(z3.And(is_ref(ref), z3.Not(found)), k.ret == z3.StringVal(''))),
            ('the parameter of the bind comes first, then that of the link', z3.Implies(z3.And(is_ref(ref), found, z3.Not(is_ref(val))), k.ret == val)),
            ('a value naming an object of the condition stands for that object', z3.Implies(
                z3.And(is_ref(ref), found, is_ref(val)), k.ret == z3.If(gd[g], gv[g], val)))] + unchanged(k)


# ---------------------------------------------------------------- X03
REGION_NOTE = 'percentages and formatted numbers denote what V02 and xstrbuild say'


def formatted(k):
    def h(eng, f, this, args):
        vs = [eng.load(a) for a in args]
        fmt = term(eng, vs[0])
        rest = [v.e for v in vs[1:]]
        eng.st.assume(z3.BoolVal(True))
        return V(ghost(eng, 'text', *([eng.types.STR] + [x.sort() for x in rest] + [eng.types.STR]))(fmt, *rest), STR)
    return h


def region_handlers(k):
    from .animations import percent

    def pct(eng, f, this, args):
        a = [term(eng, x) for x in args]
        r = percent(eng, *a)
        eng.st.assume(z3.And(a[2] <= r, r <= a[3]), fact=True)
        return V(r, I32)
    return {'parse_percent': pct, 'xstrbuild': formatted(k)}


def rects(k, v, o):
    l = v.f('ParserState::_rectStack', o)
    return l.sort().accessor(0, 0)(l), l.sort().accessor(0, 1)(l)


def region_pre(k):
    n, a = rects(k, k.old, k.arg(0))
    R = lambda i, f: pod(k, a[i], 'Rect', f)
    k.assume(n >= 1)
    k.assume(z3.And(R(0, 'width') > 0, R(0, 'height') > 0))
    k.assume(k.arg(0) > 0)
    k.assume(k.arg(1) > 0)
    k.assume(k.old.f('_xmlNode::parent', k.old.f('ParserElt::_node', k.arg(1))) > 0)


def attr(k, v, o, name):
    d, m = v.mapdom('ParserElt::_attrs', o), v.mapval('ParserElt::_attrs', o)
    s = k.lit(name)
    return d[s], m[s]


def shown(k, fmt, x):
    return ghost(k.eng, 'text', k.eng.types.STR, x.sort(), k.eng.types.STR)(k.lit(fmt), x)


def before(k, key):
    return k.old.st.heap.get(key, k.eng.h0.get(key))


def grows(k, key):
    return z3.is_true(z3.simplify(k.new.st.heap[key] > before(k, key)))


@contract('X03', 'ParserState::pushRegion', pre=region_pre, handlers=region_handlers, abort=no_abort(), assumes=[REGION_NOTE])
def region(k):
    from .animations import percent
    st, elt = k.arg(0), k.arg(1)
    n0, a0 = rects(k, k.old, st)
    n1, a1 = rects(k, k.new, st)
    up, scr, r = a0[n0 - 1], a0[0], a1[n0]
    F = lambda e, f: pod(k, e, 'Rect', f)
    A = lambda name: attr(k, k.old, elt, name)
    pc = lambda name, base: percent(k.eng, A(name)[1], base, Iv(0), Iv(2 ** 31 - 1))
    out = [('it is accepted', k.ret),
           ('it is laid out inside the enclosing region', z3.And(n1 == n0 + 1, z3.ForAll([z3.Int('i!r')], z3.Implies(
               z3.And(0 <= z3.Int('i!r'), z3.Int('i!r') < n0), a1[z3.Int('i!r')] == a0[z3.Int('i!r')]), patterns=[a1[z3.Int('i!r')]])))]
    for pos, opp, size, xy in (('left', 'right', 'width', 'x'), ('top', 'bottom', 'height', 'y')):
        W = F(up, size)
        out += [('its %s is that given, else that of the enclosing region' % size, F(r, size) == z3.If(A(size)[0], pc(size, W), W)),
                ('its %s offset is taken from that of the enclosing region' % pos, z3.Implies(z3.Not(A(opp)[0]), F(r, xy) == F(up, xy) + z3.If(A(pos)[0], pc(pos, W), 0))),
                ('its %s offset is taken from the opposite edge of the enclosing region' % opp, z3.Implies(z3.And(A(opp)[0], z3.Not(A(pos)[0])), F(r, xy) == F(
                    up, xy) + W - F(r, size) - pc(opp, W)))]
        for name, f in ((pos, xy), (size, size)):
            d, v = attr(k, k.new, elt, name)
            out.append(('its %s is given relative to the screen' % name, z3.And(d, v == shown(k, '%g%%', (z3.ToReal(F(r, f)) / z3.ToReal(F(scr, size))) * 100))))
        d, v = attr(k, k.new, elt, opp)
        dist = F(scr, size) - F(r, xy) - F(r, size)
        out.append(('a %s distance that is given is restated relative to the screen' % opp, z3.And(d == A(opp)[0], z3.Implies(d, v == shown(
            k, '%g%%', (z3.ToReal(dist) / z3.ToReal(F(scr, size))) * 100)))))
    d, v = attr(k, k.new, elt, 'zOrder')
    z = z3.Or([v == shown(k, '%d', before(k, key)) for key in k.new.st.heap if isinstance(key, tuple) and key[0] == 'glob'
               and k.new.st.heap[key].sort() == I and before(k, key) is not None and grows(k, key)])
    return out + [('a region declared later is above', z3.And(d, z))]


@contract('X03', 'ParserState::popRegion', pre=region_pre, abort=no_abort())
def popregion(k):
    st = k.arg(0)
    n0, a0 = rects(k, k.old, st)
    n1, a1 = rects(k, k.new, st)
    i = k.sk('level')
    return [('it is accepted', k.ret),
            ('the enclosing region is current again', z3.And(n1 == n0 - 1, z3.Implies(z3.And(0 <= i, i < n1), a1[i] == a0[i])))] + unchanged(
                k, only={'ParserState::_rectStack': lambda x: x == st})


# ---------------------------------------------------------------- X05
XML_NOTE = 'the XML library builds a tree whose nodes belong to the document they are read from'
ERR = 'errElt errEltUnknown errEltMissingParent errEltBadParent errEltUnknownAttribute errEltMissingAttribute errEltBadAttribute ' \
    'errEltMutuallyExclAttributes errEltUnknownChild errEltMissingChild errEltBadChild errEltImport'.split()
ERRKEYS = ('ParserState::_error', 'ParserState::_errorMsg')


def failing(eng, st):
    """an error with a message is pending"""
    return eng.sel(eng.st, ERRKEYS[0], st) != 0


def xmlfn(k):
    def h(eng, name, vals, node):
        if not name.startswith(('xml', 'g_', 'Fc')):
            raise Unsupported('library function %s' % name)
        t = eng.T(node)
        if t.k == 'void':
            return VOIDV
        if t.k in ('unk', 'enum'):
            t = I32
        if t.k == 'ptr' and t.a[0].k == 'int':
            return CStr(fresh(name, eng.types.STR), null=fresh(name + '_null', B) if name in ('xmlGetProp', 'g_uri_parse_scheme') else None)
        v = fresh(name, eng.types.sort(t))
        eng.type_facts(eng.st, v, t)
        return V(v, t)
    return h


def set_error(eng, o):
    for key in ERRKEYS:
        eng.st.heap[key] = z3.Store(eng.hget(eng.st, key), o, fresh('err', eng.heap_sort(key).range()))
    e, m = [eng.sel(eng.st, key, o) for key in ERRKEYS]
    eng.st.assume(z3.And(e > 0, e <= 11, m != eng.lit('')), fact=True)


def err_handlers(k, names=ERR):
    def h(eng, f, this, args):
        set_error(eng, this)
        return V(z3.BoolVal(False), BOOL)
    return {'ParserState::' + n: h for n in names}


def err_post(k):
    e0, e1 = [v.f(ERRKEYS[0], k.this) for v in (k.old, k.new)]
    return [('it reports a failure', z3.Not(k.ret)), ('an error is recorded', e1 != k.enum('ParserState::ERROR_NONE')),
            ('it has a message', k.new.f(ERRKEYS[1], k.this) != k.lit(''))] + unchanged(
                k, only={x: lambda o: o == k.this for x in ERRKEYS})


def err_pre(k):
    k.assume(k.arg(0) > 0)
    k.assume(k.old.f('_xmlNode::parent', k.arg(0)) > 0)
    k.assume(k.old.f('_xmlNode::doc', k.arg(0)) > 0)


def xmlfree(eng, fn, args, n):
    if isinstance(fn, V) and str(fn.e) == 'G0_xmlFree':
        return VOIDV
    raise Unsupported('indirect call %r' % getattr(fn, 'data', fn))


def elt_handlers(k):
    def built(eng, f, this, args):
        fmt = term(eng, args[0])
        r = fresh('text', eng.types.STR)
        eng.st.assume(z3.Implies(z3.And(z3.Length(fmt) > 0, z3.SubString(fmt, 0, 1) != z3.StringVal('%')), z3.Length(r) > 0), fact=True)
        return V(r, STR)
    return {'(extern)': xmlfn(k), 'xstrbuild': built, '(indirect)': xmlfree}


@contract('X05', 'ParserState::errElt', strings=True, pre=lambda k: (err_pre(k), k.assume(k.arg(1) != 0)), handlers=elt_handlers, abort=no_abort(), assumes=[XML_NOTE])
def errelt(k):
    return err_post(k) + [('the error is that given', k.new.f(ERRKEYS[0], k.this) == k.arg(1))]


def other_err(name):
    def pre(k):
        err_pre(k)
        if name == 'errEltMissingChild':
            v = k.args[1]
            l = k.old.local(v.lv if isinstance(v, (PtrLV, Ref)) else v).e
            k.assume(l.sort().accessor(0, 0)(l) >= 1)

    @contract('X05', 'ParserState::' + name, pre=pre, handlers=lambda k: err_handlers(k, ['errElt']), abort=no_abort())
    def post(k):
        return err_post(k)


for _n in ERR[1:]:
    other_err(_n)


@contract('X05', 'ParserState::getError', abort=no_abort())
def geterror(k):
    return [('the recorded error is returned', k.ret == k.old.f(ERRKEYS[0], k.this)),
            ('with its message', z3.Implies(z3.Not(k.isnull(0)), k.out(0) == k.old.f(ERRKEYS[1], k.this)))] + unchanged(k)


STATE_NOTE = 'each node of the tree is processed once; the functions of the syntax table follow the contract stated for them (X05)'


def state_keys(eng):
    return [key for key in eng.all_keys('ParserState')] if hasattr(eng, 'all_keys') else ['ParserState::' + f for f, _ in eng.types.fields('ParserState')]


def havoc_state(eng, o):
    for key in state_keys(eng):
        try:
            s = eng.heap_sort(key)
        except Unsupported:
            continue
        eng.st.heap[key] = fresh('hs', s)


def step(eng, name, ps, **kw):
    """a step of the parser: it succeeds, or fails with an error"""
    r = fresh('ok_' + name, B)
    havoc_state(eng, ps)
    eng.st.assume(z3.Implies(z3.Not(r), z3.And(eng.sel(eng.st, ERRKEYS[0], ps) != 0, eng.sel(eng.st, ERRKEYS[1], ps) != eng.lit(''))), fact=True)
    eng.trace_append(eng.st, eng.mkcall(name, r=r, **kw))
    return V(r, BOOL)


def pn_handlers(k):
    def check(eng, f, this, args):
        r = fresh('syntax', I)
        havoc_state(eng, this)
        eng.st.assume(r >= 0, fact=True)
        eng.st.assume(z3.Implies(r == 0, z3.And(eng.sel(eng.st, ERRKEYS[0], this) != 0, eng.sel(eng.st, ERRKEYS[1], this) != eng.lit(''))), fact=True)
        eng.trace_append(eng.st, eng.mkcall('check', o=this, e=term(eng, args[0]), x=r, r=r != 0))
        for a in args[1:]:
            if isinstance(a, PtrLV):
                v = eng.fresh_value(eng.st, 'found', a.t if hasattr(a, 't') else a.lv.t)
                if v.t.k == 'list':
                    j = z3.Int('j!ch')
                    n, arr = v.e.sort().accessor(0, 0)(v.e), v.e.sort().accessor(0, 1)(v.e)
                    eng.st.assume(z3.And(n >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), arr[j] > 0), patterns=[arr[j]])), fact=True)
                    eng.st.assume(z3.And(CH(eng)[0](r) == n, z3.ForAll([j], CH(eng)[1](r, j) == arr[j], patterns=[arr[j]])), fact=True)
                eng.write(eng.st, a.lv, v)
        return V(r, T('ptr', T('class', 'ParserSyntaxElt')))

    def child(eng, f, this, args):
        return step(eng, 'child', this, o=this, e=term(eng, args[0]))

    def call(eng, fn, args, n):
        return step(eng, 'call', term(eng, args[0]), o=term(eng, args[0]), e=term(eng, args[1]), n=term(eng, fn))

    def yes(eng, f, this, args):
        return V(z3.BoolVal(True), BOOL)

    def cache(eng, f, this, args):
        return V(z3.BoolVal(True), BOOL)
    def gone(eng, v):
        eng.trace_append(eng.st, eng.mkcall('delete', o=term(eng, v)))
    return {'ParserState::checkNode': check, 'ParserState::processNode': child, '(indirect)': call, 'ParserElt::setAttribute': yes,
            'ParserState::eltCacheAdd': cache, 'delete': gone}


def CH(eng):
    return z3.Function('syntax_children', I, I), z3.Function('syntax_child', I, I, I)


def all_succeeded(k):
    def h(loop, head, cursor):
        out = []
        for l in loop.locs:
            if l.kind == 'trace':
                p, TR = z3.Int('p!tr'), k.eng.Trace
                out.append(('every step so far succeeded', z3.And(TR.len(l.head) >= TR.len(l.init), z3.ForAll([p], z3.Implies(z3.And(
                    k.old.tlen <= p, p < TR.len(l.head)), cget(k, TR.a(l.head)[p], 'r') != 0), patterns=[TR.a(l.head)[p]]))))
                out.append(('the check came first', TR.a(l.head)[k.old.tlen] == TR.a(l.init)[k.old.tlen]))
        return out
    return [h]


@contract('X05', 'ParserState::processNode', pre=lambda k: k.assume(k.arg(0) > 0), hints=all_succeeded, handlers=pn_handlers, abort=no_abort(), assumes=[STATE_NOTE])
def processnode(k):
    h = Hist(k)
    syn = h.get(Iv(0), 'x')
    push, pop = k.old.f('ParserSyntaxElt::push', syn), k.old.f('ParserSyntaxElt::pop', syn)
    n, at = CH(k.eng)[0](syn), lambda i: CH(k.eng)[1](syn, i)
    p, q = [z3.If(x != 0, Iv(1), Iv(0)) for x in (push, pop)]
    i = k.sk('step')
    last = z3.If(h.fn(h.len - 1, 'delete'), h.len - 2, h.len - 1)
    isin = z3.And(0 < i, i <= last)
    e = k.new
    return [('the element is checked first', h.is_(Iv(0), 'check', o=k.this, e=k.arg(0))),
            ('an element that fails the check is refused', z3.Implies(syn == 0, z3.And(z3.Not(k.ret), last == 0))),
            ('its start is handled before its children', z3.Implies(z3.And(isin, i <= p), h.is_(i, 'call', o=k.this, n=push))),
            ('its children are processed in document order', z3.Implies(z3.And(isin, p < i, i <= p + n), h.is_(i, 'child', o=k.this, e=at(i - 1 - p)))),
            ('its end is handled after its children', z3.Implies(z3.And(isin, i > p + n), z3.And(i == p + n + 1, h.is_(i, 'call', o=k.this, n=pop)))),
            ('nothing follows a failure', z3.Implies(z3.And(0 <= i, i < last), h.get(i, 'r') != 0)),
            ('it succeeds exactly when every step did', k.ret == z3.And(syn != 0, last == p + n + q, h.get(last, 'r') != 0)),
            ('every step is taken unless one fails', z3.Or(last == p + n + q, h.get(last, 'r') == 0)),
            ('a failure leaves an error', z3.Implies(z3.Not(k.ret), k.new.f(ERRKEYS[0], k.this) != 0)),
            ('with a message', z3.Implies(z3.Not(k.ret), k.new.f(ERRKEYS[1], k.this) != k.lit('')))]


def doc_handlers(k):
    def new(eng, o, args):
        eng.trace_append(eng.st, eng.mkcall('new', o=o.e if hasattr(o, 'e') else o))

    def gone(eng, v):
        eng.trace_append(eng.st, eng.mkcall('delete', o=term(eng, v)))

    def node(eng, f, this, args):
        d = eng.sel(eng.st, 'ParserState::_doc', this)
        r = step(eng, 'child', this, o=this, e=term(eng, args[0]))
        eng.st.assume(eng.sel(eng.st, 'ParserState::_doc', this) == d, fact=True)
        return r

    def ext(eng, name, vals, n):
        v = xmlfn(k)(eng, name, vals, n)
        if name == 'xmlDocGetRootElement':
            r = root_of(eng)(term(eng, vals[0]))
            eng.st.assume(r > 0, fact=True)
            return V(r, v.t)
        return v
    return {'new Document': new, 'delete': gone, 'ParserState::processNode': node, '(extern)': ext}


def root_of(eng):
    return z3.Function('xml_root', I, I)


@contract('X05', 'ParserState::process', pre=lambda k: k.assume(k.arg(0) > 0), handlers=doc_handlers, abort=no_abort(), assumes=[XML_NOTE])
def stprocess(k):
    h = Hist(k)
    d = h.get(Iv(0), 'o')
    ok = h.get(Iv(1), 'r') != 0
    return [('an empty document is created and the root element processed', z3.And(h.len >= 2, h.is_(Iv(0), 'new'), h.is_(Iv(1), 'child', o=k.this, e=root_of(k.eng)(k.arg(0))))),
            ('the document is returned when no error was found', z3.Implies(ok, z3.And(k.ret == d, d > 0, h.len == 2))),
            ('no document is returned otherwise', z3.Implies(z3.Not(ok), k.ret == 0)),
            ('and the one under construction is deleted', z3.Implies(z3.Not(ok), z3.And(h.len == 3, h.is_(Iv(2), 'delete', o=d)))),
            ('the error stays recorded', z3.Implies(z3.Not(ok), z3.And(k.new.f(ERRKEYS[0], k.this) != 0, k.new.f(ERRKEYS[1], k.this) != k.lit(''))))]


@contract('X05', 'ParserState::ParserState', nparams=2, pre=lambda k: k.assume(z3.And(k.arg(0) > 0, k.arg(1) > 0)), abort=no_abort())
def stnew(k):
    return [('no error is recorded', k.new.f(ERRKEYS[0], k.this) == 0)]


def run_handlers(k):
    def run(eng, f, this, args):
        x = term(eng, args[0])
        r = fresh('document', I)
        for key in ERRKEYS:
            eng.st.heap[key] = z3.Store(eng.hget(eng.st, key), this, fresh('err', eng.heap_sort(key).range()))
        e, m = [eng.sel(eng.st, key, this) for key in ERRKEYS]
        eng.st.assume(z3.And(r >= 0, z3.Implies(r == 0, z3.And(e != 0, m != eng.lit('')))), fact=True)
        eng.trace_append(eng.st, eng.mkcall('process', e=x, x=r, s=m))
        return V(r, T('ptr', T('class', 'Document')))
    return {'ParserState::process': run}


def said(k, i, cond):
    """the message is reported when it is asked for"""
    return z3.Implies(z3.And(cond, z3.Not(k.isnull(i))), k.out(i) != k.lit(''))


@contract('X05', 'process', pre=lambda k: k.assume(z3.And(k.arg(0) > 0, k.arg(1) > 0, k.arg(2) > 0)), handlers=run_handlers, abort=no_abort())
def process(k):
    h = Hist(k)
    return [('the tree is processed once', z3.And(h.len == 1, h.is_(Iv(0), 'process', e=k.arg(0)))),
            ('its outcome is the document', k.ret == h.get(Iv(0), 'x')),
            ('a failure is reported', said(k, 3, k.ret == 0))]


def read_handlers(k):
    def ext(eng, name, vals, n):
        if name in ('xmlReadMemory', 'xmlReadFile'):
            v = xmlfn(k)(eng, name, vals, n)
            eng.trace_append(eng.st, eng.mkcall('read', x=v.e))
            return v
        if name == 'xmlFreeDoc':
            eng.trace_append(eng.st, eng.mkcall('free', e=term(eng, vals[0])))
            return VOIDV
        return xmlfn(k)(eng, name, vals, n)

    def proc(eng, f, this, args):
        r = fresh('document', I)
        eng.st.assume(r >= 0, fact=True)
        out = args[3]
        if isinstance(out, PtrLV) and eng.choose(z3.Not(out.null) if out.null is not None else z3.BoolVal(True)):
            m = fresh('message', eng.types.STR)
            eng.st.assume(z3.Implies(r == 0, m != eng.lit('')), fact=True)
            old = eng.read(eng.st, out.lv).e
            eng.write(eng.st, out.lv, V(z3.If(r == 0, m, old), STR))
        eng.trace_append(eng.st, eng.mkcall('process', e=term(eng, args[0]), x=r, n=term(eng, args[1]), m=term(eng, args[2])))
        return V(r, T('ptr', T('class', 'Document')))

    def text(eng, f, this, args):
        r = fresh('text', eng.types.STR)
        eng.st.assume(r != eng.lit(''), fact=True)
        return V(r, STR)

    def path(eng, f, this, args):
        return V(fresh('path', eng.types.STR), STR)
    return {'(extern)': ext, 'process': proc, 'xmlGetLastErrorAsString': text, 'xpathisabs': lambda e, f, t, a: V(fresh('abs', B), BOOL),
            'xpathmakeabs': path, 'xurifromsrc': path}


def parse_post(w, hh, msg):
    def post(k):
        h = Hist(k)
        xml = h.get(Iv(0), 'x')
        doc = h.get(Iv(1), 'x')
        return [('the input is read', z3.And(h.len >= 1, h.is_(Iv(0), 'read'))),
                ('no document is returned when it is not well-formed', z3.Implies(xml == 0, z3.And(k.ret == 0, h.len == 1))),
                ('its tree is processed on a screen of the size given', z3.Implies(xml != 0, z3.And(h.len == 3, h.is_(Iv(1), 'process', e=xml, n=k.arg(w), m=k.arg(hh))))),
                ('the outcome is the document', z3.Implies(xml != 0, k.ret == doc)),
                ('the tree is released', z3.Implies(xml != 0, h.is_(Iv(2), 'free', e=xml))),
                ('a failure is reported', said(k, msg, k.ret == 0))]
    return post


contract('X05', 'Parser::parseBuffer', handlers=read_handlers, abort=no_abort(), assumes=[XML_NOTE])(parse_post(2, 3, 4))
contract('X05', 'Parser::parseFile', handlers=read_handlers, abort=no_abort(), assumes=[XML_NOTE])(parse_post(1, 2, 3))


# ---------------------------------------------------------------- X04
FIND_NOTE = 'looking up objects and events by name changes nothing and follows the contracts D01, D03, O01'


def gfun(eng, name, *sorts):
    return z3.Function('x_' + name, *sorts)


def strs(eng):
    return eng.types.STR


def looked(name, cls, nonneg=True):
    """a pure lookup by name"""
    def h(eng, f, this, args):
        s = term(eng, args[0])
        r = gfun(eng, name, I, strs(eng), I)(this, s)
        eng.st.assume(r >= 0, fact=True)
        return V(r, T('ptr', T('class', cls)))
    h.virtual = True
    return h


def getattr_h(eng, f, this, args):
    s = term(eng, args[0])
    d, v = [gfun(eng, n, I, strs(eng), so) for n, so in (('has_attr', B), ('attr', strs(eng)))]
    ok = eng.choose(d(this, s))
    if ok and isinstance(args[1], PtrLV) and (args[1].null is None or not eng.choose(args[1].null)):
        eng.write(eng.st, args[1].lv, V(v(this, s), STR))
    return eng.B(ok)


def out_ptr(eng, a, e, cls):
    if isinstance(a, PtrLV) and (a.null is None or not eng.choose(a.null)):
        eng.write(eng.st, a.lv, V(e, T('ptr', T('class', cls))))


def x04_handlers(k):
    def alias(eng, f, this, args):
        return V(gfun(eng, 'alias', I, strs(eng), B)(this, term(eng, args[0])), BOOL)

    def refer(eng, f, this, args):
        s = term(eng, args[0])
        r = gfun(eng, 'refer', I, strs(eng), I)(this, s)
        eng.st.assume(r >= 0, fact=True)
        ok = eng.choose(r > 0)
        if ok:
            out_ptr(eng, args[1], r, 'Media')
        return eng.B(ok)

    def component(eng, f, this, args):
        r = gfun(eng, 'component', I, I, I, I)(this, term(eng, args[0]), term(eng, args[1]))
        eng.st.assume(r >= 0, fact=True)
        ok = eng.choose(r > 0)
        if ok:
            eng.st.assume(z3.Or([eng.isa(r, c) if hasattr(eng, 'isa') else k.isa(r, c) for c in ('Media', 'Context', 'Switch')]), fact=True)
            out_ptr(eng, args[2], r, 'Object')
        else:
            set_error(eng, this)
        return eng.B(ok)

    def byid(eng, f, this, args):
        r = gfun(eng, 'port', I, strs(eng), I)(this, term(eng, args[0]))
        eng.st.assume(r >= 0, fact=True)
        ok = eng.choose(r > 0)
        if ok:
            out_ptr(eng, args[1], r, 'ParserElt')
        return eng.B(ok)

    def up(eng, f, this, args):
        r = gfun(eng, 'element', I, I, I)(this, eng.sel(eng.st, '_xmlNode::parent', term(eng, args[0])))
        eng.st.assume(r > 0, fact=True)
        out_ptr(eng, args[1], r, 'ParserElt')
        return eng.B(True)

    def again(eng, f, this, args):
        ok = fresh('ok', B)
        e = fresh('evt', I)
        eng.st.assume(e > 0, fact=True)
        if eng.choose(ok):
            out_ptr(eng, args[2], e, 'Event')
        else:
            set_error(eng, this)
        eng.trace_append(eng.st, eng.mkcall('resolve', o=this, e=term(eng, args[0]), x=term(eng, args[1]), n=e, r=ok))
        return V(ok, BOOL)

    def root(eng, f, this, args):
        r = gfun(eng, 'root', I, I)(this)
        eng.st.assume(r > 0, fact=True)
        return V(r, T('ptr', T('class', 'Context')))
    d = err_handlers(k)
    d.update({'ParserElt::getAttribute': getattr_h, 'Object::hasAlias': alias, 'Composition::getChildByIdOrAlias': looked('child', 'Object'),
              'ParserState::referMapIndex': refer, 'ParserState::resolveComponent': component, 'ParserState::eltCacheIndexById': byid,
              'ParserState::eltCacheIndexParent': up, 'ParserState::resolveInterface': again, 'Document::getRoot': root,
              'Object::getPresentationEvent': looked('pres', 'Event'), 'Object::getAttributionEvent': looked('attn', 'Event'),
              'Document::getObjectById': looked('object', 'Object')})
    return d


def omit(h, *names):
    return lambda k: {n: v for n, v in h(k).items() if n not in names}


def g(k, name, *a):
    doms = [x.sort() for x in a]
    rs = {'alias': B, 'has_attr': B, 'attr': strs(k.eng)}.get(name, I)
    return gfun(k.eng, name, *(doms + [rs]))(*a)


def label_of(k, elt):
    return z3.If(k.old.f('ParserElt::_tag', elt) == k.lit('bindRule'), k.lit('constituent'), k.lit('component'))


def rc_pre(k):
    k.assume(z3.And(k.arg(0) > 0, k.arg(1) > 0, k.old.f('ParserElt::_node', k.arg(1)) > 0, z3.Not(k.isnull(2))))
    k.assume(g(k, 'has_attr', k.arg(1), label_of(k, k.arg(1))))


@contract('X04', 'ParserState::resolveComponent', pre=rc_pre, handlers=omit(x04_handlers, 'ParserState::resolveComponent'), abort=no_abort(), assumes=[FIND_NOTE])
def resolvecomp(k):
    scope, elt = k.arg(0), k.arg(1)
    c = g(k, 'attr', elt, label_of(k, elt))
    itself = z3.Or(c == k.old.f('Object::_id', scope), g(k, 'alias', scope, c))
    child, ref = g(k, 'child', scope, c), g(k, 'refer', k.this, c)
    want = z3.If(itself, scope, z3.If(child != 0, child, ref))
    return [('it is found exactly when the scope, a child of it or a reference has that name', k.ret == (want != 0)),
            ('the scope comes first, then its children, then references', z3.Implies(k.ret, k.out(2) == want)),
            ('otherwise it fails with an error', z3.Implies(z3.Not(k.ret), z3.And(k.new.f(ERRKEYS[0], k.this) != 0, k.new.f(ERRKEYS[1], k.this) != k.lit(''))))] + \
        unchanged(k, only={x: lambda o: o == k.this for x in ERRKEYS})


def ri_pre(k):
    k.assume(z3.And(k.arg(0) > 0, k.arg(1) > 0, k.old.f('ParserElt::_node', k.arg(1)) > 0, z3.Not(k.isnull(2)), k.old.f('ParserState::_doc', k.this) > 0))
    o = z3.Int('o!ri')
    # every object has a main event; the port elements belong to contexts known by the document
    k.assume(z3.ForAll([o], z3.Implies(o > 0, k.old.f('Object::_lambda', o) > 0), patterns=[k.old.f('Object::_lambda', o)]))
    s, e = z3.Const('s!ri', strs(k.eng)), z3.Int('e!ri')
    x = g(k, 'element', k.this, k.old.f('_xmlNode::parent', k.old.f('ParserElt::_node', e)))
    body = k.old.f('ParserElt::_tag', x) == k.lit('body')
    ob = g(k, 'object', k.old.f('ParserState::_doc', k.this), g(k, 'attr', x, k.lit('id')))
    pt = g(k, 'port', k.this, s)
    k.assume(z3.ForAll([s], z3.Implies(pt > 0, z3.substitute(z3.And(k.old.f('ParserElt::_node', e) > 0, z3.Implies(z3.Not(body), z3.And(
        g(k, 'has_attr', x, k.lit('id')), ob > 0, k.isa(ob, 'Context')))), (e, pt))), patterns=[pt]))


@contract('X04', 'ParserState::resolveInterface', pre=ri_pre, handlers=x04_handlers, abort=no_abort(), assumes=[FIND_NOTE])
def resolveif(k):
    ctx, elt = k.arg(0), k.arg(1)
    o = g(k, 'component', k.this, ctx, elt)
    named, i = g(k, 'has_attr', elt, k.lit('interface')), g(k, 'attr', elt, k.lit('interface'))
    pres, attn = g(k, 'pres', o, i), g(k, 'attn', o, i)
    h = Hist(k)
    port = g(k, 'port', k.this, i)
    up = g(k, 'element', k.this, k.old.f('_xmlNode::parent', k.old.f('ParserElt::_node', port)))
    doc = k.old.f('ParserState::_doc', k.this)
    owner = z3.If(k.old.f('ParserElt::_tag', up) == k.lit('body'), g(k, 'root', doc), g(k, 'object', doc, g(k, 'attr', up, k.lit('id'))))
    media, context, switch = [z3.And(o != 0, named, k.isa(o, c)) for c in ('Media', 'Context', 'Switch')]
    inner = z3.And(context, o != ctx)
    follow = z3.And(inner, port != 0, k.old.f('Object::_id', owner) == k.old.f('Object::_id', o))

    def gives(cond, what):
        return z3.Implies(cond, z3.And(k.ret == (what != 0), z3.Implies(k.ret, k.out(2) == what)))
    return [('it fails if the component does', z3.Implies(o == 0, z3.Not(k.ret))),
            ('the main event when no interface is given', gives(z3.And(o != 0, z3.Not(named)), k.old.f('Object::_lambda', o))),
            ('an anchor of a media object, else a property of it', gives(media, z3.If(pres != 0, pres, attn))),
            ('a port of a switch', gives(switch, pres)),
            ('a property of the context itself', gives(z3.And(context, o == ctx), attn)),
            ('a property of an inner context when it has no port of that name', gives(z3.And(inner, z3.Not(follow)), attn)),
            ('a port of an inner context is followed', z3.Implies(follow, z3.And(h.len == 1, h.is_(Iv(0), 'resolve', o=k.this, e=owner, x=port), k.ret == (h.get(Iv(0), 'r') != 0), z3.Implies(
                k.ret, k.out(2) == h.get(Iv(0), 'n'))))),
            ('no port is followed otherwise', z3.Implies(z3.Not(follow), h.len == 0)),
            ('a failure leaves an error', z3.Implies(z3.Not(k.ret), z3.And(k.new.f(ERRKEYS[0], k.this) != 0, k.new.f(ERRKEYS[1], k.this) != k.lit(''))))]


def err_free(k, node):
    k.assume(k.old.f('_xmlNode::parent', node) > 0)
    k.assume(k.old.f('_xmlNode::doc', node) > 0)


# ---------------------------------------------------------------- X01
TREE_NOTE = 'the XML library links the attributes and children of an element as lists in document order, and looks attributes up by name'
ELEMENT = 1


def chain(eng, what):
    """the linked list of a node: length, elements, position of an element"""
    return gfun(eng, 'n_' + what, I, I), gfun(eng, what, I, I, I), gfun(eng, 'pos_' + what, I, I)


def linked(k, what, first, nxt, node):
    n, at, pos = chain(k.eng, what)
    j = z3.Int('j!ln')
    k.assume(n(node) >= 0)
    k.assume(first == z3.If(n(node) > 0, at(node, 0), 0))
    k.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n(node)), z3.And(at(node, j) > 0, pos(at(node, j)) == j, k.old.f(nxt, at(node, j)) == z3.If(
        j + 1 < n(node), at(node, j + 1), 0))), patterns=[at(node, j)]))


def text(k, key, o):
    return k.eng.c_text()(k.old.f(key, o))


def x01_pre(k):
    node = k.arg(0)
    k.assume(node > 0)
    err_free(k, node)
    linked(k, 'attribute', k.old.f('_xmlNode::properties', node), '_xmlAttr::next', node)
    linked(k, 'child', k.old.f('_xmlNode::children', node), '_xmlNode::next', node)
    d0 = attrs_of(k, k.old)[0]
    s = z3.Const('s!at', strs(k.eng))
    k.assume(z3.ForAll([s], z3.Not(d0[s]), patterns=[d0[s]]))
    k.assume(list_of(k, k.old)[0] == 0)
    # names of objects are not null
    o = z3.Int('o!nm')
    for key in ('_xmlNode::name', '_xmlAttr::name'):
        k.assume(z3.ForAll([o], z3.Implies(o > 0, k.old.f(key, o) != 0), patterns=[k.old.f(key, o)]))
    count(k, node)
    _, _, n, arr, name = grammar(k, node)[:5]
    i, j = z3.Int('i!at'), z3.Int('j!at')      # checked on the table
    k.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), name(i) != name(j)), patterns=[z3.MultiPattern(arr[i], arr[j])]))


def counter(eng):
    return gfun(eng, 'elements_before', I, I, I)


def count(k, node):
    """number of element children among the first ones"""
    c = counter(k.eng)
    n, at, _ = chain(k.eng, 'child')
    j = z3.Int('j!ct')
    k.assume(c(node, 0) == 0)
    k.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n(node)), c(node, j + 1) == c(node, j) + z3.If(k.old.f('_xmlNode::type', at(node, j)) == ELEMENT, 1, 0)), patterns=[at(node, j)]))


def value_of(k, v, i):
    a = k.args[i]
    return v.local(a.lv if isinstance(a, PtrLV) else a).e


def attrs_of(k, v):
    m = value_of(k, v, 1)
    return m.sort().accessor(0, 0)(m), m.sort().accessor(0, 1)(m)


def list_of(k, v):
    m = value_of(k, v, 2)
    return m.sort().accessor(0, 0)(m), m.sort().accessor(0, 1)(m)


def x01_handlers(k):
    def index(eng, f, this, args):
        t = term(eng, args[0])
        r = gfun(eng, 'syntax', strs(eng), I)(t)
        eng.st.assume(r >= 0, fact=True)
        ok = eng.choose(r > 0)
        if ok:
            out_ptr(eng, args[1], r, 'ParserSyntaxElt')
        return eng.B(ok)

    def possible(eng, f, this, args):
        t = term(eng, args[0])
        v = eng.fresh_value(eng.st, 'possible', T('map', STR, BOOL))
        s = z3.Const('s!ps', strs(eng))
        d = v.e.sort().accessor(0, 0)(v.e)
        eng.st.assume(z3.ForAll([s], d[s] == gfun(eng, 'allowed', strs(eng), strs(eng), B)(t, s), patterns=[d[s]]), fact=True)
        return v

    def prop(eng, f, this, args):
        node, s = term(eng, args[0]), term(eng, args[1])
        ok = eng.choose(gfun(eng, 'has_prop', I, strs(eng), B)(node, s))
        if ok and isinstance(args[2], PtrLV):
            eng.write(eng.st, args[2].lv, V(gfun(eng, 'prop', I, strs(eng), strs(eng))(node, s), STR))
        return eng.B(ok)

    def valid(eng, f, this, args):
        ok = eng.choose(gfun(eng, 'valid_name', strs(eng), B)(term(eng, args[0])))
        if not ok and isinstance(args[1], PtrLV):
            eng.write(eng.st, args[1].lv, eng.fresh_value(eng.st, 'offending', args[1].lv.t))
        return eng.B(ok)

    def prefix(eng, f, this, args):
        l = eng.sel(eng.st, 'ParserState::_aliasStack', this)
        return V(gfun(eng, 'prefix', l.sort(), strs(eng))(l), STR)

    def gen(eng, f, this, args):
        key = 'ParserState::_genid'
        eng.st.heap[key] = z3.Store(eng.hget(eng.st, key), this, fresh('genid', I))
        # a new identifier, known from then on (contract of genId)
        r = fresh('id', strs(eng))
        u = 'ParserState::_unique'
        U = eng.sel(eng.st, u, this)
        eng.st.assume(z3.Not(U[r]), fact=True)
        eng.st.heap[u] = z3.Store(eng.hget(eng.st, u), this, z3.Store(U, r, z3.BoolVal(True)))
        return V(r, STR)

    def msg(eng, f, this, args):
        return V(fresh('text', strs(eng)), STR)
    d = err_handlers(k)
    d.update({'parser_syntax_table_index': index, 'parser_syntax_table_get_possible_children': possible, 'xmlGetPropAsString': prop, 'xmlIsValidName': valid,
              'ParserState::aliasStackCombine': prefix, 'ParserState::genId': gen, 'xstrbuild': msg})
    return d


BITS = dict(NONEMPTY=1, REQUIRED=2, ID=3, IDREF=4, NAME=5, UNIQUE=6)


def grammar(k, node):
    """what the syntax table says of the element"""
    tag = text(k, '_xmlNode::name', node)
    syn = gfun(k.eng, 'syntax', strs(k.eng), I)(tag)
    A = k.old.f('ParserSyntaxElt::attributes', syn)
    n, arr = A.sort().accessor(0, 0)(A), A.sort().accessor(0, 1)(A)
    name = lambda j: pod(k, arr[j], 'ParserSyntaxAttr', 'name')
    flag = lambda j, b: k.eng.bit(pod(k, arr[j], 'ParserSyntaxAttr', 'flags'), BITS[b])
    has = lambda j: gfun(k.eng, 'has_prop', I, strs(k.eng), B)(node, name(j))
    raw = lambda j: gfun(k.eng, 'prop', I, strs(k.eng), strs(k.eng))(node, name(j))
    gen = lambda j: z3.And(name(j) == k.lit('id'), k.eng.bit(k.old.f('ParserSyntaxElt::flags', syn), 2))
    al = k.old.f('ParserState::_aliasStack', k.this)
    pre = gfun(k.eng, 'prefix', al.sort(), strs(k.eng))(al)
    val = lambda j: z3.If(z3.Or(flag(j, 'ID'), flag(j, 'IDREF')), joined(k, pre, raw(j)), raw(j))
    return tag, syn, n, arr, name, flag, has, raw, gen, val


def joined(k, a, b):
    st0 = k.eng.st
    k.eng.st = (k.new or k.old).st
    try:
        return k.eng.concat(a, b)
    finally:
        k.eng.st = st0


def sound(k, G, j, unique0):
    """an attribute of the syntax is as required"""
    tag, syn, n, arr, name, flag, has, raw, gen, val = G
    valid = gfun(k.eng, 'valid_name', strs(k.eng), B)
    return [('a required attribute is present', z3.Or(has(j), gen(j), z3.Not(flag(j, 'REQUIRED')))),
            ('an attribute that must not be empty is not', z3.Implies(z3.And(has(j), flag(j, 'NONEMPTY')), raw(j) != k.lit(''))),
            ('a name is a valid name', z3.Implies(z3.And(has(j), flag(j, 'NAME')), valid(raw(j)))),
            ('an id is unique', z3.Implies(z3.And(has(j), flag(j, 'UNIQUE')), z3.Not(unique0[val(j)])))]


def x01_hints(k):
    from cdv.contract import View
    node = k.arg(0)
    G = grammar(k, node)
    tag, syn, n, arr, name, flag, has, raw, gen, val = G
    j, s = z3.Int('j!ck'), z3.Const('s!ck', strs(k.eng))
    u0 = k.old.f('ParserState::_unique', k.this)

    def h(loop, head, cursor):
        out = []
        V1 = View(k, head)
        u = V1.f('ParserState::_unique', k.this)
        if cursor is not None and any(l.key == 'ParserState::_unique' for l in loop.locs if l.kind in ('heap', 'cell')):
            c = cursor.head
            upto = z3.And(0 <= j, j < c)
            for what, f in sound(k, G, j, u0):
                out.append((what, z3.ForAll([j], z3.Implies(upto, f), patterns=[arr[j]])))
            out += [('ids stay known', z3.ForAll([s], z3.Implies(u0[s], u[s]), patterns=[u[s]])),
                    ('ids seen are known', z3.ForAll([j], z3.Implies(z3.And(upto, has(j), flag(j, 'UNIQUE')), u[val(j)]), patterns=[arr[j]]))]
            d, v = attrs_of(k, V1)
            there = z3.Not(k.isnull(1))
            out += [('only attributes of the syntax are collected', z3.ForAll([s], z3.Implies(d[s], z3.Exists([j], z3.And(
                upto, name(j) == s, z3.Or(has(j), gen(j))), patterns=[arr[j]])), patterns=[d[s]])),
                ('attributes present are collected', z3.ForAll([j], z3.Implies(z3.And(upto, there, has(j)), z3.And(
                    d[name(j)], v[name(j)] == val(j))), patterns=[arr[j]])),
                ('a missing id is generated', z3.ForAll([j], z3.Implies(z3.And(upto, there, gen(j)), z3.And(d[name(j)], z3.Or(has(j), z3.And(
                    z3.Not(u0[v[name(j)]]), u[v[name(j)]])))), patterns=[arr[j]]))]
        if cursor is None:
            for l in loop.locs:
                if l.kind != 'v' or l.t is None or l.t.k != 'ptr':
                    continue
                for cls, what in (('_xmlAttr', 'attribute'), ('_xmlNode', 'child')):
                    if repr(l.t) != repr(T('ptr', T('class', cls))):
                        continue
                    m, at, pos = chain(k.eng, what)
                    x = l.head
                    here = z3.If(x == 0, m(node), pos(x))
                    out.append(('it walks the %s list' % what, z3.And(0 <= here, here <= m(node), z3.Implies(x != 0, z3.And(here < m(node), at(node, here) == x)))))
                    upto = z3.And(0 <= j, j < here)
                    nm = lambda o: text(k, cls + '::name', o)
                    if what == 'attribute':
                        d, _ = attrs_of(k, V1)
                        out.append(('the attributes so far are known', z3.ForAll([j], z3.Implies(upto, d[nm(at(node, j))]), patterns=[at(node, j)])))
                    else:
                        el = k.old.f('_xmlNode::type', at(node, j)) == ELEMENT
                        cnt = counter(k.eng)
                        ln, la = list_of(k, V1)
                        out += [('the children so far are allowed', z3.ForAll([j], z3.Implies(z3.And(upto, el), gfun(
                            k.eng, 'allowed', strs(k.eng), strs(k.eng), B)(tag, nm(at(node, j)))), patterns=[at(node, j)])),
                            ('as many are collected', z3.Implies(z3.Not(k.isnull(2)), ln == cnt(node, here))),
                            ('the children so far are collected', z3.ForAll([j], z3.Implies(z3.And(upto, el, z3.Not(k.isnull(2))), z3.And(
                                0 <= cnt(node, j), cnt(node, j) < cnt(node, here), la[cnt(node, j)] == at(node, j))), patterns=[at(node, j)]))]
        return out
    return [h]


@contract('X01', 'ParserState::checkNode', pre=x01_pre, handlers=x01_handlers, hints=x01_hints, abort=no_abort(), assumes=[TREE_NOTE])
def checknode(k):
    node = k.arg(0)
    G = grammar(k, node)
    tag, syn, n, arr, name, flag, has, raw, gen, val = G
    ok = k.ret != 0
    j, s = z3.Int('j!ps'), z3.Const('s!ps', strs(k.eng))
    i = k.sk('attribute')
    c = k.sk('child')
    sid = k.sk('id', strs(k.eng))
    parents = k.old.f('ParserSyntaxElt::parents', syn)
    pn, pa = [parents.sort().accessor(0, q)(parents) for q in (0, 1)]
    up = k.old.f('_xmlNode::parent', node)
    uptag = text(k, '_xmlNode::name', up)
    pok = z3.Or(pn == 0, z3.And(k.old.f('_xmlNode::type', up) == ELEMENT, z3.Exists([j], z3.And(0 <= j, j < pn, pa[j] == uptag), patterns=[pa[j]])))
    u0, u1 = [v.f('ParserState::_unique', k.this) for v in (k.old, k.new)]
    out = [('only a known element is accepted, as that', z3.Implies(ok, z3.And(syn != 0, k.ret == syn))),
           ('its parent is allowed', z3.Implies(ok, pok))]
    inn = z3.And(0 <= i, i < n)
    for what, f in sound(k, G, i, u0):
        out.append((what, z3.Implies(z3.And(ok, inn), f)))
    d, v = attrs_of(k, k.new)
    there, kids = z3.Not(k.isnull(1)), z3.Not(k.isnull(2))
    out += [('an id is known from then on', z3.Implies(z3.And(ok, inn, has(i), flag(i, 'UNIQUE')), u1[val(i)])),
            ('earlier ids stay known', z3.Implies(u0[sid], u1[sid])),
            ('its attributes are collected, ids being qualified', z3.Implies(z3.And(ok, there, inn, has(i)), z3.And(d[name(i)], v[name(i)] == val(i)))),
            ('a missing id is generated where one is needed', z3.Implies(z3.And(ok, there, inn, gen(i)), d[name(i)])),
            ('a generated id is not in use', z3.Implies(z3.And(ok, there, inn, gen(i), z3.Not(has(i))), z3.And(z3.Not(u0[v[name(i)]]), u1[v[name(i)]])))]
    m, at, pos = chain(k.eng, 'attribute')
    a = k.sk('property')
    an = text(k, '_xmlAttr::name', at(node, a))
    known = z3.Exists([j], z3.And(0 <= j, j < n, name(j) == an), patterns=[arr[j]])
    out.append(('only attributes of the syntax are accepted', z3.Implies(z3.And(ok, there, 0 <= a, a < m(node)), known)))
    m, at, pos = chain(k.eng, 'child')
    el = lambda q: k.old.f('_xmlNode::type', at(node, q)) == ELEMENT
    allowed = lambda q: gfun(k.eng, 'allowed', strs(k.eng), strs(k.eng), B)(tag, text(k, '_xmlNode::name', at(node, q)))
    ln, la = list_of(k, k.new)
    cnt = counter(k.eng)
    isc = z3.And(0 <= c, c < m(node), el(c))
    out += [('only allowed children are accepted', z3.Implies(z3.And(ok, isc), allowed(c))),
            ('its element children are collected in order', z3.Implies(z3.And(ok, kids), z3.And(ln == cnt(node, m(node)), z3.Implies(isc, la[cnt(node, c)] == at(node, c))))),
            ('a refusal leaves an error', z3.Implies(z3.Not(ok), z3.And(k.new.f(ERRKEYS[0], k.this) != 0, k.new.f(ERRKEYS[1], k.this) != k.lit(''))))]
    return out


def gen_handlers(k):
    def msg(eng, f, this, args):
        return V(fresh('text', strs(eng)), STR)
    return {'xstrbuild': msg}


@contract('X01', 'ParserState::genId', handlers=gen_handlers, abort=no_abort())
def genid(k):
    u0, u1 = [v.f('ParserState::_unique', k.this) for v in (k.old, k.new)]
    s = k.sk('s', strs(k.eng))
    return [('the identifier is not in use', z3.Not(u0[k.ret])),
            ('it is from then on', u1[k.ret]),
            ('no other becomes known or unknown', z3.Implies(s != k.ret, u1[s] == u0[s]))] + \
        unchanged(k, only={x: lambda o: o == k.this for x in ('ParserState::_genid', 'ParserState::_unique')})



def syntax_table(k):
    t = k.eng.glob(k.old.st, 'parser_syntax_table', T('map', STR, T('class', 'ParserSyntaxElt')))
    return [t.sort().accessor(0, q)(t) for q in (0, 1)]


@contract('X01', 'parser_syntax_table_index', abort=no_abort())
def tableindex(k):
    dom, val = syntax_table(k)
    return [('exactly the elements of the table are known', k.ret == dom[k.arg(0)]),
            ('its entry is given', z3.Implies(z3.And(k.ret, z3.Not(k.isnull(1))), k.out(1) == val[k.arg(0)]))]


def possible_hints(k):
    dom, val = syntax_table(k)
    ln, at, pos, _ = k.eng.enumth.get(k.eng, strs(k.eng))
    s, j = z3.Const('s!ph', strs(k.eng)), z3.Int('j!ph')
    P = k.old.f('ParserSyntaxElt::parents', val[s])
    n, a = [P.sort().accessor(0, q)(P) for q in (0, 1)]
    under = z3.Exists([j], z3.And(0 <= j, j < n, a[j] == k.arg(0)), patterns=[a[j]])

    def h(loop, head, cursor):
        out = []
        if cursor is None or cursor.t is None or cursor.t.k != 'map':
            return out
        for l in loop.locs:
            if l.t is not None and l.t.k == 'map' and l.kind in ('v', 'cell'):
                d = l.head.sort().accessor(0, 0)(l.head)
                done = z3.And(dom[s], pos(dom, s) < cursor.head)
                out += [('only such children so far', z3.ForAll([s], z3.Implies(d[s], z3.And(done, under)), patterns=[d[s]])),
                        ('all such children so far', z3.ForAll([s, j], z3.Implies(z3.And(done, 0 <= j, j < n, a[j] == k.arg(0)), d[s]), patterns=[a[j]]))]
        return out
    return [h]


@contract('X01', 'parser_syntax_table_get_possible_children', hints=possible_hints, abort=no_abort())
def possiblechildren(k):
    dom, val = syntax_table(k)
    j, s = z3.Int('j!pc'), k.sk('tag', strs(k.eng))
    P = k.old.f('ParserSyntaxElt::parents', val[s])
    n, a = [P.sort().accessor(0, q)(P) for q in (0, 1)]
    d, v = [k.ret.sort().accessor(0, q)(k.ret) for q in (0, 1)]
    under = z3.Exists([j], z3.And(0 <= j, j < n, a[j] == k.arg(0)), patterns=[a[j]])
    return [('the children of an element are those with it among their parents', d[s] == z3.And(dom[s], under))]


# ---------------------------------------------------------------- the tables of the parser
def lst(e):
    return [e.sort().accessor(0, q)(e) for q in (0, 1)]


def char_hints(k):
    s, j = k.arg(0), z3.Int('j!vn')

    def h(loop, head, cursor):
        if cursor is None:
            return []
        return [('characters so far', z3.ForAll([j], z3.Implies(z3.And(cursor.init <= j, j < cursor.head), name_char(s, j)), patterns=[z3.SubString(s, j, 1)]))]
    return [h]


@contract('X01', 'xmlIsValidName', strings=True, hints=char_hints, abort=no_abort())
def validname(k):
    j = k.sk('position')
    s = k.arg(0)
    return [('only names made of letters, digits and - _ : . # are valid', z3.Implies(z3.And(k.ret, 0 <= j, j < z3.Length(s)), name_char(s, j))),
            ('every such name is valid', z3.Implies(z3.Not(k.ret), z3.Exists([j], z3.And(0 <= j, j < z3.Length(s), z3.Not(name_char(s, j))))))]


def name_char(s, j):
    c = z3.StrToCode(z3.SubString(s, j, 1))
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), *[c == ord(x) for x in '-_:.#'])


CACHE, BYTAG = 'ParserState::_eltCache', 'ParserState::_eltCacheByTag'


def cached_pre(k):
    # the cache holds elements (contract of eltCacheAdd, which takes one)
    d, v = lst(k.old.f(CACHE, k.this))
    o = z3.Int('o!ca')
    k.assume(z3.ForAll([o], z3.Implies(d[o], v[o] > 0), patterns=[v[o]]))


@contract(['X01', 'X04'], 'ParserState::eltCacheIndex', pre=cached_pre, abort=no_abort())
def cacheindex(k):
    d, v = lst(k.old.f(CACHE, k.this))
    return [('it is found exactly when it is in the cache', k.ret == d[k.arg(0)]),
            ('as the element of that node', z3.Implies(z3.And(k.ret, z3.Not(k.isnull(1))), k.out(1) == v[k.arg(0)]))] + unchanged(k)


@contract('X04', 'ParserState::eltCacheIndexParent', pre=lambda k: (cached_pre(k), k.assume(k.arg(0) > 0)), abort=no_abort())
def cacheparent(k):
    d, v = lst(k.old.f(CACHE, k.this))
    up = k.old.f('_xmlNode::parent', k.arg(0))
    return [('it is found exactly when the parent is in the cache', k.ret == z3.And(up != 0, d[up])),
            ('as the element of the parent', z3.Implies(z3.And(k.ret, z3.Not(k.isnull(1))), k.out(1) == v[up]))] + unchanged(k)


@contract('X04', 'ParserState::eltCacheAdd', pre=lambda k: k.assume(k.arg(0) > 0), abort=no_abort())
def cacheadd(k):
    d, v = lst(k.old.f(CACHE, k.this))
    d1, v1 = lst(k.new.f(CACHE, k.this))
    td, tv = lst(k.old.f(BYTAG, k.this))
    td1, tv1 = lst(k.new.f(BYTAG, k.this))
    node, tag = k.old.f('ParserElt::_node', k.arg(0)), k.old.f('ParserElt::_tag', k.arg(0))
    o, s, j = k.sk('node'), k.sk('tag', strs(k.eng)), k.sk('j')
    n0, a0 = lst(tv[tag])
    n1, a1 = lst(tv1[tag])
    before = z3.If(td[tag], n0, 0)
    return [('an element is added once', k.ret == z3.Not(d[node])),
            ('it is the element of its node from then on', z3.Implies(k.ret, z3.And(d1[node], v1[node] == k.arg(0)))),
            ('other nodes keep theirs', z3.Implies(z3.Or(o != node, z3.Not(k.ret)), z3.And(d1[o] == d[o], v1[o] == v[o]))),
            ('it is listed last under its tag', z3.Implies(k.ret, z3.And(td1[tag], n1 == before + 1, a1[before] == k.arg(0), z3.Implies(
                z3.And(0 <= j, j < before), a1[j] == a0[j])))),
            ('other tags keep theirs', z3.Implies(z3.Or(s != tag, z3.Not(k.ret)), z3.And(td1[s] == td[s], tv1[s] == tv[s])))] + \
        unchanged(k, only={x: lambda o: o == k.this for x in (CACHE, BYTAG)})


OBJS, ALIAS = 'ParserState::_objStack', 'ParserState::_aliasStack'


@contract('X04', 'ParserState::objStackPush', pre=lambda k: k.assume(k.arg(0) > 0), abort=no_abort())
def objpush(k):
    n, a = lst(k.old.f(OBJS, k.this))
    n1, a1 = lst(k.new.f(OBJS, k.this))
    j = k.sk('j')
    return [('it becomes the last', z3.And(n1 == n + 1, a1[n] == k.arg(0))), ('the others stay', z3.Implies(z3.And(0 <= j, j < n), a1[j] == a[j]))] + \
        unchanged(k, only={OBJS: lambda o: o == k.this})


@contract('X04', 'ParserState::objStackPeek', abort=no_abort())
def objpeek(k):
    n, a = lst(k.old.f(OBJS, k.this))
    return [('it is the last one', k.ret == z3.If(n > 0, a[n - 1], 0))] + unchanged(k)


@contract('X04', 'ParserState::objStackPop', pre=lambda k: k.assume(z3.Or(lst(k.old.f(OBJS, k.this))[0] == 0, lst(k.old.f(OBJS, k.this))[1][lst(k.old.f(OBJS, k.this))[0] - 1] > 0)), abort=no_abort())
def objpop(k):
    n, a = lst(k.old.f(OBJS, k.this))
    n1, a1 = lst(k.new.f(OBJS, k.this))
    j = k.sk('j')
    return [('it is the last one', k.ret == z3.If(n > 0, a[n - 1], 0)), ('it is taken off', n1 == z3.If(n > 0, n - 1, 0)),
            ('the others stay', z3.Implies(z3.And(0 <= j, j < n1), a1[j] == a[j]))] + unchanged(k, only={OBJS: lambda o: o == k.this})


RECTS = 'ParserState::_rectStack'


@contract('X03', 'ParserState::rectStackPush', abort=no_abort())
def rectpush(k):
    n, a = lst(k.old.f(RECTS, k.this))
    n1, a1 = lst(k.new.f(RECTS, k.this))
    j = k.sk('j')
    return [('it becomes the last', z3.And(n1 == n + 1, a1[n] == k.arg(0))), ('the others stay', z3.Implies(z3.And(0 <= j, j < n), a1[j] == a[j]))] + \
        unchanged(k, only={RECTS: lambda o: o == k.this})


@contract('X03', 'ParserState::rectStackPeek', abort=no_abort(lambda k: lst(k.old.f(RECTS, k.this))[0] <= 0))
def rectpeek(k):
    n, a = lst(k.old.f(RECTS, k.this))
    return [('it is the last one', k.ret == a[n - 1])] + unchanged(k)


@contract('X03', 'ParserState::rectStackPop', abort=no_abort(lambda k: lst(k.old.f(RECTS, k.this))[0] <= 0))
def rectpop(k):
    n, a = lst(k.old.f(RECTS, k.this))
    n1, a1 = lst(k.new.f(RECTS, k.this))
    j = k.sk('j')
    return [('it is the last one', k.ret == a[n - 1]), ('it is taken off', n1 == n - 1),
            ('the others stay', z3.Implies(z3.And(0 <= j, j < n1), a1[j] == a[j]))] + unchanged(k, only={RECTS: lambda o: o == k.this})


@contract('X01', 'ParserState::aliasStackPush', abort=no_abort())
def aliaspush(k):
    n, a = lst(k.old.f(ALIAS, k.this))
    n1, a1 = lst(k.new.f(ALIAS, k.this))
    S = a.range()
    alias, path = [lambda e, q=q: S.accessor(0, q)(e) for q in (0, 1)]
    j, i = z3.Int('j!ap'), k.sk('i')
    known = z3.Exists([j], z3.And(0 <= j, j < n, path(a[j]) == k.arg(1)), patterns=[a[j]])
    return [('a document is not imported within itself', k.ret == z3.Not(known)),
            ('otherwise the alias becomes the last', z3.If(k.ret, z3.And(n1 == n + 1, alias(a1[n]) == k.arg(0), path(a1[n]) == k.arg(1)), n1 == n)),
            ('the others stay', z3.Implies(z3.And(0 <= i, i < n), a1[i] == a[i]))] + unchanged(k, only={ALIAS: lambda o: o == k.this})


@contract('X04', 'ParserState::referMapIndex', abort=no_abort())
def referindex(k):
    d, v = lst(k.old.f('ParserState::_referMap', k.this))
    return [('it is found exactly when it is in the map', k.ret == d[k.arg(0)]),
            ('as the media object it stands for', z3.Implies(z3.And(k.ret, z3.Not(k.isnull(1))), k.out(1) == v[k.arg(0)]))] + unchanged(k)


@contract('X04', 'ParserState::referMapAdd', abort=no_abort())
def referadd(k):
    key = 'ParserState::_referMap'
    d, v = lst(k.old.f(key, k.this))
    d1, v1 = lst(k.new.f(key, k.this))
    s = k.sk('s', strs(k.eng))
    return [('a reference is added once', k.ret == z3.Not(d[k.arg(0)])),
            ('it stands for the media object', z3.Implies(k.ret, z3.And(d1[k.arg(0)], v1[k.arg(0)] == k.arg(1)))),
            ('others keep theirs', z3.Implies(z3.Or(s != k.arg(0), z3.Not(k.ret)), z3.And(d1[s] == d[s], v1[s] == v[s])))] + \
        unchanged(k, only={key: lambda o: o == k.this})


def combine_hints(k):
    n, a = lst(k.old.f(ALIAS, k.this))
    S = a.range()
    fold = gfun(k.eng, 'fold', a.sort(), I, strs(k.eng))
    i = z3.Int('i!cb')
    k.assume(fold(a, Iv(0)) == k.lit(''))
    k.assume(z3.ForAll([i], z3.Implies(i >= 0, fold(a, i + 1) == joined(k, joined(k, fold(a, i), S.accessor(0, 0)(a[i])), k.lit('#'))), patterns=[fold(a, i + 1)]))

    def h(loop, head, cursor):
        if cursor is None:
            return []
        return [('combined so far', l.head == fold(a, cursor.head)) for l in loop.locs if getattr(l.head, 'sort', None) and l.head.sort() == strs(k.eng)]
    return [h]


@contract('X01', 'ParserState::aliasStackCombine', strings=True, hints=combine_hints, abort=no_abort())
def combine(k):
    n, a = lst(k.old.f(ALIAS, k.this))
    return [('the aliases of the stack, from the outermost, each followed by #', k.ret == gfun(k.eng, 'fold', a.sort(), I, strs(k.eng))(a, n))] + unchanged(k)


# Grammar of the documents: element < parents : attributes.  * referred to later (kept in the cache), + gets an id when it has none;
# attribute flags: r required, e not empty, n name, i id (qualified), f reference to an id (qualified), u unique in the document
GRAMMAR = '''
ncl <  : id/einu title schemaLocation xmlns
head < ncl : 
regionBase* < head : id/einu device region
region* < region regionBase : id/erinu title left right top bottom height width zIndex
descriptorBase* < head : id/einu
descriptor* < descriptorBase : id/erinu player explicitDur region/efn freeze moveLeft moveRight moveUp moveDown focusIndex focusBorderColor focusBorderWidth focusBorderTransparency focusSrc focusSelSrc selBorderColor transIn transOut left right top bottom height width zIndex
descriptorParam < descriptor : name/ern value/r
connectorBase* < head : id/einu
causalConnector* < connectorBase : id/erinu
connectorParam < causalConnector : name/en type
compoundCondition* < causalConnector compoundCondition : operator delay
simpleCondition < causalConnector compoundCondition : role/ern eventType key transition delay min max qualifier
compoundAction < causalConnector compoundAction : operator delay
simpleAction < causalConnector compoundAction : role/ern eventType actionType duration value delay min max qualifier repeat repeatDelay by
compoundStatement* < compoundCondition compoundStatement : operator/r isNegated
assessmentStatement* < compoundCondition compoundStatement : comparator/r
attributeAssessment < assessmentStatement : role/ern eventType key attributeType offset
valueAssessment < assessmentStatement : value/r
ruleBase* < head : id/einu
compositeRule* < ruleBase compositeRule : id/erinu operator/r
rule* < ruleBase compositeRule : id/erinu var/ern comparator/r value/r
transitionBase* < head : id/einu
transition* < transitionBase : id/erinu type/ern subtype/en dur startProgress endProgress direction fadeColor horzRepeat vertRepeat borderWidth borderColor
importBase* < connectorBase descriptorBase regionBase ruleBase transitionBase fontBase : alias/ern documentURI/r region baseId
fontBase* < head : 
font* < fontBase : fontFamily/r src/r fontStyle fontWeight
body* < ncl : id/einu
context* < body context switch : id/erinu refer/efn
port* < body context : id/erinu component/erfn interface/efn
switch* < body context switch : id/erinu refer/efn
switchPort* < switch : id/erinu
mapping* < switchPort : component/erfn interface/efn
bindRule* < switch : constituent/erfn rule/erfn
defaultComponent* < switch : component/erfn
media* < body context switch : id/erinu src type descriptor/efn refer/efn instance
area < media : id/erinu begin end label
property < body context media : name/ern value
link*+ < body context : id/einu xconnector/erfn
linkParam < link : name/ern value/r
bind* < link : role/ern component/erfn interface/efn
bindParam < bind : name/ern value/r
'''


def grammar_of_ncl():
    out = {}
    for l in GRAMMAR.strip().split('\n'):
        head, attrs = l.split(' :')
        tag, parents = head.split(' <')
        out[tag.rstrip('*+')] = ('*' in tag, '+' in tag, set(parents.split()), {a.split('/')[0]: set(a.split('/')[1]) if '/' in a else set() for a in attrs.split()})
    return out


@constant_table('X01', 'parser_syntax_table')
def syntax_table_content(v):
    want = grammar_of_ncl()
    have = {}
    out = []
    for tag, (push, pop, flags, parents, attrs) in v:
        out.append(('element %s is listed once' % tag, tag not in have, tag))
        have[tag] = (bool(flags & 2), bool(flags & 4), set(parents), {n: {l for l, b in dict(e=1, r=2, i=3, f=4, n=5, u=6).items() if f >> b & 1} for n, f in attrs})
        out.append(('each attribute of %s is listed once' % tag, len(have[tag][3]) == len(attrs), attrs))
    out.append(('the elements are those of the grammar', set(have) == set(want), sorted(set(have) ^ set(want))))
    for t in sorted(set(have) & set(want)):
        h, w = have[t], want[t]
        out.append(('parents of %s' % t, h[2] == w[2], sorted(h[2])))
        out.append(('attributes of %s' % t, set(h[3]) == set(w[3]), sorted(h[3])))
        out.append(('what is required of the attributes of %s' % t, all(h[3].get(n) == f for n, f in w[3].items()), h[3]))
        out.append(('whether %s gets an id' % t, h[1] == w[1], h[1]))
        if w[0]:
            out.append(('%s is kept for later reference' % t, h[0], h[0]))
    return out
