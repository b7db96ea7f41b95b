"""Contracts of the link machinery: lib/Document.cpp (evalActionInContext, evalAction) and lib/Context.cpp"""
from .common import *
from .contexts import STRUCTURE, STRUCT_NOTE, virt, delay_rec, time_of, c04_handlers
from .documents import resolves, refvalue

B = z3.BoolSort()
ACT = 'Action'


class Lists:
    """the sorts of actions, links and what happens when a link fires"""

    def __init__(self, k):
        ty = k.eng.types
        self.k, self.eng = k, k.eng
        self.ta = ty.parse('Action', 'Document')
        self.tl = T('list', self.ta)
        self.tk = T('pair', self.tl, self.tl)
        self.A, self.L, self.K, self.LS = ty.sort(self.ta), ty.sort(self.tl), ty.sort(self.tk), ty.sort(T('list', self.tk))
        d = z3.Datatype('Fired')
        d.declare('mk', ('todo', self.L), ('tr', self.eng.Trace))
        self.F = d.create()

    def len(self, l):
        return l.sort().accessor(0, 0)(l)

    def at(self, l, i):
        return l.sort().accessor(0, 1)(l)[i]

    def f(self, a, name):
        return pod(self.k, a, 'Action', name)

    def push(self, l, e):
        return self.L.mk(self.len(l) + 1, z3.Store(self.L.accessor(0, 1)(l), self.len(l), e))

    def call(self, tr, c):
        n, a = self.eng.Trace.len(tr), self.eng.Trace.a(tr)
        return self.eng.Trace.mk(n + 1, z3.Store(a, n, c))


class Firing(Lists):
    """ghost: what the links of a context leave to be done, as folds over the actions of a link, over its conditions
    and over the links"""

    def __init__(self, k, evt, tr, ctx):
        super().__init__(k)
        self.evt, self.tr, self.ctx = evt, tr, ctx
        self.acts = z3.Function('ghost_acts', self.F, self.L, I, self.F)
        self.conds = z3.Function('ghost_conds', self.F, self.K, I, self.F)
        self.links = z3.Function('ghost_links', self.F, self.LS, I, self.F)
        self.sa = z3.Function('ghost_acts_step', self.L, I, B)
        self.sc = z3.Function('ghost_conds_step', self.K, I, B)
        self.sl = z3.Function('ghost_links_step', self.LS, I, B)

    def delay(self, a):
        d = self.f(a, 'delay')
        return time_of(self.eng, z3.If(resolves(d), refvalue(d), d))

    def immediate(self, a):
        d = self.delay(a)
        return z3.Or(d == 0, d == 2**64 - 1)

    def matches(self, c):
        p = self.f(c, 'predicate')
        return z3.And(self.f(c, 'event') == self.evt, self.f(c, 'transition') == self.tr, z3.Or(p == 0, holds(p)))

    def one_action(self, s, a):
        F = self.F
        st, tr = F.todo(s), F.tr(s)
        c = self.eng.mkcall('delay', o=self.ctx, e=self.f(a, 'event'), n=self.f(a, 'transition'), s=self.f(a, 'value'), d=self.delay(a))
        return z3.If(self.immediate(a), F.mk(self.push(st, a), tr), F.mk(st, self.call(tr, c)))

    def axioms(self):
        i, s = z3.Int('i!f'), z3.Const('s!f', self.F)
        l, lk, ls = z3.Const('l!f', self.L), z3.Const('k!f', self.K), z3.Const('ls!f', self.LS)
        cs, as_ = pair(lk, 0), pair(lk, 1)
        Z = Iv(0)
        A = z3.ForAll
        return [A([s, l], self.acts(s, l, Z) == s, patterns=[self.acts(s, l, Z)]),
                A([s, lk], self.conds(s, lk, Z) == s, patterns=[self.conds(s, lk, Z)]),
                A([s, ls], self.links(s, ls, Z) == s, patterns=[self.links(s, ls, Z)]),
                # the actions, last one first (they are run from the end)
                A([s, l, i], z3.And(self.sa(l, i), z3.Implies(z3.And(0 <= i, i < self.len(l)), self.acts(s, l, i + 1) == self.one_action(
                    self.acts(s, l, i), self.at(l, self.len(l) - 1 - i)))), patterns=[z3.MultiPattern(self.sa(l, i), self.acts(s, l, i))]),
                A([s, lk, i], z3.And(self.sc(lk, i), z3.Implies(z3.And(0 <= i, i < self.len(cs)), self.conds(s, lk, i + 1) == z3.If(
                    self.matches(self.at(cs, i)), self.acts(self.conds(s, lk, i), as_, self.len(as_)), self.conds(s, lk, i)))),
                  patterns=[z3.MultiPattern(self.sc(lk, i), self.conds(s, lk, i))]),
                A([s, ls, i], z3.And(self.sl(ls, i), z3.Implies(z3.And(0 <= i, i < self.len(ls)), self.links(s, ls, i + 1) == self.conds(
                    self.links(s, ls, i), self.at(ls, i), self.len(pair(self.at(ls, i), 0))))),
                  patterns=[z3.MultiPattern(self.sl(ls, i), self.links(s, ls, i))])]


def holds(p):
    return z3.Function('ghost_holds', I, B)(p)


def l01_handlers(k):
    def pred(eng, f, this, args):
        return V(holds(term(eng, args[0])), BOOL)
    h = c04_handlers(k)
    return {'Document::evalPredicate': pred, 'Document::evalPropertyRef': h['Document::evalPropertyRef'],
            'parse_time': h['parse_time'], 'Object::addDelayedAction': h['Object::addDelayedAction']}


def l01_pre(k):
    act, ctx = k.arg(0), k.arg(1)
    k.assume(z3.And(ctx > 0, ctx < k.old.st.hwm))
    F = k.vars['F'] = Firing(k, pod(k, act, 'Action', 'event'), pod(k, act, 'Action', 'transition'), ctx)
    k.assume(F.evt > 0)
    for a in F.axioms():
        k.assume(a)
    links = k.old.f('Context::_links', ctx)
    i, j = z3.Int('i!l'), z3.Int('j!l')
    inr = lambda l, i: z3.And(0 <= i, i < F.len(l))
    k.assume(F.len(links) >= 0)
    for n in (0, 1):
        k.assume(z3.ForAll([i], z3.Implies(inr(links, i), F.len(pair(F.at(links, i), n)) >= 0), patterns=[pair(F.at(links, i), n)]))
    acts = pair(F.at(links, i), 1)
    e = F.f(F.at(acts, j), 'event')
    k.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(links, i), inr(acts, j)), z3.And(e > 0, e < k.old.st.hwm, k.old.f('Event::_object', e) > 0)),
                       patterns=[F.at(acts, j)]))


def firing_hints(k):
    def h(loop, head, cursor):
        F = k.vars['F']
        out = []
        if cursor is None or cursor.kind != 'it':
            return out
        it = head.store[cursor.key]
        if it.kind != 'list':
            return out
        v = loop.eng_load(head, it.lv)
        if v is None:
            return out
        stacks = [l for l in loop.locs if getattr(l.head, 'sort', None) and l.head.sort() == F.L and l.init is not None]
        tr = [l for l in loop.locs if l.kind == 'trace']
        tr0, tr1 = (tr[0].init, tr[0].head) if tr else (loop.S0.trace, head.trace)
        S, i = v.e.sort(), cursor.head
        import os
        for st in stacks:
            s0, s1 = F.F.mk(st.init, tr0), F.F.mk(st.head, tr1)
            if S == F.LS:
                out.append(('links so far', z3.And(F.sl(v.e, i), s1 == F.links(s0, v.e, i))))
            elif S == F.L:
                e = z3.simplify(v.e)
                if it.rev:
                    out.append(('actions so far', z3.And(F.sa(v.e, i), s1 == F.acts(s0, v.e, i))))
                else:
                    lk = e.arg(0) if z3.is_app(e) and e.num_args() == 1 and e.arg(0).sort() == F.K else None
                    if lk is not None:
                        out.append(('conditions so far', z3.And(F.sc(lk, i), s1 == F.conds(s0, lk, i))))
        return out
    return [h]


@contract('L01', 'Document::evalActionInContext', pre=l01_pre, handlers=l01_handlers, hints=firing_hints, exact=True, abort=no_abort(), assumes=[
    STRUCT_NOTE, 'scheduling an action changes no link, no predicate and no property'])
def fire(k):
    F = k.vars['F']
    ctx = k.arg(1)
    links = k.old.f('Context::_links', ctx)
    on = k.old.f('Context::_status', ctx)
    empty = k.eng.default_value(k.new.st, F.tl).e
    start = F.F.mk(empty, k.old.st.trace)
    end = F.links(start, links, F.len(links))
    return [('disabled links request nothing', z3.Implies(z3.Not(on), z3.And(F.len(k.ret) == 0, k.new.st.trace == k.old.st.trace))),
            ('what is to be done now', z3.Implies(on, k.ret == F.F.todo(end))),
            ('what is scheduled', z3.Implies(on, k.new.st.trace == F.F.tr(end)))] + unchanged(k, allow=['Object::_delayed'])


@contract('L01', 'Context::addLink', abort=no_abort(lambda k: z3.Or(k.arg(0).sort().accessor(0, 0)(k.arg(0)) == 0, k.arg(1).sort().accessor(0, 0)(k.arg(1)) == 0)))
def add_link(k):
    key = 'Context::_links'
    n0, n1 = k.old.len(key, k.this), k.new.len(key, k.this)
    x = k.sk('i')
    e = k.new.at(key, k.this, n0)
    return [('one more link', n1 == n0 + 1),
            ('with the conditions and actions given', z3.And(pair(e, 0) == k.arg(0), pair(e, 1) == k.arg(1))),
            ('after the others', z3.Implies(z3.And(0 <= x, x < n0), k.new.at(key, k.this, x) == k.old.at(key, k.this, x)))] + \
        unchanged(k, only={key: lambda x: x == k.this})


@contract('L01', 'Context::setLinksStatus', abort=no_abort())
def set_links(k):
    return [('as requested', k.new.f('Context::_status', k.this) == k.arg(0))] + unchanged(k, only={'Context::_status': lambda x: x == k.this})


@contract('L01', 'Context::getLinksStatus', abort=no_abort())
def get_links(k):
    return [('as set', k.ret == k.old.f('Context::_status', k.this))] + unchanged(k)


@contract('L01', 'Context::Context', abort=no_abort())
def new_context(k):
    return [('links are enabled', k.new.f('Context::_status', k.this)), ('no link', k.new.len('Context::_links', k.this) == 0)]


# ---------------------------------------------------------------- L02
def label_event(o, t, i):
    return z3.Function('ghost_event', I, I, i.sort(), I)(o, t, i)


class Chain(Lists):
    """ghost: how a list of actions to be done is worked off.  What happens outside (does a transition succeed, which
    objects are occurring afterwards, which actions do the links of a context request) is a function of the history."""

    def __init__(self, k):
        super().__init__(k)
        e = self.eng
        self.TR = e.Trace
        d = z3.Datatype('Chain')
        d.declare('mk', ('todo', self.L), ('tr', e.Trace), ('n', I))
        self.F = F = d.create()
        self.ok = z3.Function('ghost_succeeds', e.Trace, B)
        self.fires = z3.Function('ghost_fires', e.Trace, self.L)
        ty = e.types
        self.PL = ty.sort(T('list', T('ptr', T('class', 'Event'))))
        self.AL = ty.sort(ty.parse('list<pair<string, Composition *>>', 'Object'))
        self.reach = z3.Function('ghost_reach', F, B)
        self.go = z3.Function('ghost_go', F, B)
        self.done = z3.Function('ghost_done', e.Trace, I, B)
        self.ports = z3.Function('ghost_ports', F, self.A, I, I, self.PL, I, F)
        self.sp = z3.Function('ghost_ports_step', self.PL, I, B)
        self.aliases = z3.Function('ghost_aliases', F, self.A, self.AL, I, F)
        self.sa = z3.Function('ghost_aliases_step', self.AL, I, B)
        self.mapped = z3.Function('ghost_mapped', F, self.A, I, I, self.PL, I, F)     # object, label event
        self.sm = z3.Function('ghost_mapped_step', self.PL, I, B)
        self.MP = ty.sort(ty.parse('map<string, list<Event *>>', 'Switch'))
        self.swports = z3.Function('ghost_switch_ports', F, self.A, I, I, self.MP, I, F)   # object, switch
        self.ss = z3.Function('ghost_switch_ports_step', self.MP, I, B)

    def after(self, key, tr):
        return z3.Function('ghost_after ' + key, self.TR, self.eng.hget(self.k.old.st, key).sort())(tr)

    def cat(self, a, b):
        return z3.Function('cat:' + self.eng.types.mangle(self.tl), self.L, self.L, self.L)(a, b)

    def old(self, key, o):
        return self.k.old.f(key, o)

    def isctx(self, o):
        return z3.And(o != 0, self.eng.is_subtype(o, 'Context'))

    def with_(self, s, todo=None, tr=None):
        F = self.F
        return F.mk(F.todo(s) if todo is None else todo, F.tr(s) if tr is None else tr, F.n(s))

    def look(self, s, a, ctx):
        """the links of a context are looked up"""
        tr = self.call(self.F.tr(s), self.eng.mkcall('links', o=ctx, e=self.f(a, 'event'), n=self.f(a, 'transition')))
        return self.with_(s, todo=self.cat(self.F.todo(s), self.fires(tr)), tr=tr)

    def again(self, s, a, evt):
        """the same action on another event"""
        return self.with_(s, tr=self.call(self.F.tr(s), self.eng.mkcall('again', e=evt, n=self.f(a, 'transition'), s=self.f(a, 'value'),
                                                                      s2=self.f(a, 'duration'))))

    def axioms(self):
        i, s, a, x, o = z3.Int('i!f'), z3.Const('s!f', self.F), z3.Const('a!f', self.A), z3.Int('x!f'), z3.Int('o!f')
        pl, al, mp = z3.Const('p!f', self.PL), z3.Const('al!f', self.AL), z3.Const('m!f', self.MP)
        A, Z = z3.ForAll, Iv(0)
        M = z3.MultiPattern
        out = []
        p = lambda i: self.ports(s, a, o, x, pl, i)
        out += [A([s, a, o, x, pl], p(Z) == s, patterns=[p(Z)]),
                A([s, a, o, x, pl, i], z3.And(self.sp(pl, i), z3.Implies(z3.And(0 <= i, i < self.len(pl)), p(i + 1) == z3.If(
                    self.old('Event::_object', self.at(pl, i)) == o, self.look(p(i), a, x), p(i)))), patterns=[M(self.sp(pl, i), p(i))])]
        q = lambda i: self.aliases(s, a, al, i)
        c = pair(self.at(al, i), 1)
        out += [A([s, a, al], q(Z) == s, patterns=[q(Z)]),
                A([s, a, al, i], z3.And(self.sa(al, i), z3.Implies(z3.And(0 <= i, i < self.len(al)), q(i + 1) == z3.If(
                    self.isctx(c), self.look(q(i), a, c), q(i)))), patterns=[M(self.sa(al, i), q(i))])]
        m = lambda i: self.mapped(s, a, o, x, pl, i)
        out += [A([s, a, o, x, pl], m(Z) == s, patterns=[m(Z)]),
                A([s, a, o, x, pl, i], z3.And(self.sm(pl, i), z3.Implies(z3.And(0 <= i, i < self.len(pl)), m(i + 1) == z3.If(
                    self.old('Event::_object', self.at(pl, i)) == o, self.again(m(i), a, x), m(i)))), patterns=[M(self.sm(pl, i), m(i))])]
        w = lambda i: self.swports(s, a, o, x, mp, i)
        dom, val = self.MP.accessor(0, 0)(mp), self.MP.accessor(0, 1)(mp)
        eh = self.eng.enumth
        self.eng.st = self.k.old.st
        ln, at, pos, _ = eh.get(self.eng, dom.sort().domain())
        lst = val[at(dom, i)]
        lab = label_event(x, self.k.enum('Event::PRESENTATION'), at(dom, i))
        out += [A([s, a, o, x, mp], w(Z) == s, patterns=[w(Z)]),
                A([s, a, o, x, mp, i], z3.And(self.ss(mp, i), z3.Implies(z3.And(0 <= i, i < ln(dom)), w(i + 1) == z3.If(
                    self.old('Object::_parent', x) == 0, w(i), self.mapped(w(i), a, o, lab, lst, self.len(lst))))), patterns=[M(self.ss(mp, i), w(i))])]
        out += [A([pl, i], self.sp(pl, i), patterns=[self.sp(pl, i)]), A([al, i], self.sa(al, i), patterns=[self.sa(al, i)]),
                A([pl, i], self.sm(pl, i), patterns=[self.sm(pl, i)]), A([mp, i], self.ss(mp, i), patterns=[self.ss(mp, i)])]
        l1, l2 = z3.Const('l1!f', self.L), z3.Const('l2!f', self.L)
        out.append(A([l1, l2], z3.Implies(self.len(l2) == 0, self.cat(l1, l2) == l1), patterns=[self.cat(l1, l2)]))
        out.append(A([s], z3.And(self.go(s), z3.Implies(z3.And(self.reach(s), self.len(self.F.todo(s)) > 0), self.reach(self.step(s))),
                                 z3.Implies(z3.And(self.reach(s), self.len(self.F.todo(s)) == 0), self.done(self.F.tr(s), self.F.n(s)))),
                     patterns=[self.go(s)]))
        return out

    def step(self, s):
        """the last action of the list is taken and run"""
        F, k = self.F, self.k
        todo = F.todo(s)
        a = self.at(todo, self.len(todo) - 1)
        rest = self.L.mk(self.len(todo) - 1, self.L.accessor(0, 1)(todo))
        evt, tr = self.f(a, 'event'), self.f(a, 'transition')
        attr = self.old('Event::_type', evt) == k.enum('Event::ATTRIBUTION')
        t1 = self.call(F.tr(s), self.eng.mkcall('transition', o=evt, e=evt, n=tr, s=self.f(a, 'duration'), s2=z3.If(attr, self.f(a, 'value'), k.lit(''))))
        obj = self.old('Event::_object', evt)
        up = self.old('Object::_parent', obj)
        top = self.old('Object::_parent', up)
        occ = lambda o: self.after('Event::_state', t1)[self.old('Object::_lambda', o)] == k.enum('Event::OCCURRING')
        s0 = F.mk(rest, t1, F.n(s) + 1)
        s1 = self.look(s0, a, up)
        P = self.old('Context::_ports', up)
        s1 = z3.If(z3.And(self.isctx(top), occ(top)), self.ports(s1, a, obj, top, P, self.len(P)), s1)
        SP = self.old('Switch::_switchPorts', up)
        dom = self.MP.accessor(0, 0)(SP)
        s2 = self.swports(s0, a, obj, up, SP, self.eng.enumth.get(self.eng, dom.sort().domain())[0](dom))
        enclosing = z3.If(z3.And(self.isctx(up), occ(up)), s1, z3.If(z3.And(up != 0, self.eng.is_subtype(up, 'Switch')), s2, s0))
        AL = self.old('Object::_aliases', obj)
        full = z3.If(self.isctx(obj), self.look(enclosing, a, obj), self.aliases(enclosing, a, AL, self.len(AL)))
        return z3.If(self.ok(t1), full, F.mk(rest, t1, F.n(s)))


def l02_handlers(k):
    C = k.vars.setdefault('C', None) or k.vars.update(C=Chain(k)) or k.vars['C']
    ms = modset(k.eng)

    def env(eng, roots):
        """what was changed meanwhile is a function of the history"""
        st = eng.st
        ks = set()
        for r in roots:
            ks |= ms.writes(r)
        for key in sorted(ks):
            if key in STRUCTURE or eng.types.is_pod(key.rsplit('::', 1)[0]):
                continue
            try:
                eng.heap_sort(key)
            except Unsupported:
                continue
            st.heap[key] = C.after(key, st.trace)
        h = fresh('hwm', I)
        st.assume(h >= st.hwm, fact=True)
        st.hwm = h

    def transition(eng, f, this, args):
        st = eng.st
        from .contexts import param
        m = eng.sel(st, 'Event::_parameters', this)
        val = lambda n: param(eng, st, this, n)
        attr = k.old.f('Event::_type', this) == k.enum('Event::ATTRIBUTION')
        eng.trace_append(st, eng.mkcall('transition', o=this, e=this, n=term(eng, args[0]), s=val('duration'),
                                        s2=z3.If(attr, val('value'), eng.lit(''))))
        env(eng, ['Event::transition'])
        return V(C.ok(st.trace), BOOL)

    def links(eng, f, this, args):
        st = eng.st
        a = term(eng, args[0])
        eng.trace_append(st, eng.mkcall('links', o=term(eng, args[1]), e=C.f(a, 'event'), n=C.f(a, 'transition')))
        env(eng, ['Document::evalActionInContext'])
        r = C.fires(st.trace)
        eng.st.assume(C.len(r) >= 0, fact=True)
        return V(r, C.tl)

    def again(eng, f, this, args):
        a = term(eng, args[0])
        eng.trace_append(eng.st, eng.mkcall('again', e=C.f(a, 'event'), n=C.f(a, 'transition'), s=C.f(a, 'value'), s2=C.f(a, 'duration')))
        env(eng, ['Document::evalAction'])
        r = fresh('ran', I)
        return V(r, I32)

    def getev(eng, f, this, args):
        return V(label_event(this, term(eng, args[0]), term(eng, args[1])), T('ptr', T('class', 'Event')))
    return {'Event::transition': transition, 'Document::evalActionInContext': links, 'Document::evalAction': again, 'Object::getEvent': getev}


def l02_pre(k):
    C = k.vars['C']
    for a in C.axioms():
        k.assume(a)
    k.assume(C.f(k.arg(0), 'event') > 0)
    empty = k.eng.default_value(k.old.st, C.tl).e
    k.assume(C.reach(C.F.mk(C.push(empty, k.arg(0)), k.old.st.trace, Iv(0))))


def variants(loop, head, sort, cursor=None, t=None):
    """the values of one sort around a loop: (at its start, now)"""
    out, seen = [], set()
    done = set()
    for l in loop.locs:
        if l.kind in ('v', 'u') and getattr(l.head, 'sort', None) and l.head.sort() == sort and (t is None or l.t == t):
            done.add(l.key)
            if l.init is not None and l is not cursor:
                out.append((l.init, l.head))
    for key, v in head.store.items():
        if isinstance(v, V) and key not in done and getattr(v.e, 'sort', None) and v.e.sort() == sort and (t is None or v.t == t):
            if v.e.get_id() not in seen:
                seen.add(v.e.get_id())
                out.append((v.e, v.e))
    return out


def chain_hints(k):
    def h(loop, head, cursor):
        C, F = k.vars['C'], k.vars['C'].F
        out = []
        tr = [l for l in loop.locs if l.kind == 'trace']
        tr0, tr1 = (tr[0].init, tr[0].head) if tr else (loop.S0.trace, head.trace)
        todos, counts, acts = variants(loop, head, C.L), variants(loop, head, I, cursor, I32), variants(loop, head, C.A)
        if cursor is None or cursor.kind != 'it':
            for _, l in todos:
                for _, c in counts:
                    s = F.mk(l, tr1, c)
                    out.append(('run so far', z3.And(C.go(s), C.reach(s))))
            return out
        it = head.store[cursor.key]
        v = loop.eng_load(head, it.lv)
        if v is None:
            return out
        S, i = v.e.sort(), cursor.head
        e = it.en.e if it.kind != 'list' else v.e
        for l0, l1 in todos:
            for c0, c1 in counts:
                for a, _ in acts:
                    s0, s1 = F.mk(l0, tr0, c0), F.mk(l1, tr1, c1)
                    obj = C.old('Event::_object', C.f(a, 'event'))
                    up = C.old('Object::_parent', obj)
                    if S == C.PL:
                        if not l0.eq(l1):
                            out.append(('ports so far', z3.And(C.sp(e, i), s1 == C.ports(s0, a, obj, C.old('Object::_parent', up), e, i))))
                        else:
                            xs = [x for _, x in variants(loop, head, I, cursor, T('ptr', T('class', 'Event')))]
                            for c in head.store.values():
                                m = loop.eng_load(head, c.lv) if isinstance(c, It) else None
                                if m is not None and getattr(m.e, 'sort', None) and m.e.sort() == C.MP:
                                    dom = C.MP.accessor(0, 0)(m.e)
                                    key = k.eng.enumth.get(k.eng, dom.sort().domain())[1](dom, c.idx)
                                    xs.append(label_event(up, k.enum('Event::PRESENTATION'), key))
                            for x in xs:
                                m = C.mapped(s0, a, obj, x, e, i)
                                out += [('mapped so far', z3.And(C.sm(e, i), s1 == z3.If(C.old('Object::_parent', up) == 0, s0, m)))]
                    elif S == C.AL:
                        out.append(('aliases so far', z3.And(C.sa(e, i), s1 == C.aliases(s0, a, e, i))))
                    elif S == C.MP:
                        out.append(('switch ports so far', z3.And(C.ss(v.e, i), s1 == C.swports(s0, a, obj, up, v.e, i))))
        return out
    return [h]


@contract('L02', 'Document::evalAction', nparams=1, pre=l02_pre, handlers=l02_handlers, hints=chain_hints, exact=True)
def run(k):
    C = k.vars['C']
    return [('everything that was requested has been run', C.done(k.new.st.trace, k.ret))]


def one_action(k):
    f = lambda a, n: pod(k, a, 'Action', n)
    rec = lambda eng, this, a: dict(o=this, e=f(a[0], 'event'), n=f(a[0], 'transition'), s=f(a[0], 'value'), s2=f(a[0], 'duration'), s3=f(a[0], 'delay'))
    return {'Document::evalAction': recorded('run', rec, ret='int', writes=['Document::evalAction'])}


@contract('L02', 'Document::evalAction', nparams=3, name='Document::evalAction(event)', strings=True, handlers=one_action)
def run_event(k):
    h = Hist(k)
    empty = k.lit('')
    return [('exactly one action is run, and it is the requested transition of the event with that value and no duration or delay',
             z3.And(h.len == 1, h.is_(0, 'run', o=k.this, e=k.arg(0), n=k.arg(1), s=k.arg(2), s2=empty, s3=empty))),
            ('its count is reported', k.ret == h.get(0, 'r'))]


# ---------------------------------------------------------------- D04: the conditions a context owns
class Release(Lists):
    """ghost: the releases of the predicates of the entries of a list, and of all links, as folds over the history"""

    def __init__(self, k):
        super().__init__(k)
        T_ = self.eng.Trace
        self.ents = z3.Function('ghost_rel', T_, self.L, I, T_)
        self.links = z3.Function('ghost_rel_links', T_, self.LS, I, T_)
        self.se = z3.Function('ghost_rel_step', self.L, I, B)
        self.sl = z3.Function('ghost_rel_links_step', self.LS, I, B)

    def axioms(self):
        i, s = z3.Int('i!r'), z3.Const('s!r', self.eng.Trace)
        l, ls = z3.Const('l!r', self.L), z3.Const('ls!r', self.LS)
        Z, A = Iv(0), z3.ForAll
        p = self.f(self.at(l, i), 'predicate')
        one = lambda x, e: self.ents(x, e, self.len(e))
        lk = self.at(ls, i)
        return [A([s, l], self.ents(s, l, Z) == s, patterns=[self.ents(s, l, Z)]),
                A([s, ls], self.links(s, ls, Z) == s, patterns=[self.links(s, ls, Z)]),
                A([s, l, i], z3.And(self.se(l, i), z3.Implies(z3.And(0 <= i, i < self.len(l)), self.ents(s, l, i + 1) == z3.If(
                    p != 0, self.call(self.ents(s, l, i), self.eng.mkcall('delete', e=p)), self.ents(s, l, i)))),
                  patterns=[z3.MultiPattern(self.se(l, i), self.ents(s, l, i))]),
                A([s, ls, i], z3.And(self.sl(ls, i), z3.Implies(z3.And(0 <= i, i < self.len(ls)), self.links(s, ls, i + 1) == one(
                    one(self.links(s, ls, i), pair(lk, 0)), pair(lk, 1)))),
                  patterns=[z3.MultiPattern(self.sl(ls, i), self.links(s, ls, i))])]


def release_pre(k):
    valid_set(k, 'Composition::_children', k.this)
    lam = k.old.f('Object::_lambda', k.this)
    k.assume(z3.And(lam > 0, lam < k.old.st.hwm))
    F = k.vars['F'] = Release(k)
    for a in F.axioms():
        k.assume(a)
    links = k.old.f('Context::_links', k.this)
    i = z3.Int('i!l')
    k.assume(F.len(links) >= 0)
    for n in (0, 1):
        k.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < F.len(links)), F.len(pair(F.at(links, i), n)) >= 0), patterns=[pair(F.at(links, i), n)]))


def release_handlers(k):
    from .documents import deleting
    h = dict(deleting(k))
    h['Event::transition'] = virt(recorded('transition', lambda e, t, a: dict(o=t, n=a[0]), ret='bool', writes=['Event::transition'], keep=STRUCTURE))
    return h


def release_hints(k):
    def h(loop, head, cursor):
        F = k.vars['F']
        if cursor is None or cursor.kind != 'it' or head.store[cursor.key].kind != 'list':
            return []
        v = loop.eng_load(head, head.store[cursor.key].lv)
        tr = [l for l in loop.locs if l.kind == 'trace']
        if v is None or not tr:
            return []
        n0, n1 = F.eng.Trace.len(tr[0].init), F.eng.Trace.len(tr[0].head)
        a0, a1 = F.eng.Trace.a(tr[0].init), F.eng.Trace.a(tr[0].head)
        j = z3.Int('j!h')
        out = [('the history grows', z3.And(n1 >= n0, z3.ForAll([j], z3.Implies(j < n0, a1[j] == a0[j]), patterns=[a1[j]])))]
        if v.e.sort() == F.LS:
            k.vars['mid'] = tr[0].init
            return out + [('links so far', z3.And(F.sl(v.e, cursor.head), tr[0].head == F.links(tr[0].init, v.e, cursor.head)))]
        if v.e.sort() == F.L:
            return out + [('entries so far', z3.And(F.se(v.e, cursor.head), tr[0].head == F.ents(tr[0].init, v.e, cursor.head)))]
        return out
    return [h]


@contract('D04', 'Context::~Context', pre=release_pre, handlers=release_handlers, hints=release_hints, abort=no_abort(),
          assumes=[STRUCT_NOTE, 'destroying an object destroys only what that object owns, and leaves what its owner still has to release untouched'])
def context_dtor(k):
    F = k.vars['F']
    h = Hist(k)
    S = k.old.f('Composition::_children', k.this)
    links = k.old.f('Context::_links', k.this)
    c, p = k.sk('child'), k.sk('p')
    at, n = k.instance(S, c)
    ea = lambda i: k.eng.enumth.at(k.eng, S, i)
    mid = k.vars.get('mid')
    T_ = k.eng.Trace
    return [('it is stopped first', z3.And(h.len >= 1, h.is_(0, 'transition', o=k.old.f('Object::_lambda', k.this), n=k.enum('Event::STOP')))),
            ('then its children are released, each once', z3.Implies(z3.And(0 <= p, p < n), h.is_(1 + p, 'delete', e=ea(p)))),
            ('at last the conditions of its links', z3.BoolVal(False) if mid is None else z3.And(
                T_.len(mid) == k.old.tlen + 1 + n, k.new.st.trace == F.links(mid, links, F.len(links)))),
            ('all of them', z3.Implies(S[c], h.is_(1 + k.eng.enumth.pos(k.eng, S, c), 'delete', e=c)))]
