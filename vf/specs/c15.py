"""C15: base classes are exposed, hidden or inlined exactly as requested."""
from .c18 import *
from .lookup import filter_decls, collect, VIS, RIP

UNITS = []
Sel = z3.Select


def definition(E, d):
    return E.uf('spec.definition', [d], U)


def nbases(E, d):
    return E.uf('range.size', [E.uf('clang::CXXRecordDecl::bases', [d], U)], INT)


def base_spec(E, d, i):
    return E.uf('range.at', [E.uf('clang::CXXRecordDecl::bases', [d], U), i], U)


def base_class(E, d, i):
    """The class that the i-th base specifier of d names."""
    return definition(E, E.uf('spec.class_of', [E.uf('type_of', [E.uf('clang::CXXBaseSpecifier::getType', [base_spec(E, d, i)], U)], U)], U))


def is_public(E, d, i):
    return E.uf('clang::CXXBaseSpecifier::getAccessSpecifier', [base_spec(E, d, i)], INT) == E.tu.enums['clang::AccessSpecifier']['AS_public']


def classes(E):
    """Clang's class hierarchy: definitions, base specifiers and the closure of the bases."""
    M = E.lib.models
    for c in ('TagDecl', 'CXXRecordDecl', 'RecordDecl', 'EnumDecl'):
        M['clang::%s::getDefinition' % c] = lambda E2, st, c: definition(E2, E2.to_term(st, c.obj))
    for n in ('getAsCXXRecordDecl', 'getAsTagDecl', 'getAsRecordDecl'):
        M['clang::Type::' + n] = lambda E2, st, c: E2.uf('spec.class_of', [E2.to_term(st, c.obj)], U)
    for n in ('operator->', 'operator*', 'getTypePtr'):
        M['clang::QualType::' + n] = lambda E2, st, c: E2.uf('type_of', [E2.to_term(st, c.obj)], U)
    x = z3.Const('x!', U)
    d = definition(E, x)
    E.facts.append(z3.ForAll([x], definition(E, d) == d, patterns=[d]))


def base_facts(E, st):
    """Bases are defined classes."""
    x = z3.Const('x!', U)
    i = z3.Int('i!')
    b = base_class(E, x, i)
    st.assume(z3.ForAll([x, i], z3.Implies(z3.And(i >= 0, i < nbases(E, x)), z3.And(b != NULL, E.isa_term('clang::CXXRecordDecl', b))), patterns=[b]))
    st.assume(z3.ForAll([x], nbases(E, x) >= 0, patterns=[nbases(E, x)]))


class Least:
    """Least set that contains the successors of root and of its elements: closed under
    successors, and each element has a predecessor closer to the root."""

    def __init__(self, E, name, root, nsucc, edge, succ):
        # edge(d, w): w (index or element) denotes a successor succ(d, w) of d
        self.E, self.name, self.root, self.nsucc, self.edge, self.succ = E, name, root, nsucc, edge, succ

    def has(self, x):
        return self.E.uf('spec.%s' % self.name, [self.root, x], BOOL)

    def rank(self, x):
        return self.E.uf('spec.%s.rank' % self.name, [self.root, x], INT)

    def starts(self, d):
        return z3.Or(d == self.root, self.has(d))

    def facts(self, st):
        E = self.E
        d = z3.Const('d!', U)
        w = z3.Const('w!', self.nsucc)
        st.assume(z3.ForAll([d, w], z3.Implies(z3.And(self.starts(d), self.edge(d, w)), self.has(self.succ(d, w))),
                            patterns=[z3.MultiPattern(self.has(d), self.succ(d, w)) if self.nsucc == INT else z3.MultiPattern(self.has(d), self.has(w))]))
        st.assume(z3.ForAll([w], z3.Implies(self.edge(self.root, w), self.has(self.succ(self.root, w))),
                            patterns=[self.succ(self.root, w) if self.nsucc == INT else self.has(w)]))

    def induction(self, st, member, name):
        """All elements of the least set are in a set that is closed."""
        E = self.E
        x = z3.Const('x!', U)
        x0 = E.fresh_const(U, 'x')
        s = st.copy()
        p, pw = E.uf('spec.%s.pred' % self.name, [self.root, x0], U), E.uf('spec.%s.via' % self.name, [self.root, x0], self.nsucc)
        s.assume(self.edge(p, pw), self.succ(p, pw) == x0, self.rank(x0) >= 0, z3.Or(p == self.root, z3.And(self.has(p), self.rank(p) < self.rank(x0))))
        s.assume(self.has(x0), z3.ForAll([x], z3.Implies(z3.And(self.has(x), self.rank(x) < self.rank(x0)), member(x)), patterns=[self.has(x)]))
        E.oblige(s, member(x0), name)
        st.assume(z3.ForAll([x], z3.Implies(self.has(x), member(x)), patterns=[self.has(x)]))


def inline_base(E, d, b):
    return z3.And(has_attrs(E, 'RecordDeclAttrs', d), Sel(attr(E, 'RecordDeclAttrs', '.inline_base.set', d, z3.ArraySort(U, BOOL)), b))


def hide_base(E, d, b):
    return z3.And(has_attrs(E, 'RecordDeclAttrs', d), Sel(attr(E, 'RecordDeclAttrs', '.hide_base.set', d, z3.ArraySort(U, BOOL)), b))


def pending(V, d):
    k = z3.Int('k!p')
    return z3.Exists([k], z3.And(k >= 0, k < V['n'], Sel(V['arr'], k) == d))


def policy(E):
    """RecordInliningPolicy::createFromAnnotations"""
    E.feas_timeout = 100
    setup(E)
    f = one(E.tu, RIP + '::createFromAnnotations')
    st = State()
    ps = params(E, st, f)
    rec = [E.to_term(st, v) for v, p in zip(ps.values(), f['params']) if E.T(p['t'])['k'] == 'ptr'][0]
    st.assume(rec != NULL)
    C = Least(E, 'inlined', rec, U, lambda d, b: inline_base(E, d, b), lambda d, b: b)
    C.facts(st)
    x, d, b = z3.Consts('x d b', U)
    hidden = lambda y: z3.Exists([d], z3.And(C.starts(d), hide_base(E, d, y)))
    # roles of the two sets: arguments of the constructor
    ctors = []
    walk(f['body'], lambda n: ctors.append(n) if n.get('k') == 'ctor' and n['fn']['q'] == RIP + '::RecordInliningPolicy' and len(n['a']) == 3 else None)
    ids = [a.get('id') for a in ctors[0]['a']] if len(ctors) == 1 else [None] * 3

    def sets(s):
        r = []
        for i in ids[1:]:
            o = E.rv(s, s.env.get(i)) if i in s.env else None
            if not isinstance(o, Obj) or E.cls(s, o) != 'set':
                raise Abort('contract does not match the data structures of the policy')
            r.append(s.get(o, 'mem'))
        return r

    def work(s):
        r = [h for h in s.heap.values() if h['cls'] == 'vec' and h['arr'].sort().range() == U]
        if len(r) != 1:
            raise Abort('contract does not match the worklist of the policy')
        return r[0]

    def common(s, i, q=None):
        cand, hid = sets(s)
        V = work(s)
        k = z3.Int('k')
        return [
            ('size', V['n'] >= 0),
            ('candidates were requested', FA([x], z3.Implies(Sel(cand, x), C.has(x)), [Sel(cand, x)])),
            ('open classes were requested', FA([k], z3.Implies(z3.And(k >= 0, k < V['n']), z3.Or(Sel(V['arr'], k) == rec, Sel(cand, Sel(V['arr'], k)))), [Sel(V['arr'], k)])),
            ('hidden bases were requested', FA([x], z3.Implies(Sel(hid, x), hidden(x)), [Sel(hid, x)])),
            ('inlined bases of candidates are taken over', z3.ForAll([d, b], z3.Implies(z3.And(z3.Or(d == rec, Sel(cand, d)), inline_base(E, d, b)),
                                                                                z3.Or(Sel(cand, b), pending(V, d))))),
            ('hidden bases of candidates are taken over', z3.ForAll([d, b], z3.Implies(z3.And(z3.Or(d == rec, Sel(cand, d)), hide_base(E, d, b)),
                                                                               z3.Or(Sel(hid, b), pending(V, d))))),
        ]

    def inv(E2, s0, q, mods):
        return [(nm, lambda s, i, z=z: common(s, i)[z][1]) for z, (nm, _) in enumerate(common(s0, None))]

    def after(E2, s, mods):
        cand, hid = sets(s)
        C.induction(s, lambda y: Sel(cand, y), 'lemma: all requested bases are candidates')
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] in ('while', 'for', 'do'), inv, after=after))

    def inv2(E2, s0, q, mods):
        """The first i requested bases of the class at hand are candidates."""
        cand0, hid0 = sets(s0)
        V0 = work(s0)
        k = z3.Int('k')

        def seen(y, i):
            if hasattr(q, 'idx'):
                return z3.And(q.idx(y) >= 0, q.idx(y) < i, q.get(E2, s0, q.idx(y)) == y)
            return z3.Exists([k], z3.And(k >= 0, k < i, q.get(E2, s0, k) == y))
        at = lambda s, j: Sel(work(s)['arr'], j)
        changed = lambda z: not sets(havocked)[z].eq(sets(s0)[z])
        havocked = s0.copy()
        E2.havoc(havocked, mods, 'w')
        res = []
        for z, old in enumerate((cand0, hid0)):
            if changed(z):
                res.append(('bases of the class at hand', lambda s, i, z=z, old=old: FA([x], Sel(sets(s)[z], x) == z3.Or(Sel(old, x), seen(x, i)), [Sel(sets(s)[z], x)])))
        if not work(havocked)['arr'].eq(V0['arr']):
            res += [
                ('size', lambda s, i: work(s)['n'] >= V0['n']),
                ('open classes stay', lambda s, i: FA([k], z3.Implies(z3.And(k >= 0, k < V0['n']), at(s, k) == Sel(V0['arr'], k)), [at(s, k)])),
                ('new open classes', lambda s, i: FA([k], z3.Implies(z3.And(k >= V0['n'], k < work(s)['n']), seen(at(s, k), i)), [at(s, k)])),
                ('new candidates are open', lambda s, i: FA([x], z3.Implies(z3.And(Sel(sets(s)[0], x), z3.Not(Sel(cand0, x))), pending(work(s), x)), [Sel(sets(s)[0], x)])),
            ]
        return res
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] == 'rfor', inv2, auto=False))

    def make(E2, s, c):
        mem = []
        for a in c.args[1:3]:
            o = E2.rv(s, a)
            if not isinstance(o, Obj) or E2.cls(s, o) != 'set':
                raise Abort('policy arguments')
            mem.append(s.get(o, 'mem'))
        E2.oblige(s, E2.to_term(s, c.args[0]) == rec, 'the policy is that of the class')
        y = E2.fresh_const(U, 'y')
        E2.oblige(s, Sel(mem[0], y) == C.has(y), 'exactly the bases requested by the class or a requested base are inlining candidates')
        E2.oblige(s, Sel(mem[1], y) == hidden(y), 'exactly the bases hidden by the class or a requested base are hidden')
        return z3.Const('policy', U)
    E.lib.opaque |= {RIP}
    E.contracts[RIP + '::RecordInliningPolicy'] = make
    E.current = 'createFromAnnotations'
    for s, v in run(E, f, st):
        E.oblige(s, E.to_term(s, v) == z3.Const('policy', U), 'post: the policy is returned')


UNITS += [('RecordInliningPolicy::createFromAnnotations', VIS, policy)]


def reach(E, rec, hidden):
    """Bases reachable through public inheritance without passing a hidden base."""
    edge = lambda d, i: z3.And(i >= 0, i < nbases(E, d), is_public(E, d, i), z3.Not(hidden(base_class(E, d, i))))
    return Least(E, 'reachable', rec, INT, edge, lambda d, i: base_class(E, d, i))


def all_bases(E, st, rec):
    """Contract of forallBases: every direct or indirect base, by its definition."""
    key = E.uf('spec.all_bases', [rec], U)
    n = E.uf('range.size', [key], INT)
    at = lambda i: E.uf('range.at', [key, i], U)
    x = z3.Const('x!', U)
    i = z3.Int('i!')
    idx = lambda y: E.uf('spec.all_bases.index', [rec, y], INT)
    has = lambda y: z3.And(idx(y) >= 0, idx(y) < n, at(idx(y)) == y)
    b = base_class(E, x, i)
    st.assume(n >= 0,
              z3.ForAll([x, i], z3.Implies(z3.And(z3.Or(x == rec, has(x)), i >= 0, i < nbases(E, x)), has(b)), patterns=[b]),
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), definition(E, at(i)) == at(i)), patterns=[at(i)]))
    return has


def policy_ctor(E):
    """RecordInliningPolicy::RecordInliningPolicy"""
    E.feas_timeout = 100
    setup(E)
    clang_models(E)
    classes(E)
    f = one(E.tu, RIP + '::RecordInliningPolicy', lambda f: len(f['params']) == 3)
    st = State()
    base_facts(E, st)
    ps = list(params(E, st, f).values())
    rec = E.to_term(st, ps[0])
    st.assume(rec != NULL)
    cand, hid = [st.get(E.rv(st, p), 'mem') for p in ps[1:]]
    R = reach(E, rec, lambda y: Sel(hid, y))
    R.facts(st)
    every = all_bases(E, st, rec)
    x, d = z3.Consts('x d', U)
    k = z3.Int('k')

    def work(s):
        r = [h for h in s.heap.values() if h['cls'] == 'vec' and h['arr'].sort().range() == U]
        if len(r) != 1:
            raise Abort('contract does not match the worklist of the policy')
        return r[0]

    def found(s, mods):
        return s.heap[mod_obj(E, s, mods, 'set')]['mem'] if any(m[0] == 'h' and s.heap.get(m[1], {}).get('cls') == 'set' for m in mods) else z3.K(U, False)
    def inv(E2, s0, q, mods):
        V = lambda s: work(s)
        at = lambda s: Sel(V(s)['arr'], k)
        edge = lambda s: R.edge(d, k)
        return [
            ('size', lambda s, i: V(s)['n'] >= 0),
            ('found bases are reachable', lambda s, i: FA([x], z3.Implies(Sel(found(s, mods), x), z3.And(R.has(x), every(x))), [Sel(found(s, mods), x)])),
            ('open classes', lambda s, i: FA([k], z3.Implies(z3.And(k >= 0, k < V(s)['n']), z3.Or(at(s) == rec, Sel(found(s, mods), at(s)))), [at(s)])),
            ('bases of found classes are found', lambda s, i: FA([d, k], z3.Implies(z3.And(z3.Or(d == rec, Sel(found(s, mods), d)), R.edge(d, k)),
                z3.Or(Sel(found(s, mods), base_class(E, d, k)), pending(V(s), d))), [base_class(E, d, k)])),
        ]

    def after(E2, s, mods):
        R.induction(s, lambda y: Sel(found(s, mods), y), 'lemma: all reachable bases are found')
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] in ('while', 'for', 'do'), inv, after=after))

    def inv2(E2, s0, q, mods):
        """The first i bases of the class at hand are found."""
        F0, V0 = found(s0, mods), work(s0)
        j = z3.Int('j')
        at = lambda s, j: Sel(work(s)['arr'], j)
        cur = q.key[1].arg(0)
        seen = lambda y, i: z3.Exists([j], z3.And(j >= 0, j < i, R.edge(cur, j), base_class(E, cur, j) == y))
        F = lambda s: found(s, mods)
        return [
            ('size', lambda s, i: work(s)['n'] >= V0['n']),
            ('old', lambda s, i: FA([x], z3.Implies(Sel(F0, x), Sel(F(s), x)), [Sel(F(s), x)])),
            ('found', lambda s, i: FA([x], z3.Implies(Sel(F(s), x), z3.Or(Sel(F0, x), seen(x, i))), [Sel(F(s), x)])),
            ('bases are found', lambda s, i: FA([j], z3.Implies(z3.And(j < i, R.edge(cur, j)), Sel(F(s), base_class(E, cur, j))), [base_class(E, cur, j)])),
            ('open classes stay', lambda s, i: FA([k], z3.Implies(z3.And(k >= 0, k < V0['n']), at(s, k) == Sel(V0['arr'], k)), [at(s, k)])),
            ('new open classes', lambda s, i: FA([k], z3.Implies(z3.And(k >= V0['n'], k < work(s)['n']), Sel(F(s), at(s, k))), [at(s, k)])),
            ('new bases are open', lambda s, i: FA([x], z3.Implies(z3.And(Sel(F(s), x), z3.Not(Sel(F0, x))), pending(work(s), x)), [Sel(F(s), x)])),
        ]
    isbases = lambda r: isinstance(r, Seq) and is_z3(r.key[1]) and r.key[1].decl().name().startswith('clang::CXXRecordDecl::bases')
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] == 'rfor', inv2, auto=False))

    def inv3(E2, s0, q, mods):
        I0 = found(s0, mods)
        j = z3.Int('j')
        a = q.get(E2, s0, j)
        return [('visited bases', lambda s, i: FA([x], Sel(found(s, mods), x) == z3.Or(Sel(I0, x), z3.And(
            Sel(cand, x), R.has(x), z3.Exists([j], z3.And(j >= 0, j < i, a == x)))), [Sel(found(s, mods), x)]))]
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] == 'forallBases', inv3, auto=False))
    E.current = 'RecordInliningPolicy'
    for s, o in E.repo_ctor(st, RIP, f, ps, {'t': None, 'l': 0}):
        y = E.fresh_const(U, 'y')
        g = lambda n: Sel(s.get(s.get(o, n), 'mem'), y)
        E.oblige(s, g('inline_bases') == z3.And(Sel(cand, y), R.has(y)),
                 'post: exactly the candidates reachable through public inheritance without passing a hidden base are inlined')
        E.oblige(s, g('hide_bases') == Sel(hid, y), 'post: exactly the given bases are hidden')


UNITS += [("Policy constructor", VIS, policy_ctor)]


def queries(E):
    """RecordInliningPolicy::shouldInline, shouldHide"""
    setup(E)
    classes(E)
    for nm, fld in (('shouldInline', 'inline_bases'), ('shouldHide', 'hide_bases')):
        f = one(E.tu, '%s::%s' % (RIP, nm))
        st = State()
        me = this(E, st, f)
        d = E.to_term(st, list(params(E, st, f).values())[0])
        st.assume(d != NULL)
        mem = st.get(st.get(me, fld), 'mem')
        E.current = nm
        for s, v in run(E, f, st):
            E.oblige(s, E.to_bool(s, v) == Sel(mem, definition(E, d)), 'post: decides by the definition of the class')
            for x in ('inline_bases', 'hide_bases'):
                E.oblige(s, s.get(s.get(me, x), 'mem') == st.get(st.get(me, x), 'mem'), 'post: the policy is unchanged')


UNITS += [('shouldInline, shouldHide', VIS, queries)]


class Recursion:
    def __init__(self, verify, apply):
        self.active = False
        self.verify, self.apply = verify, apply


def bases_text(E):
    """RecordExposer::emitType"""
    f = one(E.tu, 'genpybind::RecordExposer::emitType')
    st = start(E, f)
    classes(E)
    binding_contracts(E)
    base_facts(E, st)
    me = this(E, st, f)
    os, _, _ = bind(E, st, f)
    rec = st.get(me, 'record_decl')
    st.assume(rec != NULL)
    pol = st.get(me, 'inlining_policy')
    hides = lambda b: Sel(st.get(st.get(pol, 'hide_bases'), 'mem'), b)
    inlines = lambda b: Sel(st.get(st.get(pol, 'inline_bases'), 'mem'), b)
    E.contracts[RIP + '::shouldHide'] = lambda E2, s, c: hides(definition(E2, E2.to_term(s, c.args[0])))
    E.contracts[RIP + '::shouldInline'] = lambda E2, s, c: inlines(definition(E2, E2.to_term(s, c.args[0])))
    graph = E.to_term(st, st.get(me, 'graph'))
    node = lambda b: E.uf('spec.node', [graph, b], U)
    E.contracts['genpybind::DeclContextGraph::getNode'] = lambda E2, s, c: E2.uf('spec.node', [E2.to_term(s, c.obj), E2.to_term(s, c.args[0])], U)
    x = z3.Const('x', U)
    j = z3.Int('j')

    def listed(d, y):
        """y is listed because of d: an exposed public base, or one of an inlined base."""
        return E.uf('spec.listed', [d, y], BOOL)

    def counts(d, i, y):
        b = base_class(E, d, i)
        return z3.And(i >= 0, i < nbases(E, d), is_public(E, d, i), z3.Not(hides(b)),
                      z3.If(inlines(b), listed(b, y), z3.And(node(b) != NULL, b == y)))

    def listed_is(d, y):
        return listed(d, y) == z3.Exists([j], counts(d, j, y))

    def emitted(s):
        r = [o for o, h in s.heap.items() if h['cls'] == 'set' and h['mem'].sort().domain() == U and not any(
            s.get(pol, n).oid == o for n in ('inline_bases', 'hide_bases')) and o not in known]
        if len(r) > 1:
            raise Abort('contract does not match the set of listed bases')
        return r[0] if r else None
    known = set(st.heap)

    def decl_arg(E2, s, f2, args):
        r = [i for i, p in enumerate(f2['params']) if 'CXXRecordDecl' in str(E2.T(p['t']).get('to') is not None and E2.T(E2.T(p['t'])['to']).get('rec'))]
        if len(r) != 1:
            raise Abort('contract does not match the recursion')
        return r[0]

    def apply(E2, s, f2, args):
        d = E2.to_term(s, args[decl_arg(E2, s, f2, args)])
        put(E2, s, os, ('rec', 'bases', (d,)))
        o = emitted(s)
        if o is not None:
            h = dict(s.heap[o])
            old = h['mem']
            h['mem'] = E2.fresh_const(old.sort(), 'listed')
            s.heap[o] = h
            s.assume(z3.ForAll([x], Sel(h['mem'], x) == z3.Or(Sel(old, x), listed(d, x)), patterns=[Sel(h['mem'], x)]))

    def verify(E2, s, f2, args, body):
        i = decl_arg(E2, s, f2, args)
        d = E2.fresh_const(U, 'cls')
        s.assume(d != NULL)
        o = emitted(s)
        if o is None:
            raise Abort('contract does not match the set of listed bases')
        E2.oblige(s, z3.Not(Sel(s.heap[o]['mem'], E2.fresh_const(U, 'y'))), 'no base is listed at first')
        h = dict(s.heap[o])
        h['mem'] = m0 = E2.fresh_const(h['mem'].sort(), 'before')
        s.heap[o] = h
        s.set(os, 'log', ())
        a = list(args)
        a[i] = d
        key = E2.uf('clang::CXXRecordDecl::bases', [d], U)

        def item(i):
            b = base_class(E2, d, i)
            new = z3.And(node(b) != NULL, z3.Not(Sel(m0, b)), z3.Not(z3.Exists([j], z3.And(j < i, counts(d, j, b)))))
            return [Cond(z3.And(is_public(E2, d, i), z3.Not(hides(b))), [Cond(inlines(b), [('rec', 'bases', (b,))],
                    [Cond(new, [', ', E2.uf('spec.type', [b], STR)], [])])], [])]

        def inv(E3, s0, q, mods):
            if not q.key[1].eq(key):
                return []
            return [('listed so far', lambda s2, i2: FA([x], Sel(s2.heap[o]['mem'], x) == z3.Or(Sel(m0, x), z3.Exists([j], z3.And(j < i2, counts(d, j, x)))),
                                                        [Sel(s2.heap[o]['mem'], x)]))]
        E2.loop_specs.insert(0, LoopSpec(lambda E3, n, s2, r: n['k'] == 'rfor', inv, auto=False))
        try:
            for s2, _ in body(s, a):
                E2.log_eq(s2, s2.get(os, 'log'), [ForEach(('range', key), nbases(E2, d), item)], 'post: exposed public bases that are neither hidden nor inlined, and those of inlined bases, once each')
                y = E2.fresh_const(U, 'y')
                s2.assume(listed_is(d, y))
                E2.oblige(s2, Sel(s2.heap[o]['mem'], y) == z3.Or(Sel(m0, y), listed(d, y)), 'post: the listed bases are remembered')
        finally:
            E2.loop_specs.pop(0)
    E.recursion = Recursion(verify, apply)
    E.current = 'RecordExposer::emitType'
    own = attr(E, 'RecordDeclAttrs', '.holder_type', rec, STR)
    for s, _ in run(E, f, st):
        E.log_eq(s, s.get(os, 'log'), ['::pybind11::class_<', E.uf('spec.type', [rec], STR), ('rec', 'bases', (rec,)),
                 Cond(z3.And(has_attrs(E, 'RecordDeclAttrs', rec), own != strval('')), [', ', own], []), '>'], 'post: the class, its bases and its holder type')


UNITS += [('RecordExposer::emitType', EXPOSE, bases_text)]


def exposers(E):
    """DeclContextExposer::create, inliningPolicy"""
    setup_emit(E)
    binding_contracts(E)
    E.lib.opaque |= {RIP}
    E.contracts['genpybind::DeclContextGraph::accepts'] = lambda E2, s, c: E2.uf('spec.is_scope', [E2.to_term(s, c.args[0])], BOOL)
    for k in ('NamespaceDecl', 'EnumDecl', 'CXXRecordDecl'):
        E.contracts['genpybind::%sAttrs::supports' % k.replace('CXX', '')] = lambda E2, s, c, k=k: E2.isa_term('clang::' + k, E2.to_term(s, c.args[0]))
    policy = lambda d: E.uf('spec.policy', [d], U)
    E.contracts[RIP + '::createFromAnnotations'] = lambda E2, s, c: policy(E2.to_term(s, c.args[1]))
    f = one(E.tu, 'genpybind::DeclContextExposer::create')
    st = State()
    ps = params(E, st, f)
    g, ann, ctx = [E.to_term(st, v) for v in ps.values()]
    st.assume(ctx != NULL, E.uf('spec.is_scope', [ctx], BOOL))
    x = z3.Const('x!', U)
    kinds = {'NamespaceExposer': ('NamespaceDecl', 'namespace_decl'), 'EnumExposer': ('EnumDecl', 'enum_decl'), 'RecordExposer': ('CXXRecordDecl', 'record_decl'),
             'DeclContextExposer': (None, None)}
    E.current = 'DeclContextExposer::create'
    for s, v in run(E, f, st):
        o = E.rv(s, v)
        if isinstance(o, Ptr):
            o = o.to
        if not isinstance(o, Obj):
            raise Abort('result of create')
        cls = s.heap[o.oid]['cls'].rsplit('::', 1)[-1]
        kd, fld = kinds.get(cls, (0, 0))
        if kd == 0:
            raise Abort('unknown exposer')
        isa = lambda k: E.isa_term('clang::' + k, ctx)
        E.oblige(s, isa(kd) if kd else z3.Not(z3.Or(*[isa(k) for k, _ in kinds.values() if k])), 'post: each kind of scope has its exposer')
        if fld:
            E.oblige(s, E.to_term(s, s.get(o, fld)) == ctx, 'post: the exposer is that of the scope')
        E.oblige(s, E.to_term(s, s.get(o, 'annotations')) == ann, 'post: it uses the given annotations')
        q = one(E.tu, 'genpybind::%s::inliningPolicy' % ('RecordExposer' if cls == 'RecordExposer' else 'DeclContextExposer'))
        if cls == 'RecordExposer':
            E.oblige(s, E.to_term(s, s.get(o, 'graph')) == g, 'post: it uses the given graph')
        s2 = s.copy()
        s2.env['this'] = o
        for s3, p in run(E, q, s2):
            p = E.rv(s3, p)
            if cls == 'RecordExposer':
                E.oblige(s3, z3.And(E.to_bool(s3, s3.get(p, 'has')), E.to_term(s3, s3.get(p, 'val')) == policy(ctx)), 'post: classes follow the policy given by their annotations')
            else:
                E.oblige(s3, z3.Not(E.to_bool(s3, s3.get(p, 'has'))), 'post: other scopes do not inline anything')


UNITS += [('DeclContextExposer::create', EXPOSE, exposers)]
UNITS += [('ExposableDeclConsumer::FoundDecl', VIS, filter_decls), ('collectVisibleDeclsFromDeclContext', VIS, collect)]


from . import c04 as _c04
UNITS += [u for u in _c04.UNITS if u[0] == 'processAnnotation(RecordDeclAttrs)']
