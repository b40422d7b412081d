"""C09: pruning keeps exactly the scopes that have something to expose."""
from .graph import *

SRC = 'src/decl_context_graph_processing.cpp'
UNITS = []


def pord(E, x):
    return E.uf('po.ord', [x], INT)


def po_seq(E, g):
    """Contract of llvm::post_order on a tree: every reachable node once, children first."""
    n = E.uf('po.n', [g], INT)
    visit = lambda i: E.uf('po.visit', [g, i], U)
    k, j = z3.Ints('k j')

    def facts(E2, st):
        v = visit(k)
        c = child(E, v, j)
        rng = z3.And(k >= 0, k < n)
        return [
            n >= 1,
            z3.ForAll([k], z3.Implies(rng, z3.And(pord(E, v) == k, v != NULL, decl(E, v) != NULL,
                                                  E.uf('df.node_of', [g, decl(E, v)], U) == v)), patterns=[v]),
            z3.ForAll([k], z3.Implies(rng, nchild(E, v) >= 0), patterns=[v]),
            z3.ForAll([k, j], z3.Implies(z3.And(rng, j >= 0, j < nchild(E, v)),
                                         z3.And(pord(E, c) >= 0, pord(E, c) < k, visit(pord(E, c)) == c)), patterns=[c]),
        ]
    return Seq(n, lambda E2, st, i: visit(i), ('po', g), facts)


def nchild(E, v):
    return E.uf('range.size', [v], INT)


def child(E, v, j):
    return E.uf('range.at', [v, j], U)


def lex(E, x, ctx):
    """Closest lexical scope around x (x included) that is an opening of ctx, if any."""
    return E.uf('spec.opening', [x, ctx], U)


def lex_axiom(E):
    c, x = z3.Consts('c! x!', U)
    eq = E.uf('clang::DeclContext::Equals', [c, x], BOOL)
    L = lex(E, c, x)
    return z3.ForAll([c, x], L == z3.If(z3.Or(c == NULL, eq), c, lex(E, E.uf('clang::DeclContext::getLexicalParent', [c], U), x)), patterns=[L])


def members(E, ctx):
    n = E.uf('spec.members.n', [ctx], INT)
    return n, lambda j: E.uf('spec.member', [ctx, j], U)


def with_visible(E):
    """declContextsWithVisibleNamedDecls"""
    setup(E)
    L = E.lib
    E.quant_obligations = True
    f = one(E.tu, 'genpybind::declContextsWithVisibleNamedDecls')
    L.models['llvm::post_order'] = lambda E2, st, c: po_seq(E2, E2.to_term(st, c.args[0]))
    L.pure |= {'clang::DeclContext::Equals', 'clang::DeclContext::getLexicalParent', 'clang::Decl::getLexicalDeclContext'}
    st = State()
    ps = params(E, st, f)
    rec = {}
    for v, p in zip(ps.values(), f['params']):
        t = E.T(p['t'])
        rec[E.cls(st, v) if isinstance(v, Obj) else t.get('rec') or E.T(t.get('to', p['t'])).get('rec')] = v
    g = E.to_term(st, rec['genpybind::DeclContextGraph'])
    vis = rec['map']
    q = po_seq(E, g)
    st.assume(*q.facts(E, st))
    E.lazy_facts.append(lex_axiom(E))
    dom, val = st.get(vis, 'dom'), st.get(vis, 'val')
    k, j, m = z3.Ints('k j m')
    v = q.get(E, None, k)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < q.n), z3.Select(dom, decl(E, v))), patterns=[v]))

    def coll(E2, s, c):
        ctx = E2.to_term(s, c.args[1])
        n, at = members(E2, ctx)
        s.assume(n >= 0)
        i = z3.Int('i')
        s.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(at(i) != NULL, E.isa_term('clang::NamedDecl', at(i)), z3.Not(E.uf('spec.accepts', [at(i)], BOOL)))), patterns=[at(i)]))
        return vec(E2, s, U, n, z3.Lambda([i], at(i)))
    E.contracts['genpybind::collectVisibleDeclsFromDeclContext'] = coll
    E.contracts['genpybind::DeclContextGraph::accepts'] = lambda E2, s, c: E2.uf('spec.accepts', [E2.to_term(s, c.args[0])], BOOL)

    # specification
    tag = lambda d: E.isa_term('clang::TagDecl', d)
    V = lambda d: z3.Select(val, d)
    HV = lambda n: E.uf('spec.has_visible', [n], BOOL)
    nmvis = lambda d: z3.And(has_attrs(E, 'NamedDeclAttrs', d), attr(E, 'NamedDeclAttrs', '.visible?', d, BOOL))
    eff = lambda d, ctx: z3.If(nmvis(d), attr(E, 'NamedDeclAttrs', '.visible!', d, BOOL), V(ctx))
    # (an element of this scope, and not of another opening of the same namespace)
    o = lambda d, ctx: lex(E, E.uf('clang::Decl::getLexicalDeclContext', [d], U), ctx)
    other = lambda d, ctx: z3.And(o(d, ctx) != NULL, o(d, ctx) != ctx, E.isa_term('clang::NamespaceDecl', ctx))
    specs = lambda d: E.uf('clang::FunctionTemplateDecl::specializations', [d], U)
    nspec = lambda d: E.uf('range.size', [specs(d)], INT)
    spec = lambda d, i: E.uf('range.at', [specs(d), i], U)

    def own(d, ctx):
        return z3.And(z3.Not(other(d, ctx)), z3.Not(E.uf('clang::Decl::isImplicit', [d], BOOL)),
                      z3.Or(eff(d, ctx), z3.And(E.isa_term('clang::FunctionTemplateDecl', d),
                            z3.Exists([m], z3.And(m >= 0, m < nspec(d), eff(spec(d, m), ctx))))))
    ctx = decl(E, v)
    ch = child(E, v, j)
    d = decl(E, ch)
    n, at = members(E, ctx)
    rhs = z3.Or(z3.Exists([j], z3.And(j >= 0, j < nchild(E, v), z3.Or(
                    z3.And(tag(d), V(d)),                        # a visible class or enum
                    z3.And(HV(ch), z3.Not(tag(d)))))),           # a nested namespace with something visible
                z3.Exists([j], z3.And(j >= 0, j < n, own(at(j), ctx))))
    # a visible class with visible members counts as visible class
    E.lazy_facts.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < q.n), HV(v) == rhs), patterns=[v]))
    pid = lambda x: pord(E, E.uf('df.node_of', [g, x], U))
    expect = lambda x, upto: z3.And(pid(x) >= 0, pid(x) < upto, decl(E, q.get(E, None, pid(x))) == x, HV(q.get(E, None, pid(x))))

    def inv(E2, st0, q2, mods):
        oid = mod_obj(E2, st0, mods, 'set')
        x = z3.Const('x', U)
        return [('result', lambda s, i: z3.ForAll([x], z3.Select(s.heap[oid]['mem'], x) == expect(x, i),
                                                  patterns=[z3.Select(s.heap[oid]['mem'], x)]))]

    def is_po(E2, n, s, r):
        return n['k'] == 'rfor' and bool(calls(n['range'], 'post_order'))
    E.loop_specs.append(LoopSpec(is_po, inv))

    def linv(E2, s0, q2, mods):
        out = []
        for m2 in mods:
            w = E2.mod_val(s0, m2)
            if is_z3(w) and w.sort() == U and m2 in E2.lex_entry:
                e, c = E2.lex_entry[m2]
                out.append(('same opening', lambda s, i, m2=m2, e=e, c=c: lex(E, E.mod_val(s, m2), c) == lex(E, e, c)))
        return out
    E.lex_entry = {}

    def lex_match(E2, n, s, r):
        if n['k'] not in ('while', 'for'):
            return False
        # the opening is searched for the declaration context compared with
        eqs = calls(n, 'Equals')
        if not eqs:
            return False
        E2.lex_entry = {}
        cands = []
        for a in [eqs[0].get('obj')] + eqs[0]['a']:
            try:
                cands.append(E2.to_term(s, E2.rv(s, E2.ev1(a, s.copy())[0][1])))
            except Exception:
                return False
        if len(cands) != 2:
            return False
        for i, w in s.cells.items():
            if is_z3(w) and w.sort() == U:
                for e, c in (cands, cands[::-1]):
                    if w.eq(e):
                        E2.lex_entry[('c', i)] = (e, c)
                        break
        return True

    def lfinal(E2, s0, mods):
        return {m2: lex(E2, *E2.lex_entry[m2]) for m2 in mods if m2 in E2.lex_entry}
    level = lambda t: E.uf('spec.level', [t], INT)
    c = z3.Const('c!', U)
    E.lazy_facts.append(z3.ForAll([c], z3.And(level(c) >= 0, z3.Implies(
        c != NULL, level(E.uf('clang::DeclContext::getLexicalParent', [c], U)) < level(c))), patterns=[level(c)]))

    def dec(E2, s):
        vs = [E2.mod_val(s, m2) for m2 in E2.lex_entry]
        return z3.Sum([level(w) for w in vs]) if len(vs) > 1 else level(vs[0])
    E.loop_specs.append(LoopSpec(lex_match, linv, final=lfinal, decreases=dec))
    E.current = 'declContextsWithVisibleNamedDecls'
    for s, r in run(E, f, st):
        mem = s.heap[E.rv(s, r).oid]['mem']
        x = E.fresh_const(U, 'x')
        E.oblige(s, z3.Select(mem, x) == expect(x, q.n), 'post: exactly the scopes with something visible')


UNITS += [('declContextsWithVisibleNamedDecls', SRC, with_visible)]


def prune(E):
    """pruneGraph"""
    setup(E)
    L = E.lib
    f = one(E.tu, 'genpybind::pruneGraph')
    st = State()
    ps = params(E, st, f)
    rec = {}
    for v, p in zip(ps.values(), f['params']):
        rec[E.cls(st, v) if isinstance(v, Obj) else E.T(p['t']).get('rec')] = v
    g = E.to_term(st, rec['genpybind::DeclContextGraph'])
    mem = st.get(rec['set'], 'mem')
    dom, val = st.get(rec['map'], 'dom'), st.get(rec['map'], 'val')
    q = df_seq(E, g)
    st.assume(*q.facts(E, st))
    st.assume(*interval_facts(E, g))
    k, j = z3.Ints('k j')
    at = lambda i: q.get(E, None, i)
    v = at(k)
    rng = z3.And(k >= 0, k < q.n)
    st.assume(z3.ForAll([k], z3.Implies(rng, z3.Select(dom, decl(E, v))), patterns=[v]))
    st.assume(E.isa_term('clang::TranslationUnitDecl', decl(E, at(z3.IntVal(0)))))
    # parents enclose their children
    po = ordn(E, par(E, v))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(rng, k > 0), k < end(E, g, po)), patterns=[v]))
    st.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < q.n, k < end(E, g, j)), po >= j),
                        patterns=[z3.MultiPattern(end(E, g, j), v)]))
    # specification
    keeps = lambda d: z3.If(E.isa_term('clang::TagDecl', d), z3.Select(val, d), z3.Select(mem, d))
    kept = lambda x: E.uf('spec.kept', [x], BOOL)
    st.assume(z3.ForAll([k], z3.Implies(rng, kept(v) == z3.And(keeps(decl(E, v)), z3.Or(k == 0, kept(par(E, v))))), patterns=[v]))
    # lemma: nothing below a scope that is not kept is kept (induction over the traversal)
    E.current = 'pruneGraph'
    lem = lambda k2: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= k2, z3.Or(j == k2, k2 < end(E, g, j)), kept(at(k2))), kept(at(j))),
                               patterns=[end(E, g, j)])
    s = st.copy()
    k0 = E.fresh_const(INT, 'k')
    s.assume(k0 >= 0, k0 < q.n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < k0), lem(k)), patterns=[v]))
    j0 = E.fresh_const(INT, 'j')
    s.assume(j0 >= 0, j0 <= k0, z3.Or(j0 == k0, k0 < end(E, g, j0)), kept(at(k0)))
    s.assume(z3.Implies(k0 > 0, z3.And(at(ordn(E, par(E, at(k0)))) == par(E, at(k0)))))
    E.oblige(s, kept(at(j0)), 'lemma: the ancestors of kept scopes are kept')
    st.assume(z3.ForAll([k], z3.Implies(rng, lem(k)), patterns=[v]))
    # the pruned graph: ghost relation child -> parent
    x = z3.Const('x', U)
    node = lambda gr, d: E.uf('spec.node', [gr, d], U)
    gr_of, d_of = lambda n: E.uf('spec.node_graph', [n], U), lambda n: E.uf('spec.node_decl', [n], U)
    G = E.new_obj(st, 'ghost', dom=z3.K(U, False), val=z3.K(U, NULL), ok=z3.BoolVal(True), made=z3.IntVal(0))
    P = z3.Const('pruned', U)

    def make(E2, s, ty, args, e):
        if len(args) == 1 and is_z3(E2.rv(s, args[0])) and E2.rv(s, args[0]).eq(P):
            return P
        s.set(G, 'made', s.get(G, 'made') + 1)
        s.set(G, 'ok', z3.And(s.get(G, 'ok'), E2.to_term(s, args[0]) == decl(E, at(z3.IntVal(0)))))
        return P
    L.ctors['genpybind::DeclContextGraph'] = make

    def insert(E2, s, c):
        t = node(E2.to_term(s, c.obj), E2.to_term(s, c.args[0]))
        s.assume(gr_of(t) == E2.to_term(s, c.obj), d_of(t) == E2.to_term(s, c.args[0]))
        return t
    E.contracts['genpybind::DeclContextGraph::getOrInsertNode'] = insert
    E.contracts['genpybind::DeclContextGraph::getRoot'] = lambda E2, s, c: at(z3.IntVal(0))

    def add(E2, s, c):
        a, b = E2.to_term(s, c.obj), E2.to_term(s, c.args[0])
        d = d_of(b)
        s.set(G, 'ok', z3.And(s.get(G, 'ok'), gr_of(a) == P, gr_of(b) == P, z3.Not(z3.Select(s.get(G, 'dom'), d))))
        s.set(G, 'dom', z3.Store(s.get(G, 'dom'), d, True))
        s.set(G, 'val', z3.Store(s.get(G, 'val'), d, d_of(a)))
    E.contracts['genpybind::DeclContextNode::addChild'] = add

    def skip(E2, s, c):
        it = E2.rv(s, c.obj)
        if not isinstance(it, Iter):
            raise Abort('skipChildren')
        E2.oblige(s, it.i < q.n, 'skipChildren is not called at the end')
        c.obj.store(E2, s, Iter(it.seq, end(E2, g, it.i), it.owner))
    L.models['llvm::df_iterator::skipChildren'] = skip

    nid = lambda y: ordn(E, E.uf('df.node_of', [g, y], U))
    edge = lambda y, upto: z3.And(nid(y) > 0, nid(y) < upto, decl(E, at(nid(y))) == y, kept(at(nid(y))))

    def inv(E2, s0, q2, mods):
        its = [m for m in mods if isinstance(E2.mod_val(s0, m), Iter)]
        if not its and not mods:
            return []
        if len(its) != 1:
            raise Abort('loop contract: one traversal position expected')
        I = lambda s: E2.mod_val(s, its[0]).i
        H = lambda s: s.heap[G.oid]
        return [
            ('position', lambda s, i: z3.And(I(s) >= 0, I(s) <= q.n)),
            ('no scope that is not kept is open', lambda s, i: z3.ForAll(
                [k], z3.Implies(z3.And(k >= 0, k < I(s), z3.Not(kept(v))), end(E, g, k) <= I(s)), patterns=[v])),
            ('edges', lambda s, i: z3.ForAll([x], z3.Select(H(s)['dom'], x) == edge(x, I(s)))),
            ('parents', lambda s, i: z3.ForAll([x], z3.Implies(edge(x, I(s)), z3.Select(H(s)['val'], x) == decl(E, par(E, at(nid(x))))))),
            ('nodes of the new graph are linked once', lambda s, i: H(s)['ok']),
        ]

    def dec(E2, s):
        its = [c for c in s.cells.values() if isinstance(c, Iter) and not z3.simplify(c.i).eq(q.n)]
        if len(its) != 1:
            raise Abort('loop contract: traversal position')
        return q.n - its[0].i
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] in ('for', 'while'), inv))
    for s, r in run(E, f, st):
        y = E.fresh_const(U, 'y')
        H = s.heap[G.oid]
        E.oblige(s, E.to_term(s, r) == P, 'post: the new graph is returned')
        E.oblige(s, z3.And(H['ok'], H['made'] == 1), 'post: one graph with the same root, every kept scope linked once')
        E.oblige(s, z3.Select(H['dom'], y) == edge(y, q.n), 'post: exactly the kept scopes are linked')
        E.oblige(s, z3.Implies(edge(y, q.n), z3.Select(H['val'], y) == decl(E, par(E, at(nid(y))))), 'post: kept scopes keep their parent')


UNITS += [('pruneGraph', SRC, prune)]


def before(E, a, b):
    """a comes before b in the source"""
    return E.uf('spec.before', [a, b], BOOL)


def source_order(E):
    E.contracts['genpybind::IsBeforeInTranslationUnit::operator()'] = lambda E2, s, c: before(
        E2, E2.to_term(s, c.args[0]), E2.to_term(s, c.args[1]))
    fn = PyFn(lambda E2, s, args: before(E2, E2.to_term(s, args[0]), E2.to_term(s, args[1])))
    E.lib.ctors['genpybind::IsBeforeInTranslationUnit'] = lambda E2, s, ty, args, e: fn


def reports(E, st, kind):
    """Ghost log of the reports of the given kind; others are flagged."""
    G = E.new_obj(st, 'ghost', log=())

    def report(E2, s, c):
        k = E2.to_term(s, c.args[1])
        s.set(G, 'log', s.get(G, 'log') + (('rec', 'report', (E2.to_term(s, c.args[0]), k)),))
        return E2.new_obj(s, 'diag', args=())
    E.contracts['genpybind::Diagnostics::report'] = report

    def out(E2, s, c):
        o = E2.rv(s, c.obj if c.obj is not None else c.args[0])
        return o if isinstance(o, Obj) and E2.cls(s, o) == 'diag' else NotImplemented
    for q in ('clang::operator<<', 'clang::DiagnosticBuilder::operator<<', 'clang::StreamingDiagnostic::operator<<'):
        E.contracts[q] = out
    E.contracts['genpybind::getNameForDisplay'] = lambda E2, s, c: E2.uf('spec.display', [E2.to_term(s, c.args[0])], STR)
    return G, lambda d: ('rec', 'report', (d, z3.IntVal(E.tu.enums['genpybind::Diagnostics::Kind'][kind])))


def check_sorted_reports(E, s, G, rec, content, what):
    """The reports are those of content, in source order (content lists the declarations in some order)."""
    log = s.get(G, 'log')
    vs = [d for d in s.heap.values() if d.get('cls') == 'vec' and '_sorted' in d]
    if len(vs) != 1:
        raise Abort('reports are not sorted with std::sort')
    d = vs[0]
    old, lt, a, b = d['_sorted']
    E.oblige(s, lt == before(E, a, b), 'post: %s are reported in source order' % what)
    E.log_eq(s, old, content, 'post: exactly the %s are collected' % what)
    E.log_eq(s, log, [ForEach(('vec', d['arr']), d['n'], lambda i: [rec(z3.Select(d['arr'], i))])], 'post: all %s are reported' % what)
    return d['n']


def unreachable(E):
    """reportUnreachableVisibleDeclContexts"""
    setup(E)
    source_order(E)
    f = one(E.tu, 'genpybind::reportUnreachableVisibleDeclContexts')
    st = State()
    ps = params(E, st, f)
    rec = {}
    for v, p in zip(ps.values(), f['params']):
        rec[E.cls(st, v) if isinstance(v, Obj) else E.T(p['t']).get('rec')] = v
    g = E.to_term(st, rec['genpybind::DeclContextGraph'])
    mem = st.get(rec['set'], 'mem')
    dom, val = st.get(rec['map'], 'dom'), st.get(rec['map'], 'val')
    E.contracts['genpybind::DeclContextGraph::getNode'] = lambda E2, s, c: E2.uf('spec.get_node', [E2.to_term(s, c.obj), E2.to_term(s, c.args[0])], U)
    G, report = reports(E, st, 'UnreachableDeclContextWarning')
    E.current = 'reportUnreachableVisibleDeclContexts'

    def item(x):
        missing = z3.And(E.isa_term('clang::NamedDecl', x), E.uf('spec.get_node', [g, x], U) == NULL)
        return [Cond(missing, [('rec', 'elem', (z3.If(z3.Select(dom, x), z3.Select(val, x), x),))])]
    for s, r in run(E, f, st):
        check_sorted_reports(E, s, G, report, [ForEach(('set', mem), None, item, elem=True)], 'unreachable scopes')


UNITS += [('reportUnreachableVisibleDeclContexts', SRC, unreachable)]


def is_before(E):
    """IsBeforeInTranslationUnit::operator() on declarations"""
    setup(E)
    E.lib.pure |= {'clang::SourceManager::isBeforeInTranslationUnit'}
    fs = [f for f in E.tu.find('genpybind::IsBeforeInTranslationUnit::operator()') if 'body' in f
          and 'Decl' in E.T(f['params'][0]['t'])['s']]
    if len(fs) != 1:
        raise Abort('IsBeforeInTranslationUnit::operator()')
    st = State()
    sm = z3.Const('source_manager', U)
    st.env['this'] = E.new_obj(st, 'genpybind::IsBeforeInTranslationUnit', source_manager=sm)
    a, b = [E.to_term(st, v) for v in params(E, st, fs[0]).values()]
    E.current = 'IsBeforeInTranslationUnit'
    loc = lambda x: E.uf('clang::Decl::getLocation', [x], U)
    st.assume(a != NULL, b != NULL)
    for s, r in run(E, fs[0], st):
        E.oblige(s, E.to_bool(s, r) == E.uf('clang::SourceManager::isBeforeInTranslationUnit', [sm, loc(a), loc(b)], BOOL),
                 'post: compares the positions in the translation unit')


UNITS += [('IsBeforeInTranslationUnit::operator()', 'src/sort_decls.cpp', is_before)]


from .lookup import filter_decls, collect, VIS
UNITS += [('ExposableDeclConsumer::FoundDecl', VIS, filter_decls), ('collectVisibleDeclsFromDeclContext', VIS, collect)]
