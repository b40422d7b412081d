"""C08: only_expose_in."""
from .graph import *

SRC = 'src/decl_context_graph_processing.cpp'
UNITS = []
OI = 'NamespaceDeclAttrs'


def foreign(E, st, d, name):
    """The namespace names modules, and the generated one is not among them."""
    v = attrs_of(E, st, {'rec': 'genpybind::NamespaceDeclAttrs'}, d)
    inner = st.get(v, 'val')
    vecv = st.heap[inner.oid]['only_expose_in']
    q = vec_seq(E, st, E.rv(st, vecv))
    j = z3.Int('j')
    return z3.And(E.isa_term('clang::NamespaceDecl', d), has_attrs(E, OI, d), q.n > 0,
                  z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q.n), E.to_term(st, q.get(E, st, j)) != name)))


def hide(E):
    setup(E)
    f = one(E.tu, 'genpybind::hideNamespacesBasedOnExposeInAnnotation')
    st = State()
    ps = params(E, st, f)
    byrec = {}
    for v, p in zip(ps.values(), f['params']):
        byrec[E.cls(st, v) if isinstance(v, Obj) else E.T(p['t']).get('rec')] = v
    g = byrec['genpybind::DeclContextGraph']
    ctx, vis = byrec['set'], byrec['map']
    name = [v for v, p in zip(ps.values(), f['params']) if E.is_string(E.T(p['t']))]
    if len(name) != 1:
        raise Abort('parameters of hideNamespacesBasedOnExposeInAnnotation')
    name = E.to_term(st, E.rv(st, name[0]))
    q = df_seq(E, g)
    st.assume(*q.facts(E, st))
    st.assume(*interval_facts(E, g))
    mem0, dom0, val0 = st.get(ctx, 'mem'), st.get(vis, 'dom'), st.get(vis, 'val')
    F = lambda k: E.uf('spec.foreign', [q.get(E, None, k)], BOOL)
    j, k = z3.Ints('j k')
    v = q.get(E, None, k)
    fdef = foreign(E, st, decl(E, v), name)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < q.n), F(k) == fdef), patterns=[v]))
    # hidden: some foreign namespace whose subtree contains the scope
    H = lambda k: E.uf('spec.hidden', [q.get(E, None, k)], BOOL)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < q.n), H(k) == z3.Exists(
        [j], z3.And(j >= 0, j <= k, F(j), k < end(E, g, j)))), patterns=[H(k)]))
    nid = lambda x: ordn(E, E.uf('df.node_of', [g, x], U))
    seen = lambda x, upto: z3.And(nid(x) >= 0, nid(x) < upto, decl(E, q.get(E, None, nid(x))) == x)

    def tracker(s):
        c = [(o, d) for o, d in s.heap.items() if 'dominator' in d]
        if len(c) != 1:
            raise Abort('contract does not match the traversal state')
        return c[0]

    def step(E2, s, it):
        """++it reports every node whose subtree ends here to completed()."""
        o, d = tracker(s)
        dm = d['dominator']
        m = ordn(E, dm)
        done = z3.And(dm != NULL, m >= 0, m <= it.i, q.get(E, None, m) == dm, end(E, g, m) == it.i + 1)
        d = dict(d)
        d['dominator'] = z3.If(done, NULL, dm)
        s.heap[o] = d
    E.step_hook = step

    def inv(E2, st0, q2, mods):
        def P(s, i):
            dm = tracker(s)[1]['dominator']
            m = ordn(E, dm)
            x = z3.Const('x', U)
            V, C = s.heap[vis.oid], s.heap[ctx.oid]
            ev = end(E, g, k)
            return [
                ('no open foreign namespace without a mark', z3.Implies(dm == NULL, z3.ForAll(
                    [k], z3.Implies(z3.And(k >= 0, k < i, F(k)), ev <= i), patterns=[v]))),
                ('the mark is an open foreign namespace', z3.Implies(dm != NULL, z3.And(
                    m >= 0, m < i, q.get(E, None, m) == dm, F(m), end(E, g, m) > i))),
                ('the mark is outermost', z3.Implies(dm != NULL, z3.ForAll(
                    [k], z3.Implies(z3.And(k >= 0, k < m, F(k)), ev <= m), patterns=[v]))),
                ('visibility', z3.ForAll([x], z3.And(
                    z3.Select(V['dom'], x) == z3.Or(z3.Select(dom0, x), z3.And(seen(x, i), H(nid(x)))),
                    z3.Select(V['val'], x) == z3.If(z3.And(seen(x, i), H(nid(x))), z3.BoolVal(False), z3.Select(val0, x))))),
                ('contexts', z3.ForAll([x], z3.Select(C['mem'], x) == z3.And(
                    z3.Select(mem0, x), z3.Not(z3.And(seen(x, i), H(nid(x))))))),
            ]
        return [(nm, lambda s, i, z=z: P(s, i)[z][1]) for z, (nm, _) in enumerate(P(st0, z3.IntVal(0)))]
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: is_df_loop(n), inv))
    E.current = 'hideNamespacesBasedOnExposeInAnnotation'
    for s, _ in run(E, f, st):
        x = E.fresh_const(U, 'x')
        V, C = s.heap[vis.oid], s.heap[ctx.oid]
        h = z3.And(seen(x, q.n), H(nid(x)))
        E.oblige(s, z3.Implies(h, z3.And(z3.Select(V['dom'], x), z3.Not(z3.Select(V['val'], x)), z3.Not(z3.Select(C['mem'], x)))),
                 'post: everything below a namespace of another module is hidden')
        E.oblige(s, z3.Implies(z3.Not(h), z3.And(z3.Select(V['dom'], x) == z3.Select(dom0, x),
                 z3.Select(V['val'], x) == z3.Select(val0, x), z3.Select(C['mem'], x) == z3.Select(mem0, x))),
                 'post: all other scopes keep their visibility')


def completed(E):
    """The traversal state clears its mark exactly when the marked node is completed."""
    setup(E)
    c = [f for q, fs in E.tu.by_q.items() if q.endswith('TrackVisitedAndDominator::completed') for f in fs if 'body' in f]
    if len(c) != 1:
        raise Abort('traversal callback not found')
    f = c[0]
    st = State()
    dm = z3.Const('dominator', U)
    me = E.new_obj(st, f['fn'].get('cls') or 'tracker', dominator=dm, visited=E.fresh_const(U, 'visited'))
    st.env['this'] = me
    ps = params(E, st, f)
    node = E.to_term(st, E.rv(st, list(ps.values())[0]))
    E.current = 'completed'
    for s, _ in run(E, f, st):
        E.oblige(s, E.to_term(s, s.get(me, 'dominator')) == z3.If(z3.And(node == dm), NULL, dm), 'post: the mark is cleared iff it is the completed node')


UNITS += [('hideNamespacesBasedOnExposeInAnnotation', SRC, hide), ('TrackVisitedAndDominator::completed', SRC, completed)]


from . import c04 as _c04
UNITS += [u for u in _c04.UNITS if u[0] == 'processAnnotation(NamespaceDeclAttrs)']
