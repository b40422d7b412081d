"""C10: scopes are emitted once, after their prerequisites, or a cycle is reported."""
from .c09 import *

UNITS = []
Sel = z3.Select
AIB = z3.ArraySort(INT, BOOL)
AII = z3.ArraySort(INT, INT)


# ---- cardinality of the edges that are not done yet
def card(E, d, n):
    return E.uf('spec.open', [d, n], INT)


def card_facts(E):
    """Consequences of card(d, 0) = 0, card(d, m + 1) = card(d, m) + (d[m] ? 0 : 1); see unit 'counting'."""
    d = z3.Const('d!', AIB)
    n, j = z3.Ints('n! j!')
    C = card(E, d, n)
    w = E.uf('spec.open_at', [d, n], INT)
    ds = z3.Store(d, j, True)
    return [
        ('counts are not negative', [d, n], z3.Implies(n >= 0, C >= 0), [C]),
        ('nothing open: all done', [d, n, j], z3.Implies(z3.And(n >= 0, C == 0, j >= 0, j < n), Sel(d, j)), [z3.MultiPattern(C, Sel(d, j))]),
        ('something open', [d, n], z3.Implies(z3.And(n >= 0, C != 0), z3.And(w >= 0, w < n, z3.Not(Sel(d, w)))), [C]),
        ('one done', [d, n, j], z3.Implies(z3.And(j >= 0, j < n, z3.Not(Sel(d, j))), card(E, ds, n) == C - 1), [card(E, ds, n)]),
        ('initially all are open', [n], z3.Implies(n >= 0, card(E, z3.K(INT, False), n) == n), [card(E, z3.K(INT, False), n)]),
    ]


def counting(E):
    """The counting lemmas, by induction."""
    E.current = 'counting'
    d = z3.Const('d!', AIB)
    m, j = z3.Ints('m! j!')
    cd = lambda dd, nn: card(E, dd, nn)
    base, step = State(), State()
    for s in (base, step):
        s.assume(m >= 0)
    # definition at the arrays and bounds concerned
    K0 = z3.K(INT, z3.BoolVal(False))
    ds = z3.Store(d, j, True)
    for x in (d, ds, K0):
        base.assume(cd(x, z3.IntVal(0)) == 0)
        step.assume(cd(x, m + 1) == cd(x, m) + z3.If(Sel(x, m), 0, 1))
    z = z3.IntVal(0)
    w = lambda nn: z3.Int('w%s' % nn)
    P = {
        'not negative': lambda nn: cd(d, nn) >= 0,
        'nothing open: all done': lambda nn: z3.Implies(cd(d, nn) == 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nn), Sel(d, j)))),
        'something open': lambda nn: z3.Implies(cd(d, nn) != 0, z3.Exists([j], z3.And(j >= 0, j < nn, z3.Not(Sel(d, j))))),
        'one done': lambda nn: z3.And(z3.Implies(z3.And(j >= 0, j < nn, z3.Not(Sel(d, j))), cd(ds, nn) == cd(d, nn) - 1),
                                      z3.Implies(z3.Or(j < 0, j >= nn), cd(ds, nn) == cd(d, nn))),
        'initially': lambda nn: cd(K0, nn) == nn,
    }
    for k, f in P.items():
        E.oblige(base, f(z), 'lemma (%s): no edges' % k)
        s = step.copy()
        s.assume(f(m))
        if k != 'not negative':
            s.assume(cd(d, m) >= 0)
        E.oblige(s, f(m + 1), 'lemma (%s): one more edge' % k)
    # pigeonhole: an injection of [0, a) into [0, b) exists only if a <= b
    f = z3.Function('f!', INT, INT)
    a, b, i, k = z3.Ints('a! b! i! k!')
    inj = lambda g, a_: z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < k, k < a_), g(i) != g(k)))
    into = lambda g, a_, b_: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a_), z3.And(g(i) >= 0, g(i) < b_)))
    s = State()
    s.assume(a >= 0, inj(f, a + 1), into(f, a + 1, b))
    h = lambda x: z3.If(f(x) == b - 1, f(a), f(x))
    E.oblige(s, z3.And(inj(h, a), into(h, a, b - 1)), 'lemma (pigeonhole): induction step')
    s = State()
    s.assume(z3.BoolVal(True))
    E.oblige(s, z3.Implies(into(f, z3.IntVal(1), b), b >= 1), 'lemma (pigeonhole): one element')


UNITS += [('counting lemmas', SRC, counting)]


class Deps:
    """Abstract graph: n nodes, predecessors of each, all of them nodes."""

    def __init__(self, E, g):
        self.E = E
        self.n = E.uf('spec.nodes.n', [g], INT)
        self.g = g

    def at(self, i):
        return self.E.uf('spec.nodes.at', [self.g, i], U)

    def nid(self, x):
        return self.E.uf('spec.nodes.id', [x], INT)

    def inn(self, x):
        return z3.And(self.nid(x) >= 0, self.nid(x) < self.n, self.at(self.nid(x)) == x)

    def np(self, x):
        return self.E.uf('spec.pred.n', [x], INT)

    def pred(self, x, j):
        return self.E.uf('spec.pred', [x, j], U)

    def edge(self, w, j):
        return z3.And(self.inn(w), j >= 0, j < self.np(w))

    def facts(self):
        k, j = z3.Ints('k j')
        x = z3.Const('x', U)
        a = self.at(k)
        return [self.n >= 0,
                z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.n), z3.And(self.nid(a) == k, a != NULL)), patterns=[a]),
                z3.ForAll([x], self.np(x) >= 0, patterns=[self.np(x)]),
                z3.ForAll([x, j], z3.Implies(self.edge(x, j), z3.And(self.inn(self.pred(x, j)), self.pred(x, j) != x)),
                          patterns=[self.pred(x, j)])]


def pigeonhole(E, st, f, a, b):
    i, k = z3.Ints('i! k!')
    st.assume(z3.Implies(z3.And(
        a >= 0,
        z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < k, k < a), f(i) != f(k))),
        z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a), z3.And(f(i) >= 0, f(i) < b)))), z3.Or(a == 0, a <= b)))


def toposort(E):
    """lexicographicalTopologicalSort"""
    setup(E)
    L = E.lib
    f = one(E.tu, 'lexicographicalTopologicalSort')
    st = State()
    g = z3.Const('graph', U)
    N = Deps(E, g)
    st.assume(*N.facts())
    cmp = lambda a, b: E.uf('spec.after', [a, b], BOOL)
    nodes = Seq(N.n, lambda E2, s, i: N.at(i), ('nodes', g), lambda E2, s: [N.n >= 0])
    L.models['llvm::nodes'] = lambda E2, s, c: nodes
    size = lambda E2, s, c: N.n
    for q in list(E.tu.by_q) + ['llvm::GraphTraits<const genpybind::DeclContextGraph *>::size']:
        if q.startswith('llvm::GraphTraits') and q.endswith('::size'):
            E.contracts[q] = size
    for nm in ('llvm::GraphTraits::size', 'genpybind::DeclContextGraph::size'):
        E.contracts[nm] = size
    G = E.new_obj(st, 'ghost', pos=z3.Const('pos0', z3.ArraySort(U, AII)), sj=z3.Const('sj0', z3.ArraySort(U, AII)),
                  D=z3.K(U, z3.K(INT, False)), ridx=z3.K(U, z3.IntVal(-1)))
    for i, (nm, vs, fm, pat) in enumerate(card_facts(E)):
        E.lazy_facts.append(z3.ForAll(vs, fm, patterns=pat))
    x, u, w = z3.Consts('x u w', U)
    p, j, k = z3.Ints('p j k')

    def objs(s):
        suc = [d for d in s.heap.values() if d['cls'] == 'map' and '_vec' in d]
        num = [d for d in s.heap.values() if d['cls'] == 'map' and '_vec' not in d]
        pq = [d for d in s.heap.values() if d['cls'] == 'pq']
        if len(suc) != 1 or len(num) != 1 or len(pq) != 1:
            raise Abort('contract does not match the data structures of the sort')
        return suc[0], num[0], pq[0]

    def result(s):
        r = [d for d in s.heap.values() if d['cls'] == 'vec' and d['arr'].sort().range() == U]
        if len(r) != 1:
            raise Abort('contract does not match the result of the sort')
        return r[0]
    gh = lambda s: s.heap[G.oid]

    def phase1(s, i, jj):
        """Edges of the first i nodes and the first jj edges of node i are recorded."""
        suc, num, pq = objs(s)
        H = gh(s)
        E1 = lambda w_, j_: z3.And(N.edge(w_, j_), z3.Or(N.nid(w_) < i, z3.And(N.nid(w_) == i, j_ < jj)))
        su, sl, sd = lambda t, q_: Sel(Sel(suc['val'], t), q_), lambda t: Sel(suc['len'], t), lambda t: Sel(suc['dom'], t)
        sw, sjj = su(u, p), Sel(Sel(H['sj'], u), p)
        pr = N.pred(w, j)
        ps = Sel(Sel(H['pos'], w), j)
        return [
            ('counted nodes', FA([x], Sel(num['dom'], x) == z3.And(N.inn(x), z3.Or(N.nid(x) < i, z3.And(N.nid(x) == i, jj > 0))),
                                        patterns=[Sel(num['dom'], x)])),
            ('counts', FA([x], z3.Implies(N.inn(x), z3.And(z3.Implies(N.nid(x) < i, Sel(num['val'], x) == N.np(x)),
                                 z3.Implies(z3.And(N.nid(x) == i, jj > 0), Sel(num['val'], x) == jj))), patterns=[Sel(num['val'], x)])),
            ('successors are edges', FA([u, p], z3.Implies(z3.And(sd(u), p >= 0, p < sl(u)), z3.And(
                E1(sw, sjj), N.pred(sw, sjj) == u, Sel(Sel(H['pos'], sw), sjj) == p)), patterns=[sw])),
            ('edges are recorded', FA([w, j], z3.Implies(E1(w, j), z3.And(
                sd(pr), ps >= 0, ps < sl(pr), su(pr, ps) == w, Sel(Sel(H['sj'], pr), ps) == j)), patterns=[pr])),
            ('keys', FA([u], z3.Implies(sd(u), z3.And(N.inn(u), sl(u) >= 1)), patterns=[sd(u)])),
            ('ready', FA([x], Sel(pq['mem'], x) == z3.And(N.inn(x), N.nid(x) < i, N.np(x) == 0), patterns=[Sel(pq['mem'], x)])),
        ]

    def names(fn, *a):
        return [t[0] for t in fn(*a)]

    def inv1(E2, s0, q, mods):
        return [(nm, lambda s, i, z=z: phase1(s, i, z3.IntVal(0))[z][1]) for z, nm in enumerate(names(phase1, s0, z3.IntVal(0), z3.IntVal(0)))]

    def find_preds(E2, s, args):
        v = E2.to_term(s, args[0])
        add = args[1]
        q = Seq(N.np(v), lambda E3, s3, i: N.pred(v, i), ('preds', v), lambda E3, s3: [N.np(v) >= 0])
        i = N.nid(v)

        def inv(E3, s0, q2, mods):
            return [(nm, lambda s1, jj, z=z: phase1(s1, i, jj)[z][1]) for z, nm in enumerate(names(phase1, s0, i, z3.IntVal(0)))]

        def ghost(E3, s1, jj, q2):
            suc, num, pq = objs(s1)
            H = dict(gh(s1))
            t = N.pred(v, jj)
            last = Sel(suc['len'], t) - 1
            H['pos'] = z3.Store(H['pos'], v, z3.Store(Sel(H['pos'], v), jj, last))
            H['sj'] = z3.Store(H['sj'], t, z3.Store(Sel(H['sj'], t), last, jj))
            s1.heap[G.oid] = H

        def body(s1, jj):
            return [(s2, None) for s2, _ in E2.invoke(s1, add, [N.pred(v, jj)], {'t': None, 'k': 'call', 'l': 0})]
        return [(s2, None) for s2, _ in E2.seq_loop(s, q, body, {'l': 'predecessors', 'k': 'rfor'}, LoopSpec(None, inv, ghost=ghost, auto=False))]

    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] == 'rfor' and isinstance(E2.rv(s, r), Seq) and E2.rv(s, r).key == ('nodes', g), inv1, auto=False))

    def proc(s):
        R, H = result(s), gh(s)
        return lambda t: z3.And(Sel(H['ridx'], t) >= 0, Sel(H['ridx'], t) < R['n'], Sel(R['arr'], Sel(H['ridx'], t)) == t)

    def waits(s, t, kk, m=None):
        """t is among the first kk results, or one of its predecessors is not."""
        P, H = proc(s), gh(s)
        b = lambda y: z3.And(P(y), Sel(H['ridx'], y) < kk)
        return z3.Or(b(t), z3.Exists([j], z3.And(j >= 0, j < N.np(t), z3.Not(b(N.pred(t, j))))))

    def common(s, cur=None, upto=None):
        """Invariant; while the successors of cur are handled, the first upto of them are done."""
        suc, num, pq = objs(s)
        H, R = gh(s), result(s)
        P = proc(s)
        su, sl, sd = lambda t, q_: Sel(Sel(suc['val'], t), q_), lambda t: Sel(suc['len'], t), lambda t: Sel(suc['dom'], t)
        sw, sjj = su(u, p), Sel(Sel(H['sj'], u), p)
        pr = N.pred(w, j)
        ps = Sel(Sel(H['pos'], w), j)
        rk = Sel(R['arr'], k)
        done = P(pr) if cur is None else z3.Or(P(pr), z3.And(pr == cur, ps < upto))
        res = [
            ('counted nodes', FA([x], Sel(num['dom'], x) == N.inn(x), patterns=[Sel(num['dom'], x)])),
            ('open edges are counted', FA([x], z3.Implies(N.inn(x), Sel(num['val'], x) == card(E, Sel(H['D'], x), N.np(x))), patterns=[Sel(num['val'], x)])),
            ('done edges', FA([w, j], z3.Implies(N.edge(w, j), Sel(Sel(H['D'], w), j) == done), patterns=[Sel(Sel(H['D'], w), j), pr])),
            ('ready', FA([x], Sel(pq['mem'], x) == z3.And(N.inn(x), z3.Not(P(x)), x != cur if cur is not None else True, Sel(num['val'], x) == 0),
                                patterns=[Sel(pq['mem'], x), Sel(num['val'], x), N.nid(x)])),
        ]
        if cur is None:
            res += [
                ('successors are edges', FA([u, p], z3.Implies(z3.And(sd(u), p >= 0, p < sl(u)), z3.And(
                    N.edge(sw, sjj), N.pred(sw, sjj) == u, Sel(Sel(H['pos'], sw), sjj) == p)), patterns=[sw])),
                ('open edges are recorded', FA([w, j], z3.Implies(z3.And(N.edge(w, j), z3.Not(P(pr))), z3.And(
                    sd(pr), ps >= 0, ps < sl(pr), su(pr, ps) == w, Sel(Sel(H['sj'], pr), ps) == j)), patterns=[pr])),
                ('keys', FA([u], z3.Implies(sd(u), z3.And(N.inn(u), sl(u) >= 1, z3.Not(P(u)))), patterns=[sd(u)])),
                ('size', R['n'] >= 0),
                ('results are distinct nodes', FA([k], z3.Implies(z3.And(k >= 0, k < R['n']), z3.And(N.inn(rk), Sel(H['ridx'], rk) == k)), patterns=[rk])),
                ('prerequisites come first', FA([w, j], z3.Implies(z3.And(N.edge(w, j), P(w)), z3.And(
                    P(pr), Sel(H['ridx'], pr) < Sel(H['ridx'], w))), patterns=[pr])),
                ('first ready node in source order', FA([k, x], z3.Implies(z3.And(k >= 0, k < R['n'], N.inn(x)),
                    z3.Or(z3.Not(cmp(rk, x)), waits(s, x, k))), patterns=[z3.MultiPattern(rk, N.nid(x))])),
            ]
        return res

    def inv2(E2, s0, q, mods):
        return [(nm, lambda s, i, z=z: common(s)[z][1]) for z, nm in enumerate(names(common, s0))]

    def ghost2(E2, s, i, q):
        R = result(s)
        H = dict(gh(s))
        H['ridx'] = z3.Store(H['ridx'], Sel(R['arr'], R['n'] - 1), R['n'] - 1)
        s.heap[G.oid] = H
    def hint2(E2, head, s):
        """The node just taken is the first of the ready ones; earlier choices are not affected."""
        R0, H0 = result(head), gh(head)
        suc0, num0, pq0 = objs(head)
        m = R0['n']
        x0, k0 = E2.fresh_const(U, 'x'), E2.fresh_const(INT, 'k')
        top = Sel(result(s)['arr'], m)
        E2.oblige(s, Sel(pq0['mem'], top), 'lemma: the node was ready')
        E2.oblige(s, result(s)['n'] == m + 1, 'lemma: one more result')
        t = s.copy()
        t.assume(Sel(pq0['mem'], top))
        t.assume(N.inn(x0), cmp(top, x0))
        E2.oblige_from(t, ('pq.top', str(x0)), z3.Not(Sel(pq0['mem'], x0)), 'lemma: no ready node comes before it')
        t.assume(z3.Not(Sel(pq0['mem'], x0)), z3.Not(proc(head)(x0)))
        wit = E2.uf('spec.open_at', [Sel(H0['D'], x0), N.np(x0)], INT)
        c = card(E2, Sel(H0['D'], x0), N.np(x0))
        E2.oblige(t, z3.And(Sel(num0['val'], x0) == c, c != 0), 'lemma: other nodes wait')
        t.assume(c != 0)
        E2.oblige(t, z3.And(wit >= 0, wit < N.np(x0), z3.Not(Sel(Sel(H0['D'], x0), wit)), z3.Not(proc(head)(N.pred(x0, wit)))), 'lemma: other nodes wait for a prerequisite')
        s.assume(FA([x], z3.Implies(z3.And(N.inn(x), cmp(top, x)), waits(head, x, m)), patterns=[N.nid(x)]))
        for lo, hi in ((head, s),):
            t = s.copy()
            t.assume(k0 >= 0, k0 <= m, N.inn(x0), waits(lo, x0, k0))
            E2.oblige(t, waits(hi, x0, k0), 'lemma: earlier choices are not affected')
        s.assume(FA([x, k], z3.Implies(z3.And(k >= 0, k <= m, N.inn(x), waits(head, x, k)), waits(s, x, k)), patterns=[z3.MultiPattern(N.nid(x), Sel(R0['arr'], k))]))
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] in ('while', 'for'), inv2, ghost=ghost2, hint=hint2))

    def inv3(E2, s0, q, mods):
        cur = q.key[2]
        return [(nm, lambda s, i, z=z: common(s, cur, i)[z][1]) for z, nm in enumerate(names(common, s0, cur, z3.IntVal(0)))]

    def ghost3(E2, s, i, q):
        H = dict(gh(s))
        y = q.get(E2, s, i)
        H['D'] = z3.Store(H['D'], y, z3.Store(Sel(H['D'], y), Sel(Sel(H['sj'], q.key[2]), i), True))
        s.heap[G.oid] = H
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] == 'rfor' and isinstance(E2.rv(s, r), MapVec), inv3, ghost=ghost3, auto=False))

    def inv4(E2, s0, q, mods):
        dom = objs(s0)[0]['dom']
        return [('queued keys', lambda s, i: FA([x], Sel(objs(s)[2]['mem'], x) == z3.And(Sel(dom, x), q.idx(x) < i), patterns=[Sel(objs(s)[2]['mem'], x)]))]

    def after4(E2, s, q):
        """Two nodes are missing in the result: a key and its first successor."""
        suc, R = objs(s)[0], result(s)
        u0 = q.get(E2, s, z3.IntVal(0)).k
        w0 = Sel(Sel(suc['val'], u0), 0)
        m = R['n']
        pigeonhole(E2, s, lambda i: z3.If(i < m, N.nid(Sel(R['arr'], i)), z3.If(i == m, N.nid(u0), N.nid(w0))), m + 2, N.n)
        E2.oblige(s, m + 2 <= N.n, 'two nodes of the cycle are missing')
        s.assume(m + 2 <= N.n)
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] == 'rfor' and isinstance(E2.rv(s, r), Obj) and '_vec' in s.heap[E2.rv(s, r).oid],
                                 inv4, auto=False, after=after4))
    pv = [PyFn(find_preds), PyFn(lambda E2, s, args: cmp(E2.to_term(s, args[0]), E2.to_term(s, args[1])))]
    vals = [g] + pv
    if len(f['params']) != 3:
        raise Abort('parameters of the sort')
    for prm, v in zip(f['params'], vals):
        st.env[prm['id']] = E.new_cell(st, v)
    E.current = 'lexicographicalTopologicalSort'
    for s, r in run(E, f, st):
        R, H = s.heap[E.rv(s, r).oid], gh(s)
        m = R['n']
        suc = objs(s)[0]
        first = lambda t, kk: z3.And(Sel(H['ridx'], t) >= 0, Sel(H['ridx'], t) < kk, Sel(R['arr'], Sel(H['ridx'], t)) == t)
        y = E.fresh_const(U, 'y')
        k0 = E.fresh_const(INT, 'k')
        if E.entails(s, suc['dom'] == z3.K(U, False)):
            E.oblige(s, z3.Implies(N.inn(y), first(y, m)), 'lemma: no node is left')
            x_ = z3.Const('x_', U)
            s.assume(z3.ForAll([x_], z3.Implies(N.inn(x_), first(x_, m)), patterns=[N.nid(x_)]))
            pigeonhole(E, s, lambda i: N.nid(Sel(R['arr'], i)), m, N.n)
            pigeonhole(E, s, lambda i: Sel(H['ridx'], N.at(i)), N.n, m)
            E.oblige(s, m == N.n, 'lemma: as many results as nodes')
            s.assume(m == N.n)
        for s1, cyclic in E.split(s, m != N.n):
            if cyclic:
                # the nodes that are not among the first m - 1 results wait for each other
                miss = lambda t: z3.And(N.inn(t), z3.Not(first(t, m - 1)))
                E.oblige(s1, m < N.n, 'post: a cycle is encoded by fewer results than nodes')
                E.oblige(s1, m >= 1, 'post: a cycle is encoded by at least one result')
                E.oblige(s1, miss(Sel(R['arr'], m - 1)), 'post: the last result is a node without position')
                E.oblige(s1, z3.Implies(miss(y), z3.Exists([j], z3.And(N.edge(y, j), miss(N.pred(y, j))))),
                         'post: an order is refused only if the prerequisites are cyclic')
            else:
                sz = s1.copy()
                E.oblige(sz, z3.Implies(N.inn(y), first(y, m)), 'post: every node has a position')
                E.oblige(s1, z3.Implies(z3.And(k0 >= 0, k0 < m), z3.And(N.inn(Sel(R['arr'], k0)), Sel(H['ridx'], Sel(R['arr'], k0)) == k0)),
                         'post: every position holds a different node')
                j0 = E.fresh_const(INT, 'j')
                E.oblige(s1, z3.Implies(N.edge(y, j0), Sel(H['ridx'], N.pred(y, j0)) < Sel(H['ridx'], y)), 'post: prerequisites come first')
                ready = z3.And(N.inn(y), Sel(H['ridx'], y) >= k0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N.np(y)), Sel(H['ridx'], N.pred(y, j)) < k0)))
                E.oblige(s1, z3.Implies(z3.And(k0 >= 0, k0 < m, ready), z3.Not(cmp(Sel(R['arr'], k0), y))),
                         'post: the first of the nodes that are ready in source order is next')


UNITS += [('lexicographicalTopologicalSort', SRC, toposort)]


def sorted_contexts(E):
    """declContextsSortedByDependencies"""
    setup(E)
    source_order(E)
    L = E.lib
    f = one(E.tu, 'genpybind::declContextsSortedByDependencies')
    E.contracts['genpybind::DeclContextGraph::getNode'] = lambda E2, s, c: E2.uf(
        'genpybind::DeclContextGraph::getNode', [E2.to_term(s, c.obj), E2.to_term(s, c.args[0])], U)
    for q in ('operator->', 'operator*', 'getTypePtr'):
        L.models['clang::QualType::' + q] = lambda E2, s, c: E2.to_term(s, c.obj)
    L.pure |= {'clang::Type::getAsTagDecl', 'clang::TagDecl::getDefinition',
                'clang::CXXBaseSpecifier::getType', 'clang::CXXRecordDecl::bases'}
    st = State()
    ps = params(E, st, f)
    vals = list(ps.values())
    g = [E.to_term(st, v) for v, p in zip(vals, f['params']) if 'DeclContextGraph' in str(E.T(p['t']).get('rec'))
         or 'DeclContextGraph' in str(E.T(E.T(p['t']).get('to', 0)).get('rec'))]
    par_ = [v for v in vals if isinstance(v, Obj) and E.cls(st, v) == 'map']
    if len(g) != 1 or len(par_) != 1 or len(f['params']) != 4:
        raise Abort('parameters of declContextsSortedByDependencies')
    g, par_ = g[0], par_[0]
    N = E.uf('spec.nodes.n', [g], INT)
    st.assume(N >= 0)
    E.contracts['genpybind::DeclContextGraph::size'] = lambda E2, s, c: N
    node = lambda d: E.uf('genpybind::DeclContextGraph::getNode', [g, d], U)
    dom, val = st.get(par_, 'dom'), st.get(par_, 'val')
    parent = lambda c: z3.If(Sel(dom, c), Sel(val, c), NULL)
    cyc = [p for p in f['params'] if E.T(p['t'])['k'] == 'ptr' and E.T(E.T(p['t'])['to'])['k'] == 'ptr']
    if len(cyc) != 1:
        raise Abort('parameters of declContextsSortedByDependencies')
    ctx_of = lambda v: decl(E, v)
    x, y, w = z3.Consts('x y w', U)
    j, k = z3.Ints('j k')
    # the scopes that have an enclosing scope are not their own enclosing scope (findEnclosingScopes)
    en = node(Sel(val, x))
    st.assume(FA([x], z3.Implies(z3.And(Sel(dom, x), Sel(val, x) != NULL), z3.And(en != NULL, ctx_of(en) == Sel(val, x), Sel(val, x) != x)),
                 patterns=[Sel(val, x)]))
    # getNode finds the node of its argument
    st.assume(z3.ForAll([x], z3.Implies(node(x) != NULL, ctx_of(node(x)) == x), patterns=[node(x)]))
    uf1 = lambda nm, a, so=U: E.uf(nm, [a], so)
    bases = lambda c: uf1('clang::CXXRecordDecl::bases', c)
    nb = lambda c: E.uf('range.size', [bases(c)], INT)
    base = lambda c, i: E.uf('range.at', [bases(c), i], U)
    basetype = lambda b: uf1('clang::TagDecl::getDefinition', uf1('clang::Type::getAsTagDecl', uf1('clang::CXXBaseSpecifier::getType', b)))
    public = lambda b: uf1('clang::CXXBaseSpecifier::getAccessSpecifier', b, INT) == 0
    rec = lambda c: E.isa_term('clang::CXXRecordDecl', c)
    # a class is not its own base
    st.assume(z3.ForAll([x, j], z3.Implies(z3.And(rec(x), j >= 0, j < nb(x)), basetype(base(x, j)) != x), patterns=[base(x, j)]))

    def prereq(v, t):
        """Scope t has to be emitted before scope v (nodes of the graph)."""
        c = ctx_of(v)
        return z3.Or(z3.And(parent(c) != NULL, t == node(parent(c))),
                     z3.And(rec(c), z3.Exists([j], z3.And(j >= 0, j < nb(c), public(base(c, j)), t == node(basetype(base(c, j))), t != NULL))))
    R = {}

    def sort_contract(E2, s, c):
        """Checks the arguments against the contract proved for the sort, then assumes its postcondition."""
        if len(c.args) != 3 or not E2.entails(s, E2.to_term(s, c.args[0]) == g):
            raise Abort('arguments of the sort')
        # predecessors of an arbitrary node
        t = s.copy()
        v = E2.fresh_const(U, 'v')
        t.assume(v != NULL, v == node(ctx_of(v)))
        gh = E2.new_obj(t, 'set', mem=z3.K(U, False))

        def add(E3, s3, args):
            z = E3.to_term(s3, args[0])
            E3.oblige(s3, z != NULL, 'predecessors are nodes')
            E3.oblige(s3, z != v, 'no scope is its own predecessor')
            s3.set(gh, 'mem', z3.Store(s3.get(gh, 'mem'), z, True))

        def inv(E3, s0, q, mods):
            m0 = s0.get(gh, 'mem')
            b = q.get(E3, s0, j)
            return [('prerequisites', lambda s3, i: FA([x], Sel(s3.get(gh, 'mem'), x) == z3.Or(Sel(m0, x), z3.Exists([j], z3.And(
                j >= 0, j < i, public(b), x == node(basetype(b)), x != NULL))), patterns=[Sel(s3.get(gh, 'mem'), x)]))]
        E2.loop_specs.append(LoopSpec(lambda E3, n, s3, r: n['k'] == 'rfor' and gh.oid in s3.heap, inv, auto=False))
        for t2, _ in E2.invoke(t, c.args[1], [v, PyFn(add)], c.node):
            z = E2.fresh_const(U, 'z')
            E2.oblige(t2, Sel(t2.get(gh, 'mem'), z) == prereq(v, z), 'the prerequisites are the enclosing scope and the exposed public bases')
        a, b = E2.fresh_const(U, 'a'), E2.fresh_const(U, 'b')
        for t2, r in E2.invoke(s.copy(), c.args[2], [a, b], c.node):
            E2.oblige(t2, E2.rv(t2, r) == before(E2, ctx_of(b), ctx_of(a)), 'scopes are compared by their position in the source')
        n, arr = E2.fresh_const(INT, 'n'), E2.fresh_const(z3.ArraySort(INT, U), 'arr')
        s.assume(n >= 0, z3.Or(n == N, z3.And(n >= 1, n < N)))
        s.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), Sel(arr, k) != NULL), patterns=[Sel(arr, k)]))
        R['n'], R['arr'] = n, arr
        R['calls'] = R.get('calls', 0) + 1
        return vec(E2, s, U, n, arr)
    for q in list(E.tu.by_q):
        if strip(q).endswith('lexicographicalTopologicalSort'):
            E.contracts[q] = sort_contract
    for null in (False, True):
        s0 = st.copy()
        old = z3.Const('cycle0', U)
        out = E.new_cell(s0, old)
        s0.env[cyc[0]['id']] = E.new_cell(s0, NULLP if null else Ptr(out))
        E.current = 'declContextsSortedByDependencies'
        R.clear()
        for s, r in run(E, f, s0):
            if R.get('calls') != 1:
                raise Abort('the sort is not called once')
            n, arr = R['n'], R['arr']
            d = s.heap[E.rv(s, r).oid]
            k0 = E.fresh_const(INT, 'k')
            E.oblige(s, d['n'] == z3.If(n == N, N, 0), 'post: all scopes, or none if there is a cycle')
            E.oblige(s, z3.Implies(z3.And(n == N, k0 >= 0, k0 < N), Sel(d['arr'], k0) == ctx_of(Sel(arr, k0))), 'post: the scopes in the order found')
            if not null:
                E.oblige(s, s.cells[out.id] == z3.If(n == N, old, ctx_of(Sel(arr, n - 1))), 'post: a cycle is handed to the caller')


UNITS += [('declContextsSortedByDependencies', SRC, sorted_contexts)]

from . import c07 as _c07
UNITS += [u for u in _c07.UNITS if u[0] == 'findEnclosingScopes']


def module(E):
    from .c11 import emit_module
    emit_module(E)


UNITS += [('TranslationUnitExposer::emitModule', 'src/expose.cpp', module)]
