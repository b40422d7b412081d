"""Assumed contracts for scope graphs, traversals and annotation lookup."""
import z3
from ..engine import *
from ..lib import *
from ..prove import *
from ..tu import walk

NODE_DECL = 'genpybind::DeclContextNode.decl'


def setup(E, attrs=True):
    L = E.lib
    L.opaque |= {'genpybind::DeclContextGraph', 'genpybind::DeclContextNode', 'genpybind::AnnotationStorage'}

    def generic_range(E2, st, v):
        if is_z3(v) and v.sort() == U:
            n = E2.uf('range.size', [v], INT)
            return Seq(n, lambda E3, s3, i: E3.uf('range.at', [v, i], U), ('range', v), lambda E3, s3: [n >= 0])
        return None
    L.seq_hooks.append(generic_range)

    # graph traversal (llvm::df_iterator)
    def df(E2, st, c, end):
        g = E2.to_term(st, c.args[0])
        q = df_seq(E2, g)
        E2.df_graph = g
        return Iter(q, q.n if end else z3.IntVal(0), ('df', g, E2.rv(st, c.args[1]) if len(c.args) > 1 else None))
    for nm in ('llvm::df_begin', 'llvm::df_ext_begin'):
        L.models[nm] = lambda E2, st, c: df(E2, st, c, False)
    for nm in ('llvm::df_end', 'llvm::df_ext_end'):
        L.models[nm] = lambda E2, st, c: df(E2, st, c, True)

    def it_node(E2, st, c):
        it = E2.rv(st, c.obj)
        if not isinstance(it, Iter):
            raise Abort('df iterator')
        return it.seq.get(E2, st, it.i)

    L.models['llvm::df_iterator::getPathLength'] = lambda E2, st, c: depth(E2, it_node(E2, st, c))

    def path(E2, st, c):
        x = it_node(E2, st, c)
        i = E2.rv(st, c.args[0])
        d = depth(E2, x)
        E2.oblige(st, z3.And(i >= 0, i < d), 'path index in range')
        return z3.If(i == d - 1, x, z3.If(i == d - 2, par(E2, x), E2.uf('df.path', [x, i], U)))
    L.models['llvm::df_iterator::getPath'] = path

    if attrs:
        E.contracts['genpybind::AnnotationStorage::get'] = storage_get


def is_get(q):
    return strip(q) == 'genpybind::AnnotationStorage::get'


def storage_get(E, st, c):
    """AnnotationStorage::get<T>(decl): the settings stored for decl, if any."""
    t = E.T(c.fn['targs'][0])
    d = E.to_term(st, c.args[0])
    return attrs_of(E, st, t, d)


def attrs_of(E, st, t, d):
    nm = t['rec'].rsplit('::', 1)[-1]
    has = has_attrs(E, nm, d)
    val = E.fresh(st, [i for i, x in enumerate(E.tu.types) if x.get('rec') == t['rec'] and x['k'] == 'rec'][0],
                  lambda s, suf: E.uf('attr:%s%s' % (nm, suf), [d], s))
    return optional(E, st, has, val)


def has_attrs(E, nm, d):
    f = z3.Not(E.uf('attr?:' + nm, [NULL], BOOL))
    if not any(f.eq(x) for x in E.facts):
        E.facts.append(f)
    return E.uf('attr?:' + nm, [d], BOOL)


def attr(E, nm, path, d, sort):
    """Field of the settings of d, as used by specifications."""
    return E.uf('attr:%s%s' % (nm, path), [d], sort)


def decl(E, node):
    return E.uf(NODE_DECL, [node], U)


def par(E, x):
    return E.uf('df.parent', [x], U)


def depth(E, x):
    return E.uf('df.depth', [x], INT)


def ordn(E, x):
    return E.uf('df.ord', [x], INT)


def df_seq(E, g):
    """Contract of the depth-first traversal of a tree: every reachable node
    once, parents first."""
    n = E.uf('df.n', [g], INT)

    def visit(i):
        return E.uf('df.visit', [g, i], U)
    k = z3.Int('k')

    def facts(E2, st):
        v = visit(k)
        rng = z3.And(k >= 0, k < n)
        p = par(E, v)
        return [
            n >= 1,
            par(E, visit(z3.IntVal(0))) == NULL,
            depth(E, visit(z3.IntVal(0))) == 1,
            z3.ForAll([k], z3.Implies(rng, z3.And(ordn(E, v) == k, v != NULL, E.uf('df.node_of', [g, decl(E, v)], U) == v,
                                                   decl(E, v) != NULL)), patterns=[v]),
            z3.ForAll([k], z3.Implies(z3.And(rng, k > 0),
                                      z3.And(p == visit(ordn(E, p)), ordn(E, p) >= 0, ordn(E, p) < k,
                                             depth(E, v) >= 2)), patterns=[v]),
        ]
    return Seq(n, lambda E2, st, i: visit(i), ('df', g), facts)


def end(E, g, k):
    """Index after the subtree of the k-th visited node."""
    return E.uf('df.end', [g, k], INT)


def interval_facts(E, g):
    """Subtrees are nested intervals of the traversal."""
    q = df_seq(E, g)
    j, k = z3.Ints('j k')
    ej, ek = end(E, g, j), end(E, g, k)
    return [
        z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < q.n), z3.And(ek > k, ek <= q.n)), patterns=[ek]),
        z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < q.n, k < ej), ek <= ej),
                  patterns=[z3.MultiPattern(ej, ek)]),
        end(E, g, z3.IntVal(0)) == q.n,
    ]


def calls(node, name):
    hit = []

    def v(x):
        if x.get('k') == 'call' and x.get('fn') and strip(x['fn']['q']).rsplit('::', 1)[-1] == name:
            hit.append(x)
    walk(node, v)
    return hit


def is_df_loop(n):
    return n['k'] == 'for' and bool(calls(n.get('init'), 'df_begin') or calls(n.get('init'), 'df_ext_begin'))


def mod_obj(E, st, mods, cls):
    """The only object of the given class that the loop modifies."""
    c = sorted({m[1] for m in mods if m[0] == 'h' and m[1] in st.heap and st.heap[m[1]]['cls'] == cls})
    if len(c) != 1:
        raise Abort('loop contract: %d modified objects of class %s' % (len(c), cls))
    return c[0]


def FA(vs, body, patterns):
    # (terms of the current state may not be patterns)
    txt = str(patterns)
    if not any(w in txt for w in ('If(', 'Store(', 'K(', 'Lambda(', 'Or(')):
        try:
            return z3.ForAll(vs, body, patterns=patterns)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)
