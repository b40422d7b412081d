"""C06: effective visibility."""
from .graph import *

SOURCES = ['src/decl_context_graph_processing.cpp']


def vis_has(E, d):
    return attr(E, 'NamedDeclAttrs', '.visible?', d, BOOL)


def vis_val(E, d):
    return attr(E, 'NamedDeclAttrs', '.visible!', d, BOOL)


def spec_axiom(E, g):
    """Vis(scope k) = explicit annotation, else access, else parent."""
    k = z3.Int('k')
    q = df_seq(E, g)
    v = q.get(E, None, k)
    d = decl(E, v)
    V = lambda x: E.uf('spec.visible', [x], BOOL)
    acc = E.uf('clang::Decl::getAccess', [d], INT)
    AS = E.tu.enums['clang::AccessSpecifier']
    explicit = z3.And(E.isa_term('clang::NamedDecl', d), has_attrs(E, 'NamedDeclAttrs', d), vis_has(E, d))
    rhs = z3.If(explicit, vis_val(E, d),
                z3.If(z3.Or(acc == AS['AS_private'], acc == AS['AS_protected']), z3.BoolVal(False),
                      z3.If(k == 0, z3.BoolVal(False), V(decl(E, par(E, v))))))
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < q.n), V(d) == rhs), patterns=[v])


def derive(E):
    setup(E)
    f = one(E.tu, 'genpybind::deriveEffectiveVisibility')
    st = State()
    ps = params(E, st, f)
    g = [v for v, p in zip(ps.values(), f['params']) if E.T(p['t']).get('rec') == 'genpybind::DeclContextGraph'][0]
    q = df_seq(E, g)
    V = lambda x: E.uf('spec.visible', [x], BOOL)
    ax = spec_axiom(E, g)

    def content(m, upto):
        """map m holds exactly the scopes visited before upto, with their spec value"""
        k = z3.Int('k')
        x = z3.Const('x', U)
        d = decl(E, q.get(E, None, k))
        nd = E.uf('df.node_of', [g, x], U)
        return [
            ('visited scopes have their value', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < upto),
             z3.And(z3.Select(m['dom'], d), z3.Select(m['val'], d) == V(d))), patterns=[q.get(E, None, k)])),
            ('only visited scopes have a value', z3.ForAll([x], z3.Implies(z3.Select(m['dom'], x),
             z3.And(ordn(E, nd) >= 0, ordn(E, nd) < upto, q.get(E, None, ordn(E, nd)) == nd, decl(E, nd) == x)),
             patterns=[z3.Select(m['dom'], x)])),
        ]

    def inv(E2, st0, q2, mods):
        oid = mod_obj(E2, st0, mods, 'map')
        names = [c[0] for c in content(st0.heap[oid], z3.IntVal(0))]
        return [(nm, lambda s, i, j=j: content(s.heap[oid], i)[j][1]) for j, nm in enumerate(names)]
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: is_df_loop(n), inv))
    st.assume(ax)
    st.assume(*q.facts(E, st))
    E.current = 'deriveEffectiveVisibility'
    for s, v in run(E, f, st):
        o = E.rv(s, v)
        for nm, c in content(s.heap[o.oid], q.n):
            E.oblige(s, c, 'post: ' + nm)


def reachable(E):
    setup(E)
    f = one(E.tu, 'genpybind::reachableDeclContexts')
    st = State()
    ps = params(E, st, f)
    m = list(ps.values())[0]
    dom = st.get(m, 'dom')

    def inv(E2, st0, q, mods):
        oid = mod_obj(E2, st0, mods, 'set')
        k = z3.Int('k')
        x = z3.Const('x', U)
        key = lambda i: q.get(E2, st0, i).k
        return [('visited keys are members', lambda s, i: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), z3.Select(s.heap[oid]['mem'], key(k))), patterns=[key(k)])),
                ('members are keys', lambda s, i: z3.ForAll([x], z3.Implies(z3.Select(s.heap[oid]['mem'], x), z3.Select(dom, x))))]
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] == 'rfor', inv))
    E.current = 'reachableDeclContexts'
    for s, v in run(E, f, st):
        mem = s.heap[E.rv(s, v).oid]['mem']
        x = E.fresh_const(U, 'x')
        E.oblige(s, z3.Select(mem, x) == z3.Select(dom, x), 'post: result is the set of keys')


UNITS = [('deriveEffectiveVisibility', 'src/decl_context_graph_processing.cpp', derive),
         ('reachableDeclContexts', 'src/decl_context_graph_processing.cpp', reachable)]
