"""C07: enclosing scopes."""
from .graph import *

SRC = 'src/decl_context_graph_processing.cpp'
UNITS = []


def transparent(E, d):
    """namespaces that carry settings but do not define a submodule"""
    return z3.And(has_attrs(E, 'NamespaceDeclAttrs', d), z3.Not(attr(E, 'NamespaceDeclAttrs', '.module', d, BOOL)))


def enclosing(E):
    setup(E)
    f = one(E.tu, 'genpybind::findEnclosingScopes')
    st = State()
    ps = params(E, st, f)
    g = [v for v, p in zip(ps.values(), f['params']) if E.T(p['t']).get('rec') == 'genpybind::DeclContextGraph'][0]
    q = df_seq(E, g)
    Enc = lambda x: E.uf('spec.enclosing', [x], U)
    k = z3.Int('k')
    v = q.get(E, None, k)
    d = decl(E, v)
    pd = decl(E, par(E, v))
    NamedT = lambda x: z3.And(E.isa_term('clang::NamedDecl', x), transparent(E, x))
    st.assume(*q.facts(E, st))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < q.n),
              Enc(d) == z3.If(k == 0, NULL, z3.If(NamedT(pd), Enc(pd), pd))), patterns=[v]))
    # the root (translation unit) is no named declaration
    st.assume(z3.Not(E.isa_term('clang::NamedDecl', decl(E, q.get(E, None, z3.IntVal(0))))))

    def content(m, upto):
        x = z3.Const('x', U)
        nd = E.uf('df.node_of', [g, x], U)
        en = ordn(E, E.uf('df.node_of', [g, Enc(d)], U))
        return [
            ('visited scopes have their enclosing scope', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < upto),
             z3.And(z3.Select(m['dom'], d), z3.Select(m['val'], d) == Enc(d))), patterns=[v])),
            ('only visited scopes are mapped', z3.ForAll([x], z3.Implies(z3.Select(m['dom'], x),
             z3.And(ordn(E, nd) >= 0, ordn(E, nd) < upto, q.get(E, None, ordn(E, nd)) == nd, decl(E, nd) == x)),
             patterns=[z3.Select(m['dom'], x)])),
            ('only the root has no enclosing scope', z3.ForAll([k], z3.Implies(z3.And(k > 0, k < upto),
             Enc(d) != NULL), patterns=[v])),
            ('enclosing scopes are scopes further up', z3.ForAll([k], z3.Implies(z3.And(k > 0, k < upto),
             z3.And(en >= 0, en < k, decl(E, q.get(E, None, en)) == Enc(d))), patterns=[v])),
        ]

    def inv(E2, st0, q2, mods):
        oid = mod_obj(E2, st0, mods, 'map')
        names = [c[0] for c in content(st0.heap[oid], z3.IntVal(0))]
        return [(nm, lambda s, i, j=j: content(s.heap[oid], i)[j][1]) for j, nm in enumerate(names)]
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: is_df_loop(n), inv))
    E.current = 'findEnclosingScopes'
    for s, r in run(E, f, st):
        o = E.rv(s, r)
        for nm, c in content(s.heap[o.oid], q.n):
            E.oblige(s, c, 'post: ' + nm)


UNITS.append(('findEnclosingScopes', SRC, enclosing))


def module(E):
    from .c11 import emit_module
    emit_module(E)


def introduced(E):
    from .c18 import introducers
    introducers(E)


UNITS += [('TranslationUnitExposer::emitModule', 'src/expose.cpp', module), ('emitIntroducer', 'src/expose.cpp', introduced)]
