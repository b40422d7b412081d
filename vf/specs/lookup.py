"""Lookup of the declarations of a scope (src/visible_decls.cpp)."""
from .bind import *

VIS = 'src/visible_decls.cpp'
RIP = 'genpybind::RecordInliningPolicy'
Sel = z3.Select


def scope_kinds(E):
    """Whether a declaration is a scope of the graph; whether a scope is transparent for lookup."""
    E.contracts['genpybind::DeclContextGraph::accepts'] = lambda E2, s, c: E2.uf('spec.is_scope', [E2.to_term(s, c.args[0])], BOOL)
    E.contracts['genpybind::LookupContextCollector::shouldSkip'] = lambda E2, s, c: E2.uf('spec.transparent_scope', [E2.to_term(s, c.args[0])], BOOL)


def filter_decls(E):
    """ExposableDeclConsumer::FoundDecl"""
    setup(E)
    scope_kinds(E)
    f = [g for g in E.tu.fns.values() if g['fn']['q'].endswith('ExposableDeclConsumer::FoundDecl') and 'body' in g]
    if len(f) != 1:
        raise Abort('FoundDecl')
    f = f[0]
    st = State()
    me = this(E, st, f)
    ps = [E.rv(st, v) for v in params(E, st, f).values()]
    d, hiding, ctx, in_base = [E.to_term(st, p) for p in ps]
    st.assume(d != NULL, ctx != NULL)
    pol = st.get(me, 'inlining_policy')
    V = E.rv(st, st.get(me, 'decls'))
    old = dict(st.heap[V.oid])
    isa = E.isa_term
    acc = E.uf('clang::Decl::getAccess', [d], INT)
    A = E.tu.enums['clang::AccessSpecifier']
    parent = E.uf('clang::Decl::getDeclContext', [d], U)
    ctor = lambda x: isa('clang::CXXConstructorDecl', x)
    templated = E.uf('clang::FunctionTemplateDecl::getTemplatedDecl', [d], U)
    inl = E.uf('spec.should_inline', [parent], BOOL)
    E.contracts[RIP + '::shouldInline'] = lambda E2, s, c: E2.uf('spec.should_inline', [E2.to_term(s, c.args[0])], BOOL)
    has_policy = E.to_bool(st, st.get(pol, 'has'))
    inherited = z3.And(has_policy, isa('clang::CXXRecordDecl', parent), inl, z3.Not(isa('clang::CXXDestructorDecl', d)),
                       z3.Not(z3.If(isa('clang::FunctionTemplateDecl', d), ctor(templated), ctor(d))))
    ns = E.uf('clang::DeclContext::getRedeclContext', [parent], U)
    elsewhere = z3.And(isa('clang::NamespaceDecl', ns), E.uf('clang::NamespaceDecl::isInline', [ns], BOOL), E.uf('clang::DeclContext::isFileContext', [ctx], BOOL),
                       z3.Not(E.uf('clang::DeclContext::Equals', [ns, ctx], BOOL)), z3.Not(E.uf('spec.transparent_scope', [ns], BOOL)))
    target = z3.If(isa('clang::UsingShadowDecl', d), E.uf('clang::UsingShadowDecl::getTargetDecl', [d], U), d)
    st.assume(z3.Implies(isa('clang::UsingShadowDecl', d), E.uf('clang::UsingShadowDecl::getTargetDecl', [d], U) != NULL),
              parent != NULL, ns != NULL, z3.Implies(isa('clang::FunctionTemplateDecl', d), templated != NULL))
    want = z3.And(hiding == NULL, z3.Or(acc == A['AS_public'], acc == A['AS_none']), z3.Implies(in_base, inherited), z3.Not(elsewhere),
                  z3.Not(E.uf('spec.is_scope', [target], BOOL)), E.uf('clang::SourceLocation::isValid', [E.uf('clang::Decl::getLocation', [target], U)], BOOL))
    E.current = 'FoundDecl'
    for s, _ in run(E, f, st):
        new = s.heap[V.oid]
        i = E.fresh_const(INT, 'i')
        E.oblige(s, new['n'] == old['n'] + z3.If(want, 1, 0), 'post: taken iff public, not hidden, no scope, and declared here or in an inlined base (constructors and destructors excluded)')
        E.oblige(s, z3.Implies(want, Sel(new['arr'], old['n']) == target), 'post: the declaration itself (of a using declaration, its target) is taken')
        E.oblige(s, z3.Implies(z3.And(i >= 0, i < old['n']), Sel(new['arr'], i) == Sel(old['arr'], i)), 'post: earlier declarations stay')


def collect(E):
    """collectVisibleDeclsFromDeclContext"""
    setup(E)
    E.lib.opaque |= {RIP}
    f = one(E.tu, 'genpybind::collectVisibleDeclsFromDeclContext')
    st = State()
    ps = params(E, st, f)
    sema, ctx, pol = [E.rv(st, v) for v in ps.values()]
    st.assume(ctx != NULL)
    has, val = [E.to_term(st, st.get(pol, n)) for n in ('has', 'val')]
    n, arr = E.uf('spec.found.n', [ctx], INT), E.uf('spec.found', [ctx], z3.ArraySort(INT, U))
    st.assume(n >= 0)
    st.assume(E.isa_term('clang::Decl', ctx))     # every scope is a declaration
    L = E.new_obj(st, 'ghost', calls=z3.IntVal(0))
    tu = E.uf('clang::ASTContext::getTranslationUnitDecl', [E.uf('clang::Sema::getASTContext', [E.to_term(st, sema)], U)], U)

    def lookup(E2, s, c):
        """Reports every declaration found in the context to the consumer."""
        o = E2.rv(s, c.args[2])
        p = s.get(o, 'inlining_policy')
        V = E2.rv(s, s.get(o, 'decls'))
        E2.oblige(s, E2.to_term(s, c.args[0]) == ctx, 'declarations are looked up in the given scope')
        E2.oblige(s, E2.to_term(s, c.args[1]) == E2.tu.enums['clang::Sema::LookupNameKind']['LookupOrdinaryName'], 'all ordinary names are looked up')
        E2.oblige(s, z3.And(E2.to_term(s, s.get(p, 'has')) == has, z3.Implies(has, E2.to_term(s, s.get(p, 'val')) == val)), 'the consumer follows the given policy')
        E2.oblige(s, E2.to_bool(s, c.args[3]) == (ctx == tu), 'the global scope is included iff it is the given scope')
        E2.oblige(s, z3.Not(E2.to_bool(s, c.args[4])), 'dependent bases are not included')
        E2.oblige(s, s.get(V, 'n') == 0, 'nothing was collected before')
        s.set(L, 'calls', z3.simplify(s.get(L, 'calls') + 1))
        s.set(V, 'n', n)
        s.set(V, 'arr', arr)
        s.set(V, 'log', None)
    E.contracts['clang::Sema::LookupVisibleDecls'] = lookup
    E.lib.pure |= {'clang::Sema::getASTContext'}
    E.current = 'collectVisibleDeclsFromDeclContext'
    for s, v in run(E, f, st):
        V = E.rv(s, v)
        i = E.fresh_const(INT, 'i')
        E.oblige(s, s.get(L, 'calls') == 1, 'post: one lookup')
        E.oblige(s, z3.And(s.get(V, 'n') == n, z3.Implies(z3.And(i >= 0, i < n), Sel(s.get(V, 'arr'), i) == Sel(arr, i))), 'post: exactly what the consumer took')
