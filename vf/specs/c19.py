"""C19: reopened namespaces with annotated content must agree on their annotations."""
from .c05 import *

UNITS = []
LOOKUP = 'src/lookup_context_collector.cpp'
BUILDER = 'src/decl_context_graph_builder.cpp'
COLLECTOR = 'genpybind::LookupContextCollector'


def settings(E, k, d):
    """The settings of d, defaults if there are none."""
    return z3.If(has_attrs(E, k, d), E.uf('attr:' + k, [d], U), default(E, k))


def default(E, k):
    return z3.Const('default:' + k, U)


def opaque_settings(E):
    E.lib.opaque |= {K(k) for k in ALL_KINDS}
    for k in ALL_KINDS:
        E.lib.ctors[K(k)] = lambda E2, st, ty, a, e, k=k: default(E2, k) if not a else NotImplemented

    def tup(E2, st, ty, a, e):
        if a:
            return NotImplemented
        return E2.new_obj(st, 'attrtuple', **{k: default(E2, k) for k in order(E2, ty)})
    E.lib.ctors['std::tuple'] = tup

    def order(E2, ty):
        return [(E2.T(x).get('rec') or '').rsplit('::', 1)[-1] for x in ty.get('targs') or []]

    def apply(E2, st, c):
        o = E2.rv(st, c.args[1])
        if not isinstance(o, Obj) or E2.cls(st, o) != 'attrtuple':
            raise Abort('std::apply')
        return E2.invoke(st, c.args[0], [st.get(o, k) for k in order(E2, E2.T(c.fn['targs'][1]))], c.node)
    E.lib.models['std::apply'] = apply

    def eq(E2, st, c):
        a = [E2.rv(st, x) for x in c.args]
        if len(a) == 2 and all(is_z3(x) and x.sort() == U for x in a):
            return a[0] == a[1]
        return NotImplemented
    E.contracts['genpybind::operator=='] = eq


def equal(E):
    E.abstract_strings = True
    setup_emit(E)
    opaque_settings(E)
    f = one(E.tu, 'genpybind::AnnotationStorage::equal')
    st = State()
    st.env['this'] = z3.Const('storage', U)
    l, r = [E.to_term(st, v) for v in params(E, st, f).values()]
    for d in (l, r):
        # openings of a namespace; settings are only stored for the kinds that apply (C05)
        st.assume(E.isa_term('clang::NamespaceDecl', d))
        for k in ALL_KINDS:
            st.assume(z3.Implies(has_attrs(E, k, d), supports(E, k, d)))
    E.current = 'AnnotationStorage::equal'
    # README: settings that do not apply to a declaration have their defaults
    want = z3.And(*[settings(E, k, l) == settings(E, k, r) for k in ALL_KINDS])
    for s, v in run(E, f, st):
        E.oblige(s, E.to_bool(s, v) == want, 'post: all settings are compared, absent ones as defaults')


def same(E):
    """operator== of every settings class compares every setting."""
    E.abstract_strings = True
    setup_emit(E)
    for k in ALL_KINDS:
        fs = [f for f in E.tu.by_q.get('genpybind::operator==', []) + E.tu.by_q.get('genpybind::%s::operator==' % k, [])
              if (E.T(f['params'][0]['t']).get('rec') or '') == K(k)]
        if len(fs) != 1:
            raise Abort('operator== of %s' % k)
        f = fs[0]
        st = State()
        ps = list(params(E, st, f).values())
        if len(ps) == 1:
            raise Abort('member operator==')
        a, b = [E.rv(st, x) for x in ps]
        E.current = '%s::operator==' % k
        want = E.struct_eq(st, a, b)
        if f.get('defaulted'):
            # generated by the compiler from all members
            outs = E.defaulted(st, f, Call(f['fn'], None, [a, b], {}))
        else:
            outs = run(E, f, st)
        for s, v in outs:
            E.oblige(s, E.to_bool(s, v) == want, 'post: exactly equal settings compare equal')


def first(E):
    """errorIfAnnotationsDoNotMatchFirstDecl"""
    E.abstract_strings = True
    setup_emit(E)
    clang_models(E)
    f = one(E.tu, COLLECTOR + '::errorIfAnnotationsDoNotMatchFirstDecl')
    st = State()
    d = E.to_term(st, list(params(E, st, f).values())[0])
    m = mkmap(E, st, U, U, z3.Const('first.dom', z3.ArraySort(U, BOOL)), z3.Const('first.val', z3.ArraySort(U, U)))
    dom, val = st.get(m, 'dom'), st.get(m, 'val')
    st.env['this'] = E.new_obj(st, COLLECTOR, annotations=z3.Const('storage', U), first_decls=m)
    st.assume(d != NULL)
    eqs = lambda a, b: E.uf('spec.equal_settings', [a, b], BOOL)
    x, y = z3.Consts('x! y!', U)
    st.assume(z3.ForAll([x, y], eqs(x, y) == eqs(y, x), patterns=[eqs(x, y)]))
    E.contracts['genpybind::AnnotationStorage::equal'] = lambda E2, s, c: eqs(E2.to_term(s, c.args[0]), E2.to_term(s, c.args[1]))
    E.contracts['genpybind::hasAnnotations'] = lambda E2, s, c: E2.uf('spec.has_annotations', [E2.to_term(s, c.args[0])] + [E2.to_bool(s, a) for a in c.args[1:]], BOOL)
    canon = lambda E2, t: E2.uf('clang::Decl::getCanonicalDecl', [t], U)
    for q in ('clang::Decl::getCanonicalDecl', 'clang::NamespaceDecl::getCanonicalDecl'):
        E.lib.models[q] = lambda E2, s, c: canon(E2, E2.to_term(s, c.obj))
    c = canon(E, d)
    st.assume(E.isa_term('clang::NamedDecl', c), E.isa_term('clang::NamedDecl', d), z3.Implies(z3.Select(dom, c), z3.Select(val, c) != NULL))
    D = diagnostics(E, st)
    base = E.contracts['genpybind::Diagnostics::report']
    where = E.new_obj(st, 'where', at=NULL)

    def report(E2, s, c2):
        r = base(E2, s, c2)
        if r == D:
            s.set(where, 'at', E2.to_term(s, c2.args[0]))
        return r
    E.contracts['genpybind::Diagnostics::report'] = report
    E.current = 'errorIfAnnotationsDoNotMatchFirstDecl'
    bad = z3.And(z3.Select(dom, c), z3.Not(eqs(d, z3.Select(val, c))))
    for s, _ in run(E, f, st):
        E.oblige(s, s.get(D, 'err') == bad, 'post: an error exactly if the settings differ from those of the first opening')
        E.oblige(s, z3.Implies(bad, s.get(where, 'at') == d), 'post: the error is reported at the deviating opening')
        nd, nv = s.get(m, 'dom'), s.get(m, 'val')
        E.oblige(s, nd == z3.Store(dom, c, True), 'post: the namespace has a first opening afterwards')
        E.oblige(s, z3.Select(nv, c) == z3.If(z3.Select(dom, c), z3.Select(val, c), d), 'post: the first opening is the first one seen')
        E.oblige(s, z3.ForAll([x], z3.Implies(x != c, z3.Select(nv, x) == z3.Select(val, x))), 'post: other namespaces are left alone')


def traverse(E):
    """TraverseNamespaceDecl: openings with annotated content are compared, others are not."""
    E.abstract_strings = True
    setup_emit(E)
    clang_models(E)
    f = one(E.tu, COLLECTOR + '::TraverseNamespaceDecl')
    st = State()
    d = E.to_term(st, list(params(E, st, f).values())[0])
    st.assume(d != NULL, E.isa_term('clang::NamespaceDecl', d))
    G = E.new_obj(st, 'ghost', log=(), size=z3.Int('size0'))
    st.env['this'] = E.new_obj(st, COLLECTOR, annotations=z3.Const('storage', U))
    new = E.uf('spec.annotated_declarations_within', [d], INT)
    st.assume(new >= 0, z3.Int('size0') >= 0)
    res = E.uf('spec.traversal_result', [d], BOOL)
    E.contracts['genpybind::AnnotationStorage::size'] = lambda E2, s, c: s.get(G, 'size')

    def visit(E2, s, c):
        x = E2.to_term(s, c.args[0])
        s.set(G, 'log', s.get(G, 'log') + (('rec', 'traverse', (x,)),))
        s.set(G, 'size', s.get(G, 'size') + E2.uf('spec.annotated_declarations_within', [x], INT))
        return res
    E.contracts['clang::RecursiveASTVisitor::TraverseNamespaceDecl'] = visit
    E.contracts['clang::RecursiveASTVisitor<genpybind::LookupContextCollector>::TraverseNamespaceDecl'] = visit
    E.lib.models['clang::RecursiveASTVisitor::TraverseNamespaceDecl'] = visit
    E.contracts[COLLECTOR + '::errorIfAnnotationsDoNotMatchFirstDecl'] = lambda E2, s, c: s.set(
        G, 'log', s.get(G, 'log') + (('rec', 'compare', (E2.to_term(s, c.args[0]),)),))
    skip = skipped(E, d)
    E.current = 'TraverseNamespaceDecl'
    for s, v in run(E, f, st):
        E.log_eq(s, s.get(G, 'log'), [Cond(skip, [], [('rec', 'traverse', (d,)), Cond(new > 0, [('rec', 'compare', (d,))], [])])],
                 'post: openings with annotated content are compared once, others never')
        E.oblige(s, z3.Implies(z3.Not(skip), E.to_bool(s, v) == res), 'post: the traversal goes on')
        E.oblige(s, z3.Implies(skip, E.to_bool(s, v)), 'post: skipped namespaces do not end the traversal')


def skipped(E, d):
    """Implementation namespaces, incomplete and dependent types."""
    o = lambda n, s=BOOL: E.uf(n, [d], s)
    ns, tag = E.isa_term('clang::NamespaceDecl', d), E.isa_term('clang::TagDecl', d)
    return z3.Or(z3.And(tag, z3.Or(z3.Not(o('clang::TagDecl::isCompleteDefinition')), o('clang::TagDecl::isDependentType'))),
                 z3.And(ns, z3.Or(o('clang::DeclContext::isStdNamespace'), z3.PrefixOf(strval(b'__'), o('clang::NamedDecl::getName', STR)))))


def visit(E):
    """VisitNamedDecl: exactly the annotated, non-dependent declarations are recorded."""
    setup_emit(E)
    clang_models(E)
    f = one(E.tu, COLLECTOR + '::VisitNamedDecl')
    st = State()
    d = E.to_term(st, list(params(E, st, f).values())[0])
    st.assume(d != NULL, E.isa_term('clang::NamedDecl', d))
    G = E.new_obj(st, 'ghost', log=())
    st.env['this'] = E.new_obj(st, COLLECTOR, annotations=z3.Const('storage', U))
    E.contracts['genpybind::AnnotationStorage::insert'] = lambda E2, s, c: s.set(G, 'log', s.get(G, 'log') + (('rec', 'insert', (E2.to_term(s, c.args[0]),)),))

    def has_ann(E2, s, c):
        E2.oblige(s, E2.to_bool(s, c.args[1]) if len(c.args) > 1 else True, 'annotations count even if they are blank')
        return E2.uf('spec.has_annotations', [E2.to_term(s, c.args[0])], BOOL)
    E.contracts['genpybind::hasAnnotations'] = has_ann
    o = lambda n, s=BOOL: E.uf(n, [d], s)
    tag = E.isa_term('clang::TagDecl', d)
    dependent = E.uf('clang::DeclContext::isDependentContext', [E.uf('clang::Decl::getDeclContext', [d], U)], BOOL)
    incomplete = z3.And(tag, z3.Or(z3.Not(o('clang::TagDecl::isCompleteDefinition')), o('clang::TagDecl::isDependentType')))
    want = z3.And(z3.Not(dependent), z3.Not(incomplete), o('spec.has_annotations'))
    E.current = 'VisitNamedDecl'
    for s, v in run(E, f, st):
        E.log_eq(s, s.get(G, 'log'), [Cond(want, [('rec', 'insert', (d,))], [])], 'post: exactly the annotated declarations are recorded, once')
        E.oblige(s, E.to_bool(s, v), 'post: the traversal goes on')


def store(E):
    """AnnotationStorage::get, has, size, lookup and update behave like a map."""
    E.abstract_strings = True
    setup_emit(E)
    E.contracts.pop('genpybind::AnnotationStorage::get', None)
    E.lib.opaque -= {'genpybind::AnnotationStorage'}
    opaque_settings(E)
    for k in ALL_KINDS:
        E.contracts['genpybind::%s::supports' % k] = lambda E2, s, c: z3.BoolVal(True)
    A = 'genpybind::AnnotationStorage::'
    old = E.lib.models.get('std::get')

    def get(E2, st, c):
        o = E2.rv(st, c.args[0])
        if isinstance(o, Obj) and E2.cls(st, o) == 'attrtuple':
            return st.get(o, map_class(E2, E2.T(c.fn['targs'][0])))
        return old(E2, st, c) if old else NotImplemented
    E.lib.models['std::get'] = get

    def prepare(f):
        st = State()
        maps = {k: mkmap(E, st, U, U, z3.Const('dom.' + k, z3.ArraySort(U, BOOL)), z3.Const('val.' + k, z3.ArraySort(U, U))) for k in ALL_KINDS}
        st.env['this'] = E.new_obj(st, 'genpybind::AnnotationStorage', attrs_by_decl=E.new_obj(st, 'attrtuple', **maps))
        ps = list(params(E, st, f).values())
        return st, maps, ps
    seen = 0
    for name in ('get', 'lookup', 'has'):
        for f in E.tu.by_q.get(A + name, []):
            if 'body' not in f or (name != 'has' and not f['fn'].get('targs')):
                continue
            k = 'NamedDeclAttrs' if name == 'has' else (E.T(f['fn']['targs'][0]).get('rec') or '').rsplit('::', 1)[-1]
            if k not in ALL_KINDS:
                continue
            seen += 1
            st, maps, ps = prepare(f)
            d = E.to_term(st, ps[0])
            st.assume(d != NULL)
            dom, val = st.get(maps[k], 'dom'), st.get(maps[k], 'val')
            E.current = 'AnnotationStorage::%s<%s>' % (name, k)
            for s, v in run(E, f, st):
                v = E.rv(s, v)
                there = z3.Select(dom, d)
                if name == 'has':
                    E.oblige(s, E.to_bool(s, v) == there, 'post: exactly the inserted declarations are known')
                elif name == 'get':
                    E.oblige(s, s.get(v, 'has') == there, 'post: settings exactly if they were stored')
                    E.oblige(s, z3.Implies(there, E.to_term(s, s.get(v, 'val')) == z3.Select(val, d)), 'post: the stored settings')
                else:
                    E.oblige(s, E.to_term(s, v) == z3.If(there, z3.Select(val, d), default(E, k)), 'post: the stored settings, or defaults')
                for m in ALL_KINDS:
                    E.oblige(s, z3.And(s.get(maps[m], 'dom') == z3.Const('dom.' + m, z3.ArraySort(U, BOOL)), s.get(maps[m], 'val') == z3.Const('val.' + m, z3.ArraySort(U, U))), 'post: nothing is changed')
    if seen < 3:
        raise Abort('AnnotationStorage accessors')


UNITS += [('AnnotationStorage accessors', ANN, store), ('AnnotationStorage::equal', ANN, equal), ('operator== of settings', ANN, same), ('errorIfAnnotationsDoNotMatchFirstDecl', LOOKUP, first),
          ('TraverseNamespaceDecl', BUILDER, traverse), ('VisitNamedDecl', BUILDER, visit)]
