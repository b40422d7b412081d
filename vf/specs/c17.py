"""C17: expose_here moves a type to exactly one place."""
from .c19 import *

UNITS = []
B = 'genpybind::DeclContextGraphBuilder::'


def lookup_ctx(E, x):
    """Closest lookup context (a scope that names are looked up in), starting at x."""
    return E.uf('spec.lookup_context', [x], U)


def scope(E, d):
    return lookup_ctx(E, E.uf('clang::Decl::getDeclContext', [d], U))


def target(E, a):
    return E.uf('spec.alias_target', [a], U)


def find(E):
    """findLookupContextDecl"""
    f = one(E.tu, 'findLookupContextDecl')
    setup_emit(E)
    st = State()
    x = E.to_term(st, list(params(E, st, f).values())[0])
    c = z3.Const('c!', U)
    up = E.uf('clang::DeclContext::getParent', [c], U)
    is_l = E.uf('clang::DeclContext::isLookupContext', [c], BOOL)
    L = lookup_ctx(E, c)
    E.lib.pure |= {'clang::DeclContext::getParent'}
    st.assume(z3.ForAll([c], L == z3.If(z3.Or(c == NULL, is_l), c, lookup_ctx(E, up)), patterns=[L]))
    level = lambda t: E.uf('spec.level', [t], INT)
    st.assume(z3.ForAll([c], z3.And(level(c) >= 0, z3.Implies(c != NULL, level(up) < level(c))), patterns=[level(c)]))
    st.assume(z3.ForAll([c], z3.Implies(z3.And(c != NULL, E.isa_term('clang::DeclContext', c)), z3.And(E.isa_term('clang::Decl', c))), patterns=[E.isa_term('clang::DeclContext', c)]))

    def inv(E2, s0, q, mods):
        out = []
        for m in mods:
            v = E2.mod_val(s0, m)
            if is_z3(v) and v.sort() == U:
                out.append(('the closest lookup context is unchanged', lambda s, i, m=m: lookup_ctx(E, E.mod_val(s, m)) == lookup_ctx(E, x)))
        return out

    def dec(E2, s):
        vs = [v for v in s.cells.values() if is_z3(v) and v.sort() == U]
        return z3.Sum([level(v) for v in vs]) if len(vs) > 1 else level(vs[0])
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: True, inv, decreases=dec))
    E.current = 'findLookupContextDecl'
    st.assume(z3.ForAll([c], z3.Implies(z3.And(E.isa_term('clang::Decl', c)), c != NULL), patterns=[E.isa_term('clang::Decl', c)]))
    for s, r in run(E, f, st):
        r = E.to_term(s, r)
        # (every declaration context is a declaration)
        s.assume(z3.Implies(lookup_ctx(E, x) != NULL, E.isa_term('clang::Decl', lookup_ctx(E, x))))
        E.oblige(s, r == lookup_ctx(E, x), 'post: the closest enclosing scope')


def graph(E, st, G):
    E.contracts['genpybind::DeclContextGraph::getOrInsertNode'] = lambda E2, s, c: E2.uf('spec.node', [E2.to_term(s, c.args[0])], U)
    x = z3.Const('x!', U)

    def add(E2, s, c):
        a, b = E2.to_term(s, c.obj), E2.to_term(s, c.args[0])
        s.set(G, 'log', s.get(G, 'log') + (('rec', 'edge', (a, b)),))
    E.contracts['genpybind::DeclContextNode::addChild'] = add


def edge(E, p, d):
    n = lambda t: E.uf('spec.node', [t], U)
    return ('rec', 'edge', (n(p), n(d)))


def errors_at(E, st, G, D):
    base = E.contracts['genpybind::Diagnostics::report']

    def report(E2, s, c):
        r = base(E2, s, c)
        if r == D:
            s.set(G, 'log', s.get(G, 'log') + (('rec', 'error', (E2.to_term(s, c.args[0]),)),))
        return r
    E.contracts['genpybind::Diagnostics::report'] = report


def add_edge(E):
    """addEdgeForExposeHereAlias"""
    E.abstract_strings = True
    setup_emit(E)
    clang_models(E)
    f = one(E.tu, B + 'addEdgeForExposeHereAlias')
    st = State()
    a = E.to_term(st, list(params(E, st, f).values())[0])
    G = E.new_obj(st, 'ghost', log=())
    m = mkmap(E, st, U, U, z3.Const('moved.dom', z3.ArraySort(U, BOOL)), z3.Const('moved.val', z3.ArraySort(U, U)))
    dom, val = st.get(m, 'dom'), st.get(m, 'val')
    st.env['this'] = E.new_obj(st, 'genpybind::DeclContextGraphBuilder', annotations=z3.Const('storage', U), relocated_decls=m, graph=z3.Const('graph', U))
    graph(E, st, G)
    E.contracts['genpybind::aliasTarget'] = lambda E2, s, c: target(E2, E2.to_term(s, c.args[0]))
    E.contracts['findLookupContextDecl'] = lambda E2, s, c: lookup_ctx(E2, E2.to_term(s, c.args[0]))
    t = target(E, a)
    st.assume(a != NULL, t != NULL)
    D = diagnostics(E, st)
    errors_at(E, st, G, D)
    E.current = 'addEdgeForExposeHereAlias'
    x = z3.Const('x!', U)
    dup = z3.Select(dom, t)
    for s, r in run(E, f, st):
        E.oblige(s, E.to_bool(s, r) == z3.Not(dup), 'post: succeeds exactly for the first alias of the type')
        E.log_eq(s, s.get(G, 'log'), [Cond(dup, [('rec', 'error', (a,))], [edge(E, scope(E, a), t)])],
                 'post: the type moves to the scope of the alias, or an error is reported at the alias')
        E.oblige(s, s.get(m, 'dom') == z3.Store(dom, t, True), 'post: the type counts as moved')
        E.oblige(s, s.get(m, 'val') == z3.If(dup, val, z3.Store(val, t, a)), 'post: the alias is remembered')


def settings_obj(E, st, k, d, tag):
    """Symbolic settings of d as a record."""
    t = [i for i, x in enumerate(E.tu.types) if x.get('rec') == K(k) and x['k'] == 'rec'][0]
    return E.fresh(st, t, lambda s, suf: E.uf('%s:%s%s' % (tag, k, suf), [d], s))


def named_fields(E, st, o):
    v = st.get(o, 'visible')
    return (E.to_term(st, st.get(o, 'spelling')), st.get(v, 'has'), z3.And(st.get(v, 'has'), E.to_bool(st, st.get(v, 'val'))))


def ns_fields(E, st, o):
    v = st.get(o, 'only_expose_in')
    return (E.to_bool(st, st.get(o, 'module')), st.get(v, 'n'), st.get(v, 'arr'))


def build(E):
    """DeclContextGraphBuilder::buildGraph"""
    E.abstract_strings = True
    setup_emit(E)
    clang_models(E)
    f = one(E.tu, B + 'buildGraph')
    st = State()
    G = E.new_obj(st, 'ghost', log=(), errors=z3.IntVal(0))
    m = mkmap(E, st, U, U)
    graph_t = z3.Const('graph', U)
    st.env['this'] = E.new_obj(st, 'genpybind::DeclContextGraphBuilder', translation_unit=z3.Const('tu', U), annotations=z3.Const('storage', U),
                               relocated_decls=m, graph=graph_t)
    graph(E, st, G)
    lc, nlc = z3.Const('contexts.a', z3.ArraySort(INT, U)), z3.Int('contexts.n')
    al, nal = z3.Const('aliases.a', z3.ArraySort(INT, U)), z3.Int('aliases.n')
    E.lib.pure |= {'clang::ASTContext::getDiagnostics'}
    E.lib.ctors['clang::DiagnosticErrorTrap'] = lambda E2, s, ty, a, e: E2.new_obj(s, 'trap', start=s.get(G, 'errors'))
    E.lib.models['clang::DiagnosticErrorTrap::hasErrorOccurred'] = lambda E2, s, c: s.get(G, 'errors') > s.get(E2.rv(s, c.obj), 'start')

    def collector(E2, s, ty, a, e):
        if len(a) != 1:
            return NotImplemented
        return E2.new_obj(s, COLLECTOR, lookup_contexts=vec(E2, s, U, z3.IntVal(0)), aliases=vec(E2, s, U, z3.IntVal(0)))
    E.lib.ctors[COLLECTOR] = collector
    E.lib.opaque |= {COLLECTOR}
    k = z3.Int('k!')

    def bump(E2, s, n):
        s.assume(n >= 0)
        s.set(G, 'errors', s.get(G, 'errors') + n)

    def traverse_all(E2, s, c):
        o = E2.rv(s, c.obj)
        s.set(o, 'lookup_contexts', vec(E2, s, U, nlc, lc, None))
        s.set(o, 'aliases', vec(E2, s, U, nal, al, None))
        # contracts of the Visit functions: complete scopes, annotated aliases
        s.assume(nlc >= 0, nal >= 0,
                 z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nlc), z3.And(lc[k] != NULL, E2.isa_term('clang::Decl', lc[k]))), patterns=[lc[k]]),
                 z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nal), z3.And(al[k] != NULL, has_attrs(E2, 'TypedefNameDeclAttrs', al[k]), target(E2, al[k]) != NULL)), patterns=[al[k]]))
        bump(E2, s, z3.Int('traversal_errors'))
        return z3.BoolVal(True)
    E.contracts['clang::RecursiveASTVisitor::TraverseDecl'] = E.contracts['clang::RecursiveASTVisitor<genpybind::LookupContextCollector>::TraverseDecl'] = traverse_all
    E.lib.models['clang::RecursiveASTVisitor::TraverseDecl'] = traverse_all
    first_of = lambda d: E.uf('spec.first_annotated_opening', [d], U)
    E.contracts[COLLECTOR + '::findFirstAnnotatedOpening'] = lambda E2, s, c: first_of(E2.to_term(s, c.args[0]))
    known = lambda d: has_attrs(E, 'NamedDeclAttrs', d)
    E.contracts['genpybind::AnnotationStorage::has'] = lambda E2, s, c: known(E2.to_term(s, c.args[0]))
    E.contracts['genpybind::aliasTarget'] = lambda E2, s, c: target(E2, E2.to_term(s, c.args[0]))
    E.contracts['findLookupContextDecl'] = lambda E2, s, c: lookup_ctx(E2, E2.to_term(s, c.args[0]))

    def lookup(E2, s, c):
        kk = (E2.T(c.fn['targs'][0]).get('rec') or '').rsplit('::', 1)[-1]
        d = E2.to_term(s, c.args[0])
        E2.oblige(s, has_attrs(E2, kk, d), 'only stored settings are looked up')
        return settings_obj(E2, s, kk, d, 'attr')
    E.contracts['genpybind::AnnotationStorage::lookup'] = lookup

    def update(E2, s, c):
        kk = (E2.T(c.fn['targs'][0]).get('rec') or '').rsplit('::', 1)[-1]
        d = E2.to_term(s, c.args[0])
        o = settings_obj(E2, s, kk, d, 'current')
        out = []
        for s2, _ in E2.invoke(s, c.args[1], [o], c.node):
            fields = {'NamedDeclAttrs': named_fields, 'NamespaceDeclAttrs': ns_fields}.get(kk)
            if fields is None:
                raise Abort('update<%s>' % kk)
            s2.set(G, 'log', s2.get(G, 'log') + (('rec', 'update ' + kk, (d,) + fields(E2, s2, o)),))
            out.append((s2, None))
        return out
    E.contracts['genpybind::AnnotationStorage::update'] = update

    def insert(E2, s, c):
        d = E2.to_term(s, c.args[0])
        s.set(G, 'log', s.get(G, 'log') + (('rec', 'insert', (d,)),))
        bump(E2, s, E2.uf('spec.insert_errors', [d], INT))
    E.contracts['genpybind::AnnotationStorage::insert'] = insert

    def add(E2, s, c):
        a = E2.to_term(s, c.args[0])
        o = E2.rv(s, s.get(s.env['this'], 'relocated_decls'))
        t = target(E2, a)
        out = []
        for s2, dup in E2.split(s, z3.Select(s.get(o, 'dom'), t)):
            s2.set(G, 'log', s2.get(G, 'log') + ((('rec', 'error', (a,)) if dup else edge(E2, scope(E2, a), t)),))
            s2.set(o, 'dom', z3.Store(s2.get(o, 'dom'), t, True))
            if dup:
                bump(E2, s2, z3.IntVal(1))
            out.append((s2, z3.BoolVal(not dup)))
        return out
    E.contracts[B + 'addEdgeForExposeHereAlias'] = add

    def propagate(E2, s, c):
        a = E2.to_term(s, c.args[1])
        s.set(G, 'log', s.get(G, 'log') + (('rec', 'propagate', (a,)),))
        bump(E2, s, E2.uf('spec.propagate_errors', [a], INT))
    E.contracts['genpybind::propagateAnnotations'] = propagate

    tf = lambda a, n: attr(E, 'TypedefNameDeclAttrs', '.' + n, a, BOOL)
    here = lambda i: tf(al[i], 'expose_here')
    j = z3.Int('j!')
    before = lambda i, x: z3.Exists([j], z3.And(j >= 0, j < i, here(j), target(E, al[j]) == x))
    x = z3.Const('x!', U)
    doms = lambda s: s.get(m, 'dom')

    def inv(E2, s0, q, mods):
        if ('h', m.oid, 'dom') not in mods:
            return []
        return [('moved types', lambda s, i: z3.ForAll([x], z3.Select(doms(s), x) == before(i, x))),
                ('a second alias is an error', lambda s, i: z3.Implies(z3.Exists([k], z3.And(k >= 0, k < i, here(k), before(k, target(E, al[k])))), s.get(G, 'errors') > 0)),
                ('errors are kept', lambda s, i: s.get(G, 'errors') >= 0)]
    E.loop_specs.append(LoopSpec(lambda E2, n, s, q: True, inv))

    cur = lambda kk, sfx, d, so: E.uf('current:%s%s' % (kk, sfx), [d], so)

    def opening(i):
        d = lc[i]
        a = first_of(d)
        c = z3.And(E.isa_term('clang::NamespaceDecl', d), z3.Not(known(d)), a != NULL, known(a))
        N, S = 'NamedDeclAttrs', 'NamespaceDeclAttrs'
        has_v = cur(N, '.visible?', d, BOOL)
        return [Cond(c, [('rec', 'update ' + N, (d, attr(E, N, '.spelling', a, STR), has_v, z3.And(has_v, cur(N, '.visible!', d, BOOL)))),
                         ('rec', 'update ' + S, (d, attr(E, S, '.module', a, BOOL), attr(E, S, '.only_expose_in.n', a, INT),
                                                 attr(E, S, '.only_expose_in.a', a, z3.ArraySort(INT, STR))))], [])]

    def alias(i):
        a = al[i]
        t = target(E, a)
        N = 'NamedDeclAttrs'
        enc, ex = tf(a, 'encourage'), tf(a, 'expose_here')
        return [Cond(z3.Or(enc, ex), [('rec', 'insert', (t,)),
                                      Cond(enc, [('rec', 'update ' + N, (t, cur(N, '.spelling', t, STR), z3.BoolVal(True), z3.BoolVal(True)))], []),
                                      Cond(ex, [Cond(before(i, t), [('rec', 'error', (a,)), ('whatever',)], [edge(E, scope(E, a), t), ('rec', 'propagate', (a,))])], [])], [])]

    def place(i):
        d = lc[i]
        return [Cond(before(nal, d), [], [edge(E, scope(E, d), d)])]
    E.current = 'buildGraph'
    # settings of annotated namespaces exist (C05)
    st.assume(z3.ForAll([x], z3.Implies(z3.And(known(x), E.isa_term('clang::NamespaceDecl', x)), has_attrs(E, 'NamespaceDeclAttrs', x)), patterns=[known(x)]))
    y = z3.Const('y!', U)
    st.assume(z3.ForAll([y], z3.Implies(z3.And(E.isa_term('clang::NamespaceDecl', y), first_of(y) != NULL), E.isa_term('clang::NamespaceDecl', first_of(y))), patterns=[first_of(y)]))
    for s, r in run(E, f, st):
        r = E.rv(s, r)
        if not isinstance(r, Obj) or E.cls(s, r) != 'optional':
            raise Abort('result')
        has_r = s.get(r, 'has')
        E.oblige(s, has_r == (s.get(G, 'errors') == 0), 'post: a graph exactly if no error was reported')
        E.oblige(s, z3.Implies(z3.Exists([k], z3.And(k >= 0, k < nal, here(k), before(k, target(E, al[k])))), z3.Not(has_r)), 'post: no graph if a type is exposed in two places')
        if E.entails(s, has_r):
            E.oblige(s, E.to_term(s, s.get(r, 'val')) == graph_t, 'post: the graph that was built')
            E.log_eq(s, s.get(G, 'log'), [ForEach(('vec', lc), nlc, opening), ForEach(('vec', al), nal, alias), ForEach(('vec', lc), nlc, place)],
                     'post: every scope is placed once: where an alias moves it, or else below its closest scope')


UNITS += [('findLookupContextDecl', BUILDER, find), ('addEdgeForExposeHereAlias', BUILDER, add_edge), ('buildGraph', BUILDER, build)]


def propagate(E):
    """propagateAnnotations: name and visibility of the alias apply to the type."""
    E.abstract_strings = True
    setup_emit(E)
    values(E)
    clang_models(E)
    f = one(E.tu, 'genpybind::propagateAnnotations')
    st = State()
    a = E.to_term(st, list(params(E, st, f).values())[1])
    t = target(E, a)
    st.assume(a != NULL, t != NULL, t != a)
    E.contracts['genpybind::aliasTarget'] = lambda E2, s, c: target(E2, E2.to_term(s, c.args[0]))
    E.contracts['genpybind::AnnotationStorage::has'] = lambda E2, s, c: has_attrs(E2, 'NamedDeclAttrs', E2.to_term(s, c.args[0]))
    E.contracts['genpybind::getSpelling'] = lambda E2, s, c: E2.uf('spec.cpp_name', [E2.to_term(s, c.args[0])], STR)
    st.assume(has_attrs(E, 'NamedDeclAttrs', t), has_attrs(E, 'NamedDeclAttrs', a))
    G = E.new_obj(st, 'ghost', n=z3.IntVal(0))
    N = 'NamedDeclAttrs'

    def lookup(E2, s, c):
        kk = (E2.T(c.fn['targs'][0]).get('rec') or '').rsplit('::', 1)[-1]
        return settings_obj(E2, s, kk, E2.to_term(s, c.args[0]), 'attr')
    E.contracts['genpybind::AnnotationStorage::lookup'] = lookup
    now = settings_obj(E, st, N, t, 'current')

    def update(E2, s, c):
        kk = (E2.T(c.fn['targs'][0]).get('rec') or '').rsplit('::', 1)[-1]
        if kk != N:
            raise Abort('update<%s>' % kk)
        E2.oblige(s, E2.to_term(s, c.args[0]) == t, 'only the settings of the type are changed')
        return E2.invoke(s, c.args[1], [now], c.node)
    E.contracts['genpybind::AnnotationStorage::update'] = update

    def make(kind):
        def g(E2, s, c):
            v = E2.fresh_const(U, 'value')
            s.assume(vkind(E2, v) == lit_kind(E2, kind))
            if kind == 'Boolean':
                s.assume(vbool(E2, v) == E2.to_bool(s, c.args[0]))
            elif kind == 'String':
                s.assume(vstr(E2, v) == E2.as_str(s, c.args[0]))
            return v
        return g
    for kind in ('Boolean', 'Default', 'String', 'Unsigned'):
        E.contracts[LV_ + '::create' + kind] = make(kind)
    VIS = E.tu.enums['genpybind::annotations::AnnotationKind::Kind']['Visible']

    def ctor(E2, s, ty, args, e):
        if len(args) != 2:
            return NotImplemented
        k = E2.rv(s, args[0])
        k = E2.to_term(s, s.get(k, 'kind')) if isinstance(k, Obj) else E2.to_term(s, k)
        v = E2.rv(s, args[1])
        items = None
        if isinstance(v, CList):
            items = [E2.to_term(s, x) for x in v.items]
        elif isinstance(v, Obj) and E2.cls(s, v) == 'vec' and z3.is_int_value(s.get(v, 'n')):
            items = [z3.simplify(z3.Select(s.get(v, 'arr'), i)) for i in range(s.get(v, 'n').as_long())]
        if items is None:
            raise Abort('annotation arguments')
        return E2.new_obj(s, 'annotation', kind=k, items=tuple(items))
    E.lib.ctors['genpybind::annotations::Annotation'] = ctor

    def process(E2, s, c):
        an, o = E2.rv(s, c.args[1]), E2.rv(s, c.args[2])
        if not (isinstance(an, Obj) and E2.cls(s, an) == 'annotation' and isinstance(o, Obj)):
            raise Abort('processAnnotation')
        E2.oblige(s, E2.to_term(s, c.args[0]) == t, 'the annotation is processed for the type')
        items = s.get(an, 'items')
        E2.oblige(s, s.get(an, 'kind') == VIS, 'only the visibility is set')
        if len(items) != 1:
            raise Abort('arguments of visible')
        v = items[0]
        isb, isd = vkind(E2, v) == lit_kind(E2, 'Boolean'), vkind(E2, v) == lit_kind(E2, 'Default')
        E2.oblige(s, z3.Or(isb, isd), 'the visibility is true, false or default')
        vis = s.get(o, 'visible')
        s.set(vis, 'has', isb)
        s.set(vis, 'val', vbool(E2, v))
        return z3.BoolVal(True)
    E.contracts['genpybind::processAnnotation'] = process
    E.current = 'propagateAnnotations'
    for s, _ in run(E, f, st):
        sp, has_v, v = named_fields(E, s, now)
        asp = attr(E, N, '.spelling', a, STR)
        E.oblige(s, sp == z3.If(asp != strval(b''), asp, E.uf('spec.cpp_name', [a], STR)), 'post: the type has the effective name of the alias')
        ah = attr(E, N, '.visible?', a, BOOL)
        E.oblige(s, z3.And(has_v == ah, v == z3.And(ah, attr(E, N, '.visible!', a, BOOL))), 'post: the type has the visibility of the alias')


def alias_target(E):
    f = one(E.tu, 'genpybind::aliasTarget')
    setup_emit(E)
    st = State()
    a = E.to_term(st, list(params(E, st, f).values())[0])
    E.lib.pure |= {'clang::TagDecl::getDefinition'}
    E.current = 'aliasTarget'

    def as_tag(E2, s, c):
        x = E2.to_term(s, c.obj)
        return E2.uf('spec.tag_of', [x], U)
    E.lib.models['clang::Type::getAsTagDecl'] = as_tag
    E.lib.models['clang::Type::getAsRecordDecl'] = lambda E2, s, c: E2.uf('spec.record_of', [E2.to_term(s, c.obj)], U)
    E.lib.models['clang::Type::getAsCXXRecordDecl'] = lambda E2, s, c: E2.uf('spec.record_of', [E2.to_term(s, c.obj)], U)
    E.lib.models['clang::QualType::operator->'] = lambda E2, s, c: E2.uf('clang::QualType::getTypePtr', [E2.to_term(s, c.obj)], U)
    t = E.uf('spec.tag_of', [E.uf('clang::QualType::getTypePtr', [E.uf('clang::TypedefNameDecl::getUnderlyingType', [a], U)], U)], U)
    d = E.uf('clang::TagDecl::getDefinition', [t], U)
    for s, r in run(E, f, st):
        E.oblige(s, E.to_term(s, r) == z3.If(t != NULL, d, NULL), 'post: the definition of the class or enum the alias names')


def visits(E):
    """Scopes and annotated aliases are collected once."""
    setup_emit(E)
    clang_models(E)
    for name, field in (('VisitNamespaceDecl', 'lookup_contexts'), ('VisitTagDecl', 'lookup_contexts'), ('VisitTypedefNameDecl', 'aliases')):
        f = one(E.tu, COLLECTOR + '::' + name)
        st = State()
        d = E.to_term(st, list(params(E, st, f).values())[0])
        kind = {'VisitNamespaceDecl': 'NamespaceDecl', 'VisitTagDecl': 'TagDecl', 'VisitTypedefNameDecl': 'TypedefNameDecl'}[name]
        st.assume(d != NULL, E.isa_term('clang::' + kind, d))
        vs = {n: vec(E, st, U, z3.Int(n + '.n'), z3.Const(n + '.a', z3.ArraySort(INT, U)), None) for n in ('lookup_contexts', 'aliases')}
        st.env['this'] = E.new_obj(st, COLLECTOR, annotations=z3.Const('storage', U), **vs)
        E.contracts['genpybind::hasAnnotations'] = lambda E2, s, c: E2.uf('spec.has_annotations', [E2.to_term(s, c.args[0])], BOOL)
        E.contracts[COLLECTOR + '::warnIfAliasHasQualifiers'] = lambda E2, s, c: None
        dependent = E.uf('clang::DeclContext::isDependentContext', [E.uf('clang::Decl::getDeclContext', [d], U)], BOOL)
        want = z3.And(E.uf('spec.has_annotations', [d], BOOL), z3.Not(dependent)) if field == 'aliases' else z3.Not(skipped(E, d))
        E.current = name
        for s, r in run(E, f, st):
            E.oblige(s, E.to_bool(s, r), 'post: the traversal goes on')
            for n in vs:
                n0, a0 = z3.Int(n + '.n'), z3.Const(n + '.a', z3.ArraySort(INT, U))
                n1, a1 = s.get(vs[n], 'n'), s.get(vs[n], 'arr')
                if n == field:
                    E.oblige(s, z3.If(want, z3.And(n1 == n0 + 1, a1 == z3.Store(a0, n0, d)), z3.And(n1 == n0, a1 == a0)), 'post: collected exactly if it can be exposed')
                else:
                    E.oblige(s, z3.And(n1 == n0, a1 == a0), 'post: other lists are unchanged')


UNITS += [('propagateAnnotations', ANN, propagate), ('aliasTarget', ANN, alias_target), ('LookupContextCollector::Visit*', BUILDER, visits)]


def cycles(E):
    """reportExposeHereCycles"""
    from . import c09
    setup(E)
    c09.source_order(E)
    f = one(E.tu, 'genpybind::reportExposeHereCycles')
    st = State()
    ps = params(E, st, f)
    rec = {}
    for v, p in zip(ps.values(), f['params']):
        rec[E.cls(st, v) if isinstance(v, Obj) else E.T(p['t']).get('rec')] = v
    g = E.to_term(st, rec['genpybind::DeclContextGraph'])
    mem = st.get(rec['set'], 'mem')
    dom, val = st.get(rec['map'], 'dom'), st.get(rec['map'], 'val')
    # iteration over the graph yields (declaration, node)
    n = E.uf('spec.nodes.n', [g], INT)
    node = lambda i: E.uf('spec.nodes.at', [g, i], U)

    def it(E2, s, v):
        if is_z3(v) and v.eq(g):
            return Seq(n, lambda E3, s3, i: E3.new_obj(s3, 'pair', first=decl(E3, node(i)), second=node(i)), ('nodes', g), lambda E3, s3: [n >= 0])
    E.lib.seq_hooks.insert(0, it)
    G, report = c09.reports(E, st, 'ExposeHereCycleError')
    E.current = 'reportExposeHereCycles'

    def item(i):
        d = decl(E, node(i))
        return [Cond(z3.And(z3.Not(z3.Select(mem, d)), z3.Select(dom, d)), [('rec', 'elem', (z3.Select(val, d),))])]
    for s, r in run(E, f, st):
        c = c09.check_sorted_reports(E, s, G, report, [ForEach(('nodes', g), n, item)], 'aliases whose type is not reachable')
        E.oblige(s, E.to_bool(s, r) == (c > 0), 'post: reports whether there are cycles')


UNITS += [('reportExposeHereCycles', 'src/decl_context_graph_processing.cpp', cycles)]


from . import c04 as _c04
UNITS += [u for u in _c04.UNITS if u[0] == 'processAnnotation(TypedefNameDeclAttrs)']
