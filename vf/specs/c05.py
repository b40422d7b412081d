"""C05: annotations imply visibility; every annotation is dispatched or diagnosed."""
from .bind import *

UNITS = []
K = lambda n: 'genpybind::' + n


def cname(n):
    return z3.StringVal(n)


def storage(E, st, doms=None):
    """Ghost representation of the annotation storage: one map per settings class."""
    maps = {}
    for k in ALL_KINDS:
        dom = z3.Const('dom.' + k, z3.ArraySort(U, BOOL)) if doms is None else doms(k)
        vis = E.new_obj(st, 'ghostopt')
        val = E.new_obj(st, K(k), visible=vis, _cls=k)
        maps[k] = E.new_obj(st, 'attrmap', dom=dom, _cls=k, _val=val)
    return E.new_obj(st, 'attrtuple', **maps)


def map_class(E, ty):
    ta = ty.get('targs') or []
    k = (E.T(ta[1]).get('rec') or '').rsplit('::', 1)[-1] if len(ta) > 1 else None
    if k not in ALL_KINDS:
        raise Abort('settings map %s' % ty.get('s'))
    return k


def storage_models(E, decl):
    M = E.lib.models

    def get(E2, st, c):
        o = E2.rv(st, c.args[0])
        if isinstance(o, Obj) and E2.cls(st, o) == 'attrtuple':
            t = c.fn['targs'][0]
            if not isinstance(t, int):
                raise Abort('std::get')
            return st.get(o, map_class(E2, E2.T(t)))
        return NotImplemented
    old_get = M.get('std::get')
    M['std::get'] = lambda E2, st, c: (lambda r: r if r is not NotImplemented or old_get is None else old_get(E2, st, c))(get(E2, st, c))

    def wrap(q, f):
        old = M.get(q)

        def g(E2, st, c):
            o = E2.rv(st, c.obj)
            if isinstance(o, Ptr):
                o = E2.rv(st, o.to)
            if isinstance(o, Obj) and E2.cls(st, o) == 'attrmap':
                return f(E2, st, c, o)
            return old(E2, st, c) if old else NotImplemented
        M[q] = g

    def index(E2, st, c, o):
        x = E2.to_term(st, c.args[0])
        if not E2.entails(st, x == decl):
            E2.oblige(st, x == decl, 'only the settings of the declaration are touched')
        st.set(o, 'dom', z3.Store(st.get(o, 'dom'), x, True))
        return st.get(o, '_val')

    def contains(E2, st, c, o):
        return z3.Select(st.get(o, 'dom'), E2.to_term(st, c.args[0]))
    p = 'std::unordered_map::'
    wrap(p + 'operator[]', index)
    wrap(p + 'contains', contains)
    wrap(p + 'count', lambda E2, st, c, o: z3.If(contains(E2, st, c, o), z3.IntVal(1), z3.IntVal(0)))

    def apply(E2, st, c):
        o = E2.rv(st, c.args[1])
        if not (isinstance(o, Obj) and E2.cls(st, o) == 'attrtuple'):
            raise Abort('std::apply')
        order = tuple_order(E2, c)
        if sorted(order) == sorted(ALL_KINDS):
            E2.tuple_order = order
        return E2.invoke(st, c.args[0], [st.get(o, k) for k in order], c.node)
    M['std::apply'] = apply


def tuple_order(E, c):
    """The settings classes in the order of the tuple type."""
    t = E.T(c.fn['targs'][1])
    ta = t.get('targs')
    if not ta:
        for p in c.fn['pt']:
            if (E.T(p).get('rec') or '') == 'std::tuple':
                ta = E.T(p).get('targs')
    if not ta:
        raise Abort('tuple type')
    return [map_class(E, E.T(x)) for x in ta]


def insert(E):
    E.abstract_strings = True
    setup_emit(E)
    E.lib.opaque -= {'genpybind::AnnotationStorage'}
    values(E)
    clang_models(E)
    binding_contracts(E)
    E.contracts.pop('genpybind::AnnotationStorage::get', None)
    f = one(E.tu, 'genpybind::AnnotationStorage::insert')
    st = State()
    ps = params(E, st, f)
    d = E.to_term(st, list(ps.values())[0])
    st.assume(d != NULL)
    tup = storage(E, st)
    st.env['this'] = E.new_obj(st, 'genpybind::AnnotationStorage', attrs_by_decl=tup)
    storage_models(E, d)
    pre = {k: z3.Select(st.get(st.get(tup, k), 'dom'), d) for k in ALL_KINDS}
    old = {k: st.get(st.get(tup, k), 'dom') for k in ALL_KINDS}
    # storage invariant: settings exist for declarations that were inserted
    for k in ALL_KINDS:
        st.assume(z3.Implies(pre[k], pre['NamedDeclAttrs']))
    G = E.new_obj(st, 'ghost', log=(), errors=z3.IntVal(0))
    skip = E.uf('spec.skipped', [d], BOOL)
    nonempty = E.uf('spec.nonempty_annotation', [d], BOOL)
    E.contracts['genpybind::LookupContextCollector::shouldSkip'] = lambda E2, s, c: E2.uf('spec.skipped', [E2.to_term(s, c.args[0])], BOOL)

    def has_ann(E2, s, c):
        x, e = E2.to_term(s, c.args[0]), z3.simplify(E2.to_bool(s, c.args[1])) if len(c.args) > 1 and c.args[1] is not None else z3.BoolVal(True)
        a = E2.uf('spec.any_annotation', [x], BOOL)
        b = E2.uf('spec.nonempty_annotation', [x], BOOL)
        s.assume(z3.Implies(b, a))
        return z3.If(e, a, b)
    E.contracts['genpybind::hasAnnotations'] = has_ann
    arr, n = z3.Const('annotations.a', z3.ArraySort(INT, U)), z3.Int('annotations.n')

    def parse(E2, s, c):
        E2.oblige(s, E2.to_term(s, c.args[0]) == d, 'the annotations of the declaration are parsed')
        s.assume(n >= 0)
        return vec(E2, s, U, n, arr, None)
    E.contracts['parseAnnotations'] = parse

    handled = lambda k, a: E.uf('spec.handled', [cname(k), a], BOOL)
    errors = lambda k, a: E.uf('spec.errors', [cname(k), a], INT)

    def process(E2, s, c):
        o = E2.rv(s, c.args[2])
        if not isinstance(o, Obj) or '_cls' not in s.heap[o.oid]:
            raise Abort('settings argument')
        k = s.heap[o.oid]['_cls']
        a = E2.to_term(s, c.args[1])
        E2.oblige(s, E2.to_term(s, c.args[0]) == d, 'annotations are processed for their declaration')
        s.set(G, 'log', s.get(G, 'log') + (('rec', 'process', (cname(k), a)),))
        s.assume(errors(k, a) >= 0)
        s.set(G, 'errors', s.get(G, 'errors') + errors(k, a))
        return handled(k, a)
    E.contracts['genpybind::processAnnotation'] = process
    E.lib.models['clang::Decl::dump'] = lambda E2, s, c: None

    def report(E2, s, c):
        sev = z3.simplify(severity(E2, E2.rv(s, c.args[1]))) if E2.T(c.fn['pt'][1])['k'] == 'enum' else clang_severity(c)
        if z3.is_true(sev):
            s.set(G, 'log', s.get(G, 'log') + (('rec', 'error', ()),))
            s.set(G, 'errors', s.get(G, 'errors') + 1)
        elif not z3.is_false(sev):
            raise Abort('severity')
        E2.oblige(s, E2.to_term(s, c.args[0]) == d, 'diagnostics are reported for the declaration')
        return E2.new_obj(s, 'diag')
    E.contracts['genpybind::Diagnostics::report'] = report

    def out(E2, s, c):
        xs = ([c.obj] if c.obj is not None else []) + list(c.args)
        o = E2.rv(s, xs[0])
        return o if isinstance(o, Obj) and E2.cls(s, o) == 'diag' else NotImplemented
    for q in ('clang::operator<<', 'clang::DiagnosticBuilder::operator<<', 'clang::StreamingDiagnostic::operator<<'):
        E.contracts[q] = out
    E.lib.ctors['clang::DiagnosticErrorTrap'] = lambda E2, s, ty, a, e: E2.new_obj(s, 'trap', start=s.get(G, 'errors'))
    E.lib.models['clang::DiagnosticErrorTrap::hasErrorOccurred'] = lambda E2, s, c: s.get(G, 'errors') > s.get(E2.rv(s, c.obj), 'start')
    E.lib.models['clang::DiagnosticErrorTrap::hasUnrecoverableErrorOccurred'] = lambda E2, s, c: E2.fresh_const(BOOL, 'unrecoverable')
    opt = E.lib.models['std::optional::operator=']

    def assign(E2, s, c):
        o = E2.rv(s, c.obj)
        if isinstance(o, Obj) and E2.cls(s, o) == 'ghostopt':
            v = E2.rv(s, c.args[0])
            if isinstance(v, Obj) and E2.cls(s, v) == 'optional':
                s.set(G, 'log', s.get(G, 'log') + (('rec', 'visible', (s.get(v, 'has'), E2.to_bool(s, s.get(v, 'val')))),))
            elif is_z3(v) and z3.is_bool(v):
                s.set(G, 'log', s.get(G, 'log') + (('rec', 'visible', (z3.BoolVal(True), v)),))
            else:
                raise Abort('visible')
            if o.oid != s.get(s.get(s.get(tup, 'NamedDeclAttrs'), '_val'), 'visible').oid:
                E2.oblige(s, False, 'visibility belongs to the general settings')
            return o
        return opt(E2, s, c)
    E.lib.models['std::optional::operator='] = assign

    ns = E.isa_term('clang::NamespaceDecl', d)
    sup = {k: supports(E, k, d) for k in ALL_KINDS}

    def item(k):
        a = z3.Select(arr, k)

        def go(rest, failed):
            if not rest:
                return [Cond(failed, [], [('rec', 'error', ())])]
            x = rest[0]
            now = z3.Or(failed, errors(x, a) > 0)
            return [Cond(sup[x], lambda: [('rec', 'process', (cname(x), a)), Cond(handled(x, a), [], lambda: go(rest[1:], now))], lambda: go(rest[1:], failed))]
        return go(getattr(E, 'tuple_order', ALL_KINDS), z3.BoolVal(False))
    E.current = 'AnnotationStorage::insert'
    active = z3.And(z3.Not(skip), z3.Not(pre['NamedDeclAttrs']))
    for s, _ in run(E, f, st):
        want = [Cond(active, [Cond(z3.And(z3.Not(ns), nonempty), [('rec', 'visible', (z3.BoolVal(True), z3.BoolVal(True)))], []), ForEach(('vec', arr), n, item)], [])]
        E.log_eq(s, s.get(G, 'log'), want, 'post: implied visibility first, then every annotation in order is handled once or diagnosed')
        for k in ALL_KINDS:
            dom = s.get(s.get(tup, k), 'dom')
            x = z3.Const('x!', U)
            E.oblige(s, z3.Select(dom, d) == z3.If(active, sup[k], pre[k]), 'post: settings exist exactly for the supported kinds (%s)' % k)
            E.oblige(s, z3.ForAll([x], z3.Implies(x != d, z3.Select(dom, x) == z3.Select(old[k], x))), 'post: other declarations are left alone (%s)' % k)


UNITS += [('AnnotationStorage::insert', ANN, insert)]


LOZENGE = '◊'.encode()


def annotate_attrs(E, st, d):
    M = E.lib.models

    def attrs(E2, s, c):
        t = E2.ts(c.fn['targs'][0]) if c.fn.get('targs') else '?'
        if t.rsplit('::', 1)[-1] != 'AnnotateAttr':
            raise Abort('attributes')
        return E2.uf('spec.annotate_attrs', [E2.to_term(s, c.obj)], U)
    M['clang::Decl::specific_attrs'] = attrs
    key = E.uf('spec.annotate_attrs', [d], U)
    n = E.uf('range.size', [key], INT)
    at = lambda k: E.uf('clang::AnnotateAttr::getAnnotation', [E.uf('range.at', [key, k], U)], STR)
    return key, n, at


def has(E):
    setup_emit(E)
    f = one(E.tu, 'genpybind::hasAnnotations')
    st = State()
    ps = params(E, st, f)
    vs = list(ps.values())
    d = E.to_term(st, vs[0])
    empty = E.to_bool(st, vs[1])
    st.assume(d != NULL)
    key, n, at = annotate_attrs(E, st, d)
    pre = strval(LOZENGE)
    k = z3.Int('k!')
    t = at(k)
    rest = z3.SubString(t, len(LOZENGE), z3.Length(t) - len(LOZENGE))
    trimmed = lambda x: E.uf('spec.ltrim', [x], STR)
    text = trimmed(rest) != strval(b'')

    def trim(E2, s, c, fn=trimmed):
        if c.node['a'] and c.node['a'][0].get('k') != 'defarg':
            raise Abort('trimmed characters')
        return fn(E2.as_str(s, c.obj))
    E.lib.models['llvm::StringRef::ltrim'] = trim
    y = z3.Const('y!', STR)
    for nm in ('trim', 'rtrim'):
        other = lambda x, nm=nm: E.uf('spec.' + nm, [x], STR)
        E.facts.append(z3.ForAll([y], (other(y) == strval(b'')) == (trimmed(y) == strval(b'')), patterns=[other(y)]))
        E.lib.models['llvm::StringRef::' + nm] = lambda E2, s, c, o=other: trim(E2, s, c, o)
    E.current = 'hasAnnotations'
    want = z3.Exists([k], z3.And(k >= 0, k < n, z3.PrefixOf(pre, t), z3.Or(empty, text)))
    for s, r in run(E, f, st):
        E.oblige(s, E.to_bool(s, r) == want, 'post: exactly the annotate attributes with the marker count, and blank ones only on request')


UNITS += [('hasAnnotations', ANN, has)]


def parse(E):
    setup_emit(E)
    f = one(E.tu, 'parseAnnotations')
    st = State()
    ps = params(E, st, f)
    d = E.to_term(st, list(ps.values())[0])
    st.assume(d != NULL)
    key, n, at = annotate_attrs(E, st, d)
    G = E.new_obj(st, 'ghost', log=())
    fails = lambda t: E.uf('spec.malformed', [t], BOOL)

    def parser(E2, s, c):
        t = E2.as_str(s, c.args[0])
        v = E2.rv(s, c.args[1])
        if not isinstance(v, Obj) or E2.cls(s, v) != 'vec':
            raise Abort('annotations argument')
        dd = dict(s.heap[v.oid])
        dd['log'] = dd['log'] + (('rec', 'annotations of', (t,)),)
        dd['n'] = E2.fresh_const(INT, 'n')
        dd['arr'] = E2.fresh_const(dd['arr'].sort(), 'a')
        s.heap[v.oid] = dd
        return E2.new_obj(s, 'error', text=t)
    E.contracts['genpybind::annotations::Parser::parseAnnotations'] = parser

    def handle(E2, s, c):
        e = E2.rv(s, c.args[0])
        if not isinstance(e, Obj) or E2.cls(s, e) != 'error':
            raise Abort('handleAllErrors')
        out = []
        for s2, bad in E2.split(s, fails(s.get(e, 'text'))):
            if bad:
                out += [(s3, None) for s3, _ in E2.invoke(s2, c.args[1], [E2.new_obj(s2, 'parser error', text=s2.get(e, 'text'))], c.node)]
            else:
                out.append((s2, None))
        return out
    E.lib.models['llvm::handleAllErrors'] = handle
    E.lib.ctors['llvm::Error'] = lambda E2, s, ty, a, e: E2.rv(s, a[0]) if a else NotImplemented
    E.lib.pure |= {'clang::SourceManager::getExpansionLoc', 'clang::ASTContext::getSourceManager', 'clang::ASTContext::getDiagnostics'}

    def report(E2, s, c):
        e = E2.rv(s, c.obj)
        s.set(G, 'log', s.get(G, 'log') + (('rec', 'error', (s.get(e, 'text'),)),))
        return None
    E.contracts['genpybind::annotations::Parser::Error::report'] = report
    pre = strval(LOZENGE)
    body = lambda t: z3.SubString(t, len(LOZENGE), z3.Length(t) - len(LOZENGE))
    E.current = 'parseAnnotations'
    for s, r in run(E, f, st):
        r = E.rv(s, r)
        if not isinstance(r, Obj):
            raise Abort('result')
        E.log_eq(s, s.get(r, 'log'), [ForEach(('range', key), n, lambda k: [Cond(z3.PrefixOf(pre, at(k)), [('rec', 'annotations of', (body(at(k)),))], [])])],
                 'post: the text of every marked attribute is parsed once, in order')
        E.log_eq(s, s.get(G, 'log'), [ForEach(('range', key), n, lambda k: [Cond(z3.And(z3.PrefixOf(pre, at(k)), fails(body(at(k)))), [('rec', 'error', (body(at(k)),))], [])])],
                 'post: an error is reported for exactly the malformed texts')


UNITS += [('parseAnnotations', ANN, parse)]


def visitor(E):
    from . import c19
    dict((u[0], u[2]) for u in c19.UNITS)['VisitNamedDecl'](E)


UNITS += [('VisitNamedDecl', 'src/decl_context_graph_builder.cpp', visitor)]
