"""C04: annotations are accepted only where documented, with exactly that effect."""
from .ann import *

UNITS = []
# Documented annotations (annotations.def, README) by settings class.
DOC = {
    'NamedDeclAttrs': {'Hidden', 'Visible', 'ExposeAs', 'Module'},
    'NamespaceDeclAttrs': {'Module', 'OnlyExposeIn'},
    'EnumDeclAttrs': {'Arithmetic', 'ExportValues'},
    'RecordDeclAttrs': {'DynamicAttr', 'HideBase', 'HolderType', 'InlineBase'},
    'TypedefNameDeclAttrs': {'ExposeHere', 'Encourage'},
    'FieldOrVarDeclAttrs': {'Readonly', 'Manual', 'Postamble'},
    'OperatorDeclAttrs': set(),
    'ConversionFunctionDeclAttrs': set(),
    'MethodDeclAttrs': {'GetterFor', 'SetterFor'},
    'ConstructorDeclAttrs': {'ImplicitConversion'},
    'FunctionDeclAttrs': {'KeepAlive', 'Noconvert', 'Required', 'ReturnValuePolicy'},
}
CLANG = {'NamespaceDeclAttrs': 'NamespaceDecl', 'EnumDeclAttrs': 'EnumDecl', 'RecordDeclAttrs': 'CXXRecordDecl',
         'TypedefNameDeclAttrs': 'TypedefNameDecl', 'OperatorDeclAttrs': 'FunctionDecl',
         'ConversionFunctionDeclAttrs': 'CXXConversionDecl', 'MethodDeclAttrs': 'CXXMethodDecl',
         'ConstructorDeclAttrs': 'CXXConstructorDecl', 'FunctionDeclAttrs': 'FunctionDecl'}


class Ctx:
    """Symbols of one call processAnnotation(decl, annotation, attrs)."""

    def __init__(self, E, st, decl, args, attrs):
        self.E, self.decl, self.attrs = E, decl, attrs
        self.n, self.arr = st.get(args, 'n'), st.get(args, 'arr')
        self.old = st.heap[attrs.oid]

    def at(self, j):
        return z3.Select(self.arr, j)

    def one(self, kind):
        return z3.And(self.n == 1, vkind(self.E, self.at(0)) == lit_kind(self.E, kind))

    def all(self, kind):
        j = z3.Int('j!a')
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), vkind(self.E, self.at(j)) == lit_kind(self.E, kind)))

    def forall(self, f):
        j = z3.Int('j!f')
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), f(self.at(j))))

    def some(self, f, n=None):
        j = z3.Int('j!s')
        return z3.Exists([j], z3.And(j >= 0, j < (self.n if n is None else n), f(self.at(j))))


def flag(c, f, opt=False):
    w = (lambda v: ('opt', v)) if opt else (lambda v: v)
    return [(c.n == 0, {f: w(z3.BoolVal(True))}), (c.one('Boolean'), {f: w(vbool(c.E, c.at(0)))})]


def accepted(E, cls, K, c):
    """[(condition, effects)] of the documented forms of annotation K."""
    text = vstr(E, c.at(0))
    if K == 'Hidden':
        return [(c.n == 0, {'visible': ('opt', z3.BoolVal(False))})]
    if K == 'Visible':
        return flag(c, 'visible', True) + [(c.one('Default'), {'visible': ('none',)})]
    if K == 'ExposeAs':
        return [(c.one('Default'), {'spelling': strval('')}), (z3.And(c.one('String'), valid_id(E, text)), {'spelling': text})]
    if K == 'Module' and cls == 'NamedDeclAttrs':
        return [(z3.And(E.isa_term('clang::NamespaceDecl', c.decl), c.one('String'), valid_id(E, text)), {'spelling': text}),
                (z3.Not(z3.And(E.isa_term('clang::NamespaceDecl', c.decl), c.one('String'))), {})]
    if K == 'Module':
        return [(z3.Or(c.n == 0, c.one('String')), {'module': z3.BoolVal(True)})]
    if K == 'OnlyExposeIn':
        return [(z3.And(c.n >= 1, c.all('String')),
                 {'only_expose_in': ('append', lambda i: [('rec', 'elem', (vstr(E, c.at(i)),))])})]
    if K == 'Arithmetic':
        return flag(c, 'arithmetic')
    if K == 'ExportValues':
        return flag(c, 'export_values', True)
    if K == 'DynamicAttr':
        return flag(c, 'dynamic_attr')
    if K == 'HolderType':
        return [(c.one('String'), {'holder_type': text})]
    if K in ('HideBase', 'InlineBase'):
        f = 'hide_base' if K == 'HideBase' else 'inline_base'
        return [(c.all('String'), {f: ('set', lambda x: bases_named(E, c, K, x))})]
    if K == 'ExposeHere':
        return [(z3.And(c.n == 0, z3.Not(c.old['encourage'])), {'expose_here': z3.BoolVal(True)})]
    if K == 'Encourage':
        return [(z3.And(c.n == 0, z3.Not(c.old['expose_here'])), {'encourage': z3.BoolVal(True)})]
    if K == 'Readonly':
        return flag(c, 'readonly')
    if K == 'Manual':
        ok, lam = manual_lambda(E, c.decl)
        return [(z3.And(c.n == 0, ok), {'manual_bindings': lam})]
    if K == 'Postamble':
        ok, lam = manual_lambda(E, c.decl)
        ctx = E.uf('clang::Decl::getDeclContext', [c.decl], U)
        return [(z3.And(c.n == 0, ok, E.isa_term('clang::TranslationUnitDecl', ctx)), {'postamble': z3.BoolVal(True)})]
    fn = c.decl
    ps = E.uf('clang::FunctionDecl::parameters', [fn], U)
    np = E.uf('range.size', [ps], INT)
    need = E.uf('clang::FunctionDecl::getMinRequiredArguments', [fn], INT)
    if K in ('GetterFor', 'SetterFor'):
        if K == 'GetterFor':
            ret = E.uf('type_of', [E.uf('clang::FunctionDecl::getReturnType', [fn], U)], U)
            sig = z3.And(need == 0, z3.Not(E.uf('clang::Type::isVoidType', [ret], BOOL)))
        else:
            sig = z3.And(np >= 1, need <= 1)
        return [(z3.And(sig, c.n >= 1, c.all('String'), c.forall(lambda v: valid_id(E, vstr(E, v)))),
                 {'getter_for' if K == 'GetterFor' else 'setter_for': ('set', lambda x: c.some(lambda v: vstr(E, v) == x))})]
    if K == 'ImplicitConversion':
        conv = E.uf('clang::CXXConstructorDecl::isConvertingConstructor', [fn, z3.BoolVal(True)], BOOL)
        return [(z3.And(g, np == 1, conv), e) for g, e in flag(c, 'implicit_conversion')]
    if K == 'ReturnValuePolicy':
        return [(c.one('String'), {'return_value_policy': text})]
    pname = lambda j: E.uf('clang::NamedDecl::getName', [E.uf('range.at', [ps, j], U)], STR)
    first = first_named(E, ps, np, pname)
    if K in ('Noconvert', 'Required'):
        known = lambda v: first(vstr(E, v)) < np
        return [(z3.And(c.n >= 1, c.all('String'), c.forall(known)),
                 {K.lower(): ('set', lambda x: c.some(lambda v: z3.And(x < np, x == first(vstr(E, v)))))})]
    if K == 'KeepAlive':
        inst = z3.And(E.isa_term('clang::CXXMethodDecl', fn), z3.Not(E.uf('clang::CXXMethodDecl::isStatic', [fn], BOOL)))
        off = z3.If(inst, z3.IntVal(2), z3.IntVal(1))
        a, b = vstr(E, c.at(0)), vstr(E, c.at(1))
        idx = lambda s: z3.If(s == strval('return'), z3.IntVal(0), z3.If(z3.And(inst, s == strval('this')), z3.IntVal(1), off + first(s)))
        known = lambda s: idx(s) < np + off
        return [(z3.And(c.n == 2, c.all('String'), known(a), known(b)),
                 {'keep_alive': ('push', lambda sn: z3.And(sn[0] == idx(a), sn[1] == idx(b)))})]
    raise Abort('annotation %s has no contract' % K)


def first_named(E, ps, np, pname):
    """Position of the first parameter with the given name, or their number."""
    f = lambda s: E.uf('spec.first_named', [ps, s], INT)
    x, k = z3.Const('x!n', STR), z3.Int('k!n')
    new = [z3.ForAll([x], z3.And(f(x) >= 0, f(x) <= np, z3.Implies(f(x) < np, pname(f(x)) == x)), patterns=[f(x)]),
           z3.ForAll([x, k], z3.Implies(z3.And(k >= 0, k < np, pname(k) == x), f(x) <= k), patterns=[z3.MultiPattern(f(x), pname(k))])]
    for n in new:
        if not any(n.eq(o) for o in E.facts):
            E.facts.append(n)
    return f


def base_decl(E, c, K, j):
    if K == 'HideBase':
        b = E.uf('range.at', [E.uf('clang::CXXRecordDecl::bases', [c.decl], U), j], U)
        t = E.uf('type_of', [E.uf('clang::CXXBaseSpecifier::getType', [b], U)], U)
        return E.uf('clang::TagDecl::getDefinition', [E.uf('clang::Type::getAsTagDecl', [t], U)], U)
    return E.uf('clang::CXXRecordDecl::getDefinition', [E.uf('range.at', [E.uf('spec.all_bases', [c.decl], U), j], U)], U)


def base_count(E, c, K):
    return E.uf('range.size', [E.uf('clang::CXXRecordDecl::bases' if K == 'HideBase' else 'spec.all_bases', [c.decl], U)], INT)


def base_matches(E, c, K, j):
    return z3.Or(c.n == 0, c.some(lambda v: E.uf('spec.names', [vstr(E, v), base_decl(E, c, K, j)], BOOL)))


def bases_named(E, c, K, x, upto=None):
    j = z3.Int('j!b')
    return z3.Exists([j], z3.And(j >= 0, j < (base_count(E, c, K) if upto is None else upto), x == base_decl(E, c, K, j), base_matches(E, c, K, j)))


def manual_lambda(E, d):
    u = lambda q, a, s=U: E.uf(q, a, s)
    lam = u('clang::Expr::IgnoreImpCasts', [u('clang::VarDecl::getInit', [d])])
    m = u('clang::LambdaExpr::getCallOperator', [lam])
    ps = u('clang::FunctionDecl::parameters', [m])
    pt = u('clang::ValueDecl::getType', [u('range.at', [ps, z3.IntVal(0)])])
    return z3.And(E.isa_term('clang::VarDecl', d), u('clang::VarDecl::hasInit', [d], BOOL), E.isa_term('clang::LambdaExpr', lam),
                  u('clang::LambdaExpr::hasExplicitParameters', [lam], BOOL), u('range.size', [ps], INT) == 1,
                  u('clang::Type::isLValueReferenceType', [u('type_of', [pt])], BOOL),
                  z3.Not(u('clang::Type::isUndeducedAutoType', [u('type_of', [u('clang::QualType::getNonReferenceType', [pt])])], BOOL))), lam


def overload(E, cls):
    c = [f for f in E.tu.by_q.get('genpybind::processAnnotation', []) if 'body' in f and len(f['params']) == 3
         and E.T(f['params'][2]['t']).get('rec') == 'genpybind::' + cls]
    if len(c) != 1:
        raise Abort('processAnnotation(%s): %d definitions' % (cls, len(c)))
    return c[0]


def same_field(E, st, o, n, d):
    v = d[n]
    if isinstance(v, Obj) and E.cls(st, v) == 'vec':
        return v
    return v


def process(cls, only=None):
    def unit(E):
        E.abstract_strings = True
        setup_emit(E)
        clang_models(E)
        values(E)
        f = overload(E, cls)
        kinds = E.tu.enums['genpybind::annotations::AnnotationKind::Kind']
        for K, kv in sorted(kinds.items(), key=lambda x: x[1]):
            if (only is not None) and K not in only:
                continue
            st = State()
            E.loop_specs = []
            ps = params(E, st, f)
            decl, ann, attrs = [list(ps.values())[i] for i in range(3)]
            decl = E.to_term(st, decl)
            if not isinstance(ann, Obj) or not isinstance(attrs, Obj):
                raise Abort('parameters of processAnnotation')
            st.assume(decl != NULL)
            if cls in CLANG:
                st.assume(E.isa_term('clang::' + CLANG[cls], decl))
            if cls == 'FieldOrVarDeclAttrs':
                st.assume(z3.Or(E.isa_term('clang::FieldDecl', decl), E.isa_term('clang::VarDecl', decl)))
            ko = st.get(ann, 'kind')
            st.set(ko, 'kind', z3.IntVal(kv)) if isinstance(ko, Obj) else st.set(ann, 'kind', z3.IntVal(kv))
            args = st.get(ann, 'arguments')
            j = z3.Int('j')
            st.assume(z3.ForAll([j], z3.Select(st.get(args, 'arr'), j) != NULL))
            D = diagnostics(E, st, decl, (kind_name(E, z3.IntVal(kv)), z3.Const('spec.annotation_text', STR)))
            # observed lists of the settings
            for n, v in list(st.heap[attrs.oid].items()):
                if isinstance(v, Obj) and E.cls(st, v) == 'vec':
                    st.set(v, 'log', (('pfx', 'old ' + n),))
            c = Ctx(E, st, decl, args, attrs)
            old = E.clone(st, attrs)
            c.old = st.heap[old.oid]
            akey = ('vec', st.get(args, 'arr'))
            E.loop_specs.append(arg_loop(E, cls, K, c, D, attrs, akey))
            E.current = 'processAnnotation(%s, %s)' % (cls, K)
            doc = K in DOC[cls]
            forms = accepted(E, cls, K, c) if doc else [(z3.BoolVal(True), {})]
            for s, r in run(E, f, st):
                r = E.to_bool(s, r)
                err = s.get(D, 'err')
                anyform = z3.Or(*[g for g, _ in forms])
                E.oblige(s, z3.Implies(err, z3.Not(s.get(D, 'pend'))), 'post: the message names the annotation')
                if not doc:
                    E.oblige(s, z3.And(z3.Not(r), z3.Not(err)), 'post: left to other handlers')
                elif not (K == 'Module' and cls == 'NamedDeclAttrs'):
                    E.oblige(s, z3.Or(anyform, err, z3.Not(r)), 'post: any other form is rejected')
                else:
                    E.oblige(s, z3.Not(r), 'post: left to other handlers')
                    E.oblige(s, z3.Or(anyform, err), 'post: any other form is rejected')
                for g, eff in forms:
                    s2 = s.copy()
                    s2.assume(g)
                    if not E.feasible(s2):
                        continue
                    E.oblige(s2, z3.Not(err), 'post: accepted without error')
                    if doc and not (K == 'Module' and cls == 'NamedDeclAttrs'):
                        E.oblige(s2, r, 'post: accepted')
                    check_effects(E, s2, cls, attrs, old, eff, akey, c)
    return unit


def check_effects(E, s, cls, attrs, old, eff, akey, c):
    for fd in E.all_fields('genpybind::' + cls):
        n = fd['n']
        new, prev = s.get(attrs, n), s.get(old, n)
        want = eff.get(n)
        nm = 'post: %s' % n
        if isinstance(new, Obj) and E.cls(s, new) == 'vec':
            exp = list(s.get(prev, 'log'))
            got = s.get(new, 'log')
            if want is None:
                E.log_eq(s, got, exp, nm + ' unchanged')
            elif want[0] == 'append':
                E.log_eq(s, got, exp + [ForEach(akey, c.n, want[1])], nm + ' is extended by the arguments')
            else:
                tail = got[len(exp):]
                E.oblige(s, z3.BoolVal(list(got[:len(exp)]) == exp and len(tail) == 1 and tail[0][0] == 'rec'), nm + ' gets one entry')
                if len(tail) == 1 and tail[0][0] == 'rec':
                    sn = tail[0][2][0]
                    E.oblige(s, want[1](sn[2]), nm + ' names the right parameters')
            continue
        if isinstance(new, Obj) and E.cls(s, new) == 'set':
            if want is None:
                E.oblige(s, s.get(new, 'mem') == s.get(prev, 'mem'), nm + ' unchanged')
            else:
                x = E.fresh_const(s.get(new, 'mem').sort().domain(), 'x')
                E.oblige(s, z3.Select(s.get(new, 'mem'), x) == z3.Or(z3.Select(s.get(prev, 'mem'), x), want[1](x)), nm + ' is extended by exactly the named ones')
            continue
        if want is None:
            E.oblige(s, E.struct_eq(s, new, prev), nm + ' unchanged')
        elif isinstance(want, tuple):
            d = s.heap[new.oid]
            E.oblige(s, z3.Not(d['has']) if want[0] == 'none' else z3.And(d['has'], E.to_term(s, d['val']) == want[1]), nm + ' is set')
        else:
            E.oblige(s, E.to_term(s, new) == want, nm + ' is set')


def arg_loop(E, cls, K, c, D, attrs, akey):
    """Invariants of the loops over arguments, bases and parameters."""
    ps = E.uf('clang::FunctionDecl::parameters', [c.decl], U)
    np = E.uf('range.size', [ps], INT)
    pname = lambda j: E.uf('clang::NamedDecl::getName', [E.uf('range.at', [ps, j], U)], STR)
    first = first_named(E, ps, np, pname)

    def inv(E2, st0, q, mods):
        out = []
        over_args = q.key == akey or E.key_eq(st0, q.key, akey)
        for m in mods:
            if m[0] != 'h' or m[1] not in st0.heap:
                continue
            o = st0.heap[m[1]]
            if o['cls'] == 'set' and m[2] == 'mem' and K in ('Noconvert', 'Required') and over_args:
                x = z3.Int('x')
                old = o['mem']
                out.append(('inserted', lambda s, i, m=m, old=old: z3.ForAll([x], z3.Select(s.heap[m[1]]['mem'], x) == z3.Or(
                    z3.Select(old, x), c.some(lambda v: z3.And(x < np, x == first(vstr(E, v))), i)))))
            if o['cls'] == 'set' and m[2] == 'mem' and K in ('HideBase', 'InlineBase') and not over_args:
                x = z3.Const('x', U)
                old = o['mem']
                out.append(('inserted', lambda s, i, m=m, old=old: z3.ForAll([x], z3.Select(s.heap[m[1]]['mem'], x) == z3.Or(
                    z3.Select(old, x), bases_named(E, c, K, x, i)))))
            if o['cls'] == 'diag' and m[2] == 'err' and over_args:
                e0 = o['err']
                bad = (lambda v: first(vstr(E, v)) >= np) if K in ('Noconvert', 'Required') else (
                    lambda v: z3.Not(valid_id(E, vstr(E, v))))
                out.append(('errors', lambda s, i, m=m, e0=e0, bad=bad: s.heap[m[1]]['err'] == z3.Or(e0, c.some(bad, i))))
        return out
    return LoopSpec(lambda E2, n, s, r: True, inv)


for cls in ALL_KINDS:
    UNITS.append(('processAnnotation(%s)' % cls, ANN, process(cls)))


def unit_supports(E):
    """Settings classes apply to the documented kinds of declarations."""
    from . import bind
    E.abstract_strings = True
    setup_emit(E)
    clang_models(E)
    bind.overloaded_operator(E)
    for cls in ALL_KINDS:
        f = one(E.tu, 'genpybind::%s::supports' % cls)
        st = State()
        ps = params(E, st, f)
        d = [E.to_term(st, v) for v in ps.values()] or [z3.Const('decl', U)]
        d = d[0]
        st.assume(d != NULL)
        for o in ALL_KINDS:
            if o != cls:
                E.contracts['genpybind::%s::supports' % o] = lambda E2, s, c, o=o: bind.supports(E2, o, E2.to_term(s, c.args[0]))
        E.contracts.pop('genpybind::%s::supports' % cls, None)
        E.contracts['genpybind::hasAnnotations'] = lambda E2, s, c: E2.uf('spec.has_annotations', [E2.to_term(s, c.args[0])], BOOL)
        E.contracts['genpybind::aliasTarget'] = lambda E2, s, c: E2.uf('spec.alias_target', [E2.to_term(s, c.args[0])], U)
        D = diagnostics(E, st, d)
        E.current = cls + '::supports'
        alias = z3.And(E.isa_term('clang::TypedefNameDecl', d), E.uf('spec.alias_target', [d], U) == NULL, E.uf('spec.has_annotations', [d], BOOL))
        for s, r in run(E, f, st):
            E.oblige(s, E.to_bool(s, r) == bind.supports(E, cls, d), 'post: exactly the documented kinds of declarations')
            E.oblige(s, s.get(D, 'err') == (alias if cls == 'TypedefNameDeclAttrs' else z3.BoolVal(False)), 'post: only annotated aliases of other types are errors')


def unit_diag(E):
    """The severity of each diagnostic is the one in its name."""
    f = one(E.tu, 'getCustomDiagID')
    kinds = E.tu.enums['genpybind::Diagnostics::Kind']
    lv = None
    for n, e in E.tu.enums.items():
        if n.endswith('DiagnosticsEngine::Level'):
            lv = e
    if lv is None:
        raise Abort('severity enum')
    E.lib.models['clang::DiagnosticsEngine::getCustomDiagID'] = lambda E2, s, c: E2.to_term(s, E2.rv(s, c.args[0]))
    for n, v in sorted(kinds.items()):
        st = State()
        for p in f['params']:
            if E.T(p['t'])['k'] == 'enum':
                st.env[p['id']] = E.new_cell(st, z3.IntVal(v))
            else:
                st.env[p['id']] = E.new_cell(st, z3.Const('engine', U))
        want = [lv[x] for x in ('Error', 'Warning', 'Note') if n.endswith(x)]
        E.current = 'getCustomDiagID(%s)' % n
        for s, r in run(E, f, st):
            E.oblige(s, E.to_term(s, r) == want[0], 'post: severity')


def unit_names(E):
    """Every annotation kind is printed as it is spelled in annotations."""
    import re
    c = [f for f in E.tu.by_q.get('genpybind::annotations::toString', []) if 'body' in f and E.T(f['params'][0]['t']).get('rec', '').endswith('AnnotationKind')]
    if len(c) != 1:
        raise Abort('toString(AnnotationKind)')
    f = c[0]
    kinds = E.tu.enums['genpybind::annotations::AnnotationKind::Kind']
    for n, v in sorted(kinds.items(), key=lambda x: x[1]):
        st = State()
        ps = params(E, st, f)
        k = list(ps.values())[0]
        st.set(k, 'kind', z3.IntVal(v))
        E.current = 'toString(%s)' % n
        for s, r in run(E, f, st):
            E.oblige(s, E.as_str(s, r) == strval(re.sub('(?<!^)([A-Z])', r'_\1', n).lower()), 'post: name of the annotation')


UNITS += [('supports', ANN, unit_supports), ('getCustomDiagID', 'src/diagnostics.cpp', unit_diag),
          ('toString(AnnotationKind)', 'src/annotations/annotation.cpp', unit_names)]
