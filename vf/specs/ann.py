"""Shared contracts for annotations, their argument values and diagnostics."""
from .emit import *

ANN = 'src/annotated_decl.cpp'
LV_ = 'genpybind::annotations::LiteralValue'
KIND = LV_ + '.kind'
ALL_KINDS = ('NamedDeclAttrs', 'NamespaceDeclAttrs', 'EnumDeclAttrs', 'RecordDeclAttrs', 'TypedefNameDeclAttrs', 'FieldOrVarDeclAttrs',
             'OperatorDeclAttrs', 'ConversionFunctionDeclAttrs', 'MethodDeclAttrs', 'ConstructorDeclAttrs', 'FunctionDeclAttrs')


def vkind(E, v):
    return E.uf(KIND, [v], INT)


def vstr(E, v):
    return E.uf('spec.string', [v], STR)


def vbool(E, v):
    return E.uf('spec.boolean', [v], BOOL)


def vnum(E, v):
    return E.uf('spec.unsigned', [v], INT)


def lit_kind(E, n):
    return z3.IntVal(E.tu.enums[LV_ + '::Kind'][n])


def kind_name(E, k):
    return E.uf('spec.kind_name', [k], STR)


def valid_id(E, s):
    return E.uf('spec.valid_identifier', [s], BOOL)


def values(E):
    """Contracts of LiteralValue (proved for C02) and of printing."""
    E.lib.opaque |= {LV_}

    def getter(kind, f):
        def g(E2, st, c):
            v = E2.to_term(st, c.obj)
            E2.oblige(st, vkind(E2, v) == lit_kind(E2, kind), 'a %s value is only read if it holds one' % kind.lower())
            return f(E2, v)
        return g
    E.contracts[LV_ + '::getString'] = getter('String', vstr)
    E.contracts[LV_ + '::getBoolean'] = getter('Boolean', vbool)
    E.contracts[LV_ + '::getUnsigned'] = getter('Unsigned', vnum)

    def tostr(E2, st, c):
        p = E2.T(c.fn['pt'][0]).get('rec', '')
        v = E2.rv(st, c.args[0])
        if p.endswith('::AnnotationKind'):
            return kind_name(E2, E2.to_term(st, st.get(v, 'kind')) if isinstance(v, Obj) else E2.to_term(st, v))
        if p.endswith('::Annotation'):
            return z3.Const('spec.annotation_text', STR)
        return E2.uf('spec.value_text', [E2.to_term(st, v)], STR)
    E.contracts['genpybind::annotations::toString'] = tostr
    E.contracts['genpybind::isValidIdentifier'] = lambda E2, st, c: valid_id(E2, E2.as_str(st, c.args[0]))


def severity(E, k):
    """Error kinds by name; getCustomDiagID is proved to agree."""
    en = E.tu.enums['genpybind::Diagnostics::Kind']
    return z3.Or(*[k == v for n, v in en.items() if n.endswith('Error')])


def clang_severity(c):
    """Severity of one of clang's own diagnostics, by its enumerator."""
    hit = []
    walk(c.node['a'][1], lambda x: hit.append(x['n']) if x.get('k') == 'enumc' else None)
    if len(hit) == 1 and '::note_' in hit[0]:
        return z3.BoolVal(False)
    if len(hit) == 1 and '::err_' in hit[0]:
        return z3.BoolVal(True)
    raise Abort('diagnostic id')


def diagnostics(E, st, decl=None, names=()):
    """Ghost state of the diagnostics engine: err is set once an error was reported,
    pend while the message of a reported error does not name the annotation."""
    D = E.new_obj(st, 'diag', args=(), err=z3.BoolVal(False), pend=z3.BoolVal(False))

    def report(E2, s, c):
        k = E2.rv(s, c.args[1])
        d = E2.to_term(s, c.args[0])
        if decl is not None:
            E2.oblige(s, d == decl, 'diagnostics are reported for the declaration')
        if E2.T(c.fn['pt'][1])['k'] != 'enum':
            sev = clang_severity(c)
        else:
            sev = z3.simplify(severity(E2, k))
        if z3.is_false(sev):
            return E2.new_obj(s, 'diag', args=(), err=z3.BoolVal(False), pend=z3.BoolVal(False))
        s.set(D, 'err', z3.simplify(z3.Or(s.get(D, 'err'), sev)))
        s.set(D, 'pend', z3.simplify(z3.Or(s.get(D, 'pend'), sev)) if names else z3.BoolVal(False))
        return D
    E.contracts['genpybind::Diagnostics::report'] = report

    def out(E2, s, c):
        xs = ([c.obj] if c.obj is not None else []) + list(c.args)
        o = E2.rv(s, xs[0])
        if isinstance(o, Obj) and E2.cls(s, o) == 'diag':
            v = E2.rv(s, xs[1])
            try:
                t = E2.to_term(s, v)
            except Abort:
                t = None
            if t is not None and t.sort() == STR and names and o == D:
                s.set(D, 'pend', z3.simplify(z3.And(s.get(D, 'pend'), *[t != n for n in names])))
            return o
        return NotImplemented
    for q in ('clang::operator<<', 'clang::DiagnosticBuilder::operator<<', 'clang::StreamingDiagnostic::operator<<'):
        E.contracts[q] = out
    return D


def clang_models(E):
    """Relations between clang observers."""
    M = E.lib.models

    def ps(E2, d):
        return E2.uf('clang::FunctionDecl::parameters', [d], U)

    def count(E2, st, c):
        n = E2.uf('range.size', [ps(E2, E2.to_term(st, c.obj))], INT)
        st.assume(n >= 0)
        return n
    M['clang::FunctionDecl::getNumParams'] = M['clang::FunctionDecl::param_size'] = count
    M['clang::FunctionDecl::parameters'] = lambda E2, st, c: ps(E2, E2.to_term(st, c.obj))

    def at(E2, st, c):
        i = E2.rv(st, c.args[0])
        p = ps(E2, E2.to_term(st, c.obj))
        E2.oblige(st, z3.And(i >= 0, i < E2.uf('range.size', [p], INT)), 'parameter index in range')
        return E2.uf('range.at', [p, i], U)
    M['clang::FunctionDecl::getParamDecl'] = at
    M['clang::CXXMethodDecl::isInstance'] = lambda E2, st, c: z3.Not(E2.uf('clang::CXXMethodDecl::isStatic', [E2.to_term(st, c.obj)], BOOL))

    def matcher(E2, st, ty, a, e):
        v = E2.rv(st, a[0])
        if not isinstance(v, Obj):
            raise Abort('name matcher')
        return E2.new_obj(st, 'matcher', arr=st.get(v, 'arr'), n=st.get(v, 'n'))
    E.lib.ctors['clang::ast_matchers::internal::HasNameMatcher'] = matcher

    def matches(E2, st, c):
        o = E2.rv(st, c.obj)
        k = z3.Int(E2.fresh_name('k'))
        return z3.Exists([k], z3.And(k >= 0, k < st.get(o, 'n'),
                                     E2.uf('spec.names', [z3.Select(st.get(o, 'arr'), k), E2.to_term(st, c.args[0])], BOOL)))
    M['clang::ast_matchers::internal::HasNameMatcher::matchesNode'] = matches

    def forall_bases(E2, st, c):
        r = E2.to_term(st, c.obj)
        key = E2.uf('spec.all_bases', [r], U)
        n = E2.uf('range.size', [key], INT)
        q = Seq(n, lambda E3, s3, i: E3.uf('range.at', [key, i], U), ('range', key), lambda E3, s3: [n >= 0])
        fn = c.args[0]

        def body(s, i):
            env = dict(s.env)
            out = []
            for s2, v in E2.invoke(s, fn, [q.get(E2, s, i)], c.node):
                b = E2.to_bool(s2, v)
                for s3, t in E2.split(s2, b):
                    s3.env = dict(env)
                    out.append((s3, None if t else 'break'))
            return out
        nd = {'l': c.node.get('l'), 'k': 'forallBases'}
        res = []
        for s, f in E2.seq_loop(st, q, body, nd, E2.loop_spec(nd, st, q)):
            res.append((s, z3.BoolVal(f is None)))
        return res
    M['clang::CXXRecordDecl::forallBases'] = forall_bases
