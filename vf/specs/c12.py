"""C12: call policies apply to the parameters they name."""
from .ann import *

UNITS = []


def sets(E, st, attrs, n):
    return st.get(st.get(attrs, n), 'mem')


def args_kind(E, prm):
    """'args', 'kwargs' or '' as a term: pybind11's catch-all parameter types."""
    t = E.uf('type_of', [E.uf('clang::ValueDecl::getType', [prm], U)], U)
    r0 = E.uf('clang::Type::getAsCXXRecordDecl', [t], U)
    rec = z3.If(r0 == NULL, E.uf('clang::Type::getPointeeCXXRecordDecl', [t], U), r0)
    nm = lambda s: E.uf('spec.names', [strval(s), rec], BOOL)
    return z3.If(rec == NULL, strval(''), z3.If(nm('::pybind11::kwargs'), strval('kwargs'), z3.If(nm('::pybind11::args'), strval('args'), strval(''))))


def name_facts(E):
    """A class matched by its qualified name has the name's last part."""
    r = z3.Const('r!', U)
    nm = lambda s: E.uf('spec.names', [strval(s), r], BOOL)
    get = E.uf('clang::NamedDecl::getName', [r], STR)
    for s in ('args', 'kwargs'):
        E.facts.append(z3.ForAll([r], z3.Implies(nm('::pybind11::' + s), z3.And(
            get == strval(s), E.uf('clang::NamedDecl::getIdentifier', [r], U) != NULL)), patterns=[nm('::pybind11::' + s)]))


def scope_index(E):
    """ParmVarDecl::getFunctionScopeIndex is the position among the parameters."""
    def idx(E2, st, c):
        p = E2.to_term(st, c.obj)
        if z3.is_app(p) and p.decl().name() == 'range.at' and z3.is_app(p.arg(0)) and p.arg(0).decl().name() == 'clang::FunctionDecl::parameters':
            return p.arg(1)
        return E2.uf('clang::ParmVarDecl::getFunctionScopeIndex', [p], INT)
    E.lib.models['clang::ParmVarDecl::getFunctionScopeIndex'] = idx


def parameters(E):
    E.abstract_strings = True
    setup_emit(E)
    clang_models(E)
    name_facts(E)
    scope_index(E)
    f = one(E.tu, 'emitParameters')
    st = State()
    E.contracts['emitStringLiteral'] = literal
    ps = params(E, st, f)
    os, fun, attrs = None, None, None
    for v, p in zip(ps.values(), f['params']):
        rec = E.T(p['t']).get('rec', '')
        if rec == 'llvm::raw_ostream':
            os = stream(E, st)
            st.env[p['id']] = os
        elif rec.endswith('FunctionDeclAttrs'):
            attrs = v
        else:
            fun = E.to_term(st, v)
    if os is None or fun is None or not isinstance(attrs, Obj):
        raise Abort('parameters of emitParameters')
    st.assume(fun != NULL)
    D = diagnostics(E, st)
    prm = E.uf('clang::FunctionDecl::parameters', [fun], U)
    np = E.uf('range.size', [prm], INT)
    at = lambda k: E.uf('range.at', [prm, k], U)
    kind = lambda k: args_kind(E, at(k))
    kw = z3.Const('spec.first_kwargs', INT)
    k = z3.Int('k')
    st.assume(np >= 0, kw >= 0, kw <= np, z3.Implies(kw < np, kind(kw) == strval('kwargs')),
              z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < kw), kind(k) != strval('kwargs')), patterns=[at(k)]))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < np), at(k) != NULL), patterns=[at(k)]))
    nc, rq = sets(E, st, attrs, 'noconvert'), sets(E, st, attrs, 'required')

    def inv(E2, st0, q, mods):
        out = []
        for m in mods:
            v = E.mod_val(st0, m)
            if is_z3(v) and v.sort() == U and m[0] != 'h':
                out.append(('remembers kwargs', lambda s, i, m=m: z3.And(i <= kw + 1, E.mod_val(s, m) == z3.If(i == kw + 1, at(kw), NULL))))
            elif is_z3(v) and v.sort() == BOOL and m[0] != 'h':
                out.append(('remembers kwargs', lambda s, i, m=m: E.mod_val(s, m) == (i > kw)))
        return [x for x in out if E.entails(st0, x[1](st0, z3.IntVal(0)))]
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: True, None, inv))
    E.current = 'emitParameters'

    def item(i):
        d = E.uf('clang::ParmVarDecl::getDefaultArg', [at(i)], U)
        return [Cond(kind(i) == strval(''), [
            ', ::pybind11::arg(', ('rec', 'literal', (E.uf('clang::NamedDecl::getName', [at(i)], STR),)), ')',
            Cond(z3.Select(nc, i), ['.noconvert()'], []), Cond(z3.Select(rq, i), ['.none(false)'], []),
            Cond(d != NULL, [' = ', source(E, d)], [])], [])]
    for s, _ in run(E, f, st):
        err = s.get(D, 'err')
        E.oblige(s, err == (kw + 1 < np), 'post: parameters after kwargs are an error, and nothing else is')
        s2 = s.copy()
        s2.assume(z3.Not(kw + 1 < np))
        if E.feasible(s2):
            E.log_eq(s2, s2.get(os, 'log'), [ForEach(('range', prm), np, item)], 'post: every ordinary parameter once, in order, with its policies')


def literal(E, st, c):
    """emitStringLiteral: prints the text as a C++ string literal (see C11/C18)."""
    o = E.rv(st, c.args[0])
    st.set(o, 'log', st.get(o, 'log') + (('rec', 'literal', (E.as_str(st, c.args[1]),)),))
    return None


def policies(E):
    E.abstract_strings = True
    setup_emit(E)
    f = one(E.tu, 'emitPolicies')
    st = State()
    ps = params(E, st, f)
    os = attrs = None
    for v, p in zip(ps.values(), f['params']):
        rec = E.T(p['t']).get('rec', '')
        if rec == 'llvm::raw_ostream':
            os = stream(E, st)
            st.env[p['id']] = os
        elif rec.endswith('FunctionDeclAttrs'):
            attrs = v
    if os is None or not isinstance(attrs, Obj):
        raise Abort('parameters of emitPolicies')
    rvp = E.to_term(st, st.get(attrs, 'return_value_policy'))
    ka = st.get(attrs, 'keep_alive')
    q = vec_seq(E, st, ka)

    def item(i):
        v = E.to_term(st, q.get(E, st, i))
        a, b = E.uf('std::pair.first', [v], INT), E.uf('std::pair.second', [v], INT)
        return [', pybind11::keep_alive<', z3.IntToStr(a), ', ', z3.IntToStr(b), '>()']
    E.current = 'emitPolicies'
    for s, _ in run(E, f, st):
        E.log_eq(s, s.get(os, 'log'), [Cond(rvp != strval(''), [', pybind11::return_value_policy::', rvp], []),
                                       ForEach(q.key, q.n, item)], 'post: the return value policy and every keep_alive pair, in order')


from .c04 import process    # noqa
UNITS += [('emitParameters', EXPOSE, parameters), ('emitPolicies', EXPOSE, policies),
          ('processAnnotation(FunctionDeclAttrs)', ANN, process('FunctionDeclAttrs'))]


from . import c04 as _c04
UNITS += [u for u in _c04.UNITS if u[0] == 'processAnnotation(FunctionDeclAttrs)']
