"""Contracts of the functions that print single bindings (src/expose.cpp)."""
from .ann import *


def lit(E, t):
    return ['"', esc(E, t), '"']


def put(E, st, o, *pieces):
    o = E.rv(st, o)
    if not isinstance(o, Obj) or E.cls(st, o) != 'ostream':
        raise Abort('stream argument')
    st.set(o, 'log', st.get(o, 'log') + tuple(pieces))


def fn_attrs(E, st, o):
    """The call policies in a FunctionDeclAttrs value."""
    o = E.rv(st, o)
    if isinstance(o, Ptr):
        o = E.rv(st, o.to)
    g = lambda n, f: st.get(st.get(o, n), f)
    return (g('noconvert', 'mem'), g('required', 'mem'), g('keep_alive', 'arr'), g('keep_alive', 'n'), E.to_term(st, st.get(o, 'return_value_policy')))


def spec_attrs(E, st, d):
    """The call policies stored for function d."""
    o = st.get(attrs_of(E, st, {'rec': 'genpybind::FunctionDeclAttrs'}, d), 'val')
    return fn_attrs(E, st, o)


def binding_contracts(E, *without):
    C = {}
    term = lambda E2, st, a: E2.to_term(st, a)
    C['emitParameters'] = lambda E2, st, c: put(E2, st, c.args[0], ('rec', 'parameters', (term(E2, st, c.args[1]),) + fn_attrs(E2, st, c.args[2])))
    C['emitPolicies'] = lambda E2, st, c: put(E2, st, c.args[0], ('rec', 'policies', fn_attrs(E2, st, c.args[1])))
    C['emitFunctionPointer'] = lambda E2, st, c: put(E2, st, c.args[0], ('rec', 'function pointer', (term(E2, st, c.args[1]),)))
    C['emitParameterTypes'] = lambda E2, st, c: put(E2, st, c.args[0], ('rec', 'parameter types', (term(E2, st, c.args[1]),)))
    C['emitManualBindings'] = lambda E2, st, c: put(E2, st, c.args[0], ('rec', 'manual bindings', (term(E2, st, c.args[2]),)))
    C['getDocstring'] = lambda E2, st, c: E2.uf('spec.doc', [term(E2, st, c.args[0])], STR)
    C['getBriefText'] = lambda E2, st, c: E2.uf('spec.brief', [term(E2, st, c.args[0])], STR)
    C['genpybind::getFullyQualifiedName'] = lambda E2, st, c: E2.uf('spec.type', [term(E2, st, c.args[0])], STR)
    C['genpybind::getSpelling'] = C['getSpelling'] = lambda E2, st, c: E2.uf('spec.cpp_name', [term(E2, st, c.args[0])], STR)
    C['isOstreamOperator'] = lambda E2, st, c: E2.uf('spec.ostream_operator', [term(E2, st, c.args[0])], BOOL)
    C['genpybind::RecordExposer::emitOperator'] = lambda E2, st, c: put(E2, st, c.args[0], ('rec', 'operator', (term(E2, st, c.args[1]),)))
    for k in ALL_KINDS:
        C['genpybind::%s::supports' % k] = lambda E2, st, c, k=k: supports(E2, k, term(E2, st, c.args[0]))
    for q, f in C.items():
        if q not in without:
            E.contracts[q] = f


def function(E, d):
    return z3.And(E.isa_term('clang::FunctionDecl', d), z3.Not(E.isa_term('clang::CXXDeductionGuideDecl', d)), z3.Not(E.isa_term('clang::CXXDestructorDecl', d)))


def operator_kind(E, d):
    return E.uf('clang::FunctionDecl::getOverloadedOperator', [d], INT)


def is_operator(E, d):
    ops = E.tu.enums['clang::OverloadedOperatorKind']
    return z3.And(E.isa_term('clang::FunctionDecl', d), operator_kind(E, d) != ops['OO_None'], operator_kind(E, d) != ops['OO_Call'])


def supports(E, cls, d):
    """The declarations that the settings class applies to (README, annotated_decl.h)."""
    isa = lambda c: E.isa_term('clang::' + c, d)
    return {
        'NamedDeclAttrs': z3.BoolVal(True),
        'NamespaceDeclAttrs': isa('NamespaceDecl'), 'EnumDeclAttrs': isa('EnumDecl'), 'RecordDeclAttrs': isa('CXXRecordDecl'),
        'TypedefNameDeclAttrs': isa('TypedefNameDecl'), 'FieldOrVarDeclAttrs': z3.Or(isa('FieldDecl'), isa('VarDecl')),
        'FunctionDeclAttrs': function(E, d), 'OperatorDeclAttrs': is_operator(E, d), 'ConversionFunctionDeclAttrs': isa('CXXConversionDecl'),
        'MethodDeclAttrs': z3.And(isa('CXXMethodDecl'), function(E, d), z3.Not(isa('CXXConstructorDecl')), z3.Not(is_operator(E, d)),
                                  z3.Not(isa('CXXConversionDecl'))),
        'ConstructorDeclAttrs': isa('CXXConstructorDecl'),
    }[cls]


def overloaded_operator(E):
    ops = E.tu.enums['clang::OverloadedOperatorKind']
    E.lib.models['clang::FunctionDecl::isOverloadedOperator'] = lambda E2, st, c: operator_kind(E2, E2.to_term(st, c.obj)) != ops['OO_None']


def annotated(E, st, d):
    """Precondition: the annotations of d were inserted (see C05)."""
    for c in ALL_KINDS:
        st.assume(has_attrs(E, c, d) == supports(E, c, d))


def spelling(E, d, fallback=None):
    own = attr(E, 'NamedDeclAttrs', '.spelling', d, STR)
    cpp = E.uf('spec.cpp_name', [d], STR)
    return z3.If(own != strval(''), own, cpp if fallback is None else fallback(cpp))


def named(E, d, fallback=None):
    """The Python name of d as a string literal."""
    own = attr(E, 'NamedDeclAttrs', '.spelling', d, STR)
    cpp = E.uf('spec.cpp_name', [d], STR)
    return [Cond(own != strval(''), lit(E, own), lit(E, cpp) if fallback is None else fallback(lit(E, cpp)))]
