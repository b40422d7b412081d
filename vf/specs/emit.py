"""Assumed contracts of the clang printing functions used by the emitters."""
from .graph import *

EXPOSE = 'src/expose.cpp'
ANY = ('any',)


def stream(E, st):
    return E.new_obj(st, 'ostream', log=())


def fq(E, t):
    """Fully qualified spelling of a type."""
    return E.uf('spec.type_name', [t], STR)


def qualified(E, d):
    """Qualified name of a declaration."""
    return E.uf('spec.qualified_name', [d], STR)


def source(E, e):
    """Printed source of an expression or statement."""
    return E.uf('spec.printed', [e], STR)


def esc(E, t):
    return escaped(E, t if is_z3(t) else strval(t))


def setup_emit(E, attrs=True):
    setup(E, attrs)
    L = E.lib
    E.string_class = None

    def fqn(E2, st, c):
        if len(c.args) > 3:
            E2.oblige(st, E2.to_bool(st, c.args[3]), 'type names are printed with a global namespace prefix')
        return fq(E2, E2.to_term(st, c.args[0]))
    L.models['clang::TypeName::getFullyQualifiedName'] = fqn

    def out(f, i=0):
        def g(E2, st, c):
            o = E2.rv(st, c.args[i])
            if isinstance(o, Ptr):
                o = E2.rv(st, o.to)
            if not isinstance(o, Obj):
                raise Abort('stream argument')
            f(E2, st, c, o)
            return None
        return g

    def pqn(E2, st, c, o):
        L.put(E2, st, o, qualified(E2, E2.to_term(st, c.obj)))
    L.models['clang::NamedDecl::printQualifiedName'] = out(pqn)

    def ppretty(E2, st, c, o):
        L.put(E2, st, o, source(E2, E2.to_term(st, c.obj)))
    L.models['clang::Stmt::printPretty'] = out(ppretty)

    def ptal(E2, st, c, o):
        L.put(E2, st, o, E2.uf('spec.template_arguments', [E2.to_term(st, c.args[1])], STR))
    L.models['clang::printTemplateArgumentList'] = out(ptal)
    L.models['clang::getOperatorSpelling'] = lambda E2, st, c: E2.uf('spec.operator', [E2.to_term(st, c.args[0])], STR)
    # references are opaque values here
    for n in ('operator->', 'operator*', 'getTypePtr'):
        L.models['clang::QualType::' + n] = lambda E2, st, c: E2.uf('type_of', [E2.to_term(st, c.obj)], U)


def this(E, st, f, **fields):
    """The object of a member function: all fields symbolic unless given."""
    cls = f['fn']['cls']
    d = {}
    for x in E.all_fields(cls):
        if x['n'] in fields:
            continue
        d[x['n']] = E.fresh(st, x['t'], lambda s, suf, n=x['n']: z3.Const('this.%s%s' % (n, suf), s))
    d.update(fields)
    o = E.new_obj(st, cls, **d)
    st.env['this'] = o
    return o


def opnames():
    """OverloadedOperatorKind values (clang/Basic/OperatorKinds.def)."""
    return {}
