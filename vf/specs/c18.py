"""C18: exactly the visible members are exposed, each in the form it calls for."""
from .bind import *

UNITS = []


def start(E, f):
    E.abstract_strings = True
    setup_emit(E)
    clang_models(E)
    overloaded_operator(E)
    st = State()
    return st


def bind(E, st, f):
    """Parameters (stream, declaration, ...)."""
    os, d, rest = None, None, []
    for p in f['params']:
        t = E.T(p['t'])
        if t.get('rec') == 'llvm::raw_ostream':
            os = stream(E, st)
            st.env[p['id']] = os
        elif t['k'] == 'ptr' and d is None:
            d = z3.Const('decl', U)
            st.env[p['id']] = E.new_cell(st, d)
            st.assume(d != NULL)
        else:
            v = E.fresh(st, p['t'], lambda s, suf, n=p['n']: z3.Const(n + suf, s))
            st.env[p['id']] = v if isinstance(v, Obj) else E.new_cell(st, v)
            rest.append(v)
    if os is None:
        raise Abort('stream parameter')
    return os, d, rest


def visible(E, d):
    return attr(E, 'NamedDeclAttrs', '.visible?', d, BOOL), attr(E, 'NamedDeclAttrs', '.visible!', d, BOOL)


def handle(E):
    f = one(E.tu, 'genpybind::DeclContextExposer::handleDecl')
    st = start(E, f)
    binding_contracts(E)
    this(E, st, f)
    os, d, rest = bind(E, st, f)
    default = E.to_bool(st, rest[0])
    E.contracts['genpybind::DeclContextExposer::handleDeclImpl'] = lambda E2, s, c: put(E2, s, c.args[0], ('rec', 'member', (E2.to_term(s, c.args[1]),)))
    has, val = visible(E, d)
    E.current = 'handleDecl'
    for s, _ in run(E, f, st):
        shown = z3.And(has_attrs(E, 'NamedDeclAttrs', d), z3.If(has, val, default))
        E.log_eq(s, s.get(os, 'log'), [Cond(shown, [('rec', 'member', (d,))], [])], 'post: exactly the visible declarations are exposed, once')


def generic_text(E, st, d):
    """What is printed for a declaration outside of classes."""
    td = E.uf('clang::Type::getAsTagDecl', [E.uf('type_of', [E.uf('clang::TypedefNameDecl::getUnderlyingType', [d], U)], U)], U)
    lam = attr(E, 'FieldOrVarDeclAttrs', '.manual_bindings', d, U)
    method = E.isa_term('clang::CXXMethodDecl', d)
    static = z3.And(method, E.uf('clang::CXXMethodDecl::isStatic', [d], BOOL))
    prop = is_property(E, st, d)
    call = operator_kind(E, d) == E.tu.enums['clang::OverloadedOperatorKind']['OO_Call']
    alias = [Cond(z3.And(visible(E, d)[0], z3.Not(attr(E, 'TypedefNameDeclAttrs', '.expose_here', d, BOOL)), td != NULL),
                  ['context.attr('] + named(E, d) + [') = ::genpybind::getObjectForType<', E.uf('spec.type', [td], STR), '>();\n'], [])]
    var = [Cond(lam != NULL, [Cond(attr(E, 'FieldOrVarDeclAttrs', '.postamble', d, BOOL), [], [('rec', 'manual bindings', (lam,))])],
                ['context.attr('] + named(E, d) + [') = ::', qualified(E, d), ';\n'])]
    a = spec_attrs(E, st, d)
    fun = [Cond(z3.Or(is_operator(E, d), prop, E.uf('clang::FunctionDecl::isDeleted', [d], BOOL)), [], [
        Cond(static, ['context.def_static('], ['context.def(']),
        *named(E, d, lambda n: [Cond(call, ['"', esc(E, '__call__'), '"'], n)]), ', ', ('rec', 'function pointer', (d,)), ', ', *lit(E, E.uf('spec.doc', [d], STR)),
        ('rec', 'parameters', (d,) + a), ('rec', 'policies', a), ');\n'])]
    return [Cond(supports(E, 'TypedefNameDeclAttrs', d), alias, [Cond(supports(E, 'FieldOrVarDeclAttrs', d), var, [Cond(function(E, d), fun, [])])])]


def is_property(E, st, d):
    sup = supports(E, 'MethodDeclAttrs', d)
    g, s = prop_sets(E, st, d)
    return z3.And(sup, z3.Or(g != z3.K(STR, False), s != z3.K(STR, False)))


def prop_sets(E, st, d):
    o = st.get(attrs_of(E, st, {'rec': 'genpybind::MethodDeclAttrs'}, d), 'val')
    return st.get(st.get(o, 'getter_for'), 'mem'), st.get(st.get(o, 'setter_for'), 'mem')


def generic(E):
    f = one(E.tu, 'genpybind::DeclContextExposer::handleDeclImpl')
    st = start(E, f)
    binding_contracts(E)
    this(E, st, f)
    os, d, _ = bind(E, st, f)
    annotated(E, st, d)
    # Fields and constructors are exposed by RecordExposer
    st.assume(z3.Not(E.isa_term('clang::FieldDecl', d)), z3.Not(E.isa_term('clang::CXXConstructorDecl', d)))
    E.current = 'DeclContextExposer::handleDeclImpl'
    for s, _ in run(E, f, st):
        E.log_eq(s, s.get(os, 'log'), generic_text(E, s, d), 'post: binding for the declaration')


UNITS += [('DeclContextExposer::handleDecl', EXPOSE, handle), ('DeclContextExposer::handleDeclImpl', EXPOSE, generic)]


def enum_member(E):
    f = one(E.tu, 'genpybind::EnumExposer::handleDeclImpl')
    st = start(E, f)
    binding_contracts(E)
    me = this(E, st, f)
    os, d, _ = bind(E, st, f)
    annotated(E, st, d)
    en = st.get(me, 'enum_decl')
    doc = E.uf('spec.brief', [d], STR)
    E.current = 'EnumExposer::handleDeclImpl'
    for s, _ in run(E, f, st):
        want = [Cond(E.isa_term('clang::EnumConstantDecl', d), ['context.value('] + named(E, d) + [
            ', ', E.uf('spec.type', [en], STR), '::', E.uf('clang::NamedDecl::getName', [d], STR),
            Cond(doc != strval(''), [', '] + lit(E, doc), []), ');\n'], [])]
        E.log_eq(s, s.get(os, 'log'), want, 'post: enumerators are exposed as values of the enum')


def enum_end(E):
    f = one(E.tu, 'genpybind::EnumExposer::finalizeDefinition')
    st = start(E, f)
    binding_contracts(E)
    me = this(E, st, f)
    os, _, _ = bind(E, st, f)
    en = st.get(me, 'enum_decl')
    st.assume(en != NULL, E.isa_term('clang::EnumDecl', en))
    has = z3.And(has_attrs(E, 'EnumDeclAttrs', en), attr(E, 'EnumDeclAttrs', '.export_values?', en, BOOL))
    want = z3.If(has, attr(E, 'EnumDeclAttrs', '.export_values!', en, BOOL), z3.Not(E.uf('clang::EnumDecl::isScoped', [en], BOOL)))
    E.current = 'EnumExposer::finalizeDefinition'
    for s, _ in run(E, f, st):
        E.log_eq(s, s.get(os, 'log'), [Cond(want, ['context.export_values();\n'], [])], 'post: enumerators are exported iff requested or unscoped')


def introducers(E):
    """Introducers of classes, enums and submodules."""
    for cls, field, A in (('EnumExposer', 'enum_decl', 'EnumDeclAttrs'), ('RecordExposer', 'record_decl', 'RecordDeclAttrs'),
                          ('NamespaceExposer', 'namespace_decl', 'NamespaceDeclAttrs'), ('DeclContextExposer', None, None)):
        E.contracts.clear()
        f = one(E.tu, 'genpybind::%s::emitIntroducer' % cls)
        st = start(E, f)
        binding_contracts(E)
        me = this(E, st, f)
        os, _, rest = bind(E, st, f)
        parent = E.as_str(st, rest[0])
        for q in ('EnumExposer', 'RecordExposer'):
            E.contracts['genpybind::%s::emitType' % q] = lambda E2, s, c: put(E2, s, c.args[0], ('rec', 'type', ()))
        E.current = cls + '::emitIntroducer'
        if field is None:
            for s, _ in run(E, f, st):
                E.log_eq(s, s.get(os, 'log'), [parent], 'post: the scope is that of its parent')
            continue
        d = st.get(me, field)
        st.assume(d != NULL)
        E.uf('x', [d], BOOL)
        own = z3.And(has_attrs(E, 'NamedDeclAttrs', d), attr(E, 'NamedDeclAttrs', '.spelling', d, STR) != strval(''))
        nm = [Cond(own, lit(E, attr(E, 'NamedDeclAttrs', '.spelling', d, STR)), lit(E, E.uf('spec.cpp_name', [d], STR)))]
        doc = E.uf('spec.brief', [d], STR)
        on = lambda x: z3.And(has_attrs(E, A, d), attr(E, A, '.' + x, d, BOOL))
        if cls == 'NamespaceExposer':
            want = [parent, Cond(on('module'), ['.def_submodule('] + nm + [')'], [])]
        else:
            flag = ('arithmetic', ', ::pybind11::arithmetic()') if cls == 'EnumExposer' else ('dynamic_attr', ', ::pybind11::dynamic_attr()')
            want = [('rec', 'type', ()), '(', parent, ', '] + nm + [Cond(doc != strval(''), [', '] + lit(E, doc), []), Cond(on(flag[0]), [flag[1]], []), ')']
        for s, _ in run(E, f, st):
            E.log_eq(s, s.get(os, 'log'), want, 'post: created on its parent under its Python name')


def record_text(E, st, d, me):
    rec = st.get(me, 'record_decl')
    ops = E.tu.enums['clang::OverloadedOperatorKind']
    conv = attr(E, 'ConstructorDeclAttrs', '.implicit_conversion', d, BOOL)
    never = z3.Or(E.uf('clang::CXXConstructorDecl::isMoveConstructor', [d], BOOL), E.uf('clang::FunctionDecl::isDeleted', [d], BOOL),
                  E.uf('clang::CXXRecordDecl::isAbstract', [rec], BOOL))
    p0 = E.uf('range.at', [E.uf('clang::FunctionDecl::parameters', [d], U), z3.IntVal(0)], U)
    a = spec_attrs(E, st, d)
    ctor = [Cond(never, [], [
        Cond(conv, ['::pybind11::implicitly_convertible<', fq(E, E.uf('clang::ValueDecl::getType', [p0], U)), ', ',
                    fq(E, E.uf('spec.decl_type', [rec], U)), '>();\n'], []),
        'context.def(::pybind11::init<', ('rec', 'parameter types', (d,)), '>(), ', *lit(E, E.uf('spec.doc', [d], STR)),
        ('rec', 'parameters', (d,) + a), ('rec', 'policies', a), ');\n'])]
    own = attr(E, 'NamedDeclAttrs', '.spelling', d, STR)
    shift = z3.And(operator_kind(E, d) == ops['OO_LessLess'], E.uf('spec.ostream_operator', [d], BOOL))
    oper = [Cond(E.uf('clang::FunctionDecl::isDeleted', [d], BOOL), [], [Cond(shift, [
        Cond(own != strval(''), ['context.def('] + lit(E, own) + [', ::genpybind::string_from_lshift<', E.uf('spec.type', [rec], STR), '>);\n'], [])],
        [('rec', 'operator', (d,))])])]
    lam = attr(E, 'FieldOrVarDeclAttrs', '.manual_bindings', d, U)
    ro = z3.Or(E.uf('clang::QualType::isConstQualified', [E.uf('clang::ValueDecl::getType', [d], U)], BOOL), attr(E, 'FieldOrVarDeclAttrs', '.readonly', d, BOOL))
    var = [Cond(lam != NULL, [('rec', 'manual bindings', (lam,))], [
        Cond(ro, ['context.def_readonly'], ['context.def_readwrite']), Cond(E.isa_term('clang::VarDecl', d), ['_static('], ['(']),
        *named(E, d), ', &::', qualified(E, d), ');\n'])]
    return [Cond(supports(E, 'ConstructorDeclAttrs', d), ctor, [Cond(is_operator(E, d), oper, [
        Cond(is_property(E, st, d), [], [Cond(supports(E, 'FieldOrVarDeclAttrs', d), var, [('rec', 'generic', (d,))])])])])]


def record(E, props=False):
    f = one(E.tu, 'genpybind::RecordExposer::handleDeclImpl')
    st = start(E, f)
    binding_contracts(E)
    E.lib.models['clang::ASTContext::getTypeDeclType'] = lambda E2, s, c: E2.uf('spec.decl_type', [E2.to_term(s, c.args[0])], U)

    def fallback(E2, s, c):
        d2 = E2.to_term(s, c.args[1])
        E2.oblige(s, z3.And(z3.Not(E2.isa_term('clang::FieldDecl', d2)), z3.Not(E2.isa_term('clang::CXXConstructorDecl', d2))),
                  'fields and constructors never reach the generic implementation')
        put(E2, s, c.args[0], ('rec', 'generic', (d2,)))
    E.contracts['genpybind::DeclContextExposer::handleDeclImpl'] = fallback
    me = this(E, st, f)
    os, d, _ = bind(E, st, f)
    annotated(E, st, d)
    # guaranteed by processAnnotation (C04)
    np = E.uf('range.size', [E.uf('clang::FunctionDecl::parameters', [d], U)], INT)
    st.assume(z3.Implies(attr(E, 'ConstructorDeclAttrs', '.implicit_conversion', d, BOOL), np >= 1))
    st.assume(z3.Implies(attr(E, 'FieldOrVarDeclAttrs', '.postamble', d, BOOL),
                         E.isa_term('clang::TranslationUnitDecl', E.uf('clang::Decl::getDeclContext', [d], U))))
    st.assume(z3.Not(attr(E, 'FieldOrVarDeclAttrs', '.postamble', d, BOOL)))     # members are not at global scope
    D = diagnostics(E, st, None)
    m = st.get(me, 'properties')
    old = dict(st.heap[m.oid])
    G, S = prop_sets(E, st, d)
    prop = is_property(E, st, d)
    E.loop_specs.append(prop_loop(E, d, m))
    E.current = 'RecordExposer::handleDeclImpl'
    for s, _ in run(E, f, st):
        if not props:
            E.log_eq(s, s.get(os, 'log'), record_text(E, s, d, me), 'post: binding for the member')
            continue
        check_props(E, s, d, m, old, G, S, prop, D)


def prop_loop(E, d, m):
    """Loops over the names in getter_for / setter_for."""
    def inv(E2, st0, q, mods):
        if not hasattr(q, 'idx') or q.key[0] != 'set':
            return []
        G, S = prop_sets(E, st0, d)
        which = 'getter' if q.key[1].eq(G) else 'setter' if q.key[1].eq(S) else None
        if which is None:
            raise Abort('loop over something else than property names')
        mem = q.key[1]
        o = st0.heap[m.oid]
        x = z3.Const('x!', STR)
        done = lambda i: z3.And(z3.Select(mem, x), q.idx(x) < i)
        out = [('defined names', lambda s, i: z3.ForAll([x], z3.Select(s.heap[m.oid]['dom'], x) == z3.Or(z3.Select(o['dom'], x), done(i))))]
        for f in ('getter', 'setter'):
            old = z3.Select(o['val.' + f], x)
            new = (lambda i, old=old: z3.If(done(i), d, old)) if f == which else (
                lambda i, old=old: z3.If(z3.And(done(i), z3.Not(z3.Select(o['dom'], x))), NULL, old))
            out.append((f + 's', lambda s, i, f=f, new=new: z3.ForAll([x], z3.Select(s.heap[m.oid]['val.' + f], x) == new(i))))
        for mm in mods:
            if mm[0] == 'h' and mm[2] == 'err':
                e0 = st0.heap[mm[1]]['err']
                bad = lambda i: z3.Exists([x], z3.And(done(i), z3.Select(o['dom'], x), z3.Select(o['val.' + which], x) != NULL))
                out.append(('second definitions are errors', lambda s, i, mm=mm, e0=e0: s.heap[mm[1]]['err'] == z3.Or(e0, bad(i))))
        return out
    return LoopSpec(lambda E2, n, s, r: True, inv)


def check_props(E, s, d, m, old, G, S, prop, D):
    new = s.heap[m.oid]
    x = E.fresh_const(STR, 'x')
    eff = lambda o, f, y: z3.If(z3.Select(o['dom'], y), z3.Select(o['val.' + f], y), NULL)
    for f, mem in (('getter', G), ('setter', S)):
        E.oblige(s, eff(new, f, x) == z3.If(z3.And(prop, z3.Select(mem, x)), d, eff(old, f, x)), 'post: the method is the %s of exactly the properties it names' % f)
    y = z3.Const('y!', STR)
    dup = z3.Exists([y], z3.Or(z3.And(z3.Select(G, y), eff(old, 'getter', y) != NULL), z3.And(z3.Select(S, y), eff(old, 'setter', y) != NULL)))
    E.oblige(s, s.get(D, 'err') == z3.And(prop, dup), 'post: a second getter or setter is an error, and nothing else is')


UNITS += [('EnumExposer::handleDeclImpl', EXPOSE, enum_member), ('EnumExposer::finalizeDefinition', EXPOSE, enum_end),
          ('emitIntroducer', EXPOSE, introducers), ('RecordExposer::handleDeclImpl', EXPOSE, record)]


def helpers(E):
    """The functions that print names, types and function pointers."""
    def fresh(name, *without):
        E.contracts.clear()
        f = one(E.tu, name)
        st = start(E, f)
        E.contracts.clear()
        setup_emit(E)
        binding_contracts(E, name, *without)
        os, d, rest = bind(E, st, f)
        E.current = name
        return f, st, os, d, rest
    f, st, os, d, rest = fresh('emitSpelling')
    own = E.to_term(st, st.get(rest[0], 'spelling'))
    fb = E.as_str(st, rest[1])
    for s, _ in run(E, f, st):
        E.log_eq(s, s.get(os, 'log'), [Cond(own != strval(''), lit(E, own), [Cond(fb != strval(''), lit(E, fb), lit(E, E.uf('spec.cpp_name', [d], STR)))])],
                 'post: the annotated name, else the fallback, else the C++ name')

    def types(fn):
        ps = E.uf('clang::FunctionDecl::parameters', [fn], U)
        return [ForEach(('range', ps), E.uf('range.size', [ps], INT), lambda i: [Cond(i > 0, [', '], []), fq(E, E.uf('clang::ParmVarDecl::getOriginalType', [E.uf('range.at', [ps, i], U)], U))])]
    f, st, os, d, rest = fresh('emitParameterTypes')

    def comma(E2, st0, q, mods):
        return [('comma', lambda s, i, m=m: E.mod_val(s, m) == (i > 0)) for m in mods if m[0] == 'c' and is_z3(E.mod_val(st0, m)) and E.mod_val(st0, m).sort() == BOOL]
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: True, None, comma))
    for s, _ in run(E, f, st):
        E.log_eq(s, s.get(os, 'log'), types(d), 'post: all parameter types, in order')
    f, st, os, d, rest = fresh('emitFunctionPointer')
    st.assume(E.isa_term('clang::FunctionDecl', d))
    ta = E.uf('clang::FunctionDecl::getTemplateSpecializationArgs', [d], U)
    for s, _ in run(E, f, st):
        E.log_eq(s, s.get(os, 'log'), ['::pybind11::overload_cast<', ('rec', 'parameter types', (d,)), '>(&::', qualified(E, d),
                 Cond(ta != NULL, [E.uf('spec.template_arguments', [E.uf('clang::TemplateArgumentList::asArray', [ta], U)], STR)], []),
                 Cond(is_const(E, d), [', ::pybind11::const_'], []), ')'], 'post: exactly this overload')
    f, st, os, d, rest = fresh('emitManualBindings')
    lam = d
    m = E.uf('clang::LambdaExpr::getCallOperator', [lam], U)
    ps = E.uf('clang::FunctionDecl::parameters', [m], U)
    st.assume(E.uf('range.size', [ps], INT) == 1)        # ensured by processAnnotation (C04)
    p0 = E.uf('range.at', [ps, z3.IntVal(0)], U)
    used = z3.Or(E.uf('clang::Decl::isUsed', [p0, z3.BoolVal(True)], BOOL), E.uf('clang::Decl::isReferenced', [p0], BOOL))
    for s, _ in run(E, f, st):
        E.log_eq(s, s.get(os, 'log'), [Cond(used, ['[](auto &', E.uf('clang::NamedDecl::getName', [p0], STR), ') '], []),
                 source(E, E.uf('clang::LambdaExpr::getBody', [lam], U)), Cond(used, ['(context);\n'], [])], 'post: the body of the lambda, applied to the scope')


def is_const(E, d):
    return E.uf('clang::FunctionType::isConst', [E.uf('clang::Type::castAs<clang::FunctionType>', [E.uf('type_of', [E.uf('clang::ValueDecl::getType', [d], U)], U)], U)], BOOL)


UNITS.append(('emitSpelling, emitParameterTypes, emitFunctionPointer, emitManualBindings', EXPOSE, helpers))


from .lookup import filter_decls, collect, VIS
UNITS += [('ExposableDeclConsumer::FoundDecl', VIS, filter_decls), ('collectVisibleDeclsFromDeclContext', VIS, collect)]
