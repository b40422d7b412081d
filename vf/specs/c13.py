"""C13: operators."""
from .emit import *

UNITS = []
# Python data model: special methods by C++ operator.
UNARY = {'Plus': '__pos__', 'Minus': '__neg__', 'Tilde': '__invert__'}
ARITH = {'Plus': 'add', 'Minus': 'sub', 'Star': 'mul', 'Slash': 'truediv', 'Percent': 'mod', 'Caret': 'xor', 'Amp': 'and',
         'Pipe': 'or', 'LessLess': 'lshift', 'GreaterGreater': 'rshift'}
COMPARE = {'Less': ('lt', 'gt'), 'Greater': ('gt', 'lt'), 'LessEqual': ('le', 'ge'), 'GreaterEqual': ('ge', 'le'),
           'EqualEqual': ('eq', 'eq'), 'ExclaimEqual': ('ne', 'ne')}


def special(op, n, reflected):
    if n == 1:
        return UNARY.get(op)
    if op in ARITH:
        return '__%s%s__' % ('r' if reflected else '', ARITH[op])
    if op in COMPARE:
        return '__%s__' % COMPARE[op][1 if reflected else 0]
    if op.endswith('Equal') and op[:-5] in ARITH and not reflected:
        return '__i%s__' % ARITH[op[:-5]]
    return None


def type_facts(E):
    """References and qualifiers of clang types (applied while terms are built)."""
    t = lambda q: E.uf('type_of', [q], U)

    def lift(f):
        def g(*a):
            for i, x in enumerate(a):
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    l, r = list(a), list(a)
                    l[i], r[i] = x.arg(1), x.arg(2)
                    return z3.simplify(z3.If(x.arg(0), g(*l), g(*r)))
            return f(*a)
        return g

    def named(x, n):
        return z3.is_app(x) and x.decl().name() == n

    def same1(a, b):
        while named(a, 'clang::QualType::withConst'):
            a = a.arg(0)
        while named(b, 'clang::QualType::withConst'):
            b = b.arg(0)
        return z3.BoolVal(True) if a.eq(b) else E.uf('spec.same_unqualified', [a, b], BOOL)
    same = lift(same1)

    def isref1(q):
        return z3.BoolVal(True) if named(q, 'spec.lref') else E.uf('clang::Type::isReferenceType', [t(q)], BOOL)

    def pointee1(q):
        return q.arg(0) if named(q, 'spec.lref') else E.uf('clang::Type::getPointeeType', [t(q)], U)
    isref, pointee = lift(isref1), lift(pointee1)
    inner = lift(lambda x: x.arg(0) if named(x, 'type_of') else E.uf('qual_of', [x], U))
    M = E.lib.models
    M['clang::Type::isReferenceType'] = lambda E2, st, c: isref(inner(E2.to_term(st, c.obj)))
    M['clang::Type::getPointeeType'] = lambda E2, st, c: pointee(inner(E2.to_term(st, c.obj)))
    M['clang::ASTContext::getLValueReferenceType'] = lambda E2, st, c: E2.uf('spec.lref', [E2.to_term(st, c.args[0])], U)
    M['clang::ASTContext::hasSameUnqualifiedType'] = lambda E2, st, c: same(E2.to_term(st, c.args[0]), E2.to_term(st, c.args[1]))
    M['clang::ASTContext::hasSameType'] = lambda E2, st, c: E2.uf('spec.same_type', [E2.to_term(st, a) for a in c.args], BOOL)
    M['clang::ASTContext::getTypeDeclType'] = lambda E2, st, c: E2.uf('spec.decl_type', [E2.to_term(st, c.args[0])], U)

    def nonref(q):
        return z3.simplify(z3.If(isref(q), pointee(q), q))
    M['clang::QualType::getNonReferenceType'] = lambda E2, st, c: nonref(E2.to_term(st, c.obj))
    return same, nonref


def fixed_params(E, n):
    ps = [z3.Const('param%d' % i, U) for i in range(n)]
    for q in ('clang::FunctionDecl::parameters',):
        E.contracts[q] = lambda E2, st, c: CList(list(ps))
    E.contracts['clang::FunctionDecl::getNumParams'] = lambda E2, st, c: z3.IntVal(n)
    E.contracts['clang::FunctionDecl::param_size'] = lambda E2, st, c: z3.IntVal(n)
    E.contracts['clang::FunctionDecl::getMinRequiredArguments'] = lambda E2, st, c: NotImplemented

    def gp(E2, st, c):
        i = z3.simplify(E2.rv(st, c.args[0]))
        if not z3.is_int_value(i):
            raise Abort('parameter index')
        E2.oblige(st, z3.And(i >= 0, i < n), 'parameter index in range')
        return ps[i.as_long()]
    E.contracts['clang::FunctionDecl::getParamDecl'] = gp
    return ps


def emit_operator(lo, hi):
    def unit(E):
        setup_emit(E)
        same, nonref = type_facts(E)
        f = one(E.tu, 'genpybind::RecordExposer::emitOperator')
        ops = E.tu.enums['clang::OverloadedOperatorKind']
        for name, k in sorted(ops.items(), key=lambda x: x[1])[lo:hi]:
            if name in ('OO_None', 'NUM_OVERLOADED_OPERATORS', 'OO_Call', 'OO_Conditional'):
                continue    # no operator functions of these kinds reach this point
            for member in (True, False):
                for n in ((0, 1) if member else (1, 2)):
                    E.contracts['clang::FunctionDecl::getOverloadedOperator'] = lambda E2, st, c, k=k: z3.IntVal(k)
                    ps = fixed_params(E, n)
                    st = State()
                    me = this(E, st, f)
                    os = stream(E, st)
                    fun = z3.Const('function', U)
                    st.assume(fun != NULL, E.isa_term('clang::FunctionDecl', fun),
                              E.isa_term('clang::CXXMethodDecl', fun) == member)
                    for p in f['params']:
                        st.env[p['id']] = os if E.T(p['t']).get('rec') == 'llvm::raw_ostream' else E.new_cell(st, fun)
                    rec = st.get(me, 'record_decl')
                    rt = E.uf('spec.decl_type', [rec], U)
                    pt = [E.uf('clang::ValueDecl::getType', [p], U) for p in ps]
                    const = E.uf('clang::CXXMethodDecl::isConst', [fun], BOOL)
                    types = ([E.uf('spec.lref', [z3.If(const, E.uf('clang::QualType::withConst', [rt], U), rt)], U)] if member else []) + pt
                    E.current = 'emitOperator(%s, %d operands)' % (name, len(types))
                    for s, _ in run(E, f, st):
                        refl = z3.BoolVal(False) if member else z3.Not(same(nonref(pt[0]), rt))
                        op = E.uf('spec.operator', [z3.IntVal(k)], STR)
                        ret = E.uf('clang::FunctionDecl::getReturnType', [fun], U)

                        def text(r):
                            py = special(name[3:], len(types), r)
                            if py is None:
                                return []
                            order = list(reversed(types)) if r and len(types) == 2 else types
                            names = ['lhs', 'rhs'][:len(types)]
                            out = ['context.def("%s", [](' % py]
                            for i, (t, nm) in enumerate(zip(order, names)):
                                out += [', '] * (i > 0) + [fq(E, t), ' ' + nm]
                            out += [') -> ', fq(E, ret), ' { return ']
                            if len(types) == 1:
                                out += [op, 'lhs']
                            else:
                                a, b = ('rhs', 'lhs') if r else ('lhs', 'rhs')
                                out += [a + ' ', op, ' ' + b]
                            return out + ['; }, "', ANY, '", ::pybind11::is_operator());\n']
                        for r in (False, True):
                            s2 = s.copy()
                            s2.assume(refl == r)
                            if len(types) == 1 and r:
                                continue    # the class is the only operand
                            if E.feasible(s2):
                                E.log_eq(s2, s2.get(os, 'log'), text(r), 'post: binding for the operator')
    return unit


for i in range(0, 47, 8):
    UNITS.append(('RecordExposer::emitOperator[%d..%d]' % (i, min(i + 7, 46)), EXPOSE, emit_operator(i, i + 8)))


def collect(E):
    """All operator functions found for the class by argument dependent lookup
    that take it as an operand, for every operator Python can express."""
    setup_emit(E)
    same, nonref = type_facts(E)
    f = one(E.tu, 'collectOperatorDeclsViaArgumentDependentLookup')
    ops = E.tu.enums['clang::OverloadedOperatorKind']
    E.lib.ctors['clang::ADLResult'] = lambda E2, st, ty, a, e: E2.new_obj(st, 'adl', kinds=())
    key = z3.Const('adl', U)

    def adl(E2, st, c):
        o = E2.rv(st, c.args[3])
        st.set(o, 'kinds', st.get(o, 'kinds') + (('rec', 'kind', (E2.to_term(st, c.args[0]),)),))
        return None
    E.lib.models['clang::Sema::ArgumentDependentLookup'] = adl
    E.lib.models['clang::DeclarationNameTable::getCXXOperatorName'] = lambda E2, st, c: E2.to_term(st, c.args[0])
    E.lib.ctors['clang::OpaqueValueExpr'] = lambda E2, st, ty, a, e: E2.new_obj(st, 'declval', of=E2.to_term(st, a[1]))
    n = E.uf('adl.n', [key], INT)
    looked = []

    def seqs(E2, st, v):
        if isinstance(v, Obj) and E2.cls(st, v) == 'adl':
            looked.append(st.get(v, 'kinds'))
            return Seq(n, lambda E3, s3, i: E3.uf('adl.at', [key, i], U), ('adl', key), lambda E3, s3: [n >= 0])
        return None
    E.lib.seq_hooks.append(seqs)
    st = State()
    ps = params(E, st, f)
    rec = [v for v, p in zip(ps.values(), f['params']) if E.T(p['t'])['k'] == 'ptr']
    if len(rec) != 1:
        raise Abort('parameters')
    rt = E.uf('spec.decl_type', [E.to_term(st, rec[0])], U)
    st.assume(E.uf('clang::Type::isObjectType', [E.uf('type_of', [rt], U)], BOOL))   # a class type
    E.current = 'collectOperatorDecls'
    E.lib.pure |= {'clang::ASTContext::getRValueReferenceType'}
    for s, r in run(E, f, st):
        o = E.rv(s, r)
        want = [k for nm, k in ops.items() if special(nm[3:], 1, False) or special(nm[3:], 2, False)]
        for kinds in looked[-1:]:
            got = [z3.simplify(p[2][0]) for p in kinds if p[0] == 'rec']
            for k in want:
                E.oblige(s, z3.BoolVal(any(z3.is_int_value(g) and g.as_long() == k for g in got)),
                         'post: operator %s is looked up' % [nm for nm, v in ops.items() if v == k][0])

        def keep(d):
            j = z3.Int('j!p')
            prm = E.uf('clang::FunctionDecl::parameters', [d], U)
            pt = E.uf('clang::ValueDecl::getType', [E.uf('range.at', [prm, j], U)], U)
            return Cond(z3.Exists([j], z3.And(j >= 0, j < E.uf('range.size', [prm], INT), same(nonref(pt), rt))),
                        [('rec', 'elem', (d,))], [])

        def item(i):
            d = E.uf('adl.at', [key, i], U)
            sp = E.uf('clang::FunctionTemplateDecl::specializations', [d], U)
            return [Cond(E.isa_term('clang::FunctionTemplateDecl', d),
                         [ForEach(('range', sp), E.uf('range.size', [sp], INT), lambda m: [keep(E.uf('range.at', [sp, m], U))])],
                         [keep(d)])]
        E.log_eq(s, s.get(o, 'log'), [ForEach(('adl', key), n, item)], 'post: exactly the operators that take the class')


UNITS.append(('collectOperatorDeclsViaArgumentDependentLookup', EXPOSE, collect))


def ostream(E):
    """isOstreamOperator: a free operator<< whose first operand is a std::basic_ostream."""
    from .c20 import has_literal
    setup_emit(E)
    f = one(E.tu, 'isOstreamOperator')
    st = State()
    d = z3.Const('decl', U)
    st.env[f['params'][0]['id']] = E.new_cell(st, d)
    ostr = lambda r: E.uf('spec.is_std_basic_ostream', [r], BOOL)
    ident = lambda r: E.uf('spec.identifier', [r], U)
    named = lambda i: E.uf('spec.named_basic_ostream', [i], BOOL)
    M = 'clang::ast_matchers::internal::HasNameMatcher'

    def matcher(E2, s, ty, a, e):
        if e is None or not has_literal(e, '::std::basic_ostream') or str(e).count("'k': 'str'") > 1:
            raise Abort('names of the matcher')
        return E.new_obj(s, 'matcher')
    E.lib.ctors[M] = matcher

    def matches(E2, s, c):
        r = E.to_term(s, c.args[0])
        E.oblige(s, ident(r) != NULL, 'only named classes are matched by name')
        return ostr(r)
    E.contracts[M + '::matchesNode'] = matches
    for q in ('clang::NamedDecl::getIdentifier', 'clang::DeclarationName::getAsIdentifierInfo'):
        E.contracts[q] = lambda E2, s, c: ident(E.to_term(s, c.obj))

    def is_str(E2, s, c):
        if not has_literal(c.node['a'][0], 'basic_ostream'):
            raise Abort('isStr')
        return named(E.to_term(s, c.obj))
    E.lib.models['clang::IdentifierInfo::isStr'] = is_str
    E.contracts['clang::IdentifierInfo::isStr'] = is_str
    rec = lambda t: E.uf('spec.pointee_record', [t], U)
    E.contracts['clang::Type::getPointeeCXXRecordDecl'] = lambda E2, s, c: rec(E.to_term(s, c.obj))
    par = E.uf('spec.parameter', [d, z3.IntVal(0)], U)

    def param(E2, s, c):
        i = z3.simplify(E.to_term(s, c.args[0]))
        E.oblige(s, z3.And(i >= 0, i < E.uf('spec.parameters', [E.to_term(s, c.obj)], INT)), 'parameters are read inside the parameter list')
        return E.uf('spec.parameter', [E.to_term(s, c.obj), i], U)
    E.contracts['clang::FunctionDecl::getParamDecl'] = param
    E.contracts['clang::FunctionDecl::getNumParams'] = lambda E2, s, c: E.uf('spec.parameters', [E.to_term(s, c.obj)], INT)
    E.contracts['clang::ValueDecl::getType'] = lambda E2, s, c: E.uf('spec.type_of', [E.to_term(s, c.obj)], U)
    E.contracts['clang::FunctionDecl::getOverloadedOperator'] = lambda E2, s, c: E.uf('spec.operator', [E.to_term(s, c.obj)], INT)
    for q in ('operator->', 'getTypePtr'):
        E.contracts['clang::QualType::' + q] = lambda E2, s, c: E.to_term(s, c.obj)
    r0 = rec(E.uf('spec.type_of', [par], U))
    lshift = E.tu.enums['clang::OverloadedOperatorKind']['OO_LessLess']
    method = E.isa_term('clang::CXXMethodDecl', d)
    free = z3.And(z3.Not(method), E.uf('spec.operator', [d], INT) == lshift)
    x = z3.Const('x!', U)
    st.assume(d != NULL, z3.Implies(free, E.uf('spec.parameters', [d], INT) == 2),
              z3.ForAll([x], z3.Implies(ostr(x), z3.And(ident(x) != NULL, named(ident(x)))), patterns=[ostr(x)]))
    E.current = 'isOstreamOperator'
    for s, r in run(E, f, st):
        E.oblige(s, E.to_bool(s, r) == z3.And(free, r0 != NULL, ostr(r0)), 'post: exactly the free operators << on a std::basic_ostream')


UNITS += [('isOstreamOperator', 'src/expose.cpp', ostream)]
