"""C11: generated names are unique; every scope lands in exactly one output file."""
import re
from .c10 import *
from .lookup import *
from .bind import binding_contracts, put

UNITS = []
EXPOSE = 'src/expose.cpp'
DI = '(anonymous namespace)::DiscriminateIdentifiers'


def discriminator(E):
    """DiscriminateIdentifiers::discriminate"""
    setup(E)
    f = one(E.tu, DI + '::discriminate')
    st = State()
    fs = E.all_fields(DI)
    if len(fs) != 1:
        raise Abort('fields of DiscriminateIdentifiers')
    used = mkset(E, st, STR, z3.Const('used', z3.ArraySort(STR, BOOL)))
    me = E.new_obj(st, DI, **{fs[0]['n']: used})
    st.env['this'] = me
    ps = params(E, st, f)
    name = E.as_str(st, list(ps.values())[0])
    old = st.get(used, 'mem')

    def inv(E2, s0, q, mods):
        """The loop may try any number of names without reserving them."""
        str_cells = [m for m in sorted(mods, key=str) if is_z3(E2.mod_val(s0, m)) and E2.mod_val(s0, m).sort() == STR]
        x = z3.Const('x', STR)
        return [('names tried are not reserved', lambda s, i: z3.ForAll([x], Sel(s.get(used, 'mem'), x) == Sel(old, x), patterns=[Sel(old, x)])
                 if not s.get(used, 'mem').eq(old) else z3.BoolVal(True))] + [
            ('names tried extend the given one', lambda s, i, m=m: z3.PrefixOf(name, E2.mod_val(s, m))) for m in str_cells]
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] in ('for', 'while', 'do'), inv))
    E.current = 'DiscriminateIdentifiers::discriminate'
    for s, r in run(E, f, st):
        r = E.as_str(s, r)
        x = E.fresh_const(STR, 'x')
        E.oblige(s, z3.Not(Sel(old, r)), 'post: the name was not used before')
        E.oblige(s, Sel(s.get(used, 'mem'), x) == z3.Or(Sel(old, x), x == r), 'post: the name is reserved from now on, no other')
        E.oblige(s, z3.PrefixOf(name, r), 'post: the name starts with the given one')


UNITS += [('DiscriminateIdentifiers::discriminate', EXPOSE, discriminator)]


class Module:
    """Contracts of everything emitModule calls."""

    def __init__(self, E, st, me):
        self.E = E
        S = self
        setup(E)
        binding_contracts(E)
        source_order(E)
        L = E.lib
        L.opaque |= {RIP}
        self.prefixes, self.keep = {}, []
        self.m = z3.Int('files')
        st.assume(self.m >= 1)
        self.main, self.other = [E.new_obj(st, 'ostream', log=()) for _ in range(2)]
        self.G, report = reports(E, st, 'ExposeHereCycleError')
        self.ins = E.new_obj(st, 'ghost', log=())
        term = lambda s, x: E.to_term(s, x)
        # output files: the first one, and any other
        self.streams = E.new_obj(st, 'streams')
        for q, g in (('front', lambda s, c: Ptr(S.main)), ('size', lambda s, c: S.m), ('empty', lambda s, c: z3.BoolVal(False)),
                     ('operator[]', self.at), ('at', self.at)):
            base = L.models.get('std::vector::' + q)

            def h(E2, s, c, g=g, base=base):
                o = E2.rv(s, c.obj)
                if o == S.streams:
                    return g(s, c)
                return base(E2, s, c) if base else NotImplemented
            L.models['std::vector::' + q] = h
        # the order of scopes (C10)
        self.g = E.to_term(st, st.get(me, 'graph'))
        self.n, self.arr = z3.Int('scopes'), z3.Const('scopes.at', z3.ArraySort(INT, U))
        sidx = lambda x: E.uf('spec.position', [x], INT)
        self.sidx = sidx
        k = z3.Int('k')
        x = z3.Const('x', U)
        at = Sel(self.arr, k)
        self.dom, self.val = z3.Const('parents.dom', z3.ArraySort(U, BOOL)), z3.Const('parents.val', z3.ArraySort(U, U))
        par_ = z3.If(Sel(self.dom, at), Sel(self.val, at), NULL)
        self.parent = lambda c: z3.If(Sel(self.dom, c), Sel(self.val, c), NULL)
        rng = z3.And(k >= 0, k < self.n)
        st.assume(self.n >= 0, FA([k], z3.Implies(rng, z3.And(at != NULL, sidx(at) == k)), patterns=[at]),
                  FA([k], z3.Implies(z3.And(rng, par_ != NULL), z3.And(sidx(par_) >= 0, sidx(par_) < k, Sel(self.arr, sidx(par_)) == par_)), patterns=[at]))
        # only the translation unit has no enclosing scope (C07)
        st.assume(FA([k], z3.Implies(rng, (par_ == NULL) == E.isa_term('clang::TranslationUnitDecl', at)), patterns=[at]))
        C = E.contracts
        C['genpybind::findEnclosingScopes'] = lambda E2, s, c: S.same(s, c, 0, self.g) or mkmap(E2, s, U, U, self.dom, self.val)
        self.cyclic = z3.Bool('cyclic')
        self.cycle = z3.Const('cycle', U)
        st.assume(self.cycle != NULL)

        def order(E2, s, c):
            S.same(s, c, 0, self.g)
            p = E2.rv(s, c.args[1])
            if not (isinstance(p, Obj) and s.get(p, 'dom').eq(self.dom) and s.get(p, 'val').eq(self.val)):
                raise Abort('parents')
            out = E2.rv(s, c.args[3])
            res = []
            for s2, t in E2.split(s, self.cyclic):
                if t:
                    if not (isinstance(out, Ptr) and isinstance(out.to, LV)):
                        raise Abort('cycle is not reported')
                    out.to.store(E2, s2, self.cycle)
                    res.append((s2, vec(E2, s2, U)))
                else:
                    res.append((s2, vec(E2, s2, U, self.n, self.arr, None)))
            return res
        C['genpybind::declContextsSortedByDependencies'] = order
        # names
        C['genpybind::makeValidIdentifier'] = self.valid_identifier
        C[DI + '::discriminate'] = self.discriminate
        C['genpybind::getFullyQualifiedName'] = lambda E2, s, c: E2.uf('spec.type', [term(s, c.args[0])], STR)
        L.ctors[DI] = lambda E2, s, ty, args, e: E2.new_obj(s, DI, used=z3.K(STR, False))
        # scopes
        self.exposer = lambda d: E.uf('spec.exposer', [d], U)
        C['genpybind::DeclContextExposer::create'] = lambda E2, s, c: S.exposer(term(s, c.args[2]))
        DCE = 'genpybind::DeclContextExposer::'
        C[DCE + 'emitParameter'] = lambda E2, s, c: put(E2, s, c.args[0], ('rec', 'parameter', (term(s, c.obj),)))
        C[DCE + 'emitIntroducer'] = lambda E2, s, c: put(E2, s, c.args[0], ('rec', 'introducer', (term(s, c.obj), E2.as_str(s, c.args[1]))))
        C[DCE + 'finalizeDefinition'] = lambda E2, s, c: put(E2, s, c.args[0], ('rec', 'finalize', (term(s, c.obj),)))
        self.policy = lambda e: (E.uf('spec.policy?', [e], BOOL), E.uf('spec.policy', [e], U))
        C[DCE + 'inliningPolicy'] = lambda E2, s, c: optional(E2, s, *S.policy(term(s, c.obj)))

        def insert(E2, s, c):
            s.set(S.ins, 'log', s.get(S.ins, 'log') + (('rec', 'annotate', (term(s, c.args[0]),)),))
            return None
        C['genpybind::AnnotationStorage::insert'] = insert

        def handle(E2, s, c):
            d = term(s, c.args[1])
            log = s.get(S.ins, 'log')
            seen = any(p[0] == 'rec' and p[2][0].eq(d) for p in log if isinstance(p, tuple))
            if not seen and log:
                raise Abort('annotations read elsewhere')
            E2.oblige(s, z3.BoolVal(seen), 'annotations are read before a declaration is exposed')
            put(E2, s, c.args[0], ('rec', 'member', (term(s, c.obj), d, E2.to_bool(s, c.args[2]))))
        C[DCE + 'handleDecl'] = handle
        A = z3.ArraySort(INT, U)
        self.found = lambda d, e: (E.uf('spec.members.n', [d, *self.policy(e)], INT), E.uf('spec.members', [d, *self.policy(e)], A))
        self.adl = lambda d: (E.uf('spec.operators.n', [d], INT), E.uf('spec.operators', [d], A))

        def members(E2, s, c):
            d, p = term(s, c.args[1]), E2.rv(s, c.args[2])
            a = [term(s, s.get(p, 'has')), term(s, s.get(p, 'val'))]
            n, arr = E2.uf('spec.members.n', [d] + a, INT), E2.uf('spec.members', [d] + a, A)
            s.assume(n >= 0)
            return vec(E2, s, U, n, arr, None)
        C['genpybind::collectVisibleDeclsFromDeclContext'] = members

        def operators(E2, s, c):
            n, arr = S.adl(term(s, c.args[1]))
            s.assume(n >= 0)
            return vec(E2, s, U, n, arr, None)
        C['collectOperatorDeclsViaArgumentDependentLookup'] = C['genpybind::collectOperatorDeclsViaArgumentDependentLookup'] = operators
        self.sorted = lambda n, arr: E.uf('spec.sorted', [n, arr], A)

        def sort(E2, s, c):
            xs = [E2.rv(s, a) for a in c.args]
            if not (isinstance(xs[0], Obj) and E2.cls(s, xs[0]) == 'vec' and len(xs) == 2):
                raise Abort('sort')
            a, b = E2.fresh_const(U, 'a'), E2.fresh_const(U, 'b')
            for s2, r in E2.invoke(s.copy(), xs[1], [a, b], c.node):
                E2.oblige(s2, E2.to_bool(s2, r) == before(E2, a, b), 'members are sorted by their position in the source')
            s.set(xs[0], 'arr', S.sorted(s.get(xs[0], 'n'), s.get(xs[0], 'arr')))
            return None
        L.models['llvm::sort'] = sort
        # declarations in a scope, by kind
        q = lambda d: Seq(E.uf('spec.variables.n', [d], INT), lambda E2, s2, i: E2.uf('spec.variables', [d, i], U), ('variables', d), lambda E2, s2: [
            z3.ForAll([k], z3.Implies(k >= 0, z3.And(E.uf('spec.variables', [d, k], U) != NULL, E.isa_term('clang::VarDecl', E.uf('spec.variables', [d, k], U)))),
                      patterns=[E.uf('spec.variables', [d, k], U)])])
        self.vars = q
        for nm, end_ in (('decls_begin', False), ('decls_end', True)):
            L.models['clang::DeclContext::' + nm] = lambda E2, s, c, end_=end_: S.decls(s, term(s, c.obj), end_)

        def spec_it(E2, s, ty, args, e):
            it = E2.rv(s, args[0]) if args else None
            if isinstance(it, Iter) and it.seq.key[0] == 'variables' and 'VarDecl' in ty['s']:
                return it
            return NotImplemented
        L.ctors['clang::DeclContext::specific_decl_iterator'] = spec_it
        for o in ('*', '->', '++'):
            L.models['clang::DeclContext::specific_decl_iterator::operator' + o] = L.models['llvm::iterator_facade_base::operator' + o]
        # items of the work list are values
        C['genpybind::DeclContextGraph::getRoot'] = lambda E2, s, c: E2.uf('spec.root_node', [term(s, c.obj)], U)
        C['genpybind::DeclContextNode::getDeclContext'] = lambda E2, s, c: decl(E2, term(s, c.obj))
        self.root = decl(E, E.uf('spec.root_node', [self.g], U))
        for r, d in E.tu.records.items():
            if r.rsplit('::', 1)[-1] == 'WorklistItem':
                L.terms[r] = lambda E2, s, o, r=r: S.item(s, o, r)
                self.rec = r

    def decls(self, s, d, end_):
        q = self.vars(d)
        s.assume(q.n >= 0)
        return Iter(q, q.n if end_ else z3.IntVal(0), d)

    def same(self, s, c, i, t):
        if not self.E.entails(s, self.E.to_term(s, c.args[i]) == t):
            raise Abort('argument of ' + c.fn['q'])

    def item(self, s, o, r):
        E = self.E
        t = E.fresh_const(U, 'item')
        for f in E.all_fields(r):
            v = E.to_term(s, s.heap[o.oid][f['n']])
            s.assume(E.uf('%s.%s' % (r, f['n']), [t], v.sort()) == v)
        return t

    def f(self, t, n, sort=U):
        return self.E.uf('%s.%s' % (self.rec, n), [t], sort)

    def at(self, s, c):
        E = self.E
        i = E.rv(s, c.args[0])
        s0 = s.copy()
        if i.decl().kind() in (z3.Z3_OP_IDIV,) and i.arg(0).decl().kind() == z3.Z3_OP_MUL:
            a, b = i.arg(0).children()
            for a, b in ((a, b), (b, a)):
                s0.assume(z3.Implies(z3.And(i.arg(1) > 0, a >= 0, a < i.arg(1), b >= 1), z3.And(i >= 0, i < b)))
        E.oblige(s0, z3.And(i >= 0, i < self.m), 'a file that was asked for')
        # (the environment is that of the current iteration; which file is taken is left open)
        last = s.env.get('__file__')
        if last is not None and not last.eq(i):
            raise Abort('several files in one step')
        s.env['__file__'] = i
        if '__i__' not in s.env:
            raise Abort('file chosen outside of a loop')
        return [(s2, Ptr(self.main if t else self.other)) for s2, t in E.split(s, self.first(s.env['__i__']))]

    def first(self, i):
        return self.E.uf('spec.first_file', [i], BOOL)

    def prefixed(self, t):
        """An identifier that t starts with and "root" does not."""
        t = z3.simplify(t)
        p = t.arg(0) if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) else t
        p = p.as_string() if z3.is_string_value(p) else self.prefixes.get(t.get_id())
        m = re.match('[A-Za-z_][A-Za-z0-9_]*', p or '')
        return m.group(0) if m and not 'root'.startswith(m.group(0)) else None


    def valid_identifier(self, E, s, c):
        """Sanitising keeps the prefix of generated names (see unit 'makeValidIdentifier')."""
        lv = c.args[0]
        if not isinstance(lv, LV):
            raise Abort('makeValidIdentifier')
        t = E.as_str(s, lv)
        r = E.fresh_const(STR, 'identifier')
        self.prefixes[r.get_id()] = self.prefixed(t)
        self.keep.append(r)
        lv.store(E, s, r)
        return None

    def discriminate(self, E, s, c):
        o = E.rv(s, c.obj)
        t = E.as_str(s, c.args[0])
        used = s.get(o, 'used')
        r = E.fresh_const(STR, 'name')
        if not self.prefixed(t):
            raise Abort('generated names may be equal to the name of the module object')
        E.oblige(s, z3.BoolVal(True), 'generated names differ from the name of the module object')
        s.assume(z3.Not(Sel(used, r)), r != z3.StringVal('root'))
        s.set(o, 'used', z3.Store(used, r, True))
        return r


def lemma_files(E):
    """Proportional distribution stays within the files."""
    a, b, c, q, r = z3.Ints('a b c q r')
    s = State()
    s.assume(c > 0, a >= 0, a < c, b >= 1, q == a * b / c, r == a * b - c * q, r >= 0, r < c)
    E.current = 'files'
    t = s.copy()
    t.assume(q >= b)
    E.oblige(t, c * (q - b) >= 0, 'lemma (too large)')
    t.assume(c * (q - b) >= 0, (c - a) * b > 0)
    E.oblige(t, z3.BoolVal(False), 'lemma (files): the index is less than the number of files')
    t = s.copy()
    E.oblige(t, a * b >= 0, 'lemma (product)')
    t.assume(a * b >= 0)
    E.oblige(t, q >= 0, 'lemma (files): the index is not negative')


def emit_module(E):
    f = one(E.tu, 'genpybind::TranslationUnitExposer::emitModule')
    st = State()
    E.lib.opaque |= {'genpybind::DeclContextGraph', 'genpybind::AnnotationStorage'}
    me = this(E, st, f)
    M = Module(E, st, me)
    lemma_files(E)
    ps = [p for p in f['params']]
    if len(ps) != 2:
        raise Abort('parameters of emitModule')
    name = z3.Const('module_name', STR)
    for p in ps:
        st.env[p['id']] = M.streams if E.T(p['t']).get('rec') == 'std::vector' else E.new_cell(st, name)
    canon = lambda d: E.uf('clang::NamespaceDecl::getCanonicalDecl', [d], U)
    isns = lambda d: E.isa_term('clang::NamespaceDecl', d)
    key = lambda d: z3.If(isns(d), canon(d), d)
    x = z3.Const('x', U)
    k, j, l = z3.Ints('k j l')
    y = z3.Const('y', STR)
    st.assume(z3.ForAll([x], z3.Implies(isns(x), isns(canon(x))), patterns=[canon(x)]))
    H = E.new_obj(st, 'ghost', W=z3.K(U, z3.IntVal(0)), F=z3.K(INT, z3.IntVal(0)), N=z3.K(STR, z3.IntVal(0)), n=z3.IntVal(0))
    rec = M.rec
    ctx = lambda t: M.f(t, 'decl_context')
    ident = lambda t: M.f(t, 'identifier', STR)
    expo = lambda t: M.f(t, 'exposer')
    S = lambda i: Sel(M.arr, i)

    def objs(s):
        """(work list, identifiers of scopes, canonical namespaces, used names)"""
        wl = [d for d in s.heap.values() if d['cls'] == 'vec' and d.get('_elem') is not None and E.T(d['_elem']).get('rec') == rec]
        ci = [d for d in s.heap.values() if d['cls'] == 'map' and 'val' in d and d['val'].sort().range() == STR]
        cov = [d for d in s.heap.values() if d['cls'] == 'map' and 'val' in d and d['val'].sort() == z3.ArraySort(U, U) and not d['val'].eq(M.val)]
        used = [d for d in s.heap.values() if d['cls'] == DI]
        if [len(v) for v in (wl, ci, cov, used)] != [1, 1, 1, 1]:
            raise Abort('data structures of emitModule')
        return wl[0], ci[0], cov[0], used[0]

    def content(s, i):
        wl, ci, cov, used = objs(s)
        g = s.heap[H.oid]
        W, F, N = g['W'], g['F'], g['N']
        n = wl['n']
        it = Sel(wl['arr'], k)
        w = Sel(W, key(S(j)))
        c = Sel(cov['val'], x)
        return [
            ('size', z3.And(n >= 0, n <= i, g['n'] == n)),
            ('root', z3.And(Sel(ci['dom'], NULL), Sel(ci['val'], NULL) == z3.StringVal('root'))),
            ('every scope has an item', FA([j], z3.Implies(z3.And(j >= 0, j < i), z3.And(w >= 0, w < n, key(ctx(Sel(wl['arr'], w))) == key(S(j)),
             Sel(F, w) <= j, Sel(ci['dom'], S(j)), Sel(ci['val'], S(j)) == ident(Sel(wl['arr'], w)))), patterns=[S(j)])),
            ('positions', FA([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(Sel(F, k) >= 0, Sel(F, k) < i)), patterns=[Sel(F, k)])),
            ('every item is a scope', FA([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(ctx(it) == S(Sel(F, k)),
             Sel(W, key(ctx(it))) == k, expo(it) == M.exposer(ctx(it)))), patterns=[it])),
            ('names differ', FA([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(Sel(used['used'], ident(it)), ident(it) != z3.StringVal('root'),
             Sel(N, ident(it)) == k)), patterns=[it])),
            ('items are in the order of the scopes', FA([k, l], z3.Implies(z3.And(k >= 0, k < l, l < n), Sel(F, k) < Sel(F, l)), patterns=[z3.MultiPattern(Sel(F, k), Sel(F, l))])),
            ('scopes with a name', FA([x], z3.Implies(z3.And(x != NULL, Sel(ci['dom'], x)), z3.And(M.sidx(x) >= 0, M.sidx(x) < i, S(M.sidx(x)) == x)),
             patterns=[Sel(ci['dom'], x)])),
            ('namespaces seen', FA([j], z3.Implies(z3.And(j >= 0, j < i, isns(S(j))), Sel(cov['dom'], canon(S(j)))), patterns=[S(j)])),
            ('canonical namespaces', FA([x], z3.Implies(Sel(cov['dom'], x), z3.And(isns(x), isns(c), canon(c) == x, Sel(W, x) >= 0, Sel(W, x) < n,
             c == ctx(Sel(wl['arr'], Sel(W, x))))), patterns=[Sel(cov['dom'], x)])),
        ]

    def inv(E2, s0, q, mods):
        return [(nm, lambda s, i, z=z: content(s, i)[z][1]) for z, (nm, _) in enumerate(content(s0, z3.IntVal(0)))]

    def ghost(E2, s, i, q):
        wl = objs(s)[0]
        g = dict(s.heap[H.oid])
        if z3.is_store(wl['arr']):
            at = wl['arr'].arg(1)
            for nm, a, b in (('W', key(S(i)), at), ('F', at, i), ('N', ident(Sel(wl['arr'], at)), at)):
                g[nm] = z3.Store(g[nm], a, b)
        g['n'] = wl['n']
        s.heap[H.oid] = g

    def after(E2, s, q):
        """What the rest of the function needs to know, proved from the invariant."""
        wl, ci, cov, used = objs(s)
        W = s.heap[H.oid]['W']
        kk = E2.fresh_const(INT, 'k')
        rng = lambda k_: z3.And(k_ >= 0, k_ < wl['n'])
        it = lambda k_: Sel(wl['arr'], k_)
        p = lambda k_: M.parent(ctx(it(k_)))
        w = lambda k_: Sel(W, key(p(k_)))
        facts = [
            ('an exposer of the scope', lambda k_: z3.And(expo(it(k_)) == M.exposer(ctx(it(k_))), ctx(it(k_)) != NULL)),
            ('scopes with an enclosing scope', lambda k_: (p(k_) == NULL) == E.isa_term('clang::TranslationUnitDecl', ctx(it(k_)))),
            ('enclosing scopes have a name', lambda k_: z3.And(Sel(ci['dom'], p(k_)), Sel(ci['val'], p(k_)) == z3.If(p(k_) == NULL, z3.StringVal('root'), ident(it(w(k_)))))),
            ('enclosing scopes come first', lambda k_: z3.Implies(p(k_) != NULL, z3.And(w(k_) >= 0, w(k_) < k_, key(ctx(it(w(k_)))) == key(p(k_))))),
            ('different names', lambda k_: z3.And(ident(it(k_)) != z3.StringVal('root'), Sel(s.heap[H.oid]['N'], ident(it(k_))) == k_)),
            ('different scopes', lambda k_: Sel(W, key(ctx(it(k_)))) == k_),
        ]
        for nm, g in facts:
            E2.oblige(s, z3.Implies(rng(kk), g(kk)), 'generated functions: ' + nm)
        jj = E2.fresh_const(INT, 'j')
        w2 = Sel(W, key(S(jj)))
        E2.oblige(s, z3.Implies(z3.And(jj >= 0, jj < M.n), z3.And(w2 >= 0, w2 < wl['n'], key(ctx(it(w2))) == key(S(jj)))), 'generated functions: one for every scope')
        # the rest does not depend on how the work list was made
        s.pc = [c for c in s.pc if not has_quantifier(c)]
        s.assume(wl['n'] >= 0, FA([k], z3.Implies(rng(k), z3.And(*[g(k) for _, g in facts[:3]])), patterns=[it(k)]))

    def over_scopes(E2, n, s, r):
        q = E2.rv(s, r) if r is not None else None
        return n['k'] == 'rfor' and isinstance(q, Obj) and E2.cls(s, q) == 'vec' and s.get(q, 'arr').eq(M.arr)
    E.loop_specs.append(LoopSpec(over_scopes, inv, ghost=ghost, auto=False, after=after))
    E.current = 'emitModule'
    E.feas_timeout = 60
    E.abstract_strings = True
    vdom, vval = [st.get(st.get(me, 'visibilities'), n) for n in ('dom', 'val')]
    kind = E.tu.enums['genpybind::Diagnostics::Kind']['ExposeHereCycleError']
    for s, _ in run(E, f, st):
        if E.entails(s, M.cyclic):
            E.log_eq(s, s.get(M.main, 'log'), [], 'post: no output for cyclic scopes')
            E.log_eq(s, s.get(M.other, 'log'), [], 'post: no output for cyclic scopes')
            E.log_eq(s, s.get(M.G, 'log'), [('rec', 'report', (M.cycle, z3.IntVal(kind)))], 'post: a cycle is reported')
            continue
        E.log_eq(s, s.get(M.G, 'log'), [], 'post: nothing is reported if there is no cycle')
        wl = [d for d in s.heap.values() if d['cls'] == 'vec' and d.get('_elem') is not None and E.T(d['_elem']).get('rec') == rec]
        ci = [d for d in s.heap.values() if d['cls'] == 'map' and 'val' in d and d['val'].sort().range() == STR]
        if len(wl) != 1 or len(ci) != 1:
            raise Abort('data structures of emitModule')
        wl, ci = wl[0], ci[0]
        it = lambda i: Sel(wl['arr'], i)
        n = wl['n']
        W = s.heap[H.oid]['W']

        def declarator(i):
            return ['void expose_', ident(it(i)), '(', ('rec', 'parameter', (expo(it(i)),)), ')']

        def introducer(i):
            p = M.parent(ctx(it(i)))
            return ['auto ', ident(it(i)), ' = ', ('rec', 'introducer', (expo(it(i)), z3.If(p == NULL, z3.StringVal('root'), ident(it(Sel(W, key(p))))))), ';\n']

        def postamble(i):
            d = E.uf('spec.variables', [M.root, i], U)
            lam = attr(E, 'FieldOrVarDeclAttrs', '.manual_bindings', d, U)
            return [Cond(z3.And(has_attrs(E, 'FieldOrVarDeclAttrs', d), attr(E, 'FieldOrVarDeclAttrs', '.postamble', d, BOOL), lam != NULL),
                         ['\n', ('rec', 'manual bindings', (lam,))], [])]

        def definition(i):
            d, e = ctx(it(i)), expo(it(i))
            nm, marr = M.found(d, e)
            srt = M.sorted(nm, marr)
            na, aarr = M.adl(d)
            total = nm + z3.If(E.isa_term('clang::CXXRecordDecl', d), na, 0)
            vis = z3.And(Sel(vdom, d), Sel(vval, d))
            sp = lambda t: E.uf('clang::FunctionTemplateDecl::specializations', [t], U)

            def member(j_):
                t = z3.If(j_ < nm, Sel(srt, j_), Sel(aarr, j_ - nm))
                return [Cond(E.isa_term('clang::FunctionTemplateDecl', t),
                             [ForEach(None, E.uf('range.size', [sp(t)], INT), lambda l_: [('rec', 'member', (e, E.uf('range.at', [sp(t), l_], U), vis))])],
                             [('rec', 'member', (e, t, vis))])]
            return declarator(i) + [' {\n', ForEach(None, total, member), ('rec', 'finalize', (e,)), '}\n\n']
        E.log_eq(s, s.get(M.main, 'log'), [
            ForEach(None, n, lambda i: declarator(i) + [';\n']), '\nPYBIND11_MODULE(', name, ', root) {\n', ForEach(None, n, introducer), '\n',
            ForEach(None, n, lambda i: ['expose_', ident(it(i)), '(', ident(it(i)), ');\n']),
            ForEach(None, E.uf('spec.variables.n', [M.root], INT), postamble), '}\n\n',
            ForEach(None, n, lambda i: [Cond(M.first(i), definition(i), [])])], 'post: the first file declares and calls all functions, defines the module and its share of the functions')
        E.log_eq(s, s.get(M.other, 'log'), [ForEach(None, n, lambda i: [Cond(M.first(i), [], declarator(i) + [';\n'] + definition(i))])],
                 'post: the functions that are not in the first file are declared and defined in another one')


UNITS += [('TranslationUnitExposer::emitModule', EXPOSE, emit_module)]

from . import c03 as _c03
UNITS += [u for u in _c03.UNITS if u[0] == 'makeValidIdentifier']

from . import pipeline as _p
UNITS += _p.UNITS
