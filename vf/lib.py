"""Trusted contracts of the standard, llvm and clang library functions.

Every entry is an assumed specification of a dependency (never of repository
code); the names that a proof actually used are reported as assumptions.
"""
import re
import z3
from .engine import (U, NULL, STR, INT, BOOL, Abort, LV, Cell, Field, Obj, Ptr, NULLP, Lit, Closure, FnVal, PyFn,
                     Seq, CList, Iter, strval, is_z3, Call)


_strip_cache = {}


def strip(q):
    """Qualified name without template arguments."""
    r = _strip_cache.get(q)
    if r is None:
        s = q
        for i, o in enumerate(('operator<<', 'operator>>', 'operator->', 'operator<=', 'operator>=', 'operator<', 'operator>')):
            s = s.replace(o, 'operator' + chr(i + 1))
        out, d = '', 0
        for ch in s:
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif d == 0:
                out += ch
        for i, o in enumerate(('<<', '>>', '->', '<=', '>=', '<', '>')):
            out = out.replace('operator' + chr(i + 1), 'operator' + o)
        r = _strip_cache[q] = out
    return r


class ArrElem(LV):
    """Element of a vector object at a symbolic index."""

    def __init__(self, oid, i):
        self.oid, self.i = oid, i

    def load(self, E, st):
        return z3.simplify(z3.Select(st.heap[self.oid]['arr'], self.i))

    def store(self, E, st, v):
        d = dict(st.heap[self.oid])
        d['arr'] = z3.Store(d['arr'], self.i, E.to_term(st, v))
        d['log'] = None
        st.heap[self.oid] = d


class MapCell(LV):
    """m[k] of a map object whose values are terms."""

    def __init__(self, oid, k):
        self.oid, self.k = oid, k

    def load(self, E, st):
        return z3.simplify(z3.Select(st.heap[self.oid]['val'], self.k))

    def store(self, E, st, v):
        d = dict(st.heap[self.oid])
        srt = d['val'].sort().range()
        t = E.to_term(st, v)
        if t.sort() != srt:
            if srt == BOOL and z3.is_int(t):
                t = t != 0
            else:
                raise Abort('map value sort')
        d['val'] = z3.Store(d['val'], self.k, t)
        d['dom'] = z3.Store(d['dom'], self.k, True)
        st.heap[self.oid] = d


class MapRec:
    """m[k] of a map whose values are records, stored field by field."""

    def __init__(self, oid, k):
        self.oid, self.k = oid, k


class MapFieldCell(LV):
    def __init__(self, oid, k, f):
        self.oid, self.k, self.f = oid, k, 'val.' + f

    def load(self, E, st):
        return z3.simplify(z3.Select(st.heap[self.oid][self.f], self.k))

    def store(self, E, st, v):
        d = dict(st.heap[self.oid])
        t = E.to_term(st, v)
        if t.sort() != d[self.f].sort().range():
            raise Abort('map value sort')
        d[self.f] = z3.Store(d[self.f], self.k, t)
        st.heap[self.oid] = d


class MapVec:
    """m[k] of a map whose values are sequences (fields val and len)."""

    def __init__(self, oid, k):
        self.oid, self.k = oid, k


class BackIns:
    """std::back_inserter"""

    def __init__(self, o):
        self.o = o


class MapIter:
    def __init__(self, m, k, dom=None):
        self.m, self.k = m, k     # k None: end()
        self.dom = dom            # membership at the time of find()


class Entry:
    """Reference to the entry with key k of map m."""

    def __init__(self, m, k):
        self.m, self.k = m, k


def vec(E, st, sort=U, n=None, arr=None, log=(), elem=None):
    if arr is None:
        arr = z3.K(INT, z3.Const('noelem:' + sort.name(), sort))
    return E.new_obj(st, 'vec', n=z3.IntVal(0) if n is None else n, arr=arr, log=log, _elem=elem)


def vec_seq(E, st, o):
    d = st.heap[o.oid]
    arr, n = d['arr'], d['n']
    lg = d.get('log')
    if lg is not None and all(p[0] == 'rec' for p in lg) and d.get('_items') is not None:
        return CList(list(d['_items'].items))
    return Seq(n, lambda E2, s2, i: z3.Select(arr, i), ('vec', d.get('_key', arr)))


def seq_of(E, st, v):
    v = E.rv(st, v)
    if isinstance(v, Ptr) and v.to is not None:
        v = E.rv(st, v.to)
    if isinstance(v, (Seq, CList)):
        return v
    if isinstance(v, MapVec):
        d = st.heap[v.oid]
        arr, n = z3.Select(d['val'], v.k), z3.Select(d['len'], v.k)
        return Seq(n, lambda E2, s2, i: z3.Select(arr, i), ('mapvec', d['val'], v.k))
    if isinstance(v, Obj):
        c = E.cls(st, v)
        if c == 'vec':
            return vec_seq(E, st, v)
        if c == 'set':
            return set_seq(E, st, v)
        if c == 'map':
            return map_seq(E, st, v)
    h = E.lib.seqs(E, st, v)
    if h is not None:
        return h
    return None


def set_seq(E, st, o):
    """Enumeration of a set in some fixed order."""
    d = st.heap[o.oid]
    mem = d['mem']
    S = mem.sort().domain()
    nm = E.fresh_name('enum')
    n = z3.Int(nm + '.n')
    get = z3.Function(nm + '.at', INT, S)
    idx = z3.Function(nm + '.idx', S, INT)
    x = z3.Const('x', S)
    k = z3.Int('k')

    def facts(E2, s2):
        return [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(z3.Select(mem, get(k)), idx(get(k)) == k)),
                          patterns=[get(k)]),
                z3.ForAll([x], z3.Implies(z3.Select(mem, x), z3.And(idx(x) >= 0, idx(x) < n, get(idx(x)) == x)),
                          patterns=[idx(x)]),
                z3.ForAll([x], z3.Implies(z3.Select(mem, x), z3.And(idx(x) >= 0, idx(x) < n, get(idx(x)) == x)),
                          patterns=[z3.Select(mem, x)])]
    q = Seq(n, lambda E2, s2, i: get(i), ('set', d.get('_key', mem)), facts)
    q.idx = idx
    return q


def map_seq(E, st, o):
    d = st.heap[o.oid]
    s0 = E.new_obj(st, 'set', mem=d['dom'])
    q = set_seq(E, st, s0)
    q2 = Seq(q.n, lambda E2, s2, i: Entry(o, q.get(E2, s2, i)), ('mapentries', d['dom']), q.facts)
    q2.idx = q.idx
    return q2


def mkset(E, st, sort, mem=None):
    return E.new_obj(st, 'set', mem=z3.K(sort, False) if mem is None else mem)


def mkmap(E, st, ks, vs, dom=None, val=None):
    return E.new_obj(st, 'map', dom=z3.K(ks, False) if dom is None else dom,
                     val=z3.K(ks, z3.Const('noval:' + vs.name(), vs)) if val is None else val)


def optional(E, st, has, val):
    return E.new_obj(st, 'optional', has=has, val=val)


def pred_formula(E, st, f, args):
    """Value of a side-effect free predicate as a formula in st; quantifier use."""
    s2 = st.copy()
    base = len(s2.pc)
    outs = E.invoke(s2, f, args, {'t': None, 'k': 'call'})
    outs = [(s, E.to_bool(s, v)) for s, v in outs]
    if not outs:
        raise Abort('predicate without outcome')
    for s, _ in outs:
        if not E.same_store(st, s):
            raise Abort('predicate with side effects')
    for s, _ in outs:
        for t in s.taint:
            E.taint(st, t)
    alts, any_ = [], []
    for s, v in outs:
        d = s.pc[base:]
        alts.append(z3.And(*(d + [v])) if d else v)
        any_.append(z3.And(*d) if d else z3.BoolVal(True))
    E.pred_total = z3.simplify(z3.Or(*any_))
    return z3.simplify(z3.Or(*alts))


def skolem(E, st, phi, k, rng, mark):
    """Values chosen while evaluating a predicate (results of loops) depend on the element:
    constants introduced after mark become functions of the index k."""
    fresh, seen = {}, set()

    def visit(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            visit(t.body())
            return
        if z3.is_app(t):
            nm = t.decl().name()
            m = re.search(r'!(\d+)(\.\w+)?$', nm)
            if m and int(m.group(1)) > mark and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.eq(k):
                if t.num_args():
                    raise Abort('predicate with nested choices')
                fresh[nm] = t
            for c in t.children():
                visit(c)
    total = E.pred_total
    visit(phi)
    visit(total)
    if not fresh:
        # (facts established while evaluating the predicate hold for every element)
        if not z3.is_true(total) and E.check(st.pc + [rng, z3.Not(total)], 300)[0] != z3.unsat:
            st.assume(z3.ForAll([k], z3.Implies(rng, total)))
        return phi
    sub = [(t, z3.Function(nm + '@', INT, t.sort())(k)) for nm, t in sorted(fresh.items())]
    st.assume(z3.ForAll([k], z3.Implies(rng, z3.substitute(total, *sub))))
    return z3.substitute(phi, *sub)


def escaped(E, t):
    """raw_ostream::write_escaped: plain text is written as is."""
    if z3.is_string_value(t):
        b = E.lit_bytes(t)
        if all(32 <= c < 127 and c not in b'"\\\\' for c in b):
            return t
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(t.arg(0), escaped(E, t.arg(1)), escaped(E, t.arg(2)))
    return E.uf('write_escaped', [t], STR)


class Lib:
    def __init__(self):
        self.terms = {}
        self.fresh = {}
        self.ctors = {}
        self.lists = {}
        self.opaque = set()
        self.members = {}
        self.snaps = {}
        self.pure = set()
        self.models = {}
        self.seq_hooks = []
        self.conv_hooks = []
        install(self)

    # ---- hooks used by the engine
    def lookup(self, E, st, c):
        q = strip(c.fn['q'])
        h = self.models.get(q)
        if h is None and 'cls' in c.fn:
            h = self.models.get(strip(c.fn['cls']) + '::' + q.rsplit('::', 1)[-1])
        if h is None:
            h = self.models.get('*::' + q.rsplit('::', 1)[-1]) if c.obj is not None and isinstance(E.rv(st, c.obj), Obj) else None
        return h

    def seqs(self, E, st, v):
        for h in self.seq_hooks:
            r = h(E, st, v)
            if r is not None:
                return r
        return None

    def as_seq(self, E, st, r):
        return seq_of(E, st, r)

    def incr(self, E, st, v, d):
        return None

    def deref(self, E, st, v):
        if isinstance(v, Obj):
            d = st.heap[v.oid]
            if d['cls'] == 'optional':
                E.oblige(st, d['has'], 'optional is read only if it holds a value')
                x = d['val']
                return x if isinstance(x, (Obj,)) else Field(v.oid, 'val')
            if d['cls'] == 'uptr':
                return E.deref(st, d['p'])
        if isinstance(v, MapIter):
            return entry_of(E, st, v)
        return None

    def eq(self, E, st, x, y):
        if isinstance(x, MapIter) and isinstance(y, MapIter):
            if x.k is None and y.k is None:
                return z3.BoolVal(True)
            if x.k is None:
                x, y = y, x
            if y.k is None:
                return z3.Not(x.dom)
            return x.k == y.k
        if isinstance(x, Obj) and isinstance(y, Obj):
            a, b = st.heap[x.oid], st.heap[y.oid]
            if a['cls'] == 'optional' and b['cls'] == 'optional':
                return z3.And(a['has'] == b['has'], z3.Implies(a['has'], E.struct_eq(st, a['val'], b['val'])))
            if a['cls'] == 'set' and b['cls'] == 'set':
                return a['mem'] == b['mem']
            if a['cls'] == 'vec' and b['cls'] == 'vec':
                k = z3.Int(E.fresh_name('k'))
                return z3.And(a['n'] == b['n'], z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < a['n']), z3.Select(a['arr'], k) == z3.Select(b['arr'], k))))
        if isinstance(x, Obj) and st.heap[x.oid]['cls'] == 'optional' and not isinstance(y, Obj):
            a = st.heap[x.oid]
            return z3.And(a['has'], E.eq(st, a['val'], y))
        return None

    def decompose(self, E, st, v):
        if isinstance(v, Obj) and st.heap[v.oid]['cls'] == 'pair':
            d = st.heap[v.oid]
            return [x if isinstance(x, (Obj, LV)) else Field(v.oid, f) for f, x in (('first', d['first']), ('second', d['second']))]
        if isinstance(v, Entry):
            return [v.k, map_value(E, st, v.m, v.k)]
        return None

    def member_of(self, E, st, b, f):
        if isinstance(b, MapRec):
            return MapFieldCell(b.oid, b.k, f)
        if isinstance(b, Entry):
            if f == 'first':
                return b.k
            if f == 'second':
                return map_value(E, st, b.m, b.k)
        if isinstance(b, (Iter, MapIter)):
            x = E.deref(st, b)
            return E.member(st, x, {'f': f, 't': None})
        return None

    def convert(self, E, st, val, v):
        for h in self.conv_hooks:
            r = h(E, st, val, v)
            if r is not None:
                return r
        return val


def entry_of(E, st, it):
    if it.k is None:
        E.oblige(st, False, 'end iterator is dereferenced')
        raise Abort('end iterator dereferenced')
    E.oblige(st, it.dom, 'map iterator is dereferenced only if the key was found')
    return Entry(it.m, it.k)


def map_value(E, st, m, k):
    d = st.heap[m.oid]
    if '_rec' in d:
        return MapRec(m.oid, k)
    if '_vec' in d:
        return MapVec(m.oid, k)
    if '_proj' in d:
        return d['_proj'](E, st, k)
    return MapCell(m.oid, k)


# --------------------------------------------------------------------------
def install(L):
    # non-const twins of observers
    for q in ('Decl::getDeclContext', 'Decl::getLexicalDeclContext', 'DeclContext::getRedeclContext', 'DeclContext::getParent',
              'DeclContext::getLexicalParent', 'DeclContext::getEnclosingNamespaceContext', 'DeclContext::getPrimaryContext',
              'DeclContext::getLookupParent', 'Decl::getCanonicalDecl', 'NamedDecl::getUnderlyingDecl', 'Decl::getASTContext',
              'Decl::getNonClosureContext', 'Decl::getTranslationUnitDecl', 'NamespaceDecl::getOriginalNamespace', 'Decl::getAsFunction'):
        L.pure.add('clang::' + q)
    M = L.models

    def model(*names):
        def deco(f):
            for n in names:
                M[n] = f
            return f
        return deco

    def obj(E, st, c):
        o = E.rv(st, c.obj) if c.obj is not None else None
        if isinstance(o, Ptr):
            o = E.rv(st, o.to)
        return o

    def is_cls(st, o, *cs):
        return isinstance(o, Obj) and st.heap[o.oid]['cls'] in cs

    def arg(E, st, c, i=0):
        return E.rv(st, c.args[i])

    # ---------------- casts
    def cast_target(E, c):
        ta = c.fn.get('targs')
        return E.T(ta[0])

    def cast_arg(E, st, c):
        v = arg(E, st, c)
        if isinstance(v, Ptr) and v.to is None:
            return NULL
        return v

    def isa_one(E, st, tgt, v):
        if isinstance(v, Ptr) and isinstance(v.to, Obj):
            v = v.to
        if isinstance(v, Obj):
            cls = E.cls(st, v)
            return z3.BoolVal(tgt['rec'] in E.tu.ancestors(cls))
        return E.isa_term(tgt['rec'], E.to_term(st, v))

    @model('llvm::isa')
    def m_isa(E, st, c):
        v = cast_arg(E, st, c)
        n = len(c.fn['pt'])
        tgts = [E.T(t) for t in c.fn['targs'] if isinstance(t, int)]
        cs = []
        flat = []
        for t in c.fn['targs'][:-1] if len(c.fn['targs']) > 1 else c.fn['targs']:
            if isinstance(t, list):
                flat += t
            else:
                flat.append(t)
        for t in flat:
            if isinstance(t, int):
                cs.append(isa_one(E, st, E.T(t), v))
            else:
                raise Abort('isa arguments')
        return z3.simplify(z3.Or(*cs))

    @model('llvm::dyn_cast')
    def m_dyn(E, st, c):
        v = cast_arg(E, st, c)
        cond = isa_one(E, st, cast_target(E, c), v)
        t = E.to_term(st, v)
        E.oblige(st, t != NULL, 'dyn_cast is not applied to null') if E.lib_strict else None
        return z3.If(cond, t, NULL)

    @model('llvm::dyn_cast_or_null', 'llvm::dyn_cast_if_present')
    def m_dynn(E, st, c):
        v = cast_arg(E, st, c)
        cond = isa_one(E, st, cast_target(E, c), v)
        return z3.If(cond, E.to_term(st, v), NULL)

    @model('llvm::cast', 'llvm::cast_or_null', 'llvm::cast_if_present')
    def m_cast(E, st, c):
        v = cast_arg(E, st, c)
        if isinstance(v, (Obj, Ptr)):
            return v
        if strip(c.fn['q']) == 'llvm::cast' and E.lib_strict:
            E.oblige(st, isa_one(E, st, cast_target(E, c), v), 'cast is valid')
        return v

    # ---------------- moves
    @model('std::move', 'std::forward', 'std::as_const')
    def m_move(E, st, c):
        return c.args[0]

    @model('std::exchange')
    def m_exch(E, st, c):
        old = E.rv(st, c.args[0])
        old = E.clone(st, old) if isinstance(old, Obj) else old
        E.assign(st, c.args[0], E.rv(st, c.args[1]))
        return old

    @model('std::swap')
    def m_swap(E, st, c):
        a, b = c.args
        x, y = E.rv(st, a), E.rv(st, b)
        if isinstance(x, Obj) or isinstance(y, Obj):
            raise Abort('swap of objects')
        a.store(E, st, y)
        b.store(E, st, x)
        return None

    @model('std::next')
    def m_next(E, st, c):
        it = arg(E, st, c)
        d = arg(E, st, c, 1) if len(c.args) > 1 else z3.IntVal(1)
        if isinstance(it, Iter):
            return Iter(it.seq, it.i + d, it.owner)
        raise Abort('std::next')

    @model('std::distance')
    def m_dist(E, st, c):
        a, b = arg(E, st, c), arg(E, st, c, 1)
        if isinstance(a, Iter) and isinstance(b, Iter):
            return z3.simplify(b.i - a.i)
        raise Abort('std::distance')

    # ---------------- optional
    def opt_inner(E, ty):
        ta = ty.get('targs') or []
        return ta[0]

    def opt_fresh(E, st, ty, mk, suf):
        return optional(E, st, mk(BOOL, suf + '?'), E.fresh(st, opt_inner(E, ty), mk, suf + '!'))
    L.fresh['std::optional'] = opt_fresh

    def opt_ctor(E, st, ty, args, e):
        inner = opt_inner(E, ty)
        if not args or (e is not None and E.T(e['a'][0]['t']).get('rec') == 'std::nullopt_t'):
            k = E.T(inner)['k']
            if E.T(inner)['k'] == 'rec' and not E.is_string(E.T(inner)):
                try:
                    v = E.default_construct(st, inner)
                except Abort:
                    v = E.fresh_const(U, 'undef')
            else:
                v = E.undef(st, inner)
            return optional(E, st, z3.BoolVal(False), v)
        v = E.rv(st, args[0])
        if is_cls(st, v, 'optional'):
            return E.clone(st, v)
        v = E.coerce(st, v, inner)
        return optional(E, st, z3.BoolVal(True), E.clone(st, v) if isinstance(v, Obj) else v)
    L.ctors['std::optional'] = opt_ctor
    L.ctors['std::nullopt_t'] = lambda E, st, ty, a, e: E.new_obj(st, 'nullopt')

    def need_opt(f):
        def g(E, st, c):
            o = obj(E, st, c)
            if not is_cls(st, o, 'optional'):
                return NotImplemented
            return f(E, st, c, o)
        return g

    M['std::optional::has_value'] = M['std::optional::operator bool'] = need_opt(lambda E, st, c, o: st.get(o, 'has'))
    M['std::optional::operator*'] = M['std::optional::operator->'] = M['std::optional::value'] = need_opt(
        lambda E, st, c, o: L.deref(E, st, o))

    def opt_value_or(E, st, c, o):
        v = arg(E, st, c)
        d = st.heap[o.oid]
        return z3.simplify(z3.If(d['has'], E.to_term(st, d['val']), E.to_term(st, v)))
    M['std::optional::value_or'] = need_opt(opt_value_or)

    def opt_assign(E, st, c, o):
        v = arg(E, st, c)
        if is_cls(st, v, 'optional'):
            E.assign_obj(st, o, v)
        elif is_cls(st, v, 'nullopt'):
            st.set(o, 'has', z3.BoolVal(False))
        else:
            if isinstance(v, Obj):
                v = E.clone(st, v)
            elif isinstance(v, Lit):
                v = strval(v.b)
            st.set(o, 'val', v)
            st.set(o, 'has', z3.BoolVal(True))
        return o
    M['std::optional::operator='] = need_opt(opt_assign)

    def opt_reset(E, st, c, o):
        st.set(o, 'has', z3.BoolVal(False))
        return None
    M['std::optional::reset'] = need_opt(opt_reset)

    # ---------------- vectors
    def elem_sort(E, ty):
        ta = ty.get('targs') or []
        if ta and isinstance(ta[0], int):
            return E.sort_of(ta[0])
        return U

    VEC = ('std::vector', 'llvm::SmallVector', 'llvm::SmallVectorImpl', 'llvm::ArrayRef', 'llvm::MutableArrayRef')

    def vec_fresh(E, st, ty, mk, suf):
        s = elem_sort(E, ty)
        n = mk(INT, suf + '.n')
        st.assume(n >= 0)
        o = vec(E, st, s, n, mk(z3.ArraySort(INT, s), suf + '.a'), None, (ty.get('targs') or [None])[0])
        return o

    def vec_ctor(E, st, ty, args, e):
        s = elem_sort(E, ty)
        el = (ty.get('targs') or [None])[0]
        if not args:
            return vec(E, st, s, elem=el)
        v = E.rv(st, args[0])
        if isinstance(v, Ptr) and isinstance(v.to, Obj):
            v = v.to
        if isinstance(v, Obj) and is_cls(st, v, 'vec'):
            if ty['rec'] == 'llvm::ArrayRef':
                return v
            return E.clone(st, v)
        if isinstance(v, CList):
            o = vec(E, st, s, elem=el)
            for it in v.items:
                push(E, st, o, it)
            return o
        if isinstance(v, Seq) and v.key is not None and len(args) == 1:
            return v
        return NotImplemented

    for v in VEC:
        L.fresh[v] = vec_fresh
        L.ctors[v] = vec_ctor
    L.lists['std::vector'] = L.lists['llvm::SmallVector'] = lambda E, st, ty, vs: vec_ctor(E, st, ty, [CList([E.rv(st, v) for v in vs])], None)

    def push(E, st, o, v):
        d = st.heap[o.oid]
        v = E.rv(st, v)
        s = d['arr'].sort().range()
        try:
            t = E.to_term(st, v)
            if t.sort() != s:
                t = None
        except Abort:
            t = None
        d = dict(d)
        if t is not None:
            d['arr'] = z3.Store(d['arr'], d['n'], t)
        else:
            d['arr'] = z3.Store(d['arr'], d['n'], E.fresh_const(s, 'elem'))
        if t is None and isinstance(v, (Closure, FnVal, PyFn)):
            # function objects are kept as such
            old = d.get('_items')
            if old is not None or (z3.is_int_value(d['n']) and d['n'].as_long() == 0):
                d['_items'] = CList((old.items if old is not None else []) + [v])
        else:
            d.pop('_items', None)
        d['n'] = z3.simplify(d['n'] + 1)
        if d.get('log') is not None:
            d['log'] = d['log'] + (('rec', 'elem', (E.snap(st, v),)),)
        st.heap[o.oid] = d

    def need_vec(f):
        def g(E, st, c):
            o = obj(E, st, c)
            if isinstance(o, MapVec):
                d = st.heap[o.oid]
                tmp = vec(E, st, d['val'].sort().range().range(), z3.Select(d['len'], o.k), z3.Select(d['val'], o.k), None)
                r = f(E, st, c, tmp)
                d, t = dict(st.heap[o.oid]), st.heap[tmp.oid]
                d['len'] = z3.Store(d['len'], o.k, t['n'])
                d['val'] = z3.Store(d['val'], o.k, t['arr'])
                st.heap[o.oid] = d
                if r is None or is_z3(r):
                    st.heap.pop(tmp.oid)
                return r
            if not is_cls(st, o, 'vec'):
                return NotImplemented
            return f(E, st, c, o)
        return g

    def vpush(E, st, c, o):
        push(E, st, o, c.args[0])
        return None
    for p in ('std::vector::', 'llvm::SmallVectorImpl::', 'llvm::SmallVectorTemplateBase::', 'llvm::SmallVectorTemplateCommon::',
              'llvm::SmallVectorBase::', 'llvm::ArrayRef::', 'llvm::SmallVector::'):
        M[p + 'push_back'] = need_vec(vpush)
        M[p + 'reserve'] = need_vec(lambda E, st, c, o: None)
        M[p + 'size'] = need_vec(lambda E, st, c, o: st.get(o, 'n'))
        M[p + 'empty'] = need_vec(lambda E, st, c, o: z3.simplify(st.get(o, 'n') == 0))

        def front(E, st, c, o):
            E.oblige(st, st.get(o, 'n') > 0, 'front() of a non-empty sequence')
            return ArrElem(o.oid, z3.IntVal(0))
        M[p + 'front'] = need_vec(front)

        def back(E, st, c, o):
            E.oblige(st, st.get(o, 'n') > 0, 'back() of a non-empty sequence')
            return ArrElem(o.oid, st.get(o, 'n') - 1)
        M[p + 'back'] = need_vec(back)

        def at(E, st, c, o):
            i = arg(E, st, c)
            E.oblige(st, z3.And(i >= 0, i < st.get(o, 'n')), 'index in range')
            return ArrElem(o.oid, i)
        M[p + 'operator[]'] = need_vec(at)

        def begin(E, st, c, o):
            return Iter(vec_iter_seq(E, st, o), z3.IntVal(0), o)
        M[p + 'begin'] = need_vec(begin)

        def end(E, st, c, o):
            return Iter(vec_iter_seq(E, st, o), st.get(o, 'n'), o)
        M[p + 'end'] = need_vec(end)

        def clear(E, st, c, o):
            st.set(o, 'n', z3.IntVal(0))
            st.set(o, 'log', ())
            return None
        M[p + 'clear'] = need_vec(clear)

        def pop(E, st, c, o):
            E.oblige(st, st.get(o, 'n') > 0, 'pop_back() of a non-empty sequence')
            st.set(o, 'n', z3.simplify(st.get(o, 'n') - 1))
            st.set(o, 'log', None)
            return None
        M[p + 'pop_back'] = need_vec(pop)

        def pop_val(E, st, c, o):
            v = E.rv(st, back(E, st, c, o))
            st.set(o, 'n', z3.simplify(st.get(o, 'n') - 1))
            st.set(o, 'log', None)
            return v
        M[p + 'pop_back_val'] = need_vec(pop_val)

        def assign(E, st, c, o):
            v = arg(E, st, c)
            if is_cls(st, v, 'vec'):
                E.assign_obj(st, o, v)
                return o
            return NotImplemented
        M[p + 'operator='] = need_vec(assign)

    def vec_iter_seq(E, st, o):
        d = st.heap[o.oid]
        return Seq(d['n'], lambda E2, s2, i: ArrElem(o.oid, i), ('vec', d.get('_key', d['arr'])))

    def emplace(E, st, c, o):
        if len(c.args) == 1:
            push(E, st, o, c.args[0])
            return None
        el = st.heap[o.oid].get('_elem')
        if len(c.args) == 2 and isinstance(el, int) and E.T(el).get('rec') == 'std::pair':
            a, b = [E.rv(st, x) for x in c.args]
            push(E, st, o, E.new_obj(st, 'pair', first=a, second=b))
            return None
        return NotImplemented
    M['std::vector::emplace_back'] = M['llvm::SmallVectorImpl::emplace_back'] = need_vec(emplace)

    # ---------------- iterators
    def it_deref(E, st, c):
        o = obj(E, st, c)
        if isinstance(o, (Iter, MapIter)):
            return E.deref(st, o)
        if is_z3(o) or isinstance(o, (Ptr, Obj, Entry)):
            return c.obj
        return NotImplemented

    def it_arrow(E, st, c):
        return it_deref(E, st, c)
    for p in ('__gnu_cxx::__normal_iterator', 'llvm::mapped_iterator', 'llvm::iterator_facade_base', 'llvm::iterator_adaptor_base',
              'llvm::iterator_facade_base::PointerProxy', 'llvm::DenseMapIterator', 'llvm::SmallPtrSetIterator', 'llvm::SmallSetIterator',
              'llvm::detail::DenseSetImpl::ConstIterator', 'llvm::detail::SafeIntIterator', 'std::_Rb_tree_iterator',
              'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator', 'llvm::df_iterator', 'llvm::po_iterator',
              'std::reverse_iterator', 'llvm::StringMapIterBase', 'llvm::StringMapIterator'):
        M[p + '::operator*'] = it_deref
        M[p + '::operator->'] = it_arrow

        def inc(E, st, c):
            o = obj(E, st, c)
            if isinstance(o, Iter) and isinstance(c.obj, LV):
                new = Iter(o.seq, z3.simplify(o.i + 1), o.owner)
                c.obj.store(E, st, new)
                return o if c.args else c.obj
            return NotImplemented
        M[p + '::operator++'] = inc

    def cmp_eq(E, st, c):
        xs = ([c.obj] if c.obj is not None else []) + c.args
        if len(xs) != 2:
            return NotImplemented
        a, b = [E.rv(st, x) for x in xs]
        return z3.simplify(E.eq(st, a, b))

    def cmp_ne(E, st, c):
        xs = ([c.obj] if c.obj is not None else []) + c.args
        if len(xs) != 2:
            return NotImplemented
        a, b = [E.rv(st, x) for x in xs]
        return z3.simplify(z3.Not(E.eq(st, a, b)))
    for p in ('llvm::', 'std::', '__gnu_cxx::', 'std::__detail::', 'llvm::df_iterator::', 'llvm::po_iterator::', 'llvm::DenseMapIterator::',
              'clang::', 'llvm::mapped_iterator::', 'llvm::iterator_facade_base::', 'llvm::detail::'):
        M[p + 'operator=='] = cmp_eq
        M[p + 'operator!='] = cmp_ne

    # ---------------- pairs
    def pair_ctor(E, st, ty, args, e):
        if len(args) == 2:
            a, b = [E.rv(st, x) for x in args]
            return E.new_obj(st, 'pair', first=a, second=b)
        return NotImplemented
    L.ctors['std::pair'] = pair_ctor

    @model('std::make_pair')
    def m_mkpair(E, st, c):
        a, b = [E.rv(st, x) for x in c.args]
        return E.new_obj(st, 'pair', first=a, second=b)

    # ---------------- sets
    SETS = ('llvm::SmallPtrSet', 'llvm::SmallPtrSetImpl', 'llvm::SmallSet', 'llvm::DenseSet', 'llvm::detail::DenseSetImpl',
            'llvm::SmallPtrSetImplBase', 'std::set', 'std::unordered_set', 'llvm::StringSet')

    def set_fresh(E, st, ty, mk, suf):
        s = elem_sort(E, ty) if ty['rec'] != 'llvm::StringSet' else STR
        return mkset(E, st, s, mk(z3.ArraySort(s, BOOL), suf + '.set'))

    def set_ctor(E, st, ty, args, e):
        s = elem_sort(E, ty)
        if args:
            v = E.rv(st, args[0])
            if is_cls(st, v, 'set'):
                return E.clone(st, v)
            if isinstance(v, Iter) and is_cls(st, v.owner, 'set') and len(args) == 2:
                return E.clone(st, v.owner)
            if not (is_z3(v) and z3.is_int(v)):
                return NotImplemented
        return mkset(E, st, s)
    for v in SETS:
        L.fresh[v] = set_fresh
        L.ctors[v] = set_ctor

    def need_set(f):
        def g(E, st, c):
            o = obj(E, st, c)
            if not is_cls(st, o, 'set'):
                return NotImplemented
            return f(E, st, c, o)
        return g

    def set_insert(E, st, c, o):
        mem = st.get(o, 'mem')
        if len(c.args) == 2:
            a = arg(E, st, c)
            if isinstance(a, Iter) and is_cls(st, a.owner, 'set'):
                x = z3.Const('x', mem.sort().domain())
                st.set(o, 'mem', z3.Lambda([x], z3.Or(z3.Select(mem, x), z3.Select(st.get(a.owner, 'mem'), x))))
                return None
            b = arg(E, st, c, 1)
            if isinstance(a, Iter) and isinstance(b, Iter) and is_cls(st, a.owner, 'vec') and a.owner == b.owner:
                x = z3.Const('x', mem.sort().domain())
                k = z3.Int(E.fresh_name('k'))
                arr = st.get(a.owner, 'arr')
                st.set(o, 'mem', z3.Lambda([x], z3.Or(z3.Select(mem, x), z3.Exists(
                    [k], z3.And(k >= a.i, k < b.i, z3.Select(arr, k) == x)))))
                return None
            raise Abort('range insert')
        k = E.to_term(st, c.args[0])
        new = z3.simplify(z3.Not(z3.Select(mem, k)))
        st.set(o, 'mem', z3.Store(mem, k, True))
        return E.new_obj(st, 'pair', first=E.fresh_const(U, 'it'), second=new)

    def set_count(E, st, c, o):
        k = E.to_term(st, c.args[0])
        return z3.If(z3.Select(st.get(o, 'mem'), k), z3.IntVal(1), z3.IntVal(0))

    def set_contains(E, st, c, o):
        return z3.Select(st.get(o, 'mem'), E.to_term(st, c.args[0]))

    def set_erase(E, st, c, o):
        k = E.to_term(st, c.args[0])
        mem = st.get(o, 'mem')
        had = z3.simplify(z3.Select(mem, k))
        st.set(o, 'mem', z3.Store(mem, k, False))
        return had

    def set_empty(E, st, c, o):
        mem = st.get(o, 'mem')
        return mem == z3.K(mem.sort().domain(), False)

    def set_begin(E, st, c, o):
        q = set_seq(E, st, o)
        return Iter(q, z3.IntVal(0), o)

    def set_end(E, st, c, o):
        q = set_seq(E, st, o)
        return Iter(q, q.n, o)
    for p in SETS:
        M[p + '::insert'] = need_set(set_insert)
        M[p + '::count'] = need_set(set_count)
        M[p + '::contains'] = need_set(set_contains)
        M[p + '::erase'] = need_set(set_erase)
        M[p + '::empty'] = need_set(set_empty)
        M[p + '::begin'] = need_set(set_begin)
        M[p + '::end'] = need_set(set_end)

    # ---------------- maps
    MAPS = ('llvm::DenseMap', 'llvm::DenseMapBase', 'std::unordered_map', 'std::map', 'llvm::StringMap')

    def map_sorts(E, ty):
        ta = ty.get('targs') or []
        if ty['rec'] == 'llvm::StringMap':
            return STR, E.sort_of(ta[0])
        return E.sort_of(ta[0]), E.sort_of(ta[1])

    def value_record(E, ty):
        """Scalar fields of the mapped type if it is a record of the repository."""
        ta = ty.get('targs') or []
        if not ta:
            return None
        vt = E.T(ta[0] if ty['rec'] == 'llvm::StringMap' else ta[1])
        r = E.tu.records.get(vt.get('rec'))
        if vt['k'] != 'rec' or vt['rec'] in L.opaque or vt['rec'] in L.fresh or not (r and r.get('repo') and 'fields' in r):
            return None
        fs = E.all_fields(vt['rec'])
        if any(E.is_modelled(E.T(E.T(f['t'])['to'])) if E.T(f['t'])['k'] == 'ptr' else
               not (E.T(f['t'])['k'] in ('bool', 'int', 'char', 'enum') or E.is_string(E.T(f['t']))) for f in fs):
            return None
        return [(f['n'], E.sort_of(f['t'])) for f in fs]

    def map_fresh(E, st, ty, mk, suf):
        k, v = map_sorts(E, ty)
        fs = value_record(E, ty)
        if fs is not None:
            return E.new_obj(st, 'map', dom=mk(z3.ArraySort(k, BOOL), suf + '.dom'), _rec=tuple(fs),
                             **{'val.' + n: mk(z3.ArraySort(k, so), suf + '.val.' + n) for n, so in fs})
        return mkmap(E, st, k, v, mk(z3.ArraySort(k, BOOL), suf + '.dom'), mk(z3.ArraySort(k, v), suf + '.val'))

    def vec_value(E, ty):
        """Element sort if the mapped type is a sequence of terms."""
        ta = ty.get('targs') or []
        vt = E.T(ta[-1 if ty['rec'] == 'llvm::StringMap' else 1]) if len(ta) > 1 else {}
        return elem_sort(E, vt) if vt.get('rec') in VEC else None

    def map_ctor(E, st, ty, args, e):
        es = vec_value(E, ty)
        if es is not None and (not args or (is_z3(E.rv(st, args[0])) and z3.is_int(E.rv(st, args[0])))):
            k = E.sort_of(ty['targs'][0])
            A = z3.ArraySort(INT, es)
            return E.new_obj(st, 'map', dom=z3.K(k, False), val=z3.K(k, z3.K(INT, z3.Const('noelem:' + es.name(), es))),
                             len=z3.K(k, z3.IntVal(0)), _vec=True)
        k, v = map_sorts(E, ty)
        if args:
            a = E.rv(st, args[0])
            if is_cls(st, a, 'map'):
                return E.clone(st, a)
            if not (is_z3(a) and z3.is_int(a)):
                return NotImplemented
        fs = value_record(E, ty)
        if fs is not None:
            return E.new_obj(st, 'map', dom=z3.K(k, False), _rec=tuple(fs), **{'val.' + n: z3.K(k, zero_of(so)) for n, so in fs})
        o = mkmap(E, st, k, v)
        st.set(o, '_vt', (ty.get('targs') or [None])[-1])
        return o
    for v in MAPS:
        L.fresh[v] = map_fresh
        L.ctors[v] = map_ctor

    def need_map(f):
        def g(E, st, c):
            o = obj(E, st, c)
            if not is_cls(st, o, 'map'):
                return NotImplemented
            return f(E, st, c, o)
        return g

    def zero_of(sort):
        if sort == STR:
            return strval(b'')
        return {BOOL: z3.BoolVal(False), INT: z3.IntVal(0), STR: strval(b''), U: NULL}[sort]

    def map_find(E, st, c, o):
        k = E.to_term(st, c.args[0])
        return MapIter(o, k, z3.simplify(z3.Select(st.get(o, 'dom'), k)))

    def map_index(E, st, c, o):
        k = E.to_term(st, c.args[0])
        d = dict(st.heap[o.oid])
        had = z3.simplify(z3.Select(d['dom'], k))
        if '_rec' in d:
            for n, so in d['_rec']:
                a = d['val.' + n]
                d['val.' + n] = z3.Store(a, k, z3.If(had, z3.Select(a, k), zero_of(so)))
            d['dom'] = z3.Store(d['dom'], k, True)
            st.heap[o.oid] = d
            return MapRec(o.oid, k)
        if '_vec' in d:
            d['len'] = z3.Store(d['len'], k, z3.If(had, z3.Select(d['len'], k), z3.IntVal(0)))
            d['dom'] = z3.Store(d['dom'], k, True)
            st.heap[o.oid] = d
            return MapVec(o.oid, k)
        if not z3.is_true(had):
            z = zero_of(d['val'].sort().range())
            d['val'] = z3.Store(d['val'], k, z if z3.is_false(had) else z3.If(had, z3.Select(d['val'], k), z))
        d['dom'] = z3.Store(d['dom'], k, True)
        st.heap[o.oid] = d
        return MapCell(o.oid, k)

    def map_lookup(E, st, c, o):
        k = E.to_term(st, c.args[0])
        d = st.heap[o.oid]
        return z3.simplify(z3.If(z3.Select(d['dom'], k), z3.Select(d['val'], k), zero_of(d['val'].sort().range())))

    def map_count(E, st, c, o):
        return z3.If(z3.Select(st.get(o, 'dom'), E.to_term(st, c.args[0])), z3.IntVal(1), z3.IntVal(0))

    def map_try(E, st, c, o):
        k = E.to_term(st, c.args[0])
        d = dict(st.heap[o.oid])
        had = z3.simplify(z3.Select(d['dom'], k))
        v = E.to_term(st, c.args[1]) if len(c.args) > 1 else zero_of(d['val'].sort().range())
        if v.sort() != d['val'].sort().range():
            raise Abort('try_emplace value')
        d['val'] = z3.Store(d['val'], k, z3.If(had, z3.Select(d['val'], k), v))
        d['dom'] = z3.Store(d['dom'], k, True)
        st.heap[o.oid] = d
        return E.new_obj(st, 'pair', first=MapIter(o, k, z3.BoolVal(True)), second=z3.simplify(z3.Not(had)))

    def map_erase(E, st, c, o):
        a = arg(E, st, c)
        k = a.k if isinstance(a, MapIter) else E.to_term(st, a)
        dom = st.get(o, 'dom')
        st.set(o, 'dom', z3.Store(dom, k, False))
        return z3.Select(dom, k)

    def map_assign(E, st, c, o):
        E.assign_obj(st, o, arg(E, st, c))
        return o
    for p in MAPS:
        M[p + '::find'] = need_map(map_find)
        M[p + '::end'] = need_map(lambda E, st, c, o: MapIter(o, None))
        M[p + '::operator[]'] = need_map(map_index)
        M[p + '::lookup'] = need_map(map_lookup)
        M[p + '::count'] = need_map(map_count)
        M[p + '::contains'] = need_map(lambda E, st, c, o: z3.Select(st.get(o, 'dom'), E.to_term(st, c.args[0])))
        M[p + '::try_emplace'] = M[p + '::insert'] = need_map(map_try)
        M[p + '::erase'] = need_map(map_erase)
        M[p + '::empty'] = need_map(lambda E, st, c, o: st.get(o, 'dom') == z3.K(st.get(o, 'dom').sort().domain(), False))
        M[p + '::operator='] = need_map(map_assign)

    def entry_first(E, st, c):
        o = obj(E, st, c)
        if isinstance(o, Entry):
            return o.k
        if is_cls(st, o, 'pair'):
            return st.get(o, 'first')
        return NotImplemented

    def entry_second(E, st, c):
        o = obj(E, st, c)
        if isinstance(o, Entry):
            return map_value(E, st, o.m, o.k)
        if is_cls(st, o, 'pair'):
            return st.get(o, 'second')
        return NotImplemented
    M['llvm::detail::DenseMapPair::getFirst'] = entry_first
    M['llvm::detail::DenseMapPair::getSecond'] = entry_second
    M['llvm::StringMapEntryStorage::getValue'] = entry_second

    # ---------------- priority queues of distinct elements
    def pq_ctor(E, st, ty, args, e):
        if not args:
            raise Abort('priority queue without comparison')
        so = E.sort_of(ty['targs'][0])
        for a in args[1:]:
            a = E.rv(st, a)
            if not (is_cls(st, a, 'vec') and E.entails(st, st.get(a, 'n') == 0)):
                raise Abort('priority queue from a sequence')
            st.heap.pop(a.oid)
        return E.new_obj(st, 'pq', mem=z3.K(so, False), _cmp=E.rv(st, args[0]))
    L.ctors['std::priority_queue'] = pq_ctor

    def need_pq(f):
        def g(E, st, c):
            o = obj(E, st, c)
            return f(E, st, c, o) if is_cls(st, o, 'pq') else NotImplemented
        return g

    def pq_empty(E, st, c, o):
        mem = st.get(o, 'mem')
        return mem == z3.K(mem.sort().domain(), False)

    def pq_push(E, st, c, o):
        x = E.to_term(st, c.args[0])
        mem = st.get(o, 'mem')
        E.oblige(st, z3.Not(z3.Select(mem, x)), 'an element is queued at most once')
        st.set(o, 'mem', z3.Store(mem, x, True))

    def pq_top(E, st, c, o):
        mem = st.get(o, 'mem')
        S = mem.sort().domain()
        E.oblige(st, mem != z3.K(S, False), 'top() of a non-empty queue')
        t = E.uf('pq.top', [mem], S)
        x = E.fresh_const(S, 'x')
        lt = pred_formula(E, st, st.get(o, '_cmp'), [t, x])
        st.assume(z3.Select(mem, t), z3.ForAll([x], z3.Implies(z3.Select(mem, x), z3.Not(lt)), patterns=[z3.Select(mem, x)]))
        return t

    def pq_pop(E, st, c, o):
        t = pq_top(E, st, c, o)
        st.set(o, 'mem', z3.Store(st.get(o, 'mem'), t, False))
    for n, f in (('empty', pq_empty), ('push', pq_push), ('emplace', pq_push), ('top', pq_top), ('pop', pq_pop)):
        M['std::priority_queue::' + n] = need_pq(f)

    # ---------------- unique_ptr: the pointee
    for n in ('get', 'operator*', 'operator->'):
        def up(E, st, c):
            o = obj(E, st, c)
            if is_cls(st, o, 'uptr'):
                p = st.get(o, 'p')
                return p if c.fn['q'].endswith('get') else E.arrow(st, p)
            if is_z3(o) or isinstance(o, (Ptr, Obj)):
                return o if not isinstance(o, Obj) else (Ptr(o) if c.fn['q'].endswith('get') else o)
            return NotImplemented
        M['std::unique_ptr::' + n] = up
    M['std::unique_ptr::operator bool'] = lambda E, st, c: E.to_bool(st, obj(E, st, c)) if is_z3(obj(E, st, c)) else NotImplemented

    def up_assign(E, st, c):
        if isinstance(c.obj, LV):
            c.obj.store(E, st, arg(E, st, c))
            return c.obj
        return NotImplemented
    M['std::unique_ptr::operator='] = up_assign
    L.ctors['std::unique_ptr'] = lambda E, st, ty, a, e: E.rv(st, a[0]) if len(a) >= 1 else NULL

    # ---------------- algorithms
    def sequential(E, st, c, q, f, mk):
        """Predicates with effects: one call after the other, until the result is known."""
        on = mk is not al
        res, work = [], [st]
        for x in q.items:
            nxt = []
            for s in work:
                for s2, v in E.invoke(s, f, [x], c.node):
                    for s3, t in E.split(s2, E.to_bool(s2, v)):
                        if t == on:
                            res.append((s3, z3.BoolVal(mk is ex)))
                        else:
                            nxt.append(s3)
            work = nxt
        return res + [(s, z3.BoolVal(mk is not ex)) for s in work]

    def quant(E, st, c, mk):
        q = seq_of(E, st, c.args[0])
        if q is None:
            raise Abort('range algorithm over %r' % (E.rv(st, c.args[0]),))
        f = c.args[1]
        if isinstance(q, CList):
            try:
                E.quiet += 1
                try:
                    fs = [pred_formula(E, st, f, [x]) for x in q.items]
                finally:
                    E.quiet -= 1
            except Abort:
                return sequential(E, st, c, q, f, mk)
            fs = [pred_formula(E, st, f, [x]) for x in q.items]
            return mk(None, fs, None)
        k = z3.Int(E.fresh_name('k'))
        mark = next(E.counter)
        s2 = st.copy()
        s2.assume(k >= 0, k < q.n)
        if q.facts:
            fa = q.facts(E, st)
            s2.assume(*fa)
            st.assume(*fa)
        E.quiet += 1 if not E.quant_obligations else 0
        try:
            phi = pred_formula(E, s2, f, [q.get(E, s2, k)])
        finally:
            E.quiet -= 1 if not E.quant_obligations else 0
        phi = skolem(E, st, phi, k, z3.And(k >= 0, k < q.n), mark)
        return mk(k, phi, q.n)

    def ex(k, phi, n):
        if k is None:
            return z3.Or(*phi) if phi else z3.BoolVal(False)
        return z3.Exists([k], z3.And(k >= 0, k < n, phi))

    def al(k, phi, n):
        if k is None:
            return z3.And(*phi) if phi else z3.BoolVal(True)
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), phi))

    def no(k, phi, n):
        return z3.Not(ex(k, phi, n))
    M['llvm::any_of'] = lambda E, st, c: quant(E, st, c, ex)
    M['llvm::all_of'] = lambda E, st, c: quant(E, st, c, al)
    M['llvm::none_of'] = lambda E, st, c: quant(E, st, c, no)

    @model('llvm::is_contained')
    def m_isc(E, st, c):
        q = seq_of(E, st, c.args[0])
        x = E.to_term(st, c.args[1])
        if isinstance(q, CList):
            return z3.Or(*[E.eq(st, v, x) for v in q.items]) if q.items else z3.BoolVal(False)
        if q is None:
            raise Abort('is_contained')
        v = E.rv(st, c.args[0])
        if is_cls(st, v, 'set'):
            return z3.Select(st.get(v, 'mem'), x)
        k = z3.Int(E.fresh_name('k'))
        return z3.Exists([k], z3.And(k >= 0, k < q.n, E.to_term(st, q.get(E, st, k)) == x))

    def search(E, st, first, last, neg, f, seq, owner):
        """first position in [first, last) whose element (does not) satisfy f"""
        r = E.fresh_const(INT, 'pos')
        k = z3.Int(E.fresh_name('k'))

        def phi(i, s):
            p = f(E, s, i)
            return z3.Not(p) if neg else p
        s2 = st.copy()
        s2.assume(k >= first, k < last)
        mark = next(E.counter)
        E.pred_total = z3.BoolVal(True)
        E.quiet += 1 if not E.quant_obligations else 0
        try:
            pk = phi(k, s2)
        finally:
            E.quiet -= 1 if not E.quant_obligations else 0
        pk = skolem(E, st, pk, k, z3.And(k >= first, k < last), mark)
        st.assume(first <= r, r <= last,
                  z3.ForAll([k], z3.Implies(z3.And(k >= first, k < r), z3.Not(pk))),
                  z3.Implies(r < last, z3.substitute(pk, (k, r))))
        return Iter(seq, r, owner)

    def it_pred(seq, f):
        return lambda E, s, i: pred_formula(E, s, f, [seq.get(E, s, i)])

    def m_find_if(neg):
        def g(E, st, c):
            if len(c.args) == 3:
                a, b = arg(E, st, c), arg(E, st, c, 1)
                if not (isinstance(a, Iter) and isinstance(b, Iter)):
                    raise Abort('find_if over %r' % (a,))
                E.oblige(st, a.i <= b.i, 'search range is valid')
                return search(E, st, a.i, b.i, neg, it_pred(a.seq, c.args[2]), a.seq, a.owner)
            q = seq_of(E, st, c.args[0])
            o = E.rv(st, c.args[0])
            if isinstance(q, CList) or q is None:
                raise Abort('find_if')
            if is_cls(st, o, 'vec'):
                q = vec_iter_seq(E, st, o)
            return search(E, st, z3.IntVal(0), q.n, neg, it_pred(q, c.args[1]), q, o)
        return g
    M['std::find_if'] = M['llvm::find_if'] = m_find_if(False)
    M['std::find_if_not'] = M['llvm::find_if_not'] = m_find_if(True)

    def m_find(E, st, c):
        if len(c.args) == 3:
            a, b = arg(E, st, c), arg(E, st, c, 1)
            x = E.rv(st, c.args[2])
            return search(E, st, a.i, b.i, False, lambda E2, s, i: E2.eq(s, a.seq.get(E2, s, i), x), a.seq, a.owner)
        o = E.rv(st, c.args[0])
        q = seq_of(E, st, c.args[0])
        x = E.rv(st, c.args[1])
        if q is None or isinstance(q, CList):
            raise Abort('find')
        if is_cls(st, o, 'vec'):
            q = vec_iter_seq(E, st, o)
        return search(E, st, z3.IntVal(0), q.n, False, lambda E2, s, i: E2.eq(s, q.get(E2, s, i), x), q, o)
    M['std::find'] = M['llvm::find'] = m_find

    # ---------------- copies to the end of a sequence
    M['std::back_inserter'] = lambda E, st, c: BackIns(E.rv(st, c.args[0]))

    def append_range(E, st, o, q, lo, hi):
        d = dict(st.heap[o.oid])
        n, old = d['n'], d['arr']
        new = E.fresh_const(old.sort(), 'copied')
        j = z3.Int('j!c')
        v = E.to_term(st, q.get(E, st, lo + j - n))
        if v.sort() != old.sort().range():
            raise Abort('copy of other elements')
        st.assume(hi >= lo)
        st.assume(z3.ForAll([j], z3.Select(new, j) == z3.If(z3.And(j >= n, j < n + hi - lo), v, z3.Select(old, j)),
                            patterns=[z3.Select(new, j)]))
        d['arr'], d['n'], d['log'] = new, z3.simplify(n + hi - lo), None
        d.pop('_items', None)
        st.heap[o.oid] = d

    def m_copy(E, st, c):
        xs = [E.rv(st, a) for a in c.args]
        if not isinstance(xs[-1], BackIns) or not is_cls(st, xs[-1].o, 'vec'):
            raise Abort('copy')
        o = xs[-1].o
        if len(xs) == 3 and isinstance(xs[0], Iter) and isinstance(xs[1], Iter):
            E.oblige(st, z3.And(xs[0].i >= 0, xs[0].i <= xs[1].i, xs[1].i <= xs[0].seq.n), 'range of the copy is valid')
            append_range(E, st, o, xs[0].seq, xs[0].i, xs[1].i)
        elif len(xs) == 2:
            q = vec_seq(E, st, xs[0]) if is_cls(st, xs[0], 'vec') else seq_of(E, st, c.args[0])
            if q is None or isinstance(q, CList):
                raise Abort('copy')
            append_range(E, st, o, q, z3.IntVal(0), q.n)
        else:
            raise Abort('copy')
        return xs[-1]
    M['std::copy'] = M['llvm::copy'] = m_copy

    @model('llvm::sort', 'llvm::stable_sort', 'std::sort', 'std::stable_sort')
    def m_sort(E, st, c):
        """The elements, permuted such that no element is before its predecessor."""
        xs = [E.rv(st, a) for a in c.args]
        if isinstance(xs[0], Iter):
            o, cmp = xs[0].owner, c.args[2:]
            if not (is_cls(st, o, 'vec') and isinstance(xs[1], Iter) and xs[1].owner == o and E.entails(st, xs[0].i == 0)
                    and E.entails(st, xs[1].i == st.get(o, 'n'))):
                raise Abort('sort of a part')
        else:
            o, cmp = xs[0], c.args[1:]
        if not is_cls(st, o, 'vec') or len(cmp) != 1:
            raise Abort('sort')
        d = dict(st.heap[o.oid])
        n, old = d['n'], d['arr']
        S = old.sort().range()
        a, b = E.fresh_const(S, 'a'), E.fresh_const(S, 'b')
        lt = pred_formula(E, st, cmp[0], [a, b])
        nm = E.fresh_name('sorted')
        arr = z3.Const(nm, old.sort())
        perm, pinv = z3.Function(nm + '.from', INT, INT), z3.Function(nm + '.to', INT, INT)
        k, j = z3.Ints('k j')
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(
            perm(k) >= 0, perm(k) < n, z3.Select(arr, k) == z3.Select(old, perm(k)), pinv(perm(k)) == k)), patterns=[z3.Select(arr, k)]))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(
            pinv(k) >= 0, pinv(k) < n, perm(pinv(k)) == k)), patterns=[z3.Select(old, k)]))
        st.assume(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < j, j < n), z3.Not(z3.substitute(
            lt, (a, z3.Select(arr, j)), (b, z3.Select(arr, k))))), patterns=[z3.MultiPattern(z3.Select(arr, k), z3.Select(arr, j))]))
        d['arr'] = arr
        d['_sorted'] = (d.get('log'), lt, a, b)
        d['log'] = (('rec', 'sorted', (z3.Const(nm, old.sort()),)),)
        st.heap[o.oid] = d
        return None

    @model('llvm::for_each', 'std::for_each')
    def m_for_each(E, st, c):
        if len(c.args) == 3:
            a, b = arg(E, st, c), arg(E, st, c, 1)
            if not (isinstance(a, Iter) and isinstance(b, Iter)) or not (z3.is_int_value(z3.simplify(a.i)) and z3.simplify(a.i).as_long() == 0):
                raise Abort('for_each')
            q, fn = Seq(b.i, a.seq.get, a.seq.key, a.seq.facts), c.args[2]
        else:
            q, fn = seq_of(E, st, c.args[0]), c.args[1]
        if q is None:
            raise Abort('for_each over %r' % (E.rv(st, c.args[0]),))
        if isinstance(q, CList):
            work = [st]
            for x in q.items:
                work = [s2 for s in work for s2, _ in E.invoke(s, fn, [x], c.node)]
            return [(s, None) for s in work]

        def body(s, i):
            env = dict(s.env)
            out = []
            for s2, _ in E.invoke(s, fn, [q.get(E, s, i)], c.node):
                s2.env = dict(env)
                out.append((s2, None))
            return out
        return [(s, None) for s, f in E.seq_loop(st, q, body, {'l': c.node.get('l'), 'k': 'for_each'}, None)]

    @model('llvm::seq')
    def m_seq(E, st, c):
        a, b = (z3.IntVal(0), arg(E, st, c)) if len(c.args) == 1 else (arg(E, st, c), arg(E, st, c, 1))
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_int_value(a) and z3.is_int_value(b):
            return CList([z3.IntVal(i) for i in range(a.as_long(), b.as_long())])
        return Seq(z3.simplify(z3.If(b > a, b - a, z3.IntVal(0))), lambda E2, s2, i: z3.simplify(a + i), ('seq', z3.simplify(a)))

    # ---------------- std::function
    def fun_ctor(E, st, ty, args, e):
        if not args:
            return NotImplemented
        return E.rv(st, args[0])
    L.ctors['std::function'] = L.ctors['llvm::function_ref'] = fun_ctor
    M['std::function::operator()'] = M['llvm::function_ref::operator()'] = lambda E, st, c: E.invoke(st, c.obj, c.args, c.node)

    # ---------------- streams
    STREAMS = ('llvm::raw_ostream', 'llvm::raw_pwrite_stream', 'llvm::raw_string_ostream', 'llvm::raw_svector_ostream', 'llvm::raw_os_ostream')

    def stream_fresh(E, st, ty, mk, suf):
        return E.new_obj(st, 'ostream', log=())
    for s in STREAMS:
        L.fresh[s] = stream_fresh

    def sstream_ctor(E, st, ty, args, e):
        t = args[0]
        if isinstance(t, (Cell, Field)):
            return E.new_obj(st, 'sstream', **{'&to': t})
        return NotImplemented
    L.ctors['llvm::raw_string_ostream'] = L.ctors['llvm::raw_svector_ostream'] = sstream_ctor

    def put(E, st, o, v, chr_=False, esc=False):
        v = E.rv(st, v)
        d = st.heap[o.oid]
        if is_z3(v) and z3.is_int(v) and chr_:
            iv = z3.simplify(v)
            piece = ('lit', bytes([iv.as_long()])) if z3.is_int_value(iv) else ('val', z3.StrFromCode(v))
        elif isinstance(v, Lit):
            piece = ('lit', v.b)
        elif isinstance(v, Ptr) and v.to is not None and not isinstance(v.to, Obj):
            piece = ('val', E.as_str(st, v))
        elif is_z3(v) and z3.is_int(v):
            piece = ('val', z3.IntToStr(v))
        elif is_z3(v) and v.sort() == STR:
            piece = ('val', v)
        elif is_z3(v) and v.sort() == U:
            piece = ('val', E.uf('shown', [v], STR))
        else:
            raise Abort('stream output of %r' % (v,))
        if esc:
            t = strval(piece[1]) if piece[0] == 'lit' else piece[1]
            piece = ('val', escaped(E, t))
        if d['cls'] == 'sstream':
            cur = E.as_str(st, d['&to'])
            t = strval(piece[1]) if piece[0] == 'lit' else piece[1]
            new = z3.simplify(z3.Concat(cur, t)) if not (z3.is_string_value(cur) and cur.as_string() == '') else t
            d['&to'].store(E, st, new)
            return
        st.set(o, 'log', d['log'] + (piece,))
    L.put = put

    def m_out(E, st, c):
        o = obj(E, st, c)
        args = list(c.args)
        ty = None
        if o is None:
            o = E.rv(st, args[0])
            ty = c.node['a'][0]['t'] if 'a' in c.node else None
            ex = args[1]
            en = c.node['a'][1]
        else:
            ex = args[0]
            en = c.node['a'][0]
        if isinstance(o, Ptr):
            o = E.rv(st, o.to)
        if is_cls(st, o, 'ostream', 'sstream'):
            pt = c.fn['pt'][-1]
            put(E, st, o, ex, E.T(pt)['k'] == 'char')
            return c.obj if c.obj is not None else c.args[0]
        if is_cls(st, o, 'diag'):
            v = E.rv(st, ex)
            st.set(o, 'args', st.get(o, 'args') + (('rec', 'arg', (E.snap(st, v),)),))
            flush_diag(E, st, o)
            return o
        return NotImplemented

    def flush_diag(E, st, o):
        pass
    M['llvm::raw_ostream::operator<<'] = M['llvm::operator<<'] = M['clang::operator<<'] = M['clang::DiagnosticBuilder::operator<<'] = m_out
    M['clang::StreamingDiagnostic::operator<<'] = m_out

    def m_wesc(E, st, c):
        o = obj(E, st, c)
        if is_cls(st, o, 'ostream', 'sstream'):
            put(E, st, o, c.args[0], esc=True)
            return c.obj
        return NotImplemented
    M['llvm::raw_ostream::write_escaped'] = m_wesc

    def m_sstr(E, st, c):
        o = obj(E, st, c)
        if is_cls(st, o, 'sstream'):
            return st.get(o, '&to')
        return NotImplemented
    M['llvm::raw_string_ostream::str'] = M['llvm::raw_svector_ostream::str'] = m_sstr

    # ---------------- strings
    def S(E, st, v):
        return E.as_str(st, v)

    def need_str(f):
        def g(E, st, c):
            v = obj(E, st, c)
            if isinstance(v, Lit) or (is_z3(v) and v.sort() == STR):
                return f(E, st, c, strval(v.b) if isinstance(v, Lit) else v)
            return NotImplemented
        return g
    for p in ('llvm::StringRef::', 'std::basic_string::', 'llvm::SmallString::', 'llvm::Twine::', 'std::basic_string_view::',
              'llvm::StringLiteral::', 'llvm::SmallVectorBase::', 'llvm::SmallVectorTemplateCommon::', 'llvm::SmallVectorTemplateBase::', 'llvm::SmallVectorImpl::'):
        def reg(n, f, p=p):
            old = M.get(p + n)
            g = need_str(f)
            if old is not None:
                def h(E, st, c, old=old, g=g):
                    r = old(E, st, c)
                    return g(E, st, c) if r is NotImplemented else r
                M[p + n] = h
            else:
                M[p + n] = g
        reg('empty', lambda E, st, c, s: z3.simplify(s == strval(b'')))
        reg('size', lambda E, st, c, s: z3.Length(s))
        reg('length', lambda E, st, c, s: z3.Length(s))
        for n in ('str', 'c_str', 'data', 'operator StringRef', 'operator basic_string_view', 'operator basic_string', 'operator std::string_view'):
            reg(n, lambda E, st, c, s: s)

        def s_front(E, st, c, s):
            E.oblige(st, z3.Length(s) > 0, 'front() of a non-empty string')
            return z3.StrToCode(z3.SubString(s, 0, 1))
        reg('front', s_front)

        def s_at(E, st, c, s):
            i = arg(E, st, c)
            E.oblige(st, z3.And(i >= 0, i < z3.Length(s)), 'string index in range')
            return z3.StrToCode(z3.SubString(s, i, 1))
        reg('operator[]', s_at)
        for n in ('starts_with', 'startswith'):
            reg(n, lambda E, st, c, s: z3.PrefixOf(S(E, st, c.args[0]), s))
        for n in ('ends_with', 'endswith'):
            reg(n, lambda E, st, c, s: z3.SuffixOf(S(E, st, c.args[0]), s))
        reg('equals', lambda E, st, c, s: s == S(E, st, c.args[0]))
        reg('contains', lambda E, st, c, s: z3.Contains(s, S(E, st, c.args[0])) if not z3.is_int(E.to_term(st, c.args[0])) else z3.Contains(s, z3.StrFromCode(E.to_term(st, c.args[0]))))
        reg('ltrim', lambda E, st, c, s: E.uf('ltrim', [s] + [E.to_term(st, a) for a in c.args], STR))
        reg('rtrim', lambda E, st, c, s: E.uf('rtrim', [s] + [E.to_term(st, a) for a in c.args], STR))
        reg('trim', lambda E, st, c, s: E.uf('trim', [s] + [E.to_term(st, a) for a in c.args], STR))

        def s_drop(E, st, c, s):
            n = arg(E, st, c) if c.args else z3.IntVal(1)
            E.oblige(st, z3.Length(s) >= n, 'drop_front() within the string')
            return z3.SubString(s, n, z3.Length(s) - n)
        reg('drop_front', s_drop)
        reg('take_front', lambda E, st, c, s: z3.SubString(s, 0, arg(E, st, c) if c.args else z3.IntVal(1)))

        def s_cons(E, st, c, s):
            p = S(E, st, c.args[0])
            b = z3.PrefixOf(p, s)
            if not isinstance(c.obj, LV):
                raise Abort('consume_front on temporary')
            n = z3.Length(p)
            c.obj.store(E, st, z3.If(b, z3.SubString(s, n, z3.Length(s) - n), s))
            return b
        reg('consume_front', s_cons)

        def s_assign(E, st, c, s):
            v = arg(E, st, c)
            if is_z3(v) and z3.is_int(v):
                raise Abort('string from char')
            c.obj.store(E, st, S(E, st, v))
            return c.obj
        reg('operator=', s_assign)

        def s_append(E, st, c, s):
            v = arg(E, st, c)
            t = z3.StrFromCode(v) if is_z3(v) and z3.is_int(v) else S(E, st, v)
            c.obj.store(E, st, z3.simplify(z3.Concat(s, t)))
            return c.obj
        reg('operator+=', s_append)
        reg('append', s_append)
        reg('push_back', s_append)

        def s_clear(E, st, c, s):
            c.obj.store(E, st, strval(b''))
            return None
        reg('clear', s_clear)
        reg('concat', lambda E, st, c, s: z3.Concat(s, S(E, st, c.args[0])))

        def s_split(E, st, c, s):
            sep = E.to_term(st, c.args[0])
            if z3.is_int(sep):
                sep = z3.StrFromCode(sep)
            i = z3.IndexOf(s, sep, 0)
            has = z3.Contains(s, sep)
            n = z3.Length(sep)
            first = z3.If(has, z3.SubString(s, 0, i), s)
            second = z3.If(has, z3.SubString(s, i + n, z3.Length(s) - i - n), strval(b''))
            return E.new_obj(st, 'pair', first=first, second=second)
        reg('split', s_split)

        def s_substr(E, st, c, s):
            a = arg(E, st, c)
            n = arg(E, st, c, 1) if len(c.args) > 1 and c.node['a'][1]['k'] != 'defarg' else z3.Length(s) - a
            return z3.SubString(s, a, n)
        reg('substr', s_substr)

    @model('std::operator+', 'llvm::operator+')
    def m_plus(E, st, c):
        def t(i):
            v = arg(E, st, c, i)
            if is_z3(v) and z3.is_int(v):
                return z3.StrFromCode(v)
            return S(E, st, v)
        return z3.simplify(z3.Concat(t(0), t(1)))

    @model('llvm::utostr', 'std::to_string', 'llvm::itostr')
    def m_utostr(E, st, c):
        return z3.IntToStr(arg(E, st, c))

    @model('std::make_unique', 'std::make_shared')
    def m_mku(E, st, c):
        t = E.T(c.fn['targs'][0]) if isinstance(c.fn['targs'][0], int) else {}
        rec = t.get('rec')
        if not E.tu.records.get(rec, {}).get('repo'):
            raise Abort('make_unique')
        fs = [f for f in E.tu.by_q.get(rec + '::' + rec.rsplit('::', 1)[-1], []) if len(f['params']) == len(c.args) and 'body' in f]
        if len(fs) != 1:
            raise Abort('make_unique: constructor')
        return E.repo_ctor(st, rec, fs[0], c.args, c.node)

    @model('std::get')
    def m_get(E, st, c):
        o = arg(E, st, c)
        if isinstance(o, Obj):
            key = 'get:' + E.ts(c.fn['targs'][0])
            if key in st.heap[o.oid]:
                return st.get(o, key)
        return NotImplemented

    # pair members through iterators of maps (->first / ->second)
    L.members[('pair', 'first')] = lambda E, st, o: st.get(o, 'first') if isinstance(st.get(o, 'first'), (Obj, LV)) else Field(o.oid, 'first')
    L.members[('pair', 'second')] = lambda E, st, o: st.get(o, 'second') if isinstance(st.get(o, 'second'), (Obj, LV)) else Field(o.oid, 'second')
