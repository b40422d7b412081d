"""Path-based deductive verifier for the extracted C++ functions.

Every function under contract is executed symbolically, path by path; loops are
cut by invariants (given by the contract, plus inferred ones that are themselves
proved inductive), callees are replaced by their contract or, for helpers that
have none, inlined.  Every proof obligation is discharged by z3.
"""
import itertools
import time
import z3
from .abstr import Abstraction, Unsupported

U = z3.DeclareSort('U')
NULL = z3.Const('null', U)
STR = z3.StringSort()
INT = z3.IntSort()
BOOL = z3.BoolSort()


def strval(b):
    """z3 string constant for a byte string."""
    if isinstance(b, str):
        b = b.encode()
    return z3.StringVal(''.join(chr(c) if 32 <= c < 127 and chr(c) not in '\\' else '\\u{%x}' % c for c in b))


class Abort(Exception):
    """Construct outside the verifier's reach: verdict is 'undecided'."""


class LV:
    pass


class Cell(LV):
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def load(self, E, st):
        return st.cells[self.id]

    def store(self, E, st, v):
        st.cells[self.id] = v


class Field(LV):
    __slots__ = ('oid', 'f')

    def __init__(self, oid, f):
        self.oid = oid
        self.f = f

    def load(self, E, st):
        o = st.heap[self.oid]
        if self.f in o.get('_union', ()):
            E.oblige(st, o['_active'] == E.union_tag(o, self.f), 'union: inactive member %s is read' % self.f)
        return o[self.f]

    def store(self, E, st, v):
        o = dict(st.heap[self.oid])
        if self.f in o.get('_union', ()):
            o['_active'] = z3.IntVal(E.union_tag(o, self.f))
        o[self.f] = v
        st.heap[self.oid] = o


class Obj:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Obj) and o.oid == self.oid

    def __hash__(self):
        return hash(self.oid)

    def __repr__(self):
        return 'Obj(%s)' % self.oid


class Ptr:
    __slots__ = ('to',)

    def __init__(self, to):
        self.to = to

    def __repr__(self):
        return 'Ptr(%r)' % (self.to,)


NULLP = Ptr(None)


class Lit:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'Lit(%r)' % self.b


class Closure:
    def __init__(self, node, caps, this):
        self.node = node
        self.caps = caps
        self.this = this


class FnVal:
    def __init__(self, fn):
        self.fn = fn


def as_truth(x):
    """The truth value behind an integer that is 0 or 1 by its form."""
    if z3.is_int_value(x) and x.as_long() in (0, 1):
        return z3.BoolVal(x.as_long() == 1)
    if x.decl().kind() == z3.Z3_OP_ITE:
        a, b = as_truth(x.arg(1)), as_truth(x.arg(2))
        if a is not None and b is not None:
            return z3.If(x.arg(0), a, b)
    return None


class PyFn:
    """A callable given by a specification."""

    def __init__(self, f):
        self.f = f


class Seq:
    """Abstract finite sequence: length and element access."""

    def __init__(self, n, get, key=None, facts=None):
        self.n = n
        self.get = get
        self.key = key
        self.facts = facts


class CList:
    """Sequence of statically known length."""

    def __init__(self, items):
        self.items = items


class Iter:
    def __init__(self, seq, i, owner=None):
        self.seq = seq
        self.i = i
        self.owner = owner


class LoopPiece:
    def __init__(self, seq, upto, ivar, paths, name):
        self.seq = seq
        self.upto = upto
        self.ivar = ivar
        self.paths = paths
        self.name = name


class Cond:
    def __init__(self, c, x, y=()):
        self.c = c
        self.x = x if callable(x) else tuple(x)
        self.y = y if callable(y) else tuple(y)


class ForEach:
    """Specification counterpart of LoopPiece."""

    def __init__(self, key, n, f, elem=False):
        self.elem = elem     # f takes the element; n None: all elements of the set in the key
        self.key = key
        self.n = n
        self.f = f

    def none(self):
        if self.n is None:
            m = self.key[1]
            return m == z3.K(m.sort().domain(), False)
        return self.n == 0


class State:
    __slots__ = ('pc', 'env', 'cells', 'heap', 'taint', 'notes')

    def __init__(self):
        self.pc = []
        self.env = {}
        self.cells = {}
        self.heap = {}
        self.taint = ()
        self.notes = ()

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.env = dict(self.env)
        s.cells = dict(self.cells)
        s.heap = dict(self.heap)
        s.taint = self.taint
        s.notes = self.notes
        return s

    def assume(self, *fs):
        for f in fs:
            if z3.is_true(f) or f is True:
                continue
            self.pc.append(z3.BoolVal(False) if f is False else f)

    def get(self, o, f):
        return self.heap[o.oid][f]

    def set(self, o, f, v):
        d = dict(self.heap[o.oid])
        d[f] = v
        self.heap[o.oid] = d


class Call:
    def __init__(self, fn, obj, args, node):
        self.fn = fn
        self.obj = obj
        self.args = args
        self.node = node


class Obligation:
    def __init__(self, name, status, detail='', taint=(), t=0.0, smt=None):
        self.name = name
        self.status = status  # proved | refuted | unknown
        self.detail = detail
        self.taint = taint
        self.t = t
        self.smt = smt


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def has_quantifier(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


class Engine:
    def __init__(self, tu, lib, timeout_ms=10000):
        self.tu = tu
        self.lib = lib
        self.counter = itertools.count(1)
        self.ufs = {}
        self.obligations = []
        self.quiet = 0
        self.contracts = {}
        self.overrides = {}
        self.loop_specs = []
        self.facts = []       # global axioms
        self.depth = 0
        self.stack = []
        self.inlined = set()
        self.used_models = set()
        self.used_observers = set()
        self.used_contracts = set()
        self.timeout = timeout_ms
        self.solver_time = 0.0
        self.queries = 0
        self.current = '?'
        self.paths = 0
        self.fork_limit = 4000
        self.isa_used = set()
        self._isa_cache = None
        self.case_timeout = 2000
        self.feas_timeout = 300
        self.string_class = None
        self.keep_smt = False
        self.drop_facts = False
        self.lib_strict = False
        self.quant_obligations = False
        self.lazy_facts = []     # not used to prune paths
        self.deadline = None
        self.vacuous = False
        self.step_hook = None   # effect of incrementing an iterator
        self.smoke = True
        self.abstract_strings = False
        self.recursion = None   # contract of recursive functions
        self.abstr = Abstraction()

    # ------------------------------------------------------------ utilities
    def fresh_name(self, p):
        return '%s!%d' % (p, next(self.counter))

    def fresh_const(self, sort, p='v'):
        return z3.Const(self.fresh_name(p), sort)

    def uf(self, name, args, rsort):
        args = list(args)
        if not args:
            return z3.Const(name, rsort)
        k = (name, tuple(a.sort().name() for a in args), rsort.name())
        f = self.ufs.get(k)
        if f is None:
            nm = name if all(kk[0] != name for kk in self.ufs) else name + '/' + ','.join(k[1]) + '>' + k[2]
            f = z3.Function(nm, *([a.sort() for a in args] + [rsort]))
            self.ufs[k] = f
        return f(*args)

    def solver(self, timeout=None):
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.set('random_seed', 1)
        return s

    def axioms(self):
        return self.facts + self.isa_axioms()

    def check(self, fs, timeout=None, quick=False, lazy=True):
        if self.deadline is not None and time.time() > self.deadline:
            raise Abort('time budget exhausted')
        s = self.solver(timeout)
        if quick:
            s.set('mbqi', False)
        fs = list(self.axioms()) + list(fs) + (list(self.lazy_facts) if lazy else [])
        orig = None
        if self.abstract_strings:
            try:
                fs, orig = [self.abstr.go(f) for f in fs], fs
                fs = fs + self.abstr.literals()
            except Unsupported:
                pass
        s.add(*fs)
        t = time.time()
        r = s.check()
        if orig is not None and self.abstr.lossy and r != z3.unsat:
            # (operations on strings were uninterpreted)
            s = self.solver(timeout)
            if quick:
                s.set('mbqi', False)
            s.add(*orig)
            r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r, s

    def feasible(self, st):
        r, _ = self.check(st.pc, self.feas_timeout, True, False)
        return r != z3.unsat

    def entails(self, st, f):
        if z3.is_true(f):
            return True
        r, _ = self.check(st.pc + [z3.Not(f)], self.case_timeout, True)
        return r == z3.unsat

    def oblige(self, st, f, name):
        """Records a proof obligation: f holds in st."""
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if self.quiet:
            return
        nm = self.current + ': ' + name
        t0 = time.time()
        if z3.is_true(f):
            self.obligations.append(Obligation(nm, 'proved'))
            return
        r, s = self.check(st.pc + [z3.Not(f)], None, True)
        sat = r == z3.unknown and 'incomplete' in s.reason_unknown()
        if r == z3.unknown:
            r, s = self.check(st.pc + [z3.Not(f)])
        detail = ''
        smt = s.to_smt2() if self.keep_smt or r != z3.unsat else None
        if r == z3.unsat:
            status = 'proved'
        elif r == z3.sat:
            status = 'refuted'
            try:
                detail = str(s.model())[:4000]
            except z3.Z3Exception:
                detail = '(no model)'
        else:
            status = 'unknown'
            detail = s.reason_unknown()
            if sat:
                detail = 'no instance of the quantified facts proves this (saturated); model search: ' + detail
        if status != 'proved' and st.notes:
            detail = 'path: ' + ' / '.join(map(str, st.notes[-12:])) + '\n' + detail
        self.obligations.append(Obligation(nm, status, detail, st.taint, time.time() - t0, smt))
        return status == 'proved'

    def oblige_inv(self, st, f, own, name):
        """As oblige; tries the ground facts and the invariant's own hypothesis first (fewer facts: still sound)."""
        if not self.quiet and is_z3(f) and has_quantifier(f):
            t0 = time.time()
            pc = [x for x in st.pc if not has_quantifier(x)] + [own]
            if self.check(pc + [z3.Not(f)], 1000, True, False)[0] == z3.unsat:
                self.obligations.append(Obligation(self.current + ': ' + name, 'proved', '', st.taint, time.time() - t0))
                return True
        return self.oblige(st, f, name)

    def oblige_from(self, st, words, f, name):
        """As oblige; tries the facts that mention one of words first (fewer facts: still sound)."""
        t = st.copy()
        t.pc = [x for x in st.pc if any(w in x.sexpr() for w in words)]
        if not self.quiet and self.check(t.pc + [z3.Not(f)], None, True)[0] == z3.unsat:
            st = t
        return self.oblige(st, f, name)

    def taint(self, st, why):
        if why not in st.taint:
            st.taint = st.taint + (why,)

    # ------------------------------------------------------------ types
    def T(self, t):
        return self.tu.types[t]

    def strip(self, t):
        return self.T(t)

    STRINGS = ('llvm::StringRef', 'std::basic_string', 'llvm::SmallString', 'llvm::Twine', 'std::basic_string_view')

    def is_string(self, ty):
        if ty['k'] == 'rec':
            return ty['rec'] in self.STRINGS or ty['rec'].startswith('std::__cxx11::basic_string')
        if ty['k'] == 'ptr':
            return self.T(ty['to'])['k'] == 'char'
        if ty['k'] == 'array':
            return self.T(ty['to'])['k'] == 'char'
        return False

    def sort_of(self, t):
        ty = self.T(t)
        k = ty['k']
        if k == 'bool':
            return BOOL
        if k in ('int', 'char', 'enum'):
            return INT
        if self.is_string(ty):
            return STR
        return U

    def enum_fact(self, t, v):
        ty = self.T(t)
        if ty['k'] == 'enum':
            vals = sorted(set(self.tu.enums.get(ty['rec'], {}).values()))
            if vals and vals == list(range(vals[0], vals[-1] + 1)):
                return z3.And(v >= vals[0], v <= vals[-1])
            if vals and len(vals) < 80:
                return z3.Or(*[v == x for x in vals])
        if ty['k'] == 'char':
            return z3.And(v >= 0, v <= 255)
        if ty['k'] == 'int' and not ty.get('signed'):
            return v >= 0
        return None

    # ------------------------------------------------------------ isa
    def isa_term(self, cls, x):
        self.isa_used.add(cls)
        return self.uf('isa:' + cls, [x], BOOL)

    def isa_axioms(self):
        if self._isa_cache is not None and self._isa_cache[0] == len(self.isa_used):
            return self._isa_cache[1]
        out = []
        cs = sorted(self.isa_used)
        x = z3.Const('x!isa', U)
        for a in cs:
            fa = self.uf('isa:' + a, [x], BOOL)
            out.append(z3.Not(self.uf('isa:' + a, [NULL], BOOL)))
            for b in cs:
                if a == b:
                    continue
                fb = self.uf('isa:' + b, [x], BOOL)
                if b in self.tu.ancestors(a):
                    out.append(z3.ForAll([x], z3.Implies(fa, fb), patterns=[fa]))
                elif a < b and a not in self.tu.ancestors(b):
                    # Single dynamic class: unrelated classes exclude each other
                    # unless one of them is the DeclContext mixin.
                    if 'clang::DeclContext' in (a, b) or 'clang::Redeclarable' in (a, b):
                        continue
                    out.append(z3.ForAll([x], z3.Not(z3.And(fa, fb)), patterns=[z3.MultiPattern(fa, fb)]))
        self._isa_cache = (len(cs), out)
        return out

    # ------------------------------------------------------------ objects
    def new_cell(self, st, v):
        c = Cell(next(self.counter))
        st.cells[c.id] = v
        return c

    def new_obj(self, st, cls, **fields):
        o = Obj(next(self.counter))
        d = {'cls': cls}
        d.update(fields)
        st.heap[o.oid] = d
        return o

    def cls(self, st, o):
        return st.heap[o.oid]['cls']

    def union_tag(self, o, f):
        return list(o['_union']).index(f)

    def rv(self, st, v):
        n = 0
        while isinstance(v, LV):
            v = v.load(self, st)
            n += 1
        return v

    def clone(self, st, v):
        v = self.rv(st, v)
        if isinstance(v, Obj):
            d = dict(st.heap[v.oid])
            o = Obj(next(self.counter))
            st.heap[o.oid] = d
            for k, x in list(d.items()):
                if isinstance(x, Obj) and not k.startswith('&'):
                    d[k] = self.clone(st, x)
            return o
        return v

    def assign_obj(self, st, dst, src):
        src = self.rv(st, src)
        if isinstance(dst, Obj) and isinstance(src, Obj):
            c = self.clone(st, src)
            st.heap[dst.oid] = st.heap[c.oid]
            return
        if isinstance(dst, LV):
            dst.store(self, st, self.clone(st, src))
            return
        raise Abort('assignment %r = %r' % (dst, src))

    def ident(self, st, o):
        d = st.heap[o.oid]
        if '_id' not in d:
            d = dict(d)
            d['_id'] = self.fresh_const(U, 'obj')
            st.heap[o.oid] = d
        return d['_id']

    def to_term(self, st, v, sort=None):
        v = self.rv(st, v)
        if is_z3(v):
            return v
        if isinstance(v, Lit):
            return strval(v.b)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, Ptr):
            if v.to is None:
                return NULL
            return self.to_term(st, v.to)
        if isinstance(v, Obj):
            h = self.lib.terms.get(self.cls(st, v))
            if h:
                return h(self, st, v)
            return self.ident(st, v)
        raise Abort('no term for %r' % (v,))

    def to_bool(self, st, v):
        """[(st, z3 Bool)] for a value in boolean context."""
        v = self.rv(st, v)
        if is_z3(v):
            if z3.is_bool(v):
                return v
            if z3.is_int(v):
                return v != 0
            if v.sort() == U:
                return v != NULL
            if v.sort() == STR:
                return z3.BoolVal(True)
        if isinstance(v, Ptr):
            return z3.BoolVal(v.to is not None)
        if isinstance(v, (Closure, FnVal, Lit)):
            return z3.BoolVal(True)
        if isinstance(v, Obj):
            h = st.heap[v.oid]
            if h['cls'] == 'optional':
                return h['has']
        raise Abort('no truth value for %r' % (v,))

    def as_str(self, st, v):
        t = self.to_term(st, v)
        if t.sort() != STR:
            raise Abort('string expected, got %s' % t.sort())
        return t

    def fresh(self, st, t, mk, suf='', const=True):
        """Symbolic value of the given type; mk(sort, suffix) makes the leaves."""
        ty = self.T(t)
        k = ty['k']
        if k in ('bool', 'int', 'char', 'enum') or self.is_string(ty):
            v = mk(self.sort_of(t), suf)
            f = self.enum_fact(t, v) if z3.is_int(v) else None
            if f is not None:
                st.assume(f)
            return v
        if k == 'ptr':
            to = self.T(ty['to'])
            if self.is_string(to):
                return Ptr(self.new_cell(st, mk(STR, suf + '*')))
            return mk(U, suf)
        if k == 'rec':
            h = self.lib.fresh.get(ty['rec'])
            if h:
                return h(self, st, ty, mk, suf)
            r = self.tu.records.get(ty['rec'])
            if r and r.get('repo') and 'fields' in r and ty['rec'] not in self.lib.opaque:
                o = self.new_obj(st, ty['rec'])
                d = dict(st.heap[o.oid])
                for f in self.all_fields(ty['rec']):
                    if f.get('anon'):
                        continue
                    d[f['n']] = self.wrap_field(st, self.fresh(st, f['t'], mk, suf + '.' + f['n']))
                st.heap[o.oid] = d
                return o
            return mk(U, suf)
        return mk(U, suf)

    def wrap_field(self, st, v):
        return v

    def all_fields(self, rec):
        r = self.tu.records[rec]
        out = []
        for b in r.get('bases', []):
            if self.tu.records.get(b, {}).get('repo'):
                out += self.all_fields(b)
        for f in r.get('fields', []):
            if f.get('anon'):
                u = self.T(f['t']).get('rec')
                fl = self.tu.records.get(u, {}).get('fields', [])
                out += [dict(x, union=u) for x in fl]
            else:
                out.append(f)
        return out

    def zero(self, st, t):
        ty = self.T(t)
        k = ty['k']
        if k == 'bool':
            return z3.BoolVal(False)
        if k in ('int', 'char', 'enum'):
            return z3.IntVal(0)
        if k == 'ptr':
            to = self.T(ty['to'])
            if to['k'] == 'rec' and not self.is_modelled(to):
                return NULL
            return NULLP
        if self.is_string(ty):
            return strval(b'')
        if k == 'rec':
            return self.default_construct(st, t)
        raise Abort('zero value of %s' % ty['s'])

    def is_modelled(self, ty):
        """Types whose pointers are python-level pointers to modelled objects."""
        if ty['k'] != 'rec':
            return True
        if self.is_string(ty):
            return True
        if ty['rec'] in self.lib.fresh or ty['rec'] in self.lib.ctors:
            return True
        r = self.tu.records.get(ty['rec'])
        return bool(r and r.get('repo') and 'fields' in r and ty['rec'] not in self.lib.opaque)

    def coerce(self, st, v, t):
        """Value v stored into something of type t."""
        ty = self.T(t)
        if ty['k'] == 'ptr' and isinstance(v, Ptr) and v.to is None:
            to = self.T(ty['to'])
            if to['k'] in ('rec',) and not self.is_modelled(to):
                return NULL
        if ty['k'] == 'bool' and is_z3(v) and z3.is_int(v):
            return v != 0
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        """Evaluates e; list of (state, value or lvalue)."""
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Abort('expression %s %s' % (e['k'], e.get('what', '')))
        return m(e, st)

    def ev1(self, e, st):
        """rvalue evaluation"""
        return [(s, self.rv(s, v)) for s, v in self.ev(e, st)]

    def evs(self, es, st):
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def e_int(self, e, st):
        v = int(e['v'])
        if self.T(e['t'])['k'] == 'bool':
            return [(st, z3.BoolVal(v != 0))]
        return [(st, z3.IntVal(v))]

    def e_chr(self, e, st):
        return [(st, z3.IntVal(e['v'] & 0xff if e['v'] < 0 else e['v']))]

    def e_bool(self, e, st):
        return [(st, z3.BoolVal(e['v']))]

    def e_enumc(self, e, st):
        return [(st, z3.IntVal(e['v']))]

    def e_str(self, e, st):
        return [(st, Lit(bytes(e['v'])))]

    def e_opaquestr(self, e, st):
        return [(st, Lit(b'?'))]

    def e_null(self, e, st):
        return [(st, NULLP)]

    def e_zero(self, e, st):
        if self.T(e['t'])['k'] == 'void':
            return [(st, None)]
        return [(st, self.zero(st, e['t']))]

    def e_this(self, e, st):
        v = st.env['this']
        return [(st, Ptr(v) if isinstance(v, Obj) else v)]

    def e_fnref(self, e, st):
        return [(st, FnVal(e['fn']))]

    def e_defarg(self, e, st):
        return self.ev(e['e'], st)

    def e_var(self, e, st):
        i = e['id']
        if i in st.env:
            return [(st, st.env[i])]
        if 'global' in e:
            h = self.overrides.get(('global', e['global']))
            if h is not None:
                return [(st, h(self, st))]
            g = self.tu.globals.get(i)
            if g:
                return self.ev(g['init'], st)
            return [(st, z3.Const('global:' + e['global'], self.sort_of(e['t'])))]
        raise Abort('unbound variable %s' % e.get('n'))

    def e_mem(self, e, st):
        if 'm' in e:
            raise Abort('bound member function')
        out = []
        for s, b in self.ev(e['b'], st):
            if e.get('anon'):
                out.append((s, b))
                continue
            out.append((s, self.member(s, b, e)))
        return out

    def member(self, st, b, e):
        f = e['f']
        b = self.rv(st, b)
        if isinstance(b, Ptr):
            if b.to is None:
                self.oblige(st, False, 'null pointer is dereferenced (.%s)' % f)
                raise Abort('null dereference')
            b = self.rv(st, b.to) if isinstance(b.to, LV) else b.to
        if isinstance(b, Obj):
            d = st.heap[b.oid]
            h = self.lib.members.get((d['cls'], f))
            if h:
                return h(self, st, b)
            if f in d:
                v = d[f]
                if isinstance(v, Obj):
                    return v
                if f.startswith('&') or isinstance(v, LV):
                    return v
                return Field(b.oid, f)
            raise Abort('no field %s in %s' % (f, d['cls']))
        if is_z3(b):
            while z3.is_app(b) and b.decl().name().startswith('with:'):
                if b.decl().name() == 'with:' + f:
                    return b.arg(1)
                b = b.arg(0)
            nm = '%s.%s' % (e.get('in', '?'), f)
            ty = self.T(e['t'])
            v = self.uf(nm, [b], self.sort_of(e['t']))
            self.used_observers.add(nm)
            self.add_enum(st, e['t'], v)
            return v
        h = getattr(self.lib, 'member_of', None)
        if h is not None:
            v = h(self, st, b, f)
            if v is not None:
                return v
        raise Abort('member %s of %r' % (f, b))

    def add_enum(self, st, t, v):
        if z3.is_int(v):
            f = self.enum_fact(t, v)
            if f is not None and not any(f.eq(p) for p in st.pc):
                st.assume(f)

    def e_idx(self, e, st):
        out = []
        for s, (b, i) in self.evs([e['b'], e['i']], st):
            b = self.rv(s, b)
            i = self.rv(s, i)
            out.append((s, self.subscript(s, b, i)))
        return out

    def subscript(self, st, b, i):
        if isinstance(b, Ptr) and isinstance(b.to, (Obj, LV)):
            b = self.rv(st, b.to)
        if isinstance(b, CList):
            iv = z3.simplify(i)
            if z3.is_int_value(iv):
                return b.items[iv.as_long()]
            self.oblige(st, z3.And(i >= 0, i < len(b.items)), 'array index in range')
            items = [self.to_term(st, x) for x in b.items]
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = z3.If(i == k, items[k], r)
            return r
        if isinstance(b, Seq):
            self.oblige(st, z3.And(i >= 0, i < b.n), 'index in range')
            return b.get(self, st, i)
        if is_z3(b) and b.sort() == STR:
            return z3.StrToCode(z3.SubString(b, i, 1))
        if is_z3(b) and b.sort() == U:
            return self.uf('elem', [b, i], U)
        raise Abort('subscript of %r' % (b,))

    def e_sizeof(self, e, st):
        raise Abort('sizeof')

    def e_un(self, e, st):
        op = e['op']
        out = []
        if op == '&':
            for s, v in self.ev(e['e'], st):
                if isinstance(v, (LV, Obj)):
                    vv = self.rv(s, v) if isinstance(v, Field) or isinstance(v, Cell) else v
                    if is_z3(vv) and vv.sort() == U and self.T(e['e']['t'])['k'] != 'ptr':
                        out.append((s, vv))   # address of an opaque entity
                    else:
                        out.append((s, Ptr(v)))
                elif is_z3(v):
                    out.append((s, v))
                else:
                    out.append((s, Ptr(v)))
            return out
        if op == '*':
            for s, v in self.ev1(e['e'], st):
                out.append((s, self.deref(s, v)))
            return out
        if op in ('++', '--'):
            for s, v in self.ev(e['e'], st):
                old = self.rv(s, v)
                d = 1 if op == '++' else -1
                if isinstance(old, Iter):
                    new = Iter(old.seq, old.i + d, old.owner)
                elif is_z3(old) and z3.is_int(old):
                    new = z3.simplify(old + d)
                else:
                    h = self.lib.incr(self, s, old, d)
                    if h is None:
                        raise Abort('increment of %r' % (old,))
                    new = h
                if not isinstance(v, LV):
                    raise Abort('increment of rvalue')
                v.store(self, s, new)
                out.append((s, old if e.get('post') else v))
            return out
        for s, v in self.ev1(e['e'], st):
            if op == '!':
                out.append((s, z3.simplify(z3.Not(self.to_bool(s, v)))))
            elif op == '-':
                out.append((s, -v))
            elif op == '+':
                out.append((s, v))
            else:
                raise Abort('unary %s' % op)
        return out

    def deref(self, st, v):
        if isinstance(v, Ptr):
            if v.to is None:
                self.oblige(st, False, 'null pointer is dereferenced')
                raise Abort('null dereference')
            return v.to
        if is_z3(v) and v.sort() == U:
            return v
        if isinstance(v, Iter):
            self.oblige(st, z3.And(v.i >= 0, v.i < v.seq.n), 'iterator is dereferenced in range')
            return v.seq.get(self, st, v.i)
        if isinstance(v, (Closure, FnVal)):
            return v
        h = self.lib.deref(self, st, v)
        if h is not None:
            return h
        raise Abort('dereference of %r' % (v,))

    def pure_and(self, st, x, ynode, is_or):
        """x && y without forking if y is pure."""
        s2 = st.copy()
        g = x if not is_or else z3.Not(x)
        s2.assume(g)
        base = len(s2.pc)
        outs = self.ev1(ynode, s2)
        outs = [(s, self.to_bool(s, v)) for s, v in outs]
        m = self.try_merge(st, s2, base, outs)
        if m is not None:
            sm, y = m
            extra = sm.pc[base:]
            ns = st.copy()
            ns.heap, ns.cells, ns.taint = sm.heap, sm.cells, sm.taint
            for f in extra:
                ns.assume(z3.Implies(g, f))
            return [(ns, z3.Or(x, y) if is_or else z3.And(x, y))]
        res = []
        # fork
        s3 = st.copy()
        s3.assume(z3.Not(g))
        if self.feasible(s3):
            res.append((s3, z3.BoolVal(is_or)))
        for s, v in outs:
            if self.feasible(s):
                res.append((s, v))
        return res

    def same_store(self, base, s):
        for k, v in base.heap.items():
            w = s.heap.get(k)
            if w is not v:
                if w is None:
                    return False
                for f in v:
                    if f == '_id':
                        continue
                    if f not in w or not self.same_val(v[f], w[f]):
                        return False
        for k, v in base.cells.items():
            if k not in s.cells or not self.same_val(v, s.cells[k]):
                return False
        return True

    @staticmethod
    def same_val(a, b):
        if a is b:
            return True
        if is_z3(a) and is_z3(b):
            return a.eq(b)
        if isinstance(a, (Obj, tuple, str, int)) and type(a) == type(b):
            return a == b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.to is None or b.to is None:
                return a.to is b.to
            return Engine.same_val(a.to, b.to)
        if isinstance(a, Cell) and isinstance(b, Cell):
            return a.id == b.id
        if isinstance(a, Field) and isinstance(b, Field):
            return (a.oid, a.f) == (b.oid, b.f)
        if isinstance(a, Lit) and isinstance(b, Lit):
            return a.b == b.b
        return False

    def try_merge(self, st, s2, base, outs):
        """Merges the outcomes of a pure computation into one state and value."""
        if not outs:
            return None
        if len(outs) == 1 and self.same_store(st, outs[0][0]):
            return outs[0]
        for s, v in outs:
            if not self.same_store(st, s):
                return None
        vals = [v for _, v in outs]
        if not all(is_z3(v) for v in vals) or len({v.sort().name() for v in vals}) != 1:
            if all(self.same_val(vals[0], v) for v in vals[1:]):
                pass
            else:
                conv = []
                for s, v in outs:
                    if isinstance(v, Lit):
                        conv.append(strval(v.b))
                    elif isinstance(v, Ptr) and v.to is None:
                        conv.append(NULL)
                    elif is_z3(v):
                        conv.append(v)
                    else:
                        return None
                if len({v.sort().name() for v in conv}) != 1:
                    return None
                outs = [(s, c) for (s, _), c in zip(outs, conv)]
                vals = conv
        deltas = [z3.And(*s.pc[base:]) if len(s.pc) > base else z3.BoolVal(True) for s, _ in outs]
        m = s2.copy()
        m.pc = m.pc[:base]
        for s, _ in outs:
            for k, v in s.heap.items():
                m.heap.setdefault(k, v)
            for k, v in s.cells.items():
                m.cells.setdefault(k, v)
            for t in s.taint:
                if t not in m.taint:
                    m.taint = m.taint + (t,)
            for i, b in s.env.items():
                m.env.setdefault(i, b)
        if is_z3(vals[0]):
            r = vals[-1]
            for d, v in list(zip(deltas, vals))[-2::-1]:
                r = z3.If(d, v, r)
            r = z3.simplify(r) if z3.is_bool(r) else r
        else:
            r = vals[0]
        alt = z3.Or(*deltas)
        if not z3.is_true(z3.simplify(alt)):
            m.assume(alt)
        return m, r

    def e_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, x in self.ev1(e['x'], st):
                x = self.to_bool(s, x)
                xs = z3.simplify(x)
                is_or = op == '||'
                if z3.is_true(xs) or z3.is_false(xs):
                    if z3.is_true(xs) == is_or:
                        out.append((s, z3.BoolVal(is_or)))
                    else:
                        out += [(s2, self.to_bool(s2, y)) for s2, y in self.ev1(e['y'], s)]
                    continue
                out += self.pure_and(s, x, e['y'], is_or)
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(e['x'], st):
                out += self.ev(e['y'], s)
            return out
        out = []
        if op == '=':
            xn = e['x']
            if xn['k'] == 'mem' and 'f' in xn and not xn.get('anon'):
                # member of an opaque value held by a variable: functional update
                outs = self.evs([e['y'], xn['b']], st.copy())
                if outs and all(isinstance(b, LV) and is_z3(self.rv(s, b)) and self.rv(s, b).sort() == U and not xn.get('arrow')
                                for s, (y, b) in outs):
                    for s, (y, b) in outs:
                        yv = self.to_term(s, self.coerce(s, self.rv(s, y), xn['t']))
                        b.store(self, s, self.uf('with:%s' % xn['f'], [self.rv(s, b), yv], U))
                        out.append((s, yv))
                    return out
            for s, (y, x) in self.evs([e['y'], e['x']], st):
                y = self.rv(s, y)
                self.assign(s, x, self.coerce(s, y, e['x']['t']))
                out.append((s, x))
            return out
        for s, (x, y) in self.evs([e['x'], e['y']], st):
            if e.get('compound'):
                v = self.arith(s, op[:-1], self.rv(s, x), self.rv(s, y))
                if self.T(e['x']['t'])['k'] == 'bool' and is_z3(v) and z3.is_int(v):
                    v = z3.simplify(v != 0)
                self.assign(s, x, v)
                out.append((s, x))
            else:
                out.append((s, self.arith(s, op, self.rv(s, x), self.rv(s, y))))
        return out

    def assign(self, st, x, y):
        if isinstance(x, Obj):
            self.assign_obj(st, x, y)
        elif isinstance(x, LV):
            cur = None
            try:
                cur = x.load(self, st) if isinstance(x, (Cell,)) else None
            except KeyError:
                cur = None
            if isinstance(cur, Obj) and isinstance(y, Obj):
                self.assign_obj(st, cur, y)
            else:
                x.store(self, st, y)
        else:
            raise Abort('assignment to %r' % (x,))

    def eq(self, st, x, y):
        x = self.rv(st, x)
        y = self.rv(st, y)
        if isinstance(x, Iter) and isinstance(y, Iter):
            return x.i == y.i
        h = self.lib.eq(self, st, x, y)
        if h is not None:
            return h
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.to is None or y.to is None:
                return z3.BoolVal(x.to is None and y.to is None)
            if isinstance(x.to, Obj) and isinstance(y.to, Obj):
                return z3.BoolVal(x.to == y.to)
            return z3.BoolVal(self.same_val(x.to, y.to))
        a = self.to_term(st, x)
        b = self.to_term(st, y)
        if a.sort() != b.sort():
            if z3.is_bool(a) and z3.is_int(b):
                a = z3.If(a, 1, 0)
            elif z3.is_bool(b) and z3.is_int(a):
                b = z3.If(b, 1, 0)
            else:
                raise Abort('comparison of %s and %s' % (a.sort(), b.sort()))
        return a == b

    def arith(self, st, op, x, y):
        if op == '==':
            return z3.simplify(self.eq(st, x, y))
        if op == '!=':
            return z3.simplify(z3.Not(self.eq(st, x, y)))
        if isinstance(x, Iter) and op in ('+', '-') and is_z3(y):
            return Iter(x.seq, x.i + y if op == '+' else x.i - y, x.owner)
        if isinstance(x, Iter) and isinstance(y, Iter):
            x, y = x.i, y.i
        if isinstance(x, bool) or isinstance(y, bool):
            raise Abort('bool arithmetic')
        if is_z3(x) and z3.is_bool(x):
            x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if is_z3(y) and z3.is_bool(y):
            y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
        if not (is_z3(x) and is_z3(y) and z3.is_int(x) and z3.is_int(y)):
            raise Abort('arithmetic %s on %r, %r' % (op, x, y))
        if op == '+':
            return z3.simplify(x + y)
        if op == '-':
            return z3.simplify(x - y)
        if op == '*':
            return x * y
        if op == '/':
            self.oblige(st, y != 0, 'division by zero')
            return x / y
        if op == '%':
            self.oblige(st, y != 0, 'division by zero')
            return x % y
        if op == '<':
            return x < y
        if op == '<=':
            return x <= y
        if op == '>':
            return x > y
        if op == '>=':
            return x >= y
        if op in ('|', '&', '^'):
            a, b = as_truth(x), as_truth(y)
            if a is not None and b is not None:
                t = z3.Or(a, b) if op == '|' else z3.And(a, b) if op == '&' else z3.Xor(a, b)
                return z3.If(t, z3.IntVal(1), z3.IntVal(0))
        raise Abort('operator %s' % op)

    def e_cond(self, e, st):
        out = []
        for s, c in self.ev1(e['c'], st):
            c = z3.simplify(self.to_bool(s, c))
            if z3.is_true(c):
                out += self.ev(e['x'], s)
                continue
            if z3.is_false(c):
                out += self.ev(e['y'], s)
                continue
            base = len(s.pc)
            outs = []
            for br, cc in ((e['x'], c), (e['y'], z3.Not(c))):
                b = s.copy()
                b.assume(cc)
                if not self.feasible(b):
                    continue
                b2 = b.copy()
                outs += [(q, v) for q, v in self.ev(br, b2)]
            if not outs:
                continue
            rvs = [(q, self.rv(q, v)) for q, v in outs]
            if len(outs) > 1 and all(not isinstance(v, Obj) for _, v in rvs):
                m = self.try_merge(s, s, base, rvs)
                if m is not None:
                    out.append(m)
                    continue
            out += outs
        return out

    def e_cast(self, e, st):
        ck = e['ck']
        out = []
        for s, v in self.ev1(e['e'], st):
            if ck in ('IntegralCast', 'BaseToDerived', 'BitCast', 'Dynamic', 'FloatingToIntegral'):
                if ck == 'IntegralCast' and is_z3(v) and z3.is_bool(v):
                    v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                out.append((s, v))
            elif ck == 'ToVoid':
                out.append((s, None))
            elif ck in ('PointerToBoolean', 'IntegralToBoolean'):
                out.append((s, self.to_bool(s, v)))
            elif ck == 'NullToPointer':
                out.append((s, self.coerce(s, NULLP, e['t'])))
            elif ck in ('MemberPointerToBoolean',):
                out.append((s, z3.BoolVal(True)))
            else:
                raise Abort('cast %s' % ck)
        return out

    def e_list(self, e, st):
        ty = self.T(e['t'])
        if ty['k'] == 'array' or ty['k'] == 'other':
            return [(s, CList([self.rv(s, v) for v in vs])) for s, vs in self.evs(e['a'], st)]
        if ty['k'] == 'rec':
            r = self.tu.records.get(ty['rec'])
            if r and r.get('repo'):
                out = []
                for s, vs in self.evs(e['a'], st):
                    o = self.new_obj(s, ty['rec'])
                    d = dict(s.heap[o.oid])
                    fl = self.all_fields(ty['rec'])
                    nb = len([b for b in r.get('bases', []) if not self.tu.records.get(b, {}).get('repo')])
                    vs2 = vs[nb:] if len(vs) == len(fl) + nb else vs
                    for f, v in zip(fl, vs2):
                        d[f['n']] = self.coerce(s, self.rv(s, v), f['t'])
                    for f in fl[len(vs2):]:
                        d[f['n']] = self.zero(s, f['t'])
                    s.heap[o.oid] = d
                    out.append((s, o))
                return out
            if not e['a']:
                return [(st, self.default_construct(st, e['t']))]
            if ty['rec'] in self.lib.lists:
                return [(s, self.lib.lists[ty['rec']](self, s, ty, vs)) for s, vs in self.evs(e['a'], st)]
        if len(e['a']) == 1:
            return self.ev(e['a'][0], st)
        if not e['a']:
            return [(st, self.zero(st, e['t']))]
        raise Abort('initializer list of %s' % ty['s'])

    def e_lambda(self, e, st):
        caps = {}
        this = st.env.get('this')
        sts = [st]
        for c in e['caps']:
            if c.get('this'):
                continue
            nxt = []
            for s in sts:
                if c.get('init'):
                    for s2, v in self.ev(c['e'], s):
                        if self.T(c['t']).get('ref'):
                            caps[c['id']] = v
                        else:
                            v = self.clone(s2, v)
                            caps[c['id']] = v if isinstance(v, Obj) else self.new_cell(s2, v)
                        nxt.append(s2)
                else:
                    b = s.env.get(c['id'])
                    if b is None:
                        raise Abort('capture of unbound %s' % c['n'])
                    if not c['byref']:
                        v = self.clone(s, b)
                        b = v if isinstance(v, Obj) else self.new_cell(s, v)
                    caps[c['id']] = b
                    nxt.append(s)
            sts = nxt
        if len(sts) != 1:
            raise Abort('forking capture')
        return [(sts[0], Closure(e, caps, this))]

    def e_stmtexpr(self, e, st):
        raise Abort('statement expression')

    def e_new(self, e, st):
        ty = self.T(e['of'])
        if self.is_string(ty):
            out = []
            init = e.get('init')
            for s, v in (self.ev1(init, st) if init else [(st, strval(b''))]):
                o = self.new_obj(s, 'heapstr', content=self.as_str(s, v), alive=z3.BoolVal(True))
                out.append((s, Ptr(o)))
            return out
        if e.get('init'):
            return [(s, Ptr(v) if isinstance(v, Obj) else v) for s, v in self.ev(e['init'], st)]
        raise Abort('new %s' % ty['s'])

    def e_delete(self, e, st):
        out = []
        for s, v in self.ev1(e['e'], st):
            if isinstance(v, Ptr):
                if v.to is not None:
                    o = v.to
                    if not isinstance(o, Obj) or 'alive' not in s.heap[o.oid]:
                        raise Abort('delete of %r' % (v,))
                    self.oblige(s, s.get(o, 'alive'), 'released storage is not released again')
                    s.set(o, 'alive', z3.BoolVal(False))
                out.append((s, None))
            else:
                raise Abort('delete of %r' % (v,))
        return out

    # ------------------------------------------------------------ calls
    def e_call(self, e, st):
        out = []
        fn = e.get('fn')
        if fn is None:
            for s, cal in self.ev1(e['callee'], st):
                for s2, args in self.evs(e['a'], s):
                    out += self.invoke(s2, cal, args, e)
            return out
        q = fn['q']
        if q in ('__assert_fail', 'llvm::llvm_unreachable_internal', 'abort', '__builtin_unreachable', 'std::terminate'):
            self.oblige(st, z3.Not(z3.And(*st.pc)) if st.pc else False,
                        'assertion / unreachable point (line %s)' % e.get('l'))
            return []
        objs = [(st, None)]
        if 'obj' in e:
            if fn.get('lambda') is not None and not fn.get('static'):
                for s, cal in self.ev1(e['obj'], st):
                    for s2, args in self.evs(e['a'], s):
                        out += self.invoke(s2, cal, args, e, fn)
                return out
            objs = self.ev(e['obj'], st)
            if e.get('arrow'):
                objs = [(s, self.arrow(s, self.rv(s, v))) for s, v in objs]
        if e.get('opcall') in ('=', '+=') and 'obj' in e and len(e['a']) == 1:
            # right operand is sequenced before the left one; harmless otherwise
            pass
        for s, o in objs:
            for s2, args in self.evs(e['a'], s):
                out += self.call(s2, Call(fn, o, args, e))
        return out

    def arrow(self, st, v):
        if isinstance(v, Ptr):
            if v.to is None:
                self.oblige(st, False, 'null pointer is dereferenced')
                raise Abort('null dereference')
            return v.to
        return v

    def invoke(self, st, cal, args, node, fn=None):
        cal = self.rv(st, cal)
        if isinstance(cal, Ptr):
            cal = self.rv(st, cal.to)
        if isinstance(cal, PyFn):
            r = cal.f(self, st, args)
            return r if isinstance(r, list) else [(st, r)]
        if isinstance(cal, FnVal):
            return self.call(st, Call(cal.fn, None, args, node))
        if isinstance(cal, Closure):
            n = cal.node
            fid = None
            if fn is not None and fn['id'] in self.tu.fns:
                fid = fn['id']
            elif n['op'] in self.tu.fns and 'body' in self.tu.fns[n['op']]:
                fid = n['op']
            elif n.get('ops'):
                cands = [i for i in n['ops'] if i in self.tu.fns and len(self.tu.fns[i]['params']) == len(args)]
                if cands:
                    fid = cands[0]
            if fid is None:
                raise Abort('lambda without body')
            f = self.tu.fns[fid]
            saved = dict(st.env)
            st.env.update(cal.caps)
            if cal.this is not None:
                st.env['this'] = cal.this
            return self.inline(st, f, None, args, node, keep_this=True, saved_env=saved)
        if isinstance(cal, Obj):
            c = self.cls(st, cal)
            if c == 'function':
                return self.invoke(st, st.get(cal, 'f'), args, node)
            # functor of the repository
            for f in self.tu.by_q.get(c + '::operator()', []):
                if len(f['params']) == len(args):
                    return self.call(st, Call(f['fn'], cal, args, node))
        if is_z3(cal):
            raise Abort('call of opaque function object')
        raise Abort('call of %r' % (cal,))

    def call(self, st, c):
        q = c.fn['q']
        # 1. contracts given by the specification under check
        h = self.contracts.get(q)
        if h is not None:
            r = h(self, st, c)
            if r is not NotImplemented:
                self.used_contracts.add(q)
                return r if isinstance(r, list) else [(st, r)]
        # 2. library models
        h = self.lib.lookup(self, st, c)
        if h is not None:
            r = h(self, st, c)
            if r is not NotImplemented:
                self.used_models.add(q)
                return r if isinstance(r, list) else [(st, r)]
        # 3. inline repository functions
        f = self.tu.fns.get(c.fn['id'])
        if f is not None and f.get('defaulted') and 'body' not in f:
            return self.defaulted(st, f, c)
        if f is not None and c.fn.get('repo') and f.get('defaulted'):
            return self.defaulted(st, f, c)
        if f is not None and 'body' in f and c.fn.get('repo'):
            if c.fn.get('virtual') and not c.node.get('qualified') and self.virtual_unknown(st, c):
                raise Abort('virtual call %s' % q)
            self.inlined.add(q)
            return self.inline(st, f, c.obj, c.args, c.node)
        if q.endswith('::operator=') and isinstance(c.obj, LV) and len(c.args) == 1 and not c.fn.get('repo'):
            # assignment of an opaque library value
            v = self.rv(st, c.args[0])
            if is_z3(v) and v.sort() == U and c.fn['cls'] in self.OPAQUE_VALUES:
                c.obj.store(self, st, v)
                return [(st, c.obj)]
        # 4. pure observers of the clang/llvm libraries
        return [(st, self.observer(st, c))]

    def virtual_unknown(self, st, c):
        o = c.obj
        return not isinstance(o, Obj)

    OPAQUE_VALUES = ('clang::QualType', 'clang::SourceLocation', 'clang::DeclarationName', 'clang::PrintingPolicy')
    OBS_NS = ('clang::', 'llvm::', 'std::')

    def observer(self, st, c):
        fn = c.fn
        q = fn['q']
        const = fn.get('const') or fn.get('static') or 'cls' not in fn
        if fn.get('repo') or not q.startswith(self.OBS_NS) or not (const or q in self.lib.pure):
            raise Abort('call of %s without contract' % q)
        t = c.node['t']
        if self.T(t)['k'] == 'void':
            if q in self.lib.pure:
                return None
            raise Abort('call of void function %s without contract' % q)
        for pt in fn['pt']:
            p = self.T(pt)
            if p.get('ref') == 1 and not p.get('const') and q not in self.lib.pure:
                raise Abort('call of %s with output argument' % q)
        args = []
        if c.obj is not None:
            args.append(self.to_term(st, c.obj))
        for a in c.args:
            args.append(self.to_term(st, a))
        nm = q
        ta = [self.ts(x) for x in fn.get('targs', [])]
        if ta:
            nm += '<' + ','.join(ta) + '>'
        self.used_observers.add(nm)
        v = self.uf(nm, args, self.sort_of(t))
        self.add_enum(st, t, v)
        return v

    def ts(self, x):
        return self.T(x)['s'] if isinstance(x, int) else str(x)

    def bind_params(self, st, f, args):
        for p, a in itertools.zip_longest(f['params'], args):
            if p is None:
                break
            ty = self.T(p['t'])
            if a is None:
                if 'def' not in p:
                    raise Abort('missing argument')
                r = self.ev(p['def'], st)
                a = r[0][1]
            if ty.get('ref'):
                if isinstance(a, (LV, Obj)):
                    st.env[p['id']] = a
                else:
                    st.env[p['id']] = self.new_cell(st, a)
            else:
                v = self.rv(st, a)
                v = self.coerce(st, v, p['t'])
                st.env[p['id']] = v if isinstance(v, Obj) else self.new_cell(st, v)

    def calls_itself(self, f):
        from .tu import walk
        hit = []
        walk(f['body'], lambda x: hit.append(x) if x.get('fn') and x['fn'].get('id') == f['fn']['id'] else None)
        return bool(hit)

    def inline(self, st, f, obj, args, node, keep_this=False, saved_env=None):
        if self.recursion is not None and self.calls_itself(f):
            # contract of a recursive function: verified at the first call, assumed at all calls
            h = self.recursion
            if not h.active:
                h.active = True
                h.verify(self, st.copy(), f, args, lambda s2, a2: self.inline_body(s2, f, obj, a2, node, keep_this, dict(s2.env)))
                h.active = self.quiet == 0
            r = h.apply(self, st, f, args)
            if saved_env is not None:
                st.env = dict(saved_env)
            return [(st, r)]
        return self.inline_body(st, f, obj, args, node, keep_this, saved_env)

    def inline_body(self, st, f, obj, args, node, keep_this=False, saved_env=None):
        if len(self.stack) > 40 or self.stack.count(f['fn']['id']) > 0:
            raise Abort('recursive call of %s without contract' % f['fn']['q'])
        self.stack.append(f['fn']['id'])
        try:
            saved = saved_env if saved_env is not None else dict(st.env)
            base_st = st.copy()
            base = len(st.pc)
            if not keep_this:
                if obj is not None:
                    o = self.rv(st, obj)
                    if isinstance(o, Ptr):
                        o = o.to
                    st.env['this'] = o
            self.bind_params(st, f, args)
            outs = []
            for s, fl in self.exec(f['body'], st):
                v = None
                if isinstance(fl, tuple):
                    v = fl[1]
                elif fl is not None:
                    raise Abort('stray %s' % fl)
                outs.append((s, v))
            rt = self.T(f['ret'])
            res = []
            for s, v in outs:
                if v is not None and not rt.get('ref'):
                    v = self.rv(s, v)
                    v = self.coerce(s, v, f['ret'])
                    if rt['k'] == 'bool' and is_z3(v) and not z3.is_bool(v):
                        v = self.to_bool(s, v)
                s.env = dict(saved)
                res.append((s, v))
            if len(res) > 1 and not rt.get('ref'):
                m = self.try_merge(base_st, base_st, base, res)
                if m is not None:
                    m[0].env = dict(saved)
                    return [m]
            return res
        finally:
            self.stack.pop()

    def defaulted(self, st, f, c):
        q = f['fn']['q']
        nm = q.rsplit('::', 1)[-1]
        if nm == 'operator=':
            if isinstance(self.rv(st, c.obj), Obj) or isinstance(c.obj, LV):
                self.assign(st, c.obj, self.rv(st, c.args[0]))
                return [(st, c.obj)]
        if nm == 'operator==' and c.obj is None and len(c.args) == 2:
            a, b = [self.rv(st, x) for x in c.args]
            return [(st, self.struct_eq(st, a, b))]
        raise Abort('defaulted %s' % q)

    def struct_eq(self, st, a, b):
        a = self.rv(st, a)
        b = self.rv(st, b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            h = self.lib.eq(self, st, a, b)
            if h is not None:
                return h
            da, db = st.heap[a.oid], st.heap[b.oid]
            if da['cls'] != db['cls']:
                raise Abort('comparison of different classes')
            fs = [f['n'] for f in self.all_fields(da['cls'])]
            return z3.And(*[self.struct_eq(st, da[f], db[f]) for f in fs]) if fs else z3.BoolVal(True)
        return self.eq(st, a, b)

    # ------------------------------------------------------------ constructors
    def e_ctor(self, e, st):
        fn = e['fn']
        ty = self.T(e['t'])
        rec = ty.get('rec')
        out = []
        for s, args in self.evs(e['a'], st):
            out += self.construct(s, fn, ty, e['t'], args, e)
        return out

    def construct(self, st, fn, ty, t, args, e):
        rec = ty.get('rec')
        h = self.contracts.get(fn['q'])
        if h is not None:
            r = h(self, st, Call(fn, None, args, e))
            if r is not NotImplemented:
                self.used_contracts.add(fn['q'])
                return r if isinstance(r, list) else [(st, r)]
        if ty['k'] == 'array':
            raise Abort('array construction')
        h = self.lib.ctors.get(rec)
        if h is not None:
            r = h(self, st, ty, args, e)
            if r is not NotImplemented:
                return r if isinstance(r, list) else [(st, r)]
        if self.is_string(ty):
            if not args:
                return [(st, strval(b''))]
            if len(args) == 1 or (len(args) == 2 and e['a'][1]['k'] == 'defarg'):
                v = self.rv(st, args[0])
                t0 = self.to_term(st, v)
                if t0.sort() == STR:
                    return [(st, t0)]
                if t0.sort() == INT and ty['rec'] == 'llvm::Twine':
                    ok = self.T(e['a'][0]['t'])['k']
                    return [(st, z3.StrFromCode(t0) if ok == 'char' else z3.IntToStr(t0))]
            raise Abort('string constructor')
        r = self.tu.records.get(rec)
        f = self.tu.fns.get(fn['id'])
        if (e.get('copy') or e.get('move')) and (fn.get('defaulted') or not (r and r.get('repo'))):
            v = self.rv(st, args[0])
            return [(st, self.clone(st, v) if isinstance(v, Obj) else v)]
        if r and r.get('repo') and rec not in self.lib.opaque:
            return self.repo_ctor(st, rec, f, args, e)
        # opaque value constructed from values
        ts = [self.to_term(st, a) for a in args]
        nm = 'make:' + ty['s']
        self.used_observers.add(nm)
        return [(st, self.uf(nm, ts, U))]

    def default_construct(self, st, t):
        ty = self.T(t)
        rec = ty.get('rec')
        if self.is_string(ty):
            return strval(b'')
        h = self.lib.ctors.get(rec)
        if h is not None:
            r = h(self, st, ty, [], None)
            if r is not NotImplemented:
                return r[0][1] if isinstance(r, list) else r
        r = self.tu.records.get(rec)
        if r and r.get('repo') and rec not in self.lib.opaque:
            return self.repo_ctor(st, rec, None, [], None)[0][1]
        return self.uf('make:' + ty['s'], [], U)

    def init_fields(self, st, rec):
        o = self.new_obj(st, rec)
        fl = self.all_fields(rec)
        un = tuple(f['n'] for f in fl if f.get('union'))
        if un:
            st.set(o, '_union', un)
            st.set(o, '_active', z3.IntVal(0))
        return o

    def repo_ctor(self, st, rec, f, args, e):
        o = self.init_fields(st, rec)
        fl = self.all_fields(rec)
        if f is None or 'body' not in f:
            # implicit default constructor
            if args:
                raise Abort('implicit constructor with arguments')
            for x in fl:
                if x.get('init') is not None:
                    v = self.ev1(x['init'], st)[0][1]
                    st.set(o, x['n'], self.coerce(st, v, x['t']))
                    if x.get('union'):
                        st.set(o, '_active', z3.IntVal(list(st.get(o, '_union')).index(x['n'])))
                elif x.get('union'):
                    st.set(o, x['n'], self.undef(st, x['t']))
                else:
                    st.set(o, x['n'], self.zero_or_undef(st, x['t']))
            return [(st, o)]
        self.inlined.add(f['fn']['q'])
        saved = dict(st.env)
        st.env['this'] = o
        self.bind_params(st, f, args)
        sts = [st]
        names = {x['n']: x for x in fl}
        for x in fl:
            st.set(o, x['n'], self.undef(st, x['t']))
        for i in f.get('inits', []):
            nxt = []
            for s in sts:
                if 'base' in i:
                    bt = self.T(i['base'])
                    if self.tu.records.get(bt.get('rec'), {}).get('repo'):
                        for s2, b in self.ev(i['e'], s):
                            d = dict(s2.heap[o.oid])
                            for k, v in s2.heap[self.rv(s2, b).oid].items():
                                if k not in ('cls', '_id'):
                                    d[k] = v
                            s2.heap[o.oid] = d
                            nxt.append(s2)
                    else:
                        nxt.append(s)
                    continue
                if i.get('deleg'):
                    raise Abort('delegating constructor')
                if i['f'] == '' or i['f'] not in names:
                    # anonymous union: default member initializer
                    for x in fl:
                        if x.get('union') and x.get('init') is not None:
                            v = self.ev1(x['init'], s)[0][1]
                            s.set(o, x['n'], self.coerce(s, v, x['t']))
                            s.set(o, '_active', z3.IntVal(list(s.get(o, '_union')).index(x['n'])))
                    nxt.append(s)
                    continue
                x = names[i['f']]
                isref = self.T(x['t']).get('ref')
                for s2, v in self.ev(i['e'], s):
                    if not isref:
                        v = self.coerce(s2, self.rv(s2, v), x['t'])
                    s2.set(o, x['n'], v)
                    if x.get('union'):
                        s2.set(o, '_active', z3.IntVal(list(s2.get(o, '_union')).index(x['n'])))
                    nxt.append(s2)
            sts = nxt
        out = []
        for s in sts:
            for s2, fl2 in self.exec(f['body'], s):
                s2.env = dict(saved)
                out.append((s2, o))
        return out

    def undef(self, st, t):
        ty = self.T(t)
        if ty['k'] in ('bool', 'int', 'char', 'enum'):
            return self.fresh_const(self.sort_of(t), 'undef')
        if ty['k'] == 'ptr':
            return self.zero(st, t)
        if ty['k'] == 'rec' and not ty.get('ref'):
            return self.default_construct(st, t)
        return self.fresh_const(U, 'undef')

    def zero_or_undef(self, st, t):
        ty = self.T(t)
        if ty['k'] == 'rec':
            return self.default_construct(st, t)
        return self.undef(st, t)

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        if n is None:
            return [(st, None)]
        m = getattr(self, 's_' + n['k'], None)
        if m is None:
            raise Abort('statement %s' % n.get('what', n['k']))
        return m(n, st)

    def s_null(self, n, st):
        return [(st, None)]

    def s_expr(self, n, st):
        return [(s, None) for s, _ in self.ev(n['e'], st)]

    def s_block(self, n, st):
        return self.exec_list(n['b'], st)

    def exec_list(self, b, st):
        res = []
        work = [(st, None)]
        for i, x in enumerate(b):
            nxt = []
            for s, f in work:
                if f is not None:
                    res.append((s, f))
                    continue
                nxt += self.exec(x, s)
            work = nxt
            if len(work) > self.fork_limit:
                raise Abort('too many paths')
        return res + work

    def bind_var(self, v, st):
        """Declares a variable; list of states."""
        ty = self.T(v['t'])
        out = []
        if v.get('bind'):
            for s, val in self.ev(v['init'], st):
                rvv = self.rv(s, val)
                parts = self.lib.decompose(self, s, rvv)
                if parts is None:
                    raise Abort('structured binding')
                for b, p in zip(v['bind'], parts):
                    s.env[b['id']] = p if isinstance(p, (LV, Obj)) else self.new_cell(s, p)
                out.append(s)
            return out
        if v.get('init') is None:
            if ty['k'] == 'rec':
                val = self.default_construct(st, v['t'])
            elif ty['k'] == 'array':
                val = CList([])
            else:
                val = self.undef(st, v['t'])
            st.env[v['id']] = val if isinstance(val, Obj) else self.new_cell(st, val)
            return [st]
        for s, val in self.ev(v['init'], st):
            if ty.get('ref'):
                s.env[v['id']] = val if isinstance(val, (LV, Obj)) else self.new_cell(s, val)
            else:
                val = self.rv(s, val)
                val = self.coerce(s, val, v['t'])
                if isinstance(val, Obj):
                    if v['init']['k'] in ('var', 'mem'):
                        val = self.clone(s, val)
                    s.env[v['id']] = val
                else:
                    s.env[v['id']] = self.new_cell(s, val)
            out.append(s)
        return out

    def s_decl(self, n, st):
        sts = [st]
        for v in n['d']:
            nxt = []
            for s in sts:
                nxt += self.bind_var(v, s)
            sts = nxt
        return [(s, None) for s in sts]

    def split(self, st, c):
        """Forks on c; [(state, truth)] of feasible sides."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        for t, f in ((True, c), (False, z3.Not(c))):
            s = st.copy()
            s.assume(f)
            if self.feasible(s):
                out.append((s, t))
        return out

    def s_if(self, n, st):
        res = []
        for s, f in (self.exec(n['init'], st) if n.get('init') else [(st, None)]):
            if n.get('constexpr') and 'cval' in n:
                res += self.exec(n['x'] if n['cval'] else n['y'], s)
                continue
            ss = self.bind_var(n['cv'], s) if n.get('cv') else [s]
            for s1 in ss:
                for s2, c in self.ev1(n['c'], s1):
                    c = self.to_bool(s2, c)
                    for s3, t in self.split(s2, c):
                        s3.notes = s3.notes + (('%s%s' % ('' if t else '!', n.get('l'))),)
                        res += self.exec(n['x'] if t else n['y'], s3)
        return res

    def s_return(self, n, st):
        if n.get('e') is None:
            return [(st, ('return', None))]
        return [(s, ('return', v)) for s, v in self.ev(n['e'], st)]

    def s_break(self, n, st):
        return [(st, 'break')]

    def s_continue(self, n, st):
        return [(st, 'continue')]

    def s_switch(self, n, st):
        res = []
        for s0, _ in (self.exec(n['init'], st) if n.get('init') else [(st, None)]):
            for s1 in (self.bind_var(n['cv'], s0) if n.get('cv') else [s0]):
                for s, c in self.ev1(n['c'], s1):
                    if not (is_z3(c) and z3.is_int(c)):
                        raise Abort('switch on %r' % (c,))
                    res += self.run_switch(n, s, c)
        return res

    def run_switch(self, n, st, c):
        body = n['b']['b'] if n['b']['k'] == 'block' else [n['b']]
        flat = []   # statements
        groups = []  # (position, [values] , has_default)
        for x in body:
            labels = []
            dflt = False
            lab = False
            while x is not None and x['k'] in ('case', 'default'):
                lab = True
                if x['k'] == 'case':
                    if x.get('v2'):
                        raise Abort('case range')
                    v = self.ev1(x['v'], st.copy())[0][1]
                    labels.append(v)
                else:
                    dflt = True
                x = x['s']
            if lab:
                groups.append((len(flat), labels, dflt))
            flat.append(x)
        res = []
        allv = [v for g in groups for v in g[1]]
        for pos, labels, dflt in groups:
            cond = [c == v for v in labels]
            if dflt:
                cond.append(z3.And(*[c != v for v in allv]) if allv else z3.BoolVal(True))
            s = st.copy()
            s.assume(z3.simplify(z3.Or(*cond)))
            if not self.feasible(s):
                continue
            s.notes = s.notes + ('case %s' % (labels[0] if labels else 'default'),)
            for s2, f in self.exec_list(flat[pos:], s):
                res.append((s2, None if f == 'break' else f))
        if not any(g[2] for g in groups):
            s = st.copy()
            s.assume(z3.And(*[c != v for v in allv]) if allv else z3.BoolVal(True))
            if self.feasible(s):
                res.append((s, None))
        return res

    # ------------------------------------------------------------ loops
    def s_rfor(self, n, st):
        res = []
        for s0, _ in (self.exec(n['init'], st) if n.get('init') else [(st, None)]):
            for s, r in self.ev(n['range'], s0):
                sp = self.loop_spec(n, s, r)
                if sp is not None and getattr(sp, 'handler', None):
                    res += sp.handler(self, n, s, r)
                    continue
                q = self.lib.as_seq(self, s, r)
                if q is None:
                    raise Abort('iteration over %r' % (self.rv(s, r),))
                v = n['v']

                def bind(st2, val, v=v):
                    ty = self.T(v['t'])
                    st2 = st2
                    if v.get('bind'):
                        parts = self.lib.decompose(self, st2, self.rv(st2, val))
                        for b, p in zip(v['bind'], parts):
                            st2.env[b['id']] = p if isinstance(p, (LV, Obj)) else self.new_cell(st2, p)
                        return [st2]
                    val = self.lib.convert(self, st2, val, v)
                    if ty.get('ref') and isinstance(val, (LV, Obj)):
                        st2.env[v['id']] = val
                    else:
                        val = self.rv(st2, val)
                        st2.env[v['id']] = val if isinstance(val, Obj) else self.new_cell(st2, val)
                    return [st2]

                if isinstance(q, CList):
                    res += self.unroll(s, q.items, bind, n['b'])
                    continue

                def body(st2, i, q=q):
                    out = []
                    st2.env['__i__'] = i
                    for s2 in bind(st2, q.get(self, st2, i)):
                        out += self.exec(n['b'], s2)
                    return out
                res += self.seq_loop(s, q, body, n, sp)
        return res

    def unroll(self, st, items, bind, b):
        work = [(st, None)]
        res = []
        for it in items:
            nxt = []
            for s, f in work:
                for s2 in bind(s, it):
                    for s3, f3 in self.exec(b, s2):
                        if f3 in (None, 'continue'):
                            nxt.append((s3, None))
                        elif f3 == 'break':
                            res.append((s3, None))
                        else:
                            res.append((s3, f3))
            work = nxt
            if len(work) > self.fork_limit:
                raise Abort('too many paths')
        return res + work

    def loop_spec(self, n, st, r):
        for sp in self.loop_specs:
            if sp.match(self, n, st, r):
                return sp
        return None

    # -- modified set
    def diff(self, base, s):
        mods = set()
        for k, v in base.cells.items():
            if not self.same_val(v, s.cells.get(k)):
                mods.add(('c', k))
        for k, d in base.heap.items():
            w = s.heap.get(k)
            if w is d:
                continue
            for f in set(d) | set(w):
                if f == '_id':
                    continue
                if f not in d or f not in w or not self.same_val(d[f], w[f]):
                    mods.add(('h', k, f))
        return mods

    def havoc(self, st, mods, tag):
        for m in sorted(mods, key=str):
            if m[0] == 'c':
                st.cells[m[1]] = self.havoc_val(st, st.cells[m[1]], tag, m)
            else:
                d = dict(st.heap[m[1]])
                d[m[2]] = self.havoc_val(st, d.get(m[2]), tag, m)
                st.heap[m[1]] = d

    def havoc_val(self, st, v, tag, m):
        if is_z3(v):
            nv = self.fresh_const(v.sort(), '%s' % (tag,))
            return nv
        if isinstance(v, tuple):   # log
            return (('pfx', self.fresh_name(tag)),)
        if isinstance(v, Iter):
            return Iter(v.seq, self.fresh_const(INT, tag + '.it'), v.owner)
        if isinstance(v, Lit):
            return self.fresh_const(STR, tag)
        raise Abort('loop modifies %r' % (v,))

    def mod_val(self, st, m):
        return st.cells[m[1]] if m[0] == 'c' else st.heap[m[1]].get(m[2])

    def auto_candidates(self, st0, mods, n):
        """Candidate invariants (name, f(state, i) -> formula)."""
        out = []
        for m in sorted(mods, key=str):
            v0 = self.mod_val(st0, m)
            if not is_z3(v0):
                continue
            g = lambda st, m=m: self.mod_val(st, m)
            if z3.is_int(v0):
                out.append(('v==v0+i', lambda st, i, g=g, v0=v0: g(st) == v0 + i))
                out.append(('v>=v0', lambda st, i, g=g, v0=v0: g(st) >= v0))
                out.append(('v<=v0', lambda st, i, g=g, v0=v0: g(st) <= v0))
            if z3.is_bool(v0):
                out.append(('v==(i>0)', lambda st, i, g=g: g(st) == (i > 0)))
                out.append(('v==(i==0)', lambda st, i, g=g: g(st) == (i == 0)))
            out.append(('v==v0', lambda st, i, g=g, v0=v0: g(st) == v0))
        return out

    def append_candidates(self, st0, q, body, mods, tag):
        """Contents of vectors that get one element per iteration."""
        vs = [m[1] for m in sorted(mods, key=str) if m[0] == 'h' and m[2] == 'arr' and ('h', m[1], 'n') in mods
              and st0.heap.get(m[1], {}).get('cls') == 'vec']
        if not vs:
            return []
        st = st0.copy()
        self.havoc(st, mods, tag)
        ref = st.copy()
        i = self.fresh_const(INT, 'i')
        cut = int(i.decl().name().split('!')[1])
        st.assume(i >= 0, i < q.n)
        base = len(st.pc)
        hv = {self.mod_val(ref, m).decl().name() for m in mods if is_z3(self.mod_val(ref, m))}
        outs = [s for s, f in body(st, i) if f in (None, 'continue')]
        res = []
        for o in vs:
            arr0, n0 = ref.heap[o]['arr'], ref.heap[o]['n']
            t, ok = None, bool(outs)
            for s in outs:
                a = s.heap[o]['arr']
                if not (z3.is_app_of(a, z3.Z3_OP_STORE) and a.arg(0).eq(arr0) and a.arg(1).eq(n0)):
                    ok = False
                    break
                g = z3.And(*s.pc[base:]) if len(s.pc) > base else z3.BoolVal(True)
                t = a.arg(2) if t is None else z3.If(g, a.arg(2), t)
            if not ok or self.mentions(t, hv, cut, i):
                continue
            A, N = st0.heap[o]['arr'], st0.heap[o]['n']

            def inv(s, up, o=o, t=t, A=A, N=N, i=i):
                k = z3.Int('k!c')
                cur = s.heap[o]['arr']
                return z3.And(
                    z3.ForAll([k], z3.Implies(z3.And(k >= N, k < N + up), z3.Select(cur, k) == z3.substitute(t, (i, k - N))),
                              patterns=[z3.Select(cur, k)]),
                    z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.Select(cur, k) == z3.Select(A, k)), patterns=[z3.Select(cur, k)]))
            res.append(('contents', inv))
        return res

    @staticmethod
    def mentions(t, names, cut, i):
        """Does t mention one of the names, or symbols made after cut (except i)?"""
        seen = set()

        def visit(t):
            if t.get_id() in seen:
                return False
            seen.add(t.get_id())
            if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.eq(i):
                nm = t.decl().name()
                if nm in names:
                    return True
                if '!' in nm:
                    try:
                        if int(nm.split('!')[1]) > cut:
                            return True
                    except ValueError:
                        pass
            if z3.is_quantifier(t):
                return visit(t.body())
            return any(visit(c) for c in t.children())
        return visit(t)

    def seq_loop(self, st0, q, body, n, sp):
        """Loop over an abstract sequence with index i in [0, q.n)."""
        line = n.get('l')
        lname = 'loop(line %s)' % line
        if sp is not None and sp.ghost:
            body0 = body

            def body(s1, i):
                res = body0(s1, i)
                for s2, f in res:
                    if f in (None, 'continue'):
                        sp.ghost(self, s2, i, q)
                return res
        st0 = st0.copy()
        st0.assume(q.n >= 0)
        if q.facts:
            st0.assume(*q.facts(self, st0))
        tag = 'h%s' % line
        # 1. modified set
        mods = set()
        self.quiet += 1
        try:
            for _ in range(8):
                st = st0.copy()
                self.havoc(st, mods, tag)
                ref = st.copy()
                i = self.fresh_const(INT, 'i')
                st.assume(i >= 0, i < q.n)
                new = set()
                for s, f in body(st, i):
                    if f in (None, 'continue'):
                        new |= self.diff(ref, s)
                if new <= mods:
                    break
                mods |= new
            else:
                raise Abort('loop: modified set does not stabilise')
            # 2. invariants
            cands = [('auto', nm, f) for nm, f in self.auto_candidates(st0, mods, n)]
            req = []
            if sp is not None:
                req = [('spec', nm, f) for nm, f in sp.invs(self, st0, q, mods)]
                cands += [('auto', nm, f) for nm, f in sp.cands(self, st0, q, mods)]
            if sp is not None and not sp.auto:
                cands = []
            else:
                cands += [('auto', nm, f) for nm, f in self.append_candidates(st0, q, body, mods, tag)]
            keep = []
            for c in cands:
                if self.entails(st0, c[2](st0, z3.IntVal(0))):
                    keep.append(c)
            cands = keep
            while True:
                st = st0.copy()
                self.havoc(st, mods, tag)
                i = self.fresh_const(INT, 'i')
                st.assume(i >= 0, i < q.n)
                for c in cands + req:
                    st.assume(c[2](st, i))
                outs = body(st, i)
                keep = []
                for c in cands:
                    ok = all(self.entails(s, c[2](s, i + 1)) for s, f in outs if f in (None, 'continue'))
                    if ok:
                        keep.append(c)
                if len(keep) == len(cands):
                    break
                cands = keep
        finally:
            self.quiet -= 1
        # 3. obligations and outcomes
        for c in req:
            self.oblige(st0, c[2](st0, z3.IntVal(0)), '%s: invariant %s initially' % (lname, c[1]))
        st = st0.copy()
        self.havoc(st, mods, tag)
        i = self.fresh_const(INT, 'i')
        st.assume(i >= 0, i < q.n)
        for c in cands + req:
            st.assume(c[2](st, i))
        entry = st.copy()
        base = len(st.pc)
        outs = body(st, i)
        cont = []
        exits = []
        for s, f in outs:
            if f in (None, 'continue'):
                for c in req:
                    self.oblige_inv(s, c[2](s, i + 1), c[2](entry, i), '%s: invariant %s preserved' % (lname, c[1]))
                cont.append(s)
            else:
                exits.append((s, f))
        logs = {}
        for m in mods:
            if m[0] == 'h' and isinstance(self.mod_val(entry, m), tuple):
                logs[m] = None

        def loop_piece(m, upto):
            pfx = self.mod_val(entry, m)
            paths = []
            for s in cont:
                l = self.mod_val(s, m)
                if l[:1] != pfx:
                    raise Abort('log rewritten in loop')
                paths.append((list(s.pc), l[1:]))
            return LoopPiece(q, upto, i, paths, lname)

        def patch_logs(s, upto, normal):
            for m in logs:
                before = self.mod_val(st0, m)
                cur = self.mod_val(s, m)
                tail = () if normal else cur[1:]
                val = before + (('loop', loop_piece(m, upto)),) + tail
                d = dict(s.heap[m[1]])
                d[m[2]] = val
                s.heap[m[1]] = d

        fact = self.cont_fact(entry, cont, base, i, q, mods)
        res = []
        fin = st0.copy()
        self.havoc(fin, mods, tag + 'x')
        for c in cands + req:
            fin.assume(c[2](fin, q.n))
        if fact is not None:
            fin.assume(fact(q.n))
        patch_logs(fin, q.n, True)
        for s in cont:
            for t in s.taint:
                self.taint(fin, t)
        if self.feasible(fin):
            res.append((fin, None))
        for s, f in exits:
            if fact is not None:
                s.assume(fact(i))
            patch_logs(s, i, False)
            if self.feasible(s):
                res.append((s, None if f == 'break' else f))
        if sp is not None and getattr(sp, 'after', None):
            res = [(s, f) for s, f in res for _ in [sp.after(self, s, q)]]
        return res

    def cont_fact(self, entry, cont, base, i, q, mods):
        """For all k < upto the iteration k did not leave the loop."""
        deltas = []
        for s in cont:
            deltas.append(z3.And(*s.pc[base:]) if len(s.pc) > base else z3.BoolVal(True))
        body = z3.simplify(z3.Or(*deltas)) if deltas else z3.BoolVal(False)
        if z3.is_true(body):
            return None
        # must not mention havocked values or symbols created in the body
        allowed_cut = int(i.decl().name().split('!')[1])
        bad = []
        hv = set()
        for m in mods:
            v = self.mod_val(entry, m)
            if is_z3(v):
                hv.add(v.decl().name())

        def visit(t, seen):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                if nm in hv:
                    bad.append(nm)
                elif '!' in nm and not t.eq(i):
                    try:
                        if int(nm.split('!')[1]) > allowed_cut:
                            bad.append(nm)
                    except ValueError:
                        pass
            for ch in t.children():
                visit(ch, seen)
            if z3.is_quantifier(t):
                visit(t.body(), seen)
        visit(body, set())
        if bad:
            return None
        def fact(upto):
            k = z3.Int('k!')
            return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < upto), z3.substitute(body, (i, k))))
        return fact

    def s_for(self, n, st):
        sp = self.loop_spec(n, st, None)
        if sp is not None and getattr(sp, 'handler', None):
            return sp.handler(self, n, st, None)
        res = []
        for s, _ in (self.exec(n['init'], st) if n.get('init') else [(st, None)]):
            c = self.counting(n, s)
            if c is not None:
                res += self.counting_loop(n, s, c, sp)
            else:
                res += self.general_loop(n, s, sp, n['c'], n.get('inc'), n['b'])
        return res

    def counting(self, n, st):
        """for (v = a; v < / != b; ++v) with v only changed by the increment."""
        c = n.get('c')
        inc = n.get('inc')
        if not c or not inc or n.get('cv'):
            return None
        if c['k'] == 'bin' and c['op'] in ('<', '!='):
            x, y = c['x'], c['y']
        elif c['k'] == 'call' and c.get('opcall') in ('!=', '<') and len(c['a']) + ('obj' in c) == 2:
            xs = ([c['obj']] if 'obj' in c else []) + c['a']
            x, y = xs
        else:
            return None
        if x['k'] != 'var' or x['id'] not in st.env:
            return None
        if inc['k'] == 'un' and inc['op'] == '++' and inc['e'].get('id') == x['id']:
            pass
        elif inc['k'] == 'call' and inc.get('opcall') == '++' and inc.get('obj', {}).get('id') == x['id']:
            pass
        else:
            return None
        cell = st.env[x['id']]
        start = self.rv(st, cell)
        if isinstance(start, Iter):
            pass
        elif not (is_z3(start) and z3.is_int(start)):
            return None
        touched = []

        def look(nd):
            if nd.get('k') == 'un' and nd.get('op') in ('++', '--', '&') and nd['e'].get('id') == x['id']:
                touched.append(1)
            if nd.get('k') == 'bin' and (nd['op'] == '=' or nd.get('compound')) and nd['x'].get('id') == x['id']:
                touched.append(1)
            if nd.get('k') == 'call' and nd.get('opcall') in ('++', '--', '=', '+=', '-=') and (nd.get('obj') or {}).get('id') == x['id']:
                touched.append(1)
            if nd.get('k') == 'lambda':
                for cp in nd['caps']:
                    if cp.get('id') == x['id'] and cp.get('byref'):
                        pass
        from .tu import walk
        walk(n['b'], look)
        if touched:
            return None
        r = self.ev1(y, st.copy())
        if len(r) != 1:
            return None
        end = r[0][1]
        return cell, start, end, c

    def counting_loop(self, n, st, c, sp):
        cell, start, end, cn = c
        if isinstance(start, Iter):
            if not isinstance(end, Iter):
                raise Abort('iterator loop')
            base_i, cnt = start.i, end.i - start.i
            mk = lambda i: Iter(start.seq, z3.simplify(base_i + i), start.owner)
            key = ('iter', start.seq.key, z3.simplify(base_i))
        else:
            base_i, cnt = start, end - start
            mk = lambda i: z3.simplify(base_i + i)
            key = ('int', z3.simplify(base_i))
        lt = (cn.get('op') or cn.get('opcall')) == '<'
        nn = z3.simplify(z3.If(cnt > 0, cnt, z3.IntVal(0)) if lt else cnt)
        if isinstance(start, Iter) and z3.is_int_value(z3.simplify(base_i)) and z3.simplify(base_i).as_long() == 0:
            q = Seq(nn, lambda E, s, i: start.seq.get(E, s, i), start.seq.key, start.seq.facts)
        else:
            q = Seq(nn, lambda E, s, i: mk(i), key)
        if not lt:
            self.oblige(st, cnt >= 0, 'loop bound is not before its start')

        def body(s, i):
            cell.store(self, s, mk(i))
            s.env['__i__'] = i
            out = []
            for s2, f in self.exec(n['b'], s):
                if f in (None, 'continue') and isinstance(start, Iter) and self.step_hook is not None:
                    self.step_hook(self, s2, mk(i))
                out.append((s2, f))
            return out
        # the counter is not part of the modified set: fix it before comparing
        st.env['__counter__'] = cell
        res = self.seq_loop_counter(st, q, body, n, sp, cell, mk)
        return res

    def seq_loop_counter(self, st, q, body, n, sp, cell, mk):
        def body2(s, i):
            orig = s.cells[cell.id]
            out = body(s, i)
            for s2, f in out:
                if f in (None, 'continue'):
                    s2.cells[cell.id] = orig
            return out
        res = self.seq_loop(st, q, body2, n, sp)
        for s, f in res:
            if f is None and s.cells.get(cell.id) is st.cells.get(cell.id):
                s.cells[cell.id] = mk(q.n)
        return res

    def s_while(self, n, st):
        sp = self.loop_spec(n, st, None)
        if sp is not None and getattr(sp, 'handler', None):
            return sp.handler(self, n, st, None)
        return self.general_loop(n, st, sp, n['c'], None, n['b'], n.get('cv'))

    def s_do(self, n, st):
        c = n['c']
        if c['k'] == 'bool' and not c['v'] or (c['k'] == 'int' and c['v'] == '0') or (
                c['k'] == 'cast' and c['e']['k'] == 'int' and c['e']['v'] == '0'):
            return [(s, None if f in ('break', 'continue') else f) for s, f in self.exec(n['b'], st)]
        raise Abort('do loop')

    def general_loop(self, n, st0, sp, cond, inc, bodyn, cv=None):
        if sp is None:
            # loops whose condition is false at once
            outs = self.ev1(cond, st0.copy()) if not cv else []
            if len(outs) == 1 and z3.is_false(z3.simplify(self.to_bool(outs[0][0], outs[0][1]))):
                return [(outs[0][0], None)]
            raise Abort('loop at line %s has no invariant' % n.get('l'))
        line = n.get('l')
        lname = 'loop(line %s)' % line
        tag = 'h%s' % line

        def once(st):
            """One iteration from the loop head: (continue, exit) outcomes."""
            cont, ex = [], []
            for s0 in (self.bind_var(cv, st) if cv else [st]):
                for s, c in (self.ev1(cond, s0) if cond is not None else [(s0, z3.BoolVal(True))]):
                    c = self.to_bool(s, c)
                    for s1, t in self.split(s, c):
                        if not t:
                            ex.append((s1, None))
                            continue
                        for s2, f in self.exec(bodyn, s1):
                            if f in (None, 'continue'):
                                if inc is not None:
                                    for s3, _ in self.ev(inc, s2):
                                        cont.append(s3)
                                else:
                                    cont.append(s2)
                            else:
                                ex.append((s2, None if f == 'break' else f))
            if sp.ghost:
                for s in cont:
                    sp.ghost(self, s, None, None)
            return cont, ex
        mods = set()
        self.quiet += 1
        try:
            for _ in range(8):
                st = st0.copy()
                self.havoc(st, mods, tag)
                for nm, f in sp.invs(self, st0, None, mods):
                    st.assume(f(st, None))
                ref = st.copy()
                new = set()
                for s in once(st)[0]:
                    new |= self.diff(ref, s)
                if new <= mods:
                    break
                mods |= new
            else:
                raise Abort('loop: modified set does not stabilise')
        finally:
            self.quiet -= 1
        if getattr(sp, 'mods_ok', None):
            sp.mods_ok(self, st0, mods)
        for nm, f in sp.invs(self, st0, None, mods):
            self.oblige(st0, f(st0, None), '%s: invariant %s initially' % (lname, nm))
        st = st0.copy()
        self.havoc(st, mods, tag)
        for nm, f in sp.invs(self, st0, None, mods):
            st.assume(f(st, None))
        head = st.copy()
        cont, ex = once(st)
        for s in cont:
            if getattr(sp, 'hint', None):
                sp.hint(self, head, s)
            for nm, f in sp.invs(self, st0, None, mods):
                self.oblige_inv(s, f(s, None), f(head, None), '%s: invariant %s preserved' % (lname, nm))
            if getattr(sp, 'decreases', None):
                a, b = sp.decreases(self, head), sp.decreases(self, s)
                self.oblige(s, z3.And(a >= 0, b < a), '%s: terminates' % lname)
        if getattr(sp, 'after', None):
            for s, f in ex:
                if f is None:
                    sp.after(self, s, mods)
        fin = sp.final(self, st0, mods) if sp.final else None
        if fin is not None and set(fin) == mods and all(f is None for _, f in ex):
            # the outcome is a function of the entry state
            for s, _ in ex:
                for m, t in fin.items():
                    self.oblige(s, self.to_term(s, self.mod_val(s, m)) == t, '%s: outcome' % lname)
            out = st0.copy()
            for m, t in fin.items():
                if m[0] == 'c':
                    out.cells[m[1]] = t
                else:
                    d = dict(out.heap[m[1]])
                    d[m[2]] = t
                    out.heap[m[1]] = d
            for s, _ in ex:
                for t in s.taint:
                    self.taint(out, t)
            return [(out, None)]
        return ex

    # ------------------------------------------------------------ logs
    def log_eq(self, st, code, spec, name):
        """Obligation: the log `code` equals the specification `spec`."""
        self._leq(st, list(code), list(spec), name, 0)

    @staticmethod
    def norm(ps):
        out = []
        for p in ps:
            if isinstance(p, (bytes, str)):
                p = ('lit', p.encode() if isinstance(p, str) else p)
            elif isinstance(p, Lit):
                p = ('lit', p.b)
            elif is_z3(p):
                p = ('val', p)
            if isinstance(p, tuple) and p[0] == 'val' and is_z3(p[1]) and z3.is_string_value(p[1]):
                p = ('lit', Engine.lit_bytes(p[1]))
            if isinstance(p, tuple) and p[0] == 'lit':
                if p[1] == b'':
                    continue
                if out and isinstance(out[-1], tuple) and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + p[1])
                    continue
            out.append(p)
        return out

    @staticmethod
    def lit_bytes(t):
        s = t.as_string()
        import re
        return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s).encode('latin-1')

    def _ite(self, p):
        """(cond, x, y) if piece p is a conditional string."""
        if isinstance(p, Cond):
            return p.c, list(p.x() if callable(p.x) else p.x), list(p.y() if callable(p.y) else p.y)
        if isinstance(p, tuple) and p[0] == 'val' and is_z3(p[1]) and z3.is_app_of(p[1], z3.Z3_OP_ITE):
            return p[1].arg(0), [('val', p[1].arg(1))], [('val', p[1].arg(2))]
        return None

    def _leq(self, st, A, B, name, d):
        A = self.norm(A)
        B = self.norm(B)
        if d > 400:
            raise Abort('log comparison too deep')
        while A and B:
            if isinstance(B[0], tuple) and B[0][0] == 'whatever':
                return  # the rest is not part of the contract
            if isinstance(B[0], tuple) and B[0][0] == 'any':
                # any text value (its content is not part of the contract)
                if isinstance(A[0], tuple) and A[0][0] == 'val' and is_z3(A[0][1]) and A[0][1].sort() == STR:
                    A, B = A[1:], B[1:]
                    continue
                if len(B) > 1 and isinstance(B[1], tuple) and B[1][0] == 'lit' and isinstance(A[0], tuple) and A[0][0] == 'lit' \
                        and B[1][1] in A[0][1]:
                    A = [('lit', A[0][1][A[0][1].index(B[1][1]):])] + A[1:]
                    B = B[1:]
                    continue
                self.oblige(st, False, name + ' (text missing)')
                return
            ia = self._ite(A[0])
            if ia is None and isinstance(A[0], tuple) and A[0][0] == 'val' and isinstance(B[0], tuple) and B[0][0] == 'val' \
                    and is_z3(A[0][1]) and is_z3(B[0][1]) and A[0][1].eq(B[0][1]):
                A, B = A[1:], B[1:]
                self.oblige(st, True, name)
                continue
            if ia is not None and isinstance(B[0], tuple) and B[0][0] == 'val' and is_z3(B[0][1]) and A[0] != B[0] \
                    and isinstance(A[0], tuple) and A[0][1].eq(B[0][1]):
                A, B = A[1:], B[1:]
                continue
            ib = self._ite(B[0]) if ia is None else None
            if ia is not None or ib is not None:
                c, x, y = ia or ib
                for s, t in self.split(st.copy(), c):
                    if ia:
                        self._leq(s, (x if t else y) + A[1:], B, name, d + 1)
                    else:
                        self._leq(s, A, (x if t else y) + B[1:], name, d + 1)
                return
            a, b = A[0], B[0]
            if isinstance(b, ForEach):
                if a[0] == 'loop':
                    q = a[1]
                    self.loop_eq(st, q, b, name)
                    A, B = A[1:], B[1:]
                    continue
                # code has no loop here: only right if nothing is to be emitted
                self.oblige(st, b.none(), name + ' (loop expected)')
                s = st.copy()
                s.assume(b.none())
                st = s
                B = B[1:]
                continue
            if a[0] == 'loop':
                q = a[1]
                # loops that append nothing
                ok = all(not self.norm(p[1]) for p in q.paths)
                if ok:
                    A = A[1:]
                    continue
                self.oblige(st, False, name + ' (unexpected output in %s)' % q.name)
                return
            if a[0] == 'lit' and b[0] == 'lit':
                k = 0
                while k < len(a[1]) and k < len(b[1]) and a[1][k] == b[1][k]:
                    k += 1
                if k < len(a[1]) and k < len(b[1]):
                    self.oblige(st, False, name + ' (text %r instead of %r)' % (a[1][k:k + 40], b[1][k:k + 40]))
                    return
                self.oblige(st, True, name)
                A = self.norm([('lit', a[1][k:])] + A[1:])
                B = self.norm([('lit', b[1][k:])] + B[1:])
                continue
            if a[0] == 'pfx' or b[0] == 'pfx':
                if a == b:
                    A, B = A[1:], B[1:]
                    continue
                raise Abort('log prefix mismatch')
            if a[0] == 'rec' or b[0] == 'rec':
                if a[0] == b[0] and a[1] == b[1] and len(a[2]) == len(b[2]):
                    for x, y in zip(a[2], b[2]):
                        self.snap_eq(st, x, y, name + ' (%s)' % a[1])
                else:
                    self.oblige(st, False, name + ' (entry %s instead of %s)' % (a[1] if a[0] == 'rec' else a[0], b[1] if b[0] == 'rec' else b[0]))
                    return
                A, B = A[1:], B[1:]
                continue
            # values
            if a[0] == 'val' and b[0] == 'val':
                if a[1].sort() == b[1].sort():
                    # try piecewise first
                    r, _ = self.check(st.pc + [a[1] != b[1]], self.case_timeout)
                    if r == z3.unsat or not (a[1].sort() == STR):
                        self.oblige(st, a[1] == b[1], name)
                        A, B = A[1:], B[1:]
                        continue
                else:
                    self.oblige(st, False, name + ' (value kinds differ)')
                    return
            # mixed text and strings: compare maximal runs
            ra, A = self.run(A)
            rb, B = self.run(B)
            if ra is None or rb is None:
                self.oblige(st, False, name + ' (value instead of text)')
                return
            self.oblige(st, ra == rb, name)
        rest = self.norm(A) or self.norm(B)
        if A or B:
            self._rest(st, A, B, name, d)
        else:
            self.oblige(st, True, name)

    def run(self, ps):
        acc = []
        while ps and isinstance(ps[0], tuple) and (ps[0][0] == 'lit' or (ps[0][0] == 'val' and ps[0][1].sort() == STR)):
            acc.append(strval(ps[0][1]) if ps[0][0] == 'lit' else ps[0][1])
            ps = ps[1:]
        if not acc:
            return None, ps
        return (z3.Concat(*acc) if len(acc) > 1 else acc[0]), ps

    def _rest(self, st, A, B, name, d):
        for side, L in (('A', A), ('B', B)):
            while L:
                p = L[0]
                it = self._ite(p)
                if it:
                    c, x, y = it
                    for s, t in self.split(st.copy(), c):
                        if side == 'A':
                            self._leq(s, (x if t else y) + L[1:], [], name, d + 1)
                        else:
                            self._leq(s, [], (x if t else y) + L[1:], name, d + 1)
                    return
                if side == 'B' and isinstance(p, tuple) and p[0] == 'whatever':
                    return
                if isinstance(p, ForEach):
                    self.oblige(st, p.none(), name + ' (loop missing)')
                    L = L[1:]
                    continue
                if p[0] == 'loop':
                    for pc, pieces in p[1].paths:
                        s = st.copy()
                        s.pc = list(pc)
                        self._leq(s, list(pieces), [], name, d + 1)
                    L = L[1:]
                    continue
                if p[0] == 'val' and p[1].sort() == STR:
                    self.oblige(st, p[1] == strval(b''), name + ' (%s)' % ('extra' if side == 'A' else 'missing'))
                    L = L[1:]
                    continue
                self.oblige(st, False, name + ' (%s: %s)' % ('extra' if side == 'A' else 'missing', str(p)[:60]))
                return

    def loop_eq(self, st, q, b, name):
        k = q.seq.key
        zero = isinstance(k, tuple) and len(k) == 2 and k[0] in ('int', 'seq') and is_z3(k[1]) and z3.is_int_value(k[1]) and k[1].as_long() == 0
        # (a loop over the indices 0, 1, ... is compared item by item)
        if b.key is not None and not zero and not self.key_eq(st, q.seq.key, b.key):
            self.oblige(st, False, name + ' (iterates over something else)')
            return
        if b.n is None:
            self.oblige(st, q.upto == q.seq.n, name + ' (number of iterations)')
        elif not self.entails(st, q.upto == b.n):
            # fewer or more iterations are fine if the difference emits nothing
            k = self.fresh_const(INT, 'k')
            s = st.copy()
            s.assume(k >= q.upto, k < b.n)
            if self.entails(st, q.upto <= b.n) and self.empty_items(s, b.f(k)):
                pass
            else:
                self.oblige(st, q.upto == b.n, name + ' (number of iterations)')
        else:
            self.oblige(st, True, name + ' (number of iterations)')
        for pc, pieces in q.paths:
            s = st.copy()
            s.pc = list(pc)
            x = q.seq.get(self, s, q.ivar) if b.elem else q.ivar
            self._leq(s, list(pieces), list(b.f(x)), name + ' (iteration)', 0)

    def empty_items(self, st, items):
        for p in self.norm(list(items)):
            it = self._ite(p)
            if it:
                c, x, y = it
                if not all(self.empty_items(s, x if t else y) for s, t in self.split(st.copy(), c)):
                    return False
            elif isinstance(p, ForEach):
                if not self.entails(st, p.none()):
                    return False
            elif not (p[0] == 'val' and p[1].sort() == STR and self.entails(st, p[1] == strval(b''))):
                return False
        return True

    def key_eq(self, st, a, b):
        if is_z3(a) and is_z3(b):
            if a.sort() != b.sort():
                return False
            return a.eq(b) or self.entails(st, a == b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.key_eq(st, x, y) for x, y in zip(a, b))
        if is_z3(a) or is_z3(b):
            return False
        return a == b

    def snap(self, st, v):
        v = self.rv(st, v)
        if is_z3(v):
            return v
        if isinstance(v, Lit):
            return strval(v.b)
        if isinstance(v, Ptr):
            if v.to is None:
                return NULL
            if isinstance(v.to, Obj):
                return ('ref', v.to.oid)
            return self.snap(st, v.to)
        if isinstance(v, Obj):
            d = st.heap[v.oid]
            h = self.lib.snaps.get(d['cls'])
            if h:
                return h(self, st, v)
            return ('rec', d['cls'], tuple(self.snap(st, d[k]) for k in sorted(d) if k not in ('cls', '_id') and not k.startswith('_')))
        if isinstance(v, (Closure, FnVal)):
            return ('fn', id(v))
        raise Abort('snapshot of %r' % (v,))

    def snap_eq(self, st, a, b, name):
        if is_z3(a) and is_z3(b):
            if a.sort() != b.sort():
                self.oblige(st, False, name + ' (kinds differ)')
                return
            self.oblige(st, a == b, name)
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'rec' and b[0] == 'rec' and a[1] == b[1] and len(a[2]) == len(b[2]):
            for x, y in zip(a[2], b[2]):
                self.snap_eq(st, x, y, name)
            return
        self.oblige(st, a == b if not is_z3(a) and not is_z3(b) else False, name + ' (%s vs %s)' % (str(a)[:60], str(b)[:60]))


class LoopSpec:
    """Loop contract: match decides applicability, inv gives the invariants."""

    def __init__(self, match, inv=None, cand=None, handler=None, decreases=None, hint=None, after=None, final=None, ghost=None, auto=True):
        self.auto = auto        # look for further invariants
        self.match = match
        self.final = final
        self.ghost = ghost      # ghost code at the end of every iteration
        self._inv = inv
        self._cand = cand
        self.handler = handler
        self.decreases = decreases
        self.hint = hint
        self.after = after

    def invs(self, E, st0, q, mods):
        return self._inv(E, st0, q, mods) if self._inv else []

    def cands(self, E, st0, q, mods):
        return self._cand(E, st0, q, mods) if self._cand else []
