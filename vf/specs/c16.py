"""C16: the compile command used for analysis."""
from .graph import *

SRC = 'src/tool.cpp'
UNITS = []
Sel = z3.Select
sv = lambda s: strval(s.encode())
starts = lambda p, a: z3.PrefixOf(sv(p), a)
after = lambda p, a: z3.SubString(a, len(p), z3.Length(a) - len(p))


def lambda_of(E, q):
    """The only function object in the body of q."""
    f = one(E.tu, q)
    ls = []
    walk(f['body'], lambda n: ls.append(n) if n.get('k') == 'lambda' else None)
    if len(ls) != 1 or ls[0].get('caps'):
        raise Abort('%s: %d function objects' % (q, len(ls)))
    return E.tu.fns[ls[0]['op']]


def command(E, st, f):
    """The command: a non-empty sequence of arguments."""
    N = z3.Int('args.n')
    A = z3.Const('args', z3.ArraySort(INT, STR))
    st.assume(N >= 1)
    v = vec(E, st, STR, N, A)
    st.env[f['params'][0]['id']] = v
    st.env[f['params'][1]['id']] = E.new_cell(st, z3.Const('filename', STR))
    return N, A


def has_quantifier(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    return z3.is_quantifier(t) or any(has_quantifier(c, seen) for c in t.children())


def lift(E, s, A, N, d, P):
    """Facts about P (abbreviates the property d of texts) that follow from what is known in s about the texts A."""
    E.abstract_strings, old = False, E.abstract_strings
    try:
        k = z3.Int('k!l')
        j = E.fresh_const(INT, 'j')
        qf = [x for x in s.pc if not has_quantifier(x)]
        inst = [z3.substitute_vars(x.body(), j) for x in s.pc if z3.is_quantifier(x) and x.is_forall() and x.num_vars() == 1 and x.var_sort(0) == INT]
        inst = [x for x in inst if not has_quantifier(x)]
        # of all texts
        rng = z3.And(j >= 0, j < N)
        if E.check(qf + inst + [rng, d(Sel(A, j))], 5000, lazy=False)[0] == z3.unsat:
            s.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.Not(P(Sel(A, k)))), patterns=[Sel(A, k)]))
        # of those that are mentioned
        seen = {}

        def terms(t):
            if t.get_id() in seen:
                return
            seen[t.get_id()] = t
            if z3.is_quantifier(t):
                return
            for c in t.children():
                terms(c)
        for x in qf:
            terms(x)
        for t in list(seen.values()):
            if z3.is_select(t) and t.arg(0).eq(A):
                for v in (d(t), z3.Not(d(t))):
                    if E.check(qf + [z3.Not(v)], 3000, lazy=False)[0] == z3.unsat:
                        s.assume(z3.substitute(v, (d(t), P(t))))
                        break
    finally:
        E.abstract_strings = old


def cells(E, st, mods, sort):
    return [m for m in sorted(mods, key=str) if m[0] == 'c' and is_z3(st.cells[m[1]]) and st.cells[m[1]].sort() == sort]


def standard(E):
    """getCpp17OrLaterAdjuster"""
    setup(E)
    f = lambda_of(E, '(anonymous namespace)::getCpp17OrLaterAdjuster')
    st = State()
    N, A = command(E, st, f)
    # --- specification: the arguments up to `--`, scanned in steps (a step may take two arguments)
    k = z3.Int('k')
    pos = lambda i: E.uf('spec.pos', [i], INT)          # position of step i
    cnt = lambda i: E.uf('spec.cnt', [i], INT)          # arguments written before step i
    later = lambda i: E.uf('spec.later', [i], BOOL)     # the last standard requested so far is C++20 or later
    gnu = lambda i: E.uf('spec.gnu', [i], BOOL)
    a = Sel(A, pos(k))
    # kinds of arguments; their definitions are used for the argument at hand (below)
    KINDS = ('two', 'lang', 'std', 'new', 'gnu')
    P = lambda nm, t: E.uf('spec.arg.' + nm, [t], BOOL)

    def defs(a):
        two = z3.Or(a == sv('-x'), a == sv('--language'))
        lang = z3.Or(starts('-x', a), starts('--language=', a))
        std = z3.Or(starts('-std=', a), starts('--std=', a))
        val = z3.If(starts('-std=', a), after('-std=', a), after('--std=', a))
        plus = z3.IndexOf(val, sv('++'), 0)
        new = z3.And(z3.Contains(val, sv('++')), starts('2', z3.SubString(val, plus + 2, z3.Length(val) - plus - 2)))
        return {'two': two, 'lang': lang, 'std': std, 'new': new, 'gnu': starts('gnu', val)}
    two, lang, std, new, isgnu = (P(nm, a) for nm in KINDS)
    E.abstract_strings = True

    def classify(E2, head, s):
        """What the conditions evaluated in this iteration say about the argument."""
        t = Sel(A, pos(step(head)))
        s.assume(z3.substitute(rec, (k, step(head))))
        qf = [x for x in s.pc if not has_quantifier(x)]
        E2.abstract_strings = False
        try:
            for nm, d in defs(t).items():
                for v in (d, z3.Not(d)):
                    if E2.check(qf + [z3.Not(v)], 3000, lazy=False)[0] == z3.unsat:
                        s.assume(P(nm, t) if v is d else z3.Not(P(nm, t)))
                        break
                s.assume(P(nm, t) == d)
        finally:
            E2.abstract_strings = True
    skip = z3.Or(two, lang, z3.And(std, z3.Not(new)))
    E.lazy_facts += [pos(z3.IntVal(0)) == 1, cnt(z3.IntVal(0)) == 2, z3.Not(later(z3.IntVal(0))), z3.Not(gnu(z3.IntVal(0)))]
    # definition of the state after step k, used for the step at hand
    rec = z3.Implies(k >= 0, z3.And(
        pos(k + 1) == pos(k) + z3.If(two, 2, 1),
        cnt(k + 1) == cnt(k) + z3.If(skip, 0, 1),
        later(k + 1) == z3.If(z3.And(std, z3.Not(two), z3.Not(lang)), new, later(k)),
        gnu(k + 1) == z3.If(z3.And(std, z3.Not(two), z3.Not(lang)), isgnu, gnu(k))))
    G = E.new_obj(st, 'ghost', k=z3.IntVal(0))
    step = lambda s: s.heap[G.oid]['k']

    def scan(E2, s0, q, mods):
        R = mod_obj(E2, s0, mods, 'vec') if any(m[0] == 'h' and m[1] != G.oid for m in mods) else None
        ints, bools, strs = (cells(E2, s0, mods, t) for t in (INT, BOOL, STR))
        if R is None:
            return []
        if len(ints) != 1 or len(bools) > 1 or len(strs) > 1:
            raise Abort('contract does not match the variables of the loop')
        i = lambda s: E2.mod_val(s, ints[0])
        j = z3.Int('j')
        res = [('position', lambda s, _: z3.And(step(s) >= 0, i(s) == pos(step(s)), i(s) >= 1)),
               ('number of arguments', lambda s, _: z3.And(s.heap[R]['n'] == cnt(step(s)), cnt(step(s)) >= 2)),
               ('program and language', lambda s, _: z3.And(Sel(s.heap[R]['arr'], 0) == Sel(A, 0), Sel(s.heap[R]['arr'], 1) == sv('-xc++'))),
               ('arguments are kept', lambda s, _: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < step(s), z3.Not(skip)), z3.And(
                   cnt(k) >= 2, cnt(k) < cnt(step(s)), Sel(s.heap[R]['arr'], cnt(k)) == a)), patterns=[pos(k)])),
               ('up to the separator', lambda s, _: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < step(s)), z3.And(a != sv('--'), pos(k) < N)), patterns=[pos(k)]))]
        if bools:
            res.append(('standard', lambda s, _: E2.mod_val(s, bools[0]) == later(step(s))))
        if strs:
            res.append(('flavour', lambda s, _: E2.mod_val(s, strs[0]) == z3.If(gnu(step(s)), sv('gnu'), sv('c'))))
        return res

    def ghost(E2, s, i, q):
        s.set(G, 'k', step(s) + 1)
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] in ('for', 'while') and z3.is_int_value(z3.simplify(step(s))), scan, ghost=ghost, hint=classify, auto=False))
    E.current = 'getCpp17OrLaterAdjuster'
    for s, r in run(E, f, st):
        d = s.heap[E.rv(s, r).oid]
        K = step(s)
        R = d['arr']
        j = E.fresh_const(INT, 'j')
        extra = z3.If(later(K), 0, 1)
        tail = z3.If(pos(K) < N, N - pos(K), 0)
        E.oblige(s, z3.Or(pos(K) >= N, Sel(A, pos(K)) == sv('--')), 'post: all arguments up to the separator are examined')
        E.oblige(s, z3.And(Sel(R, 0) == Sel(A, 0), Sel(R, 1) == sv('-xc++')), 'post: the language is C++')
        E.oblige(s, z3.Implies(z3.And(j >= 0, j < K, z3.Not(z3.substitute(skip, (k, j)))), Sel(R, cnt(j)) == Sel(A, pos(j))), 'post: other arguments are kept in their order')
        E.oblige(s, d['n'] == cnt(K) + extra + tail, 'post: nothing else is added')
        E.oblige(s, z3.Implies(z3.Not(later(K)), Sel(R, cnt(K)) == z3.If(gnu(K), sv('-std=gnu++17'), sv('-std=c++17'))),
                 'post: C++17 of the requested flavour unless a later standard is requested')
        E.oblige(s, z3.Implies(z3.And(j >= 0, j < tail), Sel(R, cnt(K) + extra + j) == Sel(A, pos(K) + j)), 'post: arguments after the separator are kept')


def resource_dir(E):
    """getDefaultResourceDirAdjuster"""
    setup(E)
    f = lambda_of(E, '(anonymous namespace)::getDefaultResourceDirAdjuster')
    st = State()
    N, A = command(E, st, f)
    E.abstract_strings = True
    DIR = z3.Const('resource_dir', STR)
    E.contracts['(anonymous namespace)::findResourceDir'] = lambda E2, s, c: DIR
    k = z3.Int('k')
    has = lambda t: z3.Or(t == sv('-resource-dir'), starts('-resource-dir=', t))
    sep = z3.Int('separator')
    st.assume(sep >= 0, sep <= N, z3.Implies(sep < N, Sel(A, sep) == sv('--')),
              z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < sep), Sel(A, k) != sv('--')), patterns=[Sel(A, k)]))
    E.current = 'getDefaultResourceDirAdjuster'
    for s, r in run(E, f, st):
        d = s.heap[E.rv(s, r).oid]
        R = d['arr']
        j = E.fresh_const(INT, 'j')
        P = lambda t: E.uf('spec.arg.dir', [t], BOOL)
        lift(E, s, A, N, has, P)
        add = z3.And(DIR != sv(''), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.Not(P(Sel(A, k)))), patterns=[Sel(A, k)]))
        rng = z3.And(j >= 0, j < N)
        for t, b in E.split(s, add):
            if b:
                E.oblige(t, d['n'] == N + 1, 'post: one argument is added')
                E.oblige(t, Sel(R, sep) == z3.Concat(sv('-resource-dir='), DIR), 'post: the default is added before the separator')
                E.oblige(t, z3.Implies(rng, Sel(R, z3.If(j < sep, j, j + 1)) == Sel(A, j)), 'post: the other arguments are kept in their order')
            else:
                E.oblige(t, d['n'] == N, 'post: nothing is added if a directory is given or there is no default')
                E.oblige(t, z3.Implies(rng, Sel(R, j) == Sel(A, j)), 'post: the arguments are kept')


UNITS += [('getDefaultResourceDirAdjuster', SRC, resource_dir)]
UNITS += [('getCpp17OrLaterAdjuster', SRC, standard)]

from . import c20 as _c20
UNITS += [('main', SRC, lambda E: _c20.main_(E, 'adjusters'))]
