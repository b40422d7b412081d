"""C03: makeValidIdentifier."""
from .graph import *

UNITS = []


class BufElem(LV):
    def __init__(self, oid, i):
        self.oid, self.i = oid, i

    def load(self, E, st):
        return z3.Select(st.heap[self.oid]['arr'], self.i)

    def store(self, E, st, v):
        st.set(Obj(self.oid), 'arr', z3.Store(st.heap[self.oid]['arr'], self.i, E.to_term(st, v)))


def char_models(E):
    """clang/Basic/CharInfo.h on plain ASCII."""
    def rng(c, *rs):
        return z3.Or(*[z3.And(c >= a, c <= b) for a, b in rs])
    A, a, D, us = (65, 90), (97, 122), (48, 57), (95, 95)

    def reg(n, *rs):
        def f(E2, st, c):
            x = E2.to_term(st, c.args[0])
            if len(c.args) > 1:     # AllowDollar
                return z3.Or(rng(x, *rs), z3.And(E2.to_bool(st, c.args[1]), x == 36))
            return rng(x, *rs)
        E.lib.models['clang::' + n] = f
    reg('isAsciiIdentifierStart', A, a, us)
    reg('isAsciiIdentifierContinue', A, a, us, D)
    reg('isDigit', D)
    reg('isHorizontalWhitespace', (32, 32), (9, 9), (11, 12))
    return (lambda c: rng(c, A, a, us)), (lambda c: rng(c, A, a, us, D))


def make_valid(E):
    setup(E)
    head, body = char_models(E)
    f = one(E.tu, 'genpybind::makeValidIdentifier')
    st = State()
    N = z3.Int('N')
    a = z3.Function('a', INT, INT)      # the original text
    k = z3.Int('k')
    arr0 = z3.Const('arr0', z3.ArraySort(INT, INT))
    buf = E.new_obj(st, 'charbuf', arr=arr0, n=N)
    st.assume(N >= 0, z3.ForAll([k], z3.Select(arr0, k) == a(k), patterns=[z3.Select(arr0, k)]))
    E.facts.append(z3.ForAll([k], z3.And(a(k) >= 0, a(k) <= 255), patterns=[a(k)]))
    seq = Seq(N, lambda E2, s, i: BufElem(buf.oid, i), ('buf',))

    def bm(fn):
        def g(E2, s, c):
            o = E2.rv(s, c.obj)
            if isinstance(o, Obj) and E2.cls(s, o) == 'charbuf':
                return fn(E2, s, c)
            return NotImplemented
        return g
    for cls in ('llvm::SmallVectorTemplateCommon', 'llvm::SmallVectorImpl', 'llvm::SmallVectorBase'):
        E.lib.models[cls + '::begin'] = bm(lambda E2, s, c: Iter(seq, z3.IntVal(0), buf))
        E.lib.models[cls + '::end'] = bm(lambda E2, s, c: Iter(seq, N, buf))
        E.lib.models[cls + '::size'] = bm(lambda E2, s, c: N)
        E.lib.models[cls + '::empty'] = bm(lambda E2, s, c: N == 0)

    def erase(E2, s, c):
        x, y = [E2.rv(s, v) for v in c.args]
        E2.oblige(s, z3.And(x.i >= 0, x.i <= y.i, y.i == s.get(buf, 'n')), 'erased range is a suffix of the text')
        s.set(buf, 'n', x.i)
        return None
    E.lib.models['llvm::SmallVectorImpl::erase'] = bm(erase)

    # specification: H is the first letter or underscore; L(k) is the number of
    # characters produced for the first k characters of the input.
    H = z3.Int('H')
    E.facts += [H >= 0, H <= N, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < H), z3.Not(head(a(k)))), patterns=[a(k)]),
                z3.Implies(H < N, head(a(H)))]
    valid = lambda i: z3.And(i >= H, body(a(i)))
    emits = lambda i: z3.Or(valid(i), i == 0, valid(i - 1))    # valid, or first of a run
    L = z3.Function('L', INT, INT)
    E.facts += [L(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, L(k + 1) == L(k) + z3.If(emits(k), 1, 0)), patterns=[L(k + 1)]),
                z3.ForAll([k], z3.Implies(k >= 0, L(k + 1) == L(k) + z3.If(emits(k), 1, 0)), patterns=[L(k)])]
    ch = lambda i: z3.If(valid(i), a(i), z3.IntVal(95))

    def lemma_run(s, lo, hi):
        """L over a run of invalid characters [lo, hi): one underscore. By
        induction on j; both steps are obligations."""
        j = E.fresh_const(INT, 'j')
        pre = z3.And(lo >= 0, lo <= hi, z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), z3.Not(valid(k)))), z3.Or(lo == 0, valid(lo - 1)))
        P = lambda x: L(x) == L(lo) + z3.If(x > lo, 1, 0)
        E.oblige(s, z3.Implies(pre, P(lo)), 'lemma run: base')
        E.oblige(s, z3.Implies(z3.And(pre, j >= lo, j < hi, P(j)), P(j + 1)), 'lemma run: step')
        s.assume(z3.Implies(pre, z3.ForAll([k], z3.Implies(z3.And(k >= lo, k <= hi), P(k)), patterns=[L(k)])))

    def lemma_le(s):
        j = E.fresh_const(INT, 'j')
        E.oblige(s, z3.Implies(z3.And(j >= 0, L(j) <= j), L(j + 1) <= j + 1), 'lemma L(k) <= k: step')
        s.assume(z3.ForAll([k], z3.Implies(k >= 0, L(k) <= k), patterns=[L(k)]))

    def var(s, want):
        """local char pointers by name"""
        return E.rv(s, s.env[want]).i

    def ids():
        out = {}

        def v(nd):
            if nd.get('k') == 'decl':
                for d in nd['d']:
                    out[d['n']] = d['id']
        walk(f['body'], v)
        return out
    loc = ids()
    need = ('input', 'output', 'last_valid')
    if not all(n in loc for n in need):
        raise Abort('makeValidIdentifier: contract does not match the local variables')

    def inv(E2, s, q, mods):
        if not (mods or True):
            return []
        def P(s2):
            i, o, lv = (var(s2, loc[n]) for n in need)
            arr = s2.heap[buf.oid]['arr']
            return [
                ('positions', z3.And(0 <= lv, lv <= i, i <= N, o == L(lv), o <= lv, z3.Or(lv == 0, valid(lv - 1)))),
                ('skipped characters are invalid', z3.ForAll([k], z3.Implies(z3.And(k >= lv, k < i), z3.Not(valid(k))))),
                ('next character is valid', z3.Implies(i < N, valid(i))),
                ('rest of the text untouched', z3.ForAll([k], z3.Implies(k >= lv, z3.Select(arr, k) == a(k)))),
                ('output so far', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < lv, emits(k)), z3.And(L(k) < o, L(k) >= 0, z3.Select(arr, L(k)) == ch(k))), patterns=[L(k)])),
            ]
        return [(P(s)[j][0], lambda s2, _, j=j: P(s2)[j][1]) for j in range(5)]

    def hint(E2, head_st, s):
        lemma_le(s)
        lemma_run(s, var(head_st, loc['last_valid']), var(head_st, loc['input']))
    sp = LoopSpec(lambda E2, n, s, r: n['k'] in ('for', 'while'), inv, hint=hint,
                  decreases=lambda E2, s: N - var(s, loc['last_valid']))
    E.loop_specs.append(sp)
    for p in f['params']:
        st.env[p['id']] = buf
    E.current = 'makeValidIdentifier'
    for s, v in run(E, f, st):
        lemma_le(s)
        # the last run
        lvx = E.rv(s, s.env[loc['last_valid']]).i
        lemma_run(s, lvx, N)
        arr, n = s.get(buf, 'arr'), s.get(buf, 'n')
        E.oblige(s, n == L(N), 'post: one underscore per run, nothing else added or lost')
        x = E.fresh_const(INT, 'x')
        E.oblige(s, z3.Implies(z3.And(x >= 0, x < N, emits(x)), z3.And(L(x) < n, z3.Select(arr, L(x)) == ch(x))),
                 'post: valid characters are kept, runs become underscores')
        s2 = s.copy()
        # consequences stated by the property
        E.oblige(s2, z3.Implies(N > 0, n > 0), 'post: non-empty result for a non-empty text')
        # a prefix that is an identifier is kept (used by C11)
        P, j = E.fresh_const(INT, 'p'), E.fresh_const(INT, 'j')
        s2.assume(P >= 1, P <= N, head(a(z3.IntVal(0))), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < P), body(a(k))), patterns=[a(k)]))
        E.oblige(s2, H == 0, 'lemma prefix: no characters are skipped')
        s2.assume(H == 0)
        E.oblige(s2, z3.Implies(z3.And(j >= 0, j < P, L(j) == j), L(j + 1) == j + 1), 'lemma prefix: step')
        s3 = State()
        s3.assume(x >= 0, x < P, P <= N, body(a(x)), H == 0, L(x) == x, L(P - 1) == P - 1,
                  z3.And(*[z3.Implies(z3.And(z >= 0, z < N, emits(z)), z3.And(L(z) < n, z3.Select(arr, L(z)) == ch(z))) for z in (x, P - 1)]), body(a(P - 1)))
        E.oblige(s3, z3.And(n >= P, z3.Select(arr, x) == a(x)), 'post: a prefix that is an identifier is kept')


UNITS.append(('makeValidIdentifier', 'src/string_utils.cpp', make_valid))
