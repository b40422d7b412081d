"""C01: the tokenizer and the parser of annotation texts.

The annotation text is an array of bytes CH[0..N); a StringRef into it is a
pair (lo, hi).  The contracts of the StringRef members used are assumed, as
are clang's character classes.
"""
from .ann import *

SRC = 'src/annotations/parser.cpp'
P = 'genpybind::annotations::Parser'
UNITS = []
VIEW = z3.Datatype('View')
VIEW.declare('view', ('lo', INT), ('hi', INT))
VIEW = VIEW.create()
CH = z3.Function('text', INT, INT)
N = z3.Int('length')


def slice_(E, lo, hi):
    return E.uf('spec.slice', [lo, hi], STR)


def lo(v):
    return z3.simplify(VIEW.lo(v))


def hi(v):
    return z3.simplify(VIEW.hi(v))


def c_in(c, *cs):
    return z3.Or(*[c == ord(x) for x in cs])


def blank(c):
    return c_in(c, ' ', '\t', '\f', '\v')


def digit(c):
    return z3.And(c >= 48, c <= 57)


def letter(c):
    return z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), c == 95)


def word(c):
    return z3.Or(letter(c), digit(c))


def number(E, lo, hi):
    """The decimal number spelled by the digits in [lo, hi)."""
    return E.uf('spec.decimal', [lo, hi], INT)


def mk_value(E, st, kind, v=None):
    K = E.tu.enums[LV_ + '::Kind']
    r = E.uf('spec.make_' + kind.lower(), [] if v is None else [v], U)
    st.assume(vkind(E, r) == K[kind])
    return r


def views(E):
    C = E.contracts
    E.lib.opaque |= {LV_}
    as_str = E.as_str

    def as_str2(s, v):
        t = E.to_term(s, v)
        return slice_(E, lo(t), hi(t)) if t.sort() == VIEW else as_str(s, v)
    E.as_str = as_str2

    def view(s, v):
        t = E.rv(s, v)
        if is_z3(t) and t.sort() == VIEW:
            return lo(t), hi(t)
        return None

    def reg(name, f):
        def g(E2, s, c):
            v = view(s, c.obj)
            if v is None:
                return NotImplemented
            return f(s, v[0], v[1], c)
        C['llvm::StringRef::' + name] = g
    arg = lambda s, c, i=0: E.to_term(s, c.args[i])
    imin = lambda a, b: z3.simplify(z3.If(a <= b, a, b))
    mk = lambda a, b: VIEW.view(z3.simplify(a), z3.simplify(b))

    def counted(s, c, i, what):
        if len(c.args) <= i or c.node['a'][i]['k'] == 'defarg':
            return z3.IntVal(1)
        return arg(s, c, i)
    reg('empty', lambda s, l, h, c: l == h)
    reg('size', lambda s, l, h, c: h - l)

    def at(s, l, h, i):
        E.oblige(s, z3.And(i >= 0, i < h - l), 'characters are read inside the text only')
        return CH(z3.simplify(l + i))
    reg('front', lambda s, l, h, c: at(s, l, h, z3.IntVal(0)))
    reg('back', lambda s, l, h, c: at(s, l, h, h - l - 1))
    reg('operator[]', lambda s, l, h, c: at(s, l, h, arg(s, c)))
    reg('take_front', lambda s, l, h, c: mk(l, l + imin(counted(s, c, 0, ''), h - l)))

    def drop_front(s, l, h, c):
        n = counted(s, c, 0, '')
        E.oblige(s, z3.And(n >= 0, n <= h - l), 'not more characters are dropped than there are')
        return mk(l + n, h)
    reg('drop_front', drop_front)

    def substr(s, l, h, c):
        a = imin(arg(s, c), h - l)
        if len(c.args) < 2 or c.node['a'][1]['k'] == 'defarg':
            return mk(l + a, h)
        return mk(l + a, l + a + imin(arg(s, c, 1), h - l - a))
    reg('substr', substr)
    reg('slice', lambda s, l, h, c: mk(l + imin(arg(s, c), h - l), l + z3.If(arg(s, c, 1) < imin(arg(s, c), h - l), imin(arg(s, c), h - l), imin(arg(s, c, 1), h - l))))

    def split(s, l, h, c, want):
        """End of the longest prefix of characters with (without) the property."""
        e = E.fresh_const(INT, 'end')
        j = z3.Int('j!w')

        def holds(ch):
            r = E.invoke(s, c.args[0], [ch], c.node)
            if len(r) != 1 or r[0][0] is not s:
                raise Abort('forking predicate')
            b = E.to_bool(s, r[0][1])
            return b if want else z3.Not(b)
        s.assume(z3.And(l <= e, e <= h), z3.ForAll([j], z3.Implies(z3.And(l <= j, j < e), holds(CH(j))), patterns=[CH(j)]),
                 z3.Implies(e < h, z3.Not(holds(CH(e)))))
        return e
    reg('drop_while', lambda s, l, h, c: mk(split(s, l, h, c, True), h))
    reg('take_while', lambda s, l, h, c: mk(l, split(s, l, h, c, True)))
    reg('take_until', lambda s, l, h, c: mk(l, split(s, l, h, c, False)))
    reg('drop_until', lambda s, l, h, c: mk(split(s, l, h, c, False), h))

    def integer(s, l, h, c):
        radix = arg(s, c)
        j = z3.Int('j!d')
        digits = z3.And(l < h, z3.ForAll([j], z3.Implies(z3.And(l <= j, j < h), digit(CH(j))), patterns=[CH(j)]))
        t = E.T(c.node['a'][1]['t'])
        if t.get('k') != 'int' or t.get('signed'):
            raise Abort('getAsInteger into %s' % t['s'])
        ok = E.fresh_const(BOOL, 'is_number')
        n = E.fresh_const(INT, 'n')
        s.assume(n >= 0, z3.Implies(radix == 10, z3.And(ok == z3.And(digits, number(E, l, h) < 2 ** t['bits']), z3.Implies(ok, n == number(E, l, h)))))
        old = E.to_term(s, c.args[1])
        c.args[1].store(E, s, z3.If(ok, n, old))
        return z3.Not(ok)
    reg('getAsInteger', integer)

    def copy(E2, s, c):
        v = E.to_term(s, c.args[0])
        if not isinstance(c.obj, LV):
            raise Abort('assignment to %r' % (c.obj,))
        c.obj.store(E, s, v)
        return c.obj
    C['llvm::StringRef::operator='] = copy
    old = E.lib.ctors.get('llvm::StringRef')

    def again(E2, s, ty, a, e):
        if len(a) == 1 and view(s, a[0]):
            return E.rv(s, a[0])
        return old(E2, s, ty, a, e) if old else NotImplemented
    E.lib.ctors['llvm::StringRef'] = again
    E.lib.ctors['llvm::StringLiteral'] = lambda E2, s, ty, a, e: E.as_str(s, a[0])
    # clang/Basic/CharInfo.h
    cls = {'isHorizontalWhitespace': blank, 'isDigit': digit, 'isLetter': lambda c: z3.And(letter(c), c != 95), 'isAlphanumeric': lambda c: z3.And(word(c), c != 95),
           'isWhitespace': lambda c: z3.Or(blank(c), c_in(c, '\n', '\r')), 'isVerticalWhitespace': lambda c: c_in(c, '\n', '\r')}
    for q, f in cls.items():
        C['clang::' + q] = lambda E2, s, c, f=f: f(E.to_term(s, c.args[0]))

    def ident(f):
        def g(E2, s, c):
            ch = E.to_term(s, c.args[0])
            dollar = z3.BoolVal(False)
            if len(c.args) > 1 and c.node['a'] and len(c.node['a']) > 1 and c.node['a'][1]['k'] != 'defarg':
                dollar = E.to_bool(s, c.args[1])
            return z3.Or(f(ch), z3.And(dollar, ch == ord('$')))
        return g
    C['clang::isAsciiIdentifierStart'] = ident(letter)
    C['clang::isAsciiIdentifierContinue'] = ident(word)
    # LiteralValue (proved for C02)
    def ctor(E2, s, ty, args, e):
        if not args:
            return mk_value(E2, s, 'Nothing')
        return take(s, args[0], bool(e and e.get('move')))

    def take(s, a, move):
        v = E.to_term(s, a)
        if move and isinstance(a, LV):
            a.store(E, s, E.fresh_const(U, 'moved_from'))
        return v
    E.lib.ctors[LV_] = ctor

    def put_(kind):
        def g(E2, s, c):
            a = None
            if c.args:
                a = E.as_str(s, c.args[0]) if kind == 'String' else E.to_term(s, c.args[0])
            if not isinstance(c.obj, LV):
                raise Abort('value set on %r' % (c.obj,))
            c.obj.store(E, s, mk_value(E, s, kind, a))
            return None
        return g
    for k in ('Nothing', 'String', 'Unsigned', 'Boolean', 'Default'):
        C[LV_ + '::set' + k] = put_(k)
        C[LV_ + '::create' + k] = lambda E2, s, c, k=k: mk_value(E, s, k, None if not c.args else E.as_str(s, c.args[0]) if k == 'String' else E.to_term(s, c.args[0]))
        C[LV_ + '::is' + k] = lambda E2, s, c, k=k: vkind(E, E.to_term(s, c.obj)) == lit_kind(E, k)

    def assign(E2, s, c):
        move = E.T(c.fn['pt'][0]).get('ref') == 2
        v = take(s, c.args[0], move)
        c.obj.store(E, s, v)
        return c.obj
    C[LV_ + '::operator='] = assign
    C[LV_ + '::operator bool'] = C[LV_ + '::hasValue'] = lambda E2, s, c: vkind(E, E.to_term(s, c.obj)) != lit_kind(E, 'Nothing')


def tokens(E):
    return {n.split('::')[-1]: v for n, v in E.tu.enums[P + '::Token::Kind'].items()}


def escaped(E, b, i):
    """Position i of a string literal that starts at b is escaped."""
    return E.uf('spec.escaped', [b, i], BOOL)


def tokenize(E):
    views(E)
    f = one(E.tu, P + '::Tokenizer::tokenize')
    K = tokens(E)
    st = State()
    l, h = z3.Ints('rest end')
    j = z3.Int('j!')
    st.assume(0 <= l, l <= h, h <= N, z3.ForAll([j], z3.And(CH(j) >= 0, CH(j) <= 255), patterns=[CH(j)]))
    this(E, st, f, text=VIEW.view(l, h), next_token=z3.Const('next', U))
    o = st.env['this']
    quotes = lambda b: z3.And(z3.Not(escaped(E, b, b + 1)),
                              z3.ForAll([j], z3.Implies(j >= b + 1, escaped(E, b, j + 1) == z3.And(z3.Not(escaped(E, b, j)), CH(j) == 92)), patterns=[escaped(E, b, j)]))
    free = lambda b, i: z3.And(CH(i) == 34, z3.Not(escaped(E, b, i)))

    def inv(E2, st0, q, mods):
        v = E.rv(st0, st0.heap[o.oid]['text'])
        b = lo(v)
        out = [('no unescaped quote yet', lambda s, i: z3.ForAll([j], z3.Implies(z3.And(b + 1 <= j, j < b + 1 + i), z3.Not(free(b, j))), patterns=[CH(j)]))]
        for m in mods:
            t = E.mod_val(st0, m)
            if is_z3(t) and z3.is_bool(t):
                out.append(('escape flag', lambda s, i, m=m: E.mod_val(s, m) == escaped(E, b, b + 1 + i)))
        return out
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: True, inv))
    # the definition of escaped positions (by recursion on the position)
    b0 = z3.Int('b!')
    st.assume(z3.ForAll([b0], z3.Not(escaped(E, b0, b0 + 1)), patterns=[escaped(E, b0, b0 + 1)]),
              z3.ForAll([b0, j], z3.Implies(j >= b0 + 1, escaped(E, b0, j + 1) == z3.And(z3.Not(escaped(E, b0, j)), CH(j) == 92)), patterns=[escaped(E, b0, j)]))
    E.current = 'tokenize'
    for s, r in run(E, f, st):
        r = E.rv(s, r)
        k = E.to_term(s, s.get(r, 'kind'))
        val = E.to_term(s, s.get(r, 'value'))
        tx = E.rv(s, s.get(r, 'text'))
        now = E.rv(s, s.heap[o.oid]['text'])
        nl, nh = lo(now), hi(now)
        view = is_z3(tx) and tx.sort() == VIEW
        tl, th = (lo(tx), hi(tx)) if view else (nl, nl)
        skip = lambda a, b, p: z3.ForAll([j], z3.Implies(z3.And(a <= j, j < b), p(CH(j))), patterns=[CH(j)])
        ob = lambda c, what: E.oblige(s, c, 'post: ' + what)
        if not view:
            ob(E.as_str(s, tx) == strval(b''), 'the text of a token is part of the annotation text')
        ob(z3.And(l <= tl, tl <= th, th == nl, nl <= nh, nh == h), 'the token is followed by the remaining text')
        ob(skip(l, tl, blank), 'only blanks are skipped')
        ob(z3.Implies(tl == th, z3.And(tl == h, k == K['Eof'])), 'an empty token is the end of the text')
        c = CH(tl)
        full = tl < th
        imp = lambda a, b: z3.Implies(z3.And(full, a), b)
        none = vkind(E, val) == lit_kind(E, 'Nothing')
        for ch, kind in (('(', 'OpeningParen'), (')', 'ClosingParen'), (',', 'Comma')):
            ob(imp(c == ord(ch), z3.And(k == K[kind], th == tl + 1)), '%s is a token' % ch)
        ob(imp(z3.Not(z3.Or(c_in(c, '(', ')', ',', '"'), word(c))), z3.And(k == K['Invalid'], th == tl + 1, z3.Not(blank(c)))), 'other characters are invalid')
        ob(imp(letter(c), z3.And(k == K['Identifier'], skip(tl, th, word), z3.Implies(th < h, z3.Not(word(CH(th)))))), 'identifiers are maximal words')
        num = number(E, tl, th)
        ob(imp(digit(c), z3.And(skip(tl, th, digit), z3.Implies(th < h, z3.Not(digit(CH(th)))))), 'numbers are maximal sequences of digits')
        ob(imp(digit(c), z3.If(num < 2 ** 32, z3.And(k == K['Literal'], val == E.uf('spec.make_unsigned', [num], U)), k == K['Invalid'])), 'numbers have their value or do not fit 32 bits')
        ob(imp(c == 34, z3.Implies(k == K['Literal'], z3.And(th >= tl + 2, free(tl, th - 1), z3.ForAll([j], z3.Implies(z3.And(tl + 1 <= j, j < th - 1), z3.Not(free(tl, j))), patterns=[CH(j)]),
                                                              val == E.uf('spec.make_string', [slice_(E, tl + 1, th - 1)], U)))), 'strings end at the first unescaped quote')
        ob(imp(c == 34, z3.Or(k == K['Literal'], z3.And(k == K['Invalid'], th == h, z3.ForAll([j], z3.Implies(z3.And(tl + 1 <= j, j < h), z3.Not(free(tl, j))), patterns=[CH(j)])))), 'unterminated strings are invalid')


UNITS += [('Tokenizer::tokenize', SRC, tokenize)]


# ---------------------------------------------------------------- the tokenizer
def token(E, st, kind, text, value):
    return E.new_obj(st, P + '::Token', kind=kind, text=text, value=value)


def tk(E, i):
    """Kind, text and value of token i of the annotation text."""
    return E.uf('spec.token_kind', [i], INT), E.uf('spec.token_text', [i], STR), E.uf('spec.token_value', [i], U)


def token_facts(E):
    K = tokens(E)
    i = z3.Int('i!t')
    k, x, v = tk(E, i)
    lit = z3.Or(vkind(E, v) == lit_kind(E, 'String'), vkind(E, v) == lit_kind(E, 'Unsigned'))
    return [z3.ForAll([i], z3.And(z3.Or(*[k == w for w in K.values()]), z3.Implies(k == K['Literal'], lit)), patterns=[k]),
            z3.ForAll([i], z3.Implies(i >= z3.Int('spec.tokens'), k == K['Eof']), patterns=[k])]


def advance(E):
    """Tokenizer(text) and consumeToken: one token of lookahead."""
    views(E)
    T = P + '::Tokenizer::'
    calls = []

    def tokenize_(E2, s, c):
        o = E.rv(s, c.obj)
        o = o.to if isinstance(o, Ptr) else o
        v = E.rv(s, s.get(o, 'text'))
        s.set(o, 'calls', s.heap[o.oid].get('calls', 0) + 1)
        s.set(o, 'seen', v)
        s.set(o, 'text', VIEW.view(E.uf('spec.next', [v], INT), VIEW.hi(v)))
        return token(E, s, E.uf('spec.kind_at', [v], INT), VIEW.view(E.uf('spec.start', [v], INT), E.uf('spec.next', [v], INT)), E.uf('spec.value_at', [v], U))
    E.contracts[T + 'tokenize'] = tokenize_

    def is_next(s, r, v, what):
        r = E.rv(s, r)
        E.oblige(s, z3.And(E.to_term(s, s.get(r, 'kind')) == E.uf('spec.kind_at', [v], INT), E.to_term(s, s.get(r, 'value')) == E.uf('spec.value_at', [v], U),
                           E.to_term(s, s.get(r, 'text')) == VIEW.view(E.uf('spec.start', [v], INT), E.uf('spec.next', [v], INT))), 'post: ' + what)
    a, b = z3.Const('before', VIEW), z3.Const('rest', VIEW)
    f = one(E.tu, T + 'consumeToken')
    st = State()
    nt = token(E, st, E.uf('spec.kind_at', [a], INT), VIEW.view(E.uf('spec.start', [a], INT), E.uf('spec.next', [a], INT)), E.uf('spec.value_at', [a], U))
    o = this(E, st, f, text=b, next_token=nt)
    E.current = 'consumeToken'
    for s, r in run(E, f, st):
        is_next(s, r, a, 'the token that was next is returned')
        is_next(s, s.get(o, 'next_token'), b, 'the following token is next')
        E.oblige(s, z3.BoolVal(s.heap[o.oid].get('calls') == 1), 'post: exactly one token is read')
    f = one(E.tu, T + 'tokenKind')
    st = State()
    nt = token(E, st, z3.Int('kind'), z3.Const('t', VIEW), z3.Const('v', U))
    this(E, st, f, text=b, next_token=nt)
    E.current = 'tokenKind'
    for s, r in run(E, f, st):
        E.oblige(s, E.to_term(s, r) == z3.Int('kind'), 'post: the kind of the next token')
    cand = [f for f in E.tu.by_q[T + 'Tokenizer'] if len(f['params']) == 1 and 'body' in f and not E.T(f['params'][0]['t']).get('ref')]
    if len(cand) != 1:
        raise Abort('constructor of Tokenizer')
    E.current = 'Tokenizer'
    for s, o in E.repo_ctor(State(), P + '::Tokenizer', cand[0], [a], None):
        E.paths += 1
        is_next(s, s.get(o, 'next_token'), a, 'the first token is next')
        E.oblige(s, z3.BoolVal(s.heap[o.oid].get('calls') == 1), 'post: exactly one token is read')


UNITS += [('Tokenizer::consumeToken, tokenKind, Tokenizer', SRC, advance)]


# ---------------------------------------------------------------- the parser
def names(E):
    """Spelling of every annotation: the name of the enumerator in snake case."""
    import re
    return {re.sub('(?<!^)([A-Z])', r'_\1', n.split('::')[-1]).lower(): v for n, v in E.tu.enums['genpybind::annotations::AnnotationKind::Kind'].items()}


def parser(E, *without):
    """Contracts of the tokenizer (proved above) and of llvm's containers."""
    views(E)
    E.abstract_strings = True
    C = E.contracts
    K = tokens(E)
    T = P + '::Tokenizer::'
    E.lib.ctors['genpybind::annotations::AnnotationKind'] = lambda E2, s, ty, a, e: E.to_term(s, a[0]) if a else E.fresh_const(INT, 'kind')

    def obj(s, c):
        o = E.rv(s, c.obj)
        o = o.to if isinstance(o, Ptr) else o
        if not (isinstance(o, Obj) and E.cls(s, o) == 'tokenizer'):
            raise Abort('tokenizer')
        return o
    C[T + 'tokenKind'] = lambda E2, s, c: tk(E, s.get(obj(s, c), 'pos'))[0]

    def consume(E2, s, c):
        o = obj(s, c)
        i = s.get(o, 'pos')
        s.set(o, 'pos', z3.simplify(i + 1))
        return token(E, s, *tk(E, i))
    C[T + 'consumeToken'] = consume
    # llvm::StringSwitch: the first case that matches
    def sw(E2, s, ty, a, e):
        if len(a) == 1 and isinstance(E.rv(s, a[0]), Obj) and E.cls(s, E.rv(s, a[0])) == 'switch':
            return E.rv(s, a[0])
        return E.new_obj(s, 'switch', text=E.as_str(s, a[0]), cases=())
    E.lib.ctors['llvm::StringSwitch'] = sw

    def parts(s, v):
        v = E.rv(s, v)
        if isinstance(v, Obj) and E.cls(s, v) == 'optional':
            return ('opt', s.get(v, 'has'), s.get(v, 'val'))
        return ('val', E.to_term(s, v))

    def case(n):
        def g(E2, s, c):
            o = E.rv(s, c.obj)
            t = s.get(o, 'text')
            hit = z3.Or(*[t == E.as_str(s, a) for a in c.args[:n or -1]])
            s.set(o, 'cases', s.get(o, 'cases') + ((hit, parts(s, c.args[-1])),))
            return o
        return g
    E.lib.models['llvm::StringSwitch::Case'] = case(1)
    E.lib.models['llvm::StringSwitch::Cases'] = case(None)

    def default(E2, s, c):
        o = E.rv(s, c.obj)
        r = parts(s, c.args[0])
        for hit, p in reversed(s.get(o, 'cases')):
            if p[0] == 'opt' and r[0] == 'opt':
                val = p[2] if not is_z3(r[2]) else z3.If(hit, p[2], r[2]) if is_z3(p[2]) else r[2]
                r = ('opt', z3.If(hit, p[1], r[1]), val)
            elif p[0] == r[0] == 'val':
                r = ('val', z3.If(hit, p[1], r[1]))
            else:
                raise Abort('cases of a switch')
        if r[0] == 'val':
            return r[1]
        return E.new_obj(s, 'optional', has=r[1], val=r[2])
    E.lib.models['llvm::StringSwitch::Default'] = default
    # llvm::Error and llvm::Expected
    def make_error(E2, s, c):
        if len(c.args) != 2:
            raise Abort('make_error')
        return E.new_obj(s, 'error', fail=z3.BoolVal(True), ekind=E.to_term(s, c.args[0]), etext=E.as_str(s, c.args[1]))
    C['llvm::make_error'] = make_error
    C['llvm::Error::success'] = lambda E2, s, c: E.new_obj(s, 'error', fail=z3.BoolVal(False), ekind=z3.IntVal(-1), etext=strval(b''))
    E.lib.ctors['llvm::Error'] = lambda E2, s, ty, a, e: E.rv(s, a[0])
    E.lib.ctors['llvm::ErrorSuccess'] = lambda E2, s, ty, a, e: E.rv(s, a[0])

    def fails(s, v):
        v = E.rv(s, v)
        return v, s.get(v, 'fail')
    C['llvm::Error::operator bool'] = lambda E2, s, c: fails(s, c.obj)[1]

    def expected(E2, s, ty, a, e):
        v = E.rv(s, a[0])
        if isinstance(v, Obj) and E.cls(s, v) == 'expected':
            return v
        if isinstance(v, Obj) and E.cls(s, v) == 'error':
            return E.new_obj(s, 'expected', ok=z3.BoolVal(False), val=None, err=v)
        return E.new_obj(s, 'expected', ok=z3.BoolVal(True), val=v, err=None)
    E.lib.ctors['llvm::Expected'] = expected
    M = {'operator bool': lambda E2, s, c: s.get(E.rv(s, c.obj), 'ok')}

    def get(E2, s, c):
        o = E.rv(s, c.obj)
        E.oblige(s, s.get(o, 'ok'), 'a result is read only if there is one')
        return s.get(o, 'val')

    def take_error(E2, s, c):
        return s.get(E.rv(s, c.obj), 'err')
    M['get'] = M['operator*'] = get
    M['takeError'] = take_error
    for k, g in M.items():
        E.lib.models['llvm::Expected::' + k] = g


def start(E, f):
    st = State()
    st.assume(*token_facts(E))
    i = z3.Int('first')
    st.assume(i >= 0)
    o = E.new_obj(st, 'tokenizer', pos=i)
    this(E, st, f, tokenizer=Ptr(o))
    return st, o, i


def is_value(E, i):
    K = tokens(E)
    k = tk(E, i)[0]
    return z3.Or(k == K['Literal'], k == K['Identifier'])


def spec_value(E, i):
    """The argument value spelled by token i."""
    K = tokens(E)
    k, x, v = tk(E, i)
    mk = lambda n, *a: E.uf('spec.make_' + n, list(a), U)
    w = z3.If(x == strval(b'true'), mk('boolean', z3.BoolVal(True)), z3.If(x == strval(b'false'), mk('boolean', z3.BoolVal(False)),
              z3.If(x == strval(b'default'), mk('default'), mk('string', x))))
    return z3.If(k == K['Literal'], v, w)


def parse_value(E):
    parser(E)
    f = one(E.tu, P + '::parseAnnotationValue')
    st, o, i = start(E, f)
    E.current = 'parseAnnotationValue'
    for s, r in run(E, f, st):
        v = E.to_term(s, r)
        pos = s.get(o, 'pos')
        E.oblige(s, z3.Implies(is_value(E, i), z3.And(v == spec_value(E, i), pos == i + 1)), 'post: a literal or word is the argument it spells')
        E.oblige(s, z3.Implies(is_value(E, i), vkind(E, v) != lit_kind(E, 'Nothing')), 'post: an argument has a value')
        E.oblige(s, z3.Implies(z3.Not(is_value(E, i)), z3.And(vkind(E, v) == lit_kind(E, 'Nothing'), pos == i)), 'post: other tokens are left alone')
    f = one(E.tu, P + '::skipComma')
    st, o, i = start(E, f)
    E.current = 'skipComma'
    comma = tk(E, i)[0] == tokens(E)['Comma']
    for s, r in run(E, f, st):
        E.oblige(s, z3.And(E.to_bool(s, r) == comma, s.get(o, 'pos') == z3.If(comma, i + 1, i)), 'post: at most one comma is skipped')


UNITS += [('Parser::parseAnnotationValue, skipComma', SRC, parse_value)]


def known(E, x):
    return z3.Or(*[x == strval(n.encode()) for n in names(E)])


def kind_of(E, x):
    r = z3.IntVal(-1)
    for n, v in names(E).items():
        r = z3.If(x == strval(n.encode()), v, r)
    return r


def errors(E):
    return {n.split('::')[-1]: v for n, v in E.tu.enums[P + '::Error::Kind'].items()}


def parse_kind(E):
    parser(E)
    f = one(E.tu, P + '::parseAnnotationKind')
    st, o, i = start(E, f)
    k, x, v = tk(E, i)
    st.assume(k == tokens(E)['Identifier'])
    E.current = 'parseAnnotationKind'
    for s, r in run(E, f, st):
        r = E.rv(s, r)
        ok = s.get(r, 'ok')
        E.oblige(s, z3.And(ok == known(E, x), s.get(o, 'pos') == i + 1), 'post: exactly the documented names are accepted')
        if s.get(r, 'val') is not None:
            E.oblige(s, z3.Implies(ok, E.to_term(s, s.get(r, 'val')) == kind_of(E, x)), 'post: the name gives the kind of annotation')
        e = s.get(r, 'err')
        E.oblige(s, ok if e is None else z3.Or(ok, z3.And(s.get(e, 'fail'), s.get(e, 'ekind') == errors(E)['InvalidAnnotation'], s.get(e, 'etext') == x)), 'post: an unknown name is reported as such')


UNITS += [('Parser::parseAnnotationKind', SRC, parse_kind)]


def args_end(E, i):
    """The first token after '(' at i that breaks the alternation of argument and comma."""
    return E.uf('spec.arguments_end', [i], INT)


def is_open(E, i):
    return tk(E, i)[0] == tokens(E)['OpeningParen']


def args_ok(E, i):
    return z3.Or(z3.Not(is_open(E, i)), tk(E, args_end(E, i))[0] == tokens(E)['ClosingParen'])


def after_args(E, i):
    return z3.If(is_open(E, i), args_end(E, i) + 1, i)


def args_error(E, i):
    k, x, v = tk(E, args_end(E, i))
    e = errors(E)
    return z3.If(k == tokens(E)['Invalid'], z3.IntVal(e['InvalidToken']), z3.IntVal(e['MissingClosingParen'])), x


def turn(E, i, j):
    """Token j continues the alternation that starts after i."""
    return z3.If((j - i) % 2 == 1, is_value(E, j), tk(E, j)[0] == tokens(E)['Comma'])


def definition(E, i):
    """Of args_end (it exists because the text ends, and Eof continues nothing)."""
    j = z3.Int('j!q')
    e = args_end(E, i)
    return z3.And(e > i, z3.ForAll([j], z3.Implies(z3.And(i < j, j < e), turn(E, i, j)), patterns=[tk(E, j)[0]]), z3.Not(turn(E, i, e)))


def value_contract(E):
    def g(E2, s, c):
        t = s.get(E.rv(s, s.env['this'] if c.obj is None else c.obj), 'tokenizer').to
        i = s.get(t, 'pos')
        v = z3.If(is_value(E, i), spec_value(E, i), mk_value(E, s, 'Nothing'))
        r = E.fresh_const(U, 'value')
        s.assume(r == v, (vkind(E, r) != lit_kind(E, 'Nothing')) == is_value(E, i))
        s.set(t, 'pos', z3.If(is_value(E, i), i + 1, i))
        return r
    E.contracts[P + '::parseAnnotationValue'] = g


def vec_of(E, s, v):
    v = E.rv(s, v)
    if not (isinstance(v, Obj) and 'arr' in s.heap[v.oid]):
        raise Abort('list expected')
    return s.get(v, 'n'), s.get(v, 'arr')


def parse_arguments(E):
    parser(E)
    value_contract(E)
    f = one(E.tu, P + '::parseAnnotationArguments')
    st, o, i = start(E, f)
    st.assume(definition(E, i))
    k = z3.Int('k!')

    def inv(E2, st0, q, mods):
        try:
            w = Obj(mod_obj(E, st0, mods, 'vec'))
        except Abort:
            if E.quiet:
                return []
            raise
        j = z3.Int('j!q')
        n = lambda s: s.get(w, 'n')
        pos = lambda s: s.get(o, 'pos')
        return [('position', lambda s, x: z3.And(n(s) >= 0, pos(s) == i + 1 + 2 * n(s))),
                ('arguments and commas so far', lambda s, x: z3.ForAll([j], z3.Implies(z3.And(i < j, j < pos(s)), turn(E, i, j)), patterns=[tk(E, j)[0]])),
                ('values so far', lambda s, x: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n(s)), z3.Select(s.get(w, 'arr'), k) == spec_value(E, i + 1 + 2 * k))))]
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: True, inv, auto=False, decreases=lambda E2, s: z3.Int('spec.tokens') - s.get(o, 'pos')))
    E.current = 'parseAnnotationArguments'
    for s, r in run(E, f, st):
        r = E.rv(s, r)
        ok = s.get(r, 'ok')
        E.oblige(s, ok == args_ok(E, i), 'post: the arguments are accepted exactly if every one is followed by a comma or the closing parenthesis')
        if s.get(r, 'val') is not None:
            n, arr = vec_of(E, s, s.get(r, 'val'))
            E.oblige(s, z3.Implies(ok, s.get(o, 'pos') == after_args(E, i)), 'post: parsing continues after the arguments')
            E.oblige(s, z3.Implies(ok, s.get(o, 'pos') >= i), 'post: no token is read twice')
            E.oblige(s, z3.Implies(ok, n == z3.If(is_open(E, i), (args_end(E, i) - i) / 2, 0)), 'post: no argument is dropped or added')
            E.oblige(s, z3.Implies(ok, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(arr, k) == spec_value(E, i + 1 + 2 * k)))), 'post: the arguments are the values spelled, in order')
        e = s.get(r, 'err')
        ek, ex = args_error(E, i)
        E.oblige(s, ok if e is None else z3.Or(ok, z3.And(s.get(e, 'fail'), s.get(e, 'ekind') == ek, s.get(e, 'etext') == ex)), 'post: the error names the first token that does not fit')


UNITS += [('Parser::parseAnnotationArguments', SRC, parse_arguments)]


# The definitions above, opaque: the list does not depend on them.
def is_known(E, x):
    return E.uf('spec.known', [x], BOOL)


def the_kind(E, x):
    return E.uf('spec.kind', [x], INT)


def call_ok(E, i):
    return E.uf('spec.arguments_ok', [i], BOOL)


def behind(E, i):
    return E.uf('spec.after_arguments', [i], INT)


def call_error(E, i):
    return E.uf('spec.error_kind', [i], INT), E.uf('spec.error_token', [i], STR)


def begin(E, k):
    """The token with the name of annotation k."""
    return E.uf('spec.begin', [k], INT)


def step(E, k):
    """Always true; marks where the definition of begin(k + 1) is used."""
    return E.uf('spec.step', [k], BOOL)


def good(E, k):
    i = begin(E, k)
    return z3.And(tk(E, i)[0] == tokens(E)['Identifier'], is_known(E, tk(E, i)[1]), call_ok(E, i + 1))


def comma_after(E, k):
    return tk(E, behind(E, begin(E, k) + 1))[0] == tokens(E)['Comma']


def listed(E, k):
    i = begin(E, k)
    return E.uf('spec.annotation', [the_kind(E, tk(E, i)[1]), E.uf('spec.arguments', [i + 1], U)], U)


def parse_list(E):
    parser(E)
    C = E.contracts
    tok = lambda s, c: s.get(E.rv(s, s.env['this'] if c.obj is None else c.obj), 'tokenizer').to

    def both(s, ok, val, kind, text):
        e = E.new_obj(s, 'error', fail=z3.Not(ok), ekind=kind, etext=text)
        return E.new_obj(s, 'expected', ok=ok, val=val, err=e)

    def kind(E2, s, c):
        o = tok(s, c)
        i = s.get(o, 'pos')
        k, x, v = tk(E, i)
        E.oblige(s, k == tokens(E)['Identifier'], 'a name is only parsed where there is one')
        s.set(o, 'pos', i + 1)
        return both(s, is_known(E, x), the_kind(E, x), z3.IntVal(errors(E)['InvalidAnnotation']), x)
    C[P + '::parseAnnotationKind'] = kind

    def args(E2, s, c):
        o = tok(s, c)
        i = s.get(o, 'pos')
        ek, ex = call_error(E, i)
        s.assume(behind(E, i) >= i)
        s.set(o, 'pos', z3.If(call_ok(E, i), behind(E, i), E.fresh_const(INT, 'pos')))
        return both(s, call_ok(E, i), E.uf('spec.arguments', [i], U), ek, ex)
    C[P + '::parseAnnotationArguments'] = args

    def emplace(E2, s, c):
        v = E.rv(s, c.obj)
        if len(c.args) != 2 or not isinstance(v, Obj):
            return NotImplemented
        t = E.uf('spec.annotation', [E.to_term(s, a) for a in c.args], U)
        s.set(v, 'arr', z3.Store(s.get(v, 'arr'), s.get(v, 'n'), t))
        s.set(v, 'n', s.get(v, 'n') + 1)
        return None
    E.lib.models['std::vector::emplace_back'] = emplace
    E.lib.ctors['genpybind::annotations::Annotation'] = lambda E2, s, ty, a, e: (E.uf('spec.annotation', [E.to_term(s, x) for x in a], U) if len(a) == 2 else E.rv(s, a[0]))
    f = one(E.tu, P + '::parseAnnotations', lambda f: len(f['params']) == 1 and E.T(f['params'][0]['t'])['rec'] == 'std::vector')
    st, o, i = start(E, f)
    k = z3.Int('k!')
    n0 = z3.Int('count')
    # definition of the list spelled by the tokens (it ends because the text does)
    st.assume(begin(E, z3.IntVal(0)) == i, z3.ForAll([k], z3.Implies(k >= 0, begin(E, k + 1) == behind(E, begin(E, k) + 1) + 1), patterns=[step(E, k)]), z3.ForAll([k], step(E, k), patterns=[step(E, k)]))
    last = n0 - 1
    cut = z3.And(n0 >= 1, z3.Not(comma_after(E, last)))     # no comma follows
    st.assume(n0 >= 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n0), z3.And(good(E, k), z3.Implies(k < last, comma_after(E, k)))), patterns=[begin(E, k)]),
              z3.Or(cut, z3.Not(good(E, n0))))
    stop = z3.If(cut, behind(E, begin(E, last) + 1), begin(E, n0))
    sk, sx, sv = tk(E, stop)
    K, R = tokens(E), errors(E)
    ident = z3.And(z3.Not(cut), sk == K['Identifier'])
    unknown = z3.And(ident, z3.Not(is_known(E, sx)))
    bad = z3.And(ident, is_known(E, sx))
    ok0 = sk == K['Eof']
    ae, ax = call_error(E, stop + 1)
    ek = z3.If(unknown, z3.IntVal(R['InvalidAnnotation']), z3.If(bad, ae, z3.IntVal(R['InvalidToken'])))
    ex = z3.If(bad, ax, sx)
    m, olda = z3.Int('before'), z3.Const('list', z3.ArraySort(INT, U))
    st.assume(m >= 0)
    pv = E.fresh(st, f['params'][0]['t'], lambda srt, suf: z3.Const('annotations' + suf, srt))
    if not isinstance(pv, Obj) or 'arr' not in st.heap[pv.oid]:
        raise Abort('list of annotations')
    st.set(pv, 'n', m)
    st.set(pv, 'arr', olda)
    st.env[f['params'][0]['id']] = pv

    def inv(E2, st0, q, mods):
        try:
            w = Obj(mod_obj(E, st0, mods, 'vec'))
        except Abort:
            if E.quiet:
                return []
            raise
        n0_, a0 = st0.get(w, 'n'), st0.get(w, 'arr')
        n = lambda s: s.get(w, 'n')
        c = lambda s: n(s) - n0_
        return [('position', lambda s, x: z3.And(step(E, c(s)), c(s) >= 0, s.get(o, 'pos') == begin(E, c(s)))),
                ('annotations so far', lambda s, x: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c(s)), z3.And(good(E, k), comma_after(E, k))), patterns=[begin(E, k)])),
                ('list so far', lambda s, x: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c(s)), z3.Select(s.get(w, 'arr'), n0_ + k) == listed(E, k)), patterns=[begin(E, k)])),
                ('old entries', lambda s, x: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n0_), z3.Select(s.get(w, 'arr'), k) == z3.Select(a0, k))))]
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: True, inv, auto=False, decreases=lambda E2, s: z3.Int('spec.tokens') - s.get(o, 'pos')))
    E.current = 'parseAnnotations'
    for s, r in run(E, f, st):
        r = E.rv(s, r)
        fail = s.get(r, 'fail')
        n, arr = vec_of(E, s, pv)
        E.oblige(s, fail == z3.Not(ok0), 'post: a text is accepted exactly if it is a list of annotations')
        E.oblige(s, z3.Or(fail, n == m + n0), 'post: no annotation is dropped or added')
        E.oblige(s, z3.Or(fail, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n0), z3.Select(arr, m + k) == listed(E, k)), patterns=[begin(E, k)])), 'post: the annotations are those spelled, in order')
        E.oblige(s, z3.Implies(fail, z3.And(s.get(r, 'ekind') == ek, s.get(r, 'etext') == ex)), 'post: the error names the first token that does not fit')


UNITS += [('Parser::parseAnnotations', SRC, parse_list)]


def entry(E):
    """The two public functions: a tokenizer over the whole text, nothing lost on the way."""
    parser(E)
    C = E.contracts
    text = z3.Const('the text', VIEW)
    E.lib.ctors[P + '::Tokenizer'] = lambda E2, s, ty, a, e: E.new_obj(s, 'tokenizer', pos=z3.IntVal(0), over=E.to_term(s, a[0]))
    inner = z3.Bool('spec.rejected')
    kind, tok = z3.Int('spec.error_kind'), z3.Const('spec.error_token', STR)
    n1, a1 = z3.Int('spec.count'), z3.Const('spec.list', z3.ArraySort(INT, U))

    def member(E2, s, c):
        if len(c.args) not in (1, 2):
            return NotImplemented
        v = E.rv(s, c.args[-1])
        if not (isinstance(v, Obj) and 'arr' in s.heap[v.oid]):
            return NotImplemented
        if len(c.args) == 1:
            o = s.get(E.rv(s, c.obj), 'tokenizer')
            o = o.to if isinstance(o, Ptr) else o
            E.oblige(s, z3.And(s.get(o, 'over') == text, s.get(o, 'pos') == 0), 'the whole text is parsed')
        else:
            E.oblige(s, E.to_term(s, c.args[0]) == text, 'the whole text is parsed')
        s.set(v, 'grown', s.heap[v.oid].get('grown', 0) + 1)
        E.oblige(s, z3.BoolVal(s.heap[v.oid]['grown'] == 1), 'the text is parsed once')
        s.set(v, 'from', s.get(v, 'n'))
        s.set(v, 'n', n1)
        s.set(v, 'arr', a1)
        return E.new_obj(s, 'error', fail=inner, ekind=kind, etext=tok)
    C[P + '::parseAnnotations'] = member
    for f in E.tu.find(P + '::parseAnnotations'):
        ps = f['params']
        recs = [E.T(p['t']).get('rec') for p in ps]
        if recs[:1] != ['llvm::StringRef']:
            continue
        st = State()
        st.assume(n1 >= 0)
        st.env[ps[0]['id']] = E.new_cell(st, text)
        E.current = 'parseAnnotations(%s)' % ', '.join(r.split('::')[-1] for r in recs)
        if len(ps) == 2:
            pv = E.fresh(st, ps[1]['t'], lambda srt, suf: z3.Const('annotations' + suf, srt))
            st.env[ps[1]['id']] = pv
            for s, r in run(E, f, st):
                r = E.rv(s, r)
                E.oblige(s, z3.BoolVal(s.heap[pv.oid].get('grown') == 1), 'post: the annotations are added to the list given')
                E.oblige(s, z3.And(s.get(r, 'fail') == inner, z3.Implies(inner, z3.And(s.get(r, 'ekind') == kind, s.get(r, 'etext') == tok))), 'post: the outcome is passed on')
        elif len(ps) == 1:
            for s, r in run(E, f, st):
                r = E.rv(s, r)
                ok = s.get(r, 'ok')
                E.oblige(s, ok == z3.Not(inner), 'post: the outcome is passed on')
                e = s.get(r, 'err')
                E.oblige(s, ok if e is None else z3.Or(ok, z3.And(s.get(e, 'fail'), s.get(e, 'ekind') == kind, s.get(e, 'etext') == tok)), 'post: the error is passed on')
                if s.get(r, 'val') is not None:
                    n, arr = vec_of(E, s, s.get(r, 'val'))
                    frm = s.heap[E.rv(s, s.get(r, 'val')).oid].get('from', z3.IntVal(-1))
                    E.oblige(s, z3.Implies(ok, z3.And(n == n1, arr == a1, frm == 0)), 'post: the annotations are passed on')


UNITS += [('Parser::parseAnnotations(text)', SRC, entry)]
