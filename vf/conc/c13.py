"""C13: operators."""
import re
from .core import PRE, Module, need, run_cases, split_args, stmts, unquote

RULE = ('random overloaded operators of all kinds (member, friend, free; unary and binary; class operand on '
        'the left, right or both sides; by value, reference, const, named through aliases; hidden, private, deleted) of two '
        'exposed classes; Python names, parameter types and operand order of the generated functions compared '
        'with the reference table; non-trivial: at least one exposed operator')

UN = {'+': '__pos__', '-': '__neg__', '~': '__invert__'}
BIN = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '%': '__mod__', '^': '__xor__',
       '&': '__and__', '|': '__or__', '<': '__lt__', '>': '__gt__', '<=': '__le__', '>=': '__ge__',
       '==': '__eq__', '!=': '__ne__', '<<': '__lshift__', '>>': '__rshift__', '+=': '__iadd__',
       '-=': '__isub__', '*=': '__imul__', '/=': '__itruediv__', '%=': '__imod__', '^=': '__ixor__',
       '&=': '__iand__', '|=': '__ior__', '<<=': '__ilshift__', '>>=': '__irshift__'}
REV = {'+': '__radd__', '-': '__rsub__', '*': '__rmul__', '/': '__rtruediv__', '%': '__rmod__', '^': '__rxor__',
       '&': '__rand__', '|': '__ror__', '<': '__gt__', '>': '__lt__', '<=': '__ge__', '>=': '__le__',
       '==': '__eq__', '!=': '__ne__', '<<': '__rlshift__', '>>': '__rrshift__'}
OTHER_UN = ['!', '*', '&', '++', '--']
OTHER_BIN = ['&&', '||', ',']
MEMBER_ONLY = ['[]', '=', '->', '->*', '()']


class Op:
    pass


def ty(t):
    return re.sub(r'\b([AC]?[TU])\b', r'::n::\1', t)


def norm(s):
    s = re.sub(r'\s+', '', s)
    return re.sub(r'::n::A([TU])\b', r'::n::\1', re.sub(r'::n::C([TU])\b', r'const::n::\1', s))


def unalias(p):
    return re.sub(r'\bA([TU])\b', r'\1', re.sub(r'\bC([TU])\b', r'const \1', p))


def case(ctx, rng, k):
    cxx20 = rng.random() < .15
    recs = ['T', 'U']
    ops = []
    for _ in range(rng.choice([1, 3, 6, 10])):
        o = Op()
        o.form = rng.choice(['member', 'member', 'free', 'friend', 'friend'])
        o.own = rng.choice(recs)
        oth = 'U' if o.own == 'T' else 'T'
        o.unary = rng.random() < .25
        o.const = rng.random() < .6
        o.hidden = rng.random() < .08
        o.deleted = rng.random() < .06
        o.private = o.form == 'member' and rng.random() < .08
        o.str = None
        o.ret = rng.choice(['int', 'bool', 'T', 'U &', 'const T &', 'void'])
        opt = lambda a: rng.choice([a, 'const %s &' % a, '%s &' % a] * 3 + [
            'C%s &' % a, 'A%s' % a, 'const A%s &' % a, 'A%s &' % a])
        if o.unary:
            o.op = rng.choice(list(UN) * 2 + OTHER_UN)
            if o.op == '&' and o.form != 'member' and False:
                continue
            o.params = [] if o.form == 'member' else [opt(o.own)]
        else:
            pool = list(BIN) * 2 + OTHER_BIN + (['<=>'] if cxx20 else [])
            if o.form == 'member':
                pool += MEMBER_ONLY
            o.op = rng.choice(pool)
            second = rng.choice([opt(o.own), opt(oth), 'int', 'double', 'const int &'])
            if o.op == '->':
                o.params, o.ret = [], 'T *'
            elif o.form == 'member':
                o.params = [second]
            else:
                o.params = [opt(o.own), second]
                if rng.random() < .5:
                    o.params.reverse()
                if o.op == '<<' and rng.random() < .5:
                    o.params = ['std::ostream &', opt(o.own)]
                    o.ret = 'std::ostream &'
                    o.str = rng.choice([None, '__str__', '__repr__'])
        o.key = (o.op, o.form == 'member' and o.own, tuple(re.sub(r'\W|const', '', unalias(p)) for p in o.params))
        if any(x.key == o.key for x in ops):
            continue
        if any(x.op == o.op and {len(x.params) + (x.form == 'member'), len(o.params) + (o.form == 'member')}
               == {1, 2} and x.key[1] == o.key[1] and False for x in ops):
            continue
        ops.append(o)

    def decl(o):
        ann = ['hidden'] if o.hidden else []
        if o.str:
            ann.append('expose_as(%s)' % o.str)
        g = ' GENPYBIND(%s)' % ', '.join(ann) if ann else ''
        return '%s%s operator%s(%s)%s%s%s;' % (
            'friend ' if o.form == 'friend' else '', o.ret, o.op,
            ', '.join(o.params), ' const' if o.form == 'member' and o.const else '',
            g, ' = delete' if o.deleted else '')
    lines = ['namespace std { template <class C> class basic_ostream {}; using ostream = basic_ostream<char>; '
             + 'struct strong_ordering {}; }', 'namespace n GENPYBIND(visible) {', 'struct U;', 'struct T;',
             'using AT = T; typedef U AU; using CT = const T; typedef const U CU;']
    for rec in recs:
        lines.append('struct %s {' % rec)
        for o in ops:
            if o.form != 'free' and o.own == rec:
                if o.deleted and o.form == 'friend':
                    o.deleted = False
                if o.private:
                    lines.append('private:')
                lines.append(decl(o))
                if o.private:
                    lines.append('public:')
        lines.append('};')
    for o in ops:
        if o.form == 'free':
            lines.append(decl(o))
    lines.append('}')
    h = PRE + '\n'.join(lines) + '\n'
    r = ctx.run(h, flags=['-std=c++20'] if cxx20 else [])
    need(not r.crashed, 'the tool crashed')
    if r.errors():
        return None         # not valid C++
    m = Module([r.out])
    got = []
    for ident, t, body in m.defs():
        rec = ident.rsplit('_', 1)[-1] if ident.startswith('context_n_') else None
        for what, a in stmts(body):
            if what is None:
                need(False, 'cannot read %r' % a)
            if what not in ('def', 'def_static') or a[0].startswith('::pybind11::init<'):
                continue
            nm = unquote(a[0])
            need(nm != '', 'a binding has an empty name')
            if nm == '__call__':
                continue
            need(rec is not None, 'operator exposed as a function %s of the namespace' % nm)
            if 'string_from_lshift' in a[1]:
                got.append((rec, nm, norm(a[1])))
                continue
            mm = re.match(r'^\[\]\((.*?)\)\s*->\s*(.*?)\s*\{\s*return (.*?);\s*\}$', a[1])
            need(mm, 'cannot read operator definition %r' % a[1])
            ps = {}
            order = []
            for p in split_args(mm[1]):
                q = re.match(r'^(.*?)\s*(\w+)$', p)
                ps[q[2]] = norm(q[1])
                order.append(q[2])
            ex = mm[3]
            q = re.match(r'^(\w+)\s*([^\w\s]+)\s*(\w+)$', ex) or re.match(r'^()([^\w\s]+)\s*(\w+)$', ex)
            need(q, 'cannot read operator expression %r' % ex)
            lhs, opn, rhs = q[1], q[2], q[3]
            need(all(x in ps for x in (lhs, rhs) if x), 'unknown operand in %r' % a[1])
            need(len(ps) == (2 if lhs else 1), 'operands are lost in %r' % a[1])
            got.append((rec, nm, opn, ps.get(lhs), ps[rhs], ps[order[0]], norm(mm[2])))
    want = []
    for o in ops:
        if o.hidden or o.deleted or o.private:
            continue
        base = lambda p: re.sub(r'\bconst\b|&|\s', '', unalias(p))
        if o.form == 'member':
            own = [o.own]
            full = [('const %s &' if o.const else '%s &') % o.own] + o.params
            if o.op in MEMBER_ONLY:
                continue
        else:
            full = o.params
            own = sorted({base(p) for p in full if base(p) in recs})
            if o.form == 'friend':
                own = [o.own]       # only found by lookup for that class
        for rec in own:
            if o.op == '<<' and o.form != 'member' and len(full) == 2 and full[0] == 'std::ostream &':
                if o.str:
                    want.append((rec, o.str, '::genpybind::string_from_lshift<::n::%s>' % rec))
                continue
            T = [norm(ty(p)) for p in full]
            ret = norm(ty(o.ret))
            if len(full) == 1:
                if o.op in UN:
                    want.append((rec, UN[o.op], o.op, None, T[0], T[0], ret))
                continue
            rev = base(full[0]) != rec
            nm = (REV if rev else BIN).get(o.op)
            if nm:
                want.append((rec, nm, o.op, T[0], T[1], T[1] if rev else T[0], ret))
    key = lambda x: tuple(map(str, x))
    got = [tuple(re.sub('std::ostream&', 'std::ostream&', str(y)) if y else y for y in x) for x in got]
    need(sorted(want, key=key) == sorted(got, key=key),
         'operators differ\nonly expected: %r\nonly generated: %r' % ([x for x in want if x not in got],
                                                                      [x for x in got if x not in want]))
    return h if want else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
