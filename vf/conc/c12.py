"""C12: parameters and call policies of exposed functions."""
import re
from .core import PRE, Module, need, run_cases, split_args, stmts, unquote

RULE = ('random functions (free, methods, static methods, constructors, call operators) with up to 7 '
        'parameters including pybind11::args/kwargs and default arguments, annotated with keep_alive, '
        'noconvert, required and return_value_policy naming any, several, repeated and unknown '
        'parameters; the emitted arguments and policies compared with the reference; non-trivial: at '
        'least one policy or args/kwargs')

P11 = ('namespace pybind11 { class args {}; class kwargs {}; class object {}; }\n'
       'namespace other { class args {}; class kwargs {}; }\n')
TYPES = ['int', 'double', 'const X &', 'X *', 'X', 'pybind11::object', 'bool', 'other::args', 'other::kwargs']
ARGS = ['pybind11::args', 'const pybind11::args &', 'pybind11::args &']
KW = ['pybind11::kwargs', 'const pybind11::kwargs &']
POLICIES = ['copy', 'move', 'reference', 'reference_internal', 'automatic']


class F:
    pass


def gen_fn(rng, i, kind):
    f = F()
    f.kind, f.name = kind, 'f%d' % i
    n = rng.choice([0, 1, 2, 2, 3, 4, 5, 7])
    f.params = []
    for j in range(n):
        r = rng.random()
        k = 'args' if r < .12 else 'kwargs' if r < .15 else 'plain'
        if j == n - 1 and rng.random() < .2:
            k = 'kwargs'
        t = rng.choice({'args': ARGS, 'kwargs': KW, 'plain': TYPES}[k])
        f.params.append([k, t, rng.choice(['a', 'b', 'arg', 'self', 'x', 'value']) + str(j), None])
    if rng.random() < .4:
        for j in range(n - 1, -1, -1):
            if f.params[j][1] not in ('int', 'double', 'bool') or rng.random() < .3:
                break
            f.params[j][3] = {'int': rng.choice(['0', '42', '-7', 'sizeof(int)' if False else '1 + 2']),
                              'double': '0.5', 'bool': rng.choice(['true', 'false'])}[f.params[j][1]]
    f.ann = []
    names = [p[2] for p in f.params] or ['return']
    bad = rng.random() < .12

    def pick():
        if bad and rng.random() < .3:
            return rng.choice(['nope', 'a', 'Return', 'thi', 'this0'])
        return rng.choice(names)
    f.keep, f.noconv, f.req, f.pol, f.err = [], set(), set(), '', 0
    inst = kind in ('method', 'ctor', 'call')
    valid = ['return'] + (['this'] if inst else []) + [p[2] for p in f.params]

    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        r = rng.random()
        if r < .4:
            x = [pick(), pick()]
            for q in (0, 1):
                if rng.random() < .35:
                    x[q] = rng.choice(['return', 'this'] if inst or bad else ['return'])
            f.ann.append('keep_alive(%s, %s)' % tuple(x))
            if all(a in valid for a in x):
                f.keep.append((valid.index(x[0]), valid.index(x[1])))
            else:
                f.err += 1
        elif r < .8:
            what = rng.choice(['noconvert', 'required'])
            xs = [pick() for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < .5:
                xs = ['"%s"' % x for x in xs]
            f.ann.append('%s(%s)' % (what, ', '.join(xs)))
            for x in xs:
                x = x.strip('"')
                if x in [p[2] for p in f.params]:
                    (f.noconv if what == 'noconvert' else f.req).add(x)
                else:
                    f.err += 1
        else:
            f.pol = rng.choice(POLICIES)
            f.ann.append('return_value_policy(%s)' % f.pol)
    f.trail = any(p[0] == 'kwargs' for p in f.params[:-1])
    return f


def text(f):
    ps = ', '.join('%s %s%s' % (t, n, ' = ' + d if d else '') for _, t, n, d in f.params)
    g = ' GENPYBIND(%s)' % ', '.join(f.ann) if f.ann else ''
    if f.kind == 'ctor':
        return '%s(%s)%s;' % (f.cls, ps, g)
    if f.kind == 'call':
        return 'void operator()(%s)%s;' % (ps, g)
    return '%sX *%s(%s)%s;' % ('static ' if f.kind == 'static' else '', f.name, ps, g)


def expect(f):
    out = []
    for k, t, n, d in f.params:
        if k != 'plain':
            continue
        out.append('::pybind11::arg("%s")%s%s%s' % (n, '.noconvert()' if n in f.noconv else '',
                   '.none(false)' if n in f.req else '', ' = ' + d if d else ''))
    if f.pol:
        out.append('pybind11::return_value_policy::' + f.pol)
    out += ['pybind11::keep_alive<%d, %d>()' % k for k in f.keep]
    return out


def case(ctx, rng, k):
    fns, lines = [], [P11, 'struct GENPYBIND(visible) X { X(const X &) GENPYBIND(hidden); };']
    lines.append('namespace n GENPYBIND(visible) {')
    for i in range(rng.choice([1, 2, 3])):
        f = gen_fn(rng, i, 'free')
        fns.append(f)
        lines.append(text(f))
    for c in range(rng.choice([1, 2])):
        cls = 'C%d' % c
        lines.append('struct %s {' % cls)
        lines.append('%s(const %s &) GENPYBIND(hidden);' % (cls, cls))
        seen = set()
        for i in range(rng.choice([1, 2, 3, 4])):
            f = gen_fn(rng, 10 + 10 * c + i, rng.choice(['method', 'static', 'ctor', 'call']))
            if f.kind in ('ctor', 'call'):
                # declarations of one class must differ
                key = (f.kind, len(f.params))
                lo = len([p for p in f.params if p[3] is None])
                if any(x[0] == f.kind for x in seen):
                    continue
                seen.add(key)
            f.cls = cls
            fns.append(f)
            lines.append(text(f))
        lines.append('};')
    lines.append('}')
    h = PRE + '\n'.join(lines) + '\n'
    r = ctx.run(h)
    need(not r.crashed, 'the tool crashed')
    need(not any('no matching' in d.msg or 'expected' in d.msg for d in r.errors()), 'bad input: %r' % r.errors())
    errs = sum(f.err > 0 for f in fns)
    if errs:
        lns = [i + 1 for i, l in enumerate(h.split('\n')) for f in fns if f.err and l == text(f)]
        got = {d.line for d in r.errors()}
        need(set(lns) <= got, 'unknown parameter names are not reported: expected at %r, got %r' % (lns, got))
        need(r.rc != 0, 'exit status is zero in spite of an error')
        return h
    tr = [i + 1 for i, l in enumerate(h.split('\n')) for f in fns if f.trail and l == text(f)]
    got = sorted(d.line for d in r.errors())
    need(sorted(tr) == got, 'errors about parameters after kwargs: expected at %r, got %r' % (tr, r.errors()))
    if tr:
        need(r.rc != 0, 'exit status is zero in spite of an error')
        return h
    m = Module([r.out])
    seen = {}
    for ident, ty, body in m.defs():
        for what, a in stmts(body):
            if what in ('def', 'def_static'):
                if a[0].startswith('::pybind11::init<'):
                    seen.setdefault((ident.rsplit('_', 1)[-1], 'ctor'), []).append((what, a[2:]))
                else:
                    seen.setdefault((ident.rsplit('_', 1)[-1], unquote(a[0])), []).append((what, a[3:]))
    for f in fns:
        key = ('n' if f.kind == 'free' else f.cls, {'ctor': 'ctor', 'call': '__call__'}.get(f.kind, f.name))
        got = seen.get(key, [])
        need(len(got) == 1, '%s is exposed %d times' % (text(f), len(got)))
        what, a = got[0]
        need(what == ('def_static' if f.kind == 'static' else 'def'), '%s is exposed with %s' % (text(f), what))
        need(a == expect(f), '%s: emitted arguments\n%r, expected\n%r' % (text(f), a, expect(f)))
    return h if any(f.ann or any(p[0] != 'plain' for p in f.params) for f in fns) else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
