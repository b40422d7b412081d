"""C20: exit status and output files."""
import os
import shutil
import stat
from .core import PRE, Module, need, run_cases
from .. import repo

RULE = ('random headers with 0-2 errors of 16 kinds (syntax, semantics, missing include, #error, annotation '
        'syntax and use, bases, expose_here conflicts and cycles, properties, operators, parameters; at the '
        'start or end of the header, in scopes that go to any of the files) and 1-5 output files (new, '
        'existing, in missing or unwritable directories, relative, stdout), with and without '
        '--keep-output-files; exit status, remaining files and their completeness compared with the '
        'reference; non-trivial: an error, several files or an unusual path')

ERRORS = [
    'int broken(;', 'nope x;', '#include "missing.h"', '#error stop', 'struct Inc; Inc inc();\nInc z;',
    'void a() GENPYBIND(unknown);', 'void a() GENPYBIND(expose_as("x y"));', 'void a() GENPYBIND(module);',
    'struct GENPYBIND(visible) P { int a() GENPYBIND(getter_for(q)); int b() GENPYBIND(getter_for(q)); };',
    'struct GENPYBIND(visible) P { void b(int) GENPYBIND(setter_for(q)); };',
    'struct U {}; using U1 GENPYBIND(expose_here) = U; using U2 GENPYBIND(expose_here) = U;',
    'struct GENPYBIND(visible) Y { struct Z; }; struct Y::Z { using W GENPYBIND(expose_here) = Y; };',
    'namespace pybind11 { class kwargs {}; } void kw(pybind11::kwargs k, int x) GENPYBIND(visible);',
    'void a(int) GENPYBIND(keep_alive(x, return));',
    'using I GENPYBIND(visible) = int;',
    'namespace r GENPYBIND(module) { void f1() GENPYBIND(visible); } '
    'namespace r { void f2() GENPYBIND(visible); }',
    'template <typename T> struct Undef; using UA GENPYBIND(expose_here) = Undef<int>;',
    'static_assert(sizeof(int) == 1, "");',
    'template <typename T> struct TE { typename T::x y; }; using TA GENPYBIND(expose_here) = TE<int>;',
]


def case(ctx, rng, k):
    d = os.path.join(ctx.dir, 'k%d' % k)
    os.makedirs(d)
    try:
        return _case(ctx, rng, d)
    finally:
        os.chmod(d, 0o700)
        shutil.rmtree(d, ignore_errors=True)


def _case(ctx, rng, d):
    good = ['struct GENPYBIND(visible) A%d { A%d(); int f() const; };' % (i, i) for i in range(rng.choice([0, 1, 3, 6]))]
    errs = rng.sample(ERRORS, rng.choice([0, 0, 1, 1, 1, 2])) if rng.random() < .8 else []
    lines = list(good)
    for e in errs:
        lines.insert(rng.randrange(len(lines) + 1), e)
    h = PRE + '\n'.join(lines) + '\n'
    src = d + '/m.h'
    with open(src, 'w') as f:
        f.write(h)
    outs, bad_path, relative = [], False, False
    for i in range(rng.choice([1, 1, 2, 3, 5])):
        r = rng.random()
        p = '%s/out%d.cpp' % (d, i)
        if r < .06:
            p = rng.choice(['out%d.cpp' % i, './out%d.cpp' % i, '', '../x%d.cpp' % i])
            relative = True
        elif r < .12:
            p = rng.choice(['%s/none/out%d.cpp' % (d, i), '%s/m.h/out%d.cpp' % (d, i)])
            bad_path = True
        elif r < .17:
            p = '-'
        elif r < .35:
            with open(p, 'w') as f:
                f.write('stale\n')
        outs.append(p)
    keep = rng.random() < .15
    argv = []
    for p in outs:
        argv += ['-o', p] if p == '' or rng.random() < .7 else ['-o=' + p] if rng.random() < .5 else ['--o=' + p]
    if keep:
        argv.append('--keep-output-files')
    if rng.random() < .5:
        argv = [src] + argv
    else:
        argv = argv + [src]
    before = {f: open(d + '/' + f).read() for f in os.listdir(d)}
    r = ctx.exec(argv + ['--', '-nostdinc', '-resource-dir=' + repo.RES], header=h, cwd=d)
    need(not r.crashed, 'the tool crashed')
    after = {f: open(d + '/' + f).read() for f in os.listdir(d) if not os.path.isdir(d + '/' + f)}
    names = [os.path.basename(p) for p in outs if p.startswith('/') and not ('/none/' in p or '/m.h/' in p)]
    need(set(after) <= set(before) | set(names), 'unexpected files %r' % sorted(set(after) - set(before)))
    need(after.get('m.h') == before['m.h'], 'the input was changed')
    if relative:
        need(r.rc != 0, 'relative output path is accepted: %r' % argv)
        need(after == before and r.out == '', 'files were written in spite of a relative output path: %r' % (
            sorted(after)))
        return h + repr(argv)
    if errs or bad_path:
        need(r.rc != 0, 'exit status is zero in spite of errors %r' % r.errors())
        need(r.errors() or bad_path, 'no error is reported')
        if not keep:
            for n in names:
                need(n not in after or after[n] == before.get(n), 'output %s is left behind after an error' % n)
        return h + repr(argv)
    need(r.rc == 0, 'exit status is %d without errors' % r.rc)
    texts, k = [], 0
    for p in outs:
        if p != '-':
            n = os.path.basename(p)
            need(n in after, 'output %s was not written' % n)
            need('stale' not in after[n], 'output %s was not rewritten' % n)
            texts.append(after[n])
    if '-' not in outs:
        m = Module(texts)
        need(len(m.module_file) == 1, 'module is defined %d times' % len(m.module_file))
        need(len(m.defs()) == len(good) + 1, '%d of %d definitions were written' % (len(m.defs()), len(good) + 1))
        need(all(t.endswith('\n') for t in texts), 'incomplete output')
        for t in texts:
            need(t.count('{\n') == t.count('\n}'), 'incomplete output')
    return h + repr(argv) if len(outs) > 1 else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
