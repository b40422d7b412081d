"""C16: the language, standard and flags headers are analysed with."""
import json
import os
import shutil
from .. import repo
from .core import PRE, Failure, need, run_cases

RULE = ('random compile commands (given after `--` or in a compile_commands.json, with `--` before the file '
        'name or not) of language and standard options in all spellings, repeated or missing, mixed with -D, '
        '-U, -I, -include and -resource-dir options whose order matters'
        '; the header makes the language, standard, flavour, macro values and included directories '
        'visible in the generated code, and is compared with what the command asks for; non-trivial: some '
        'language or standard option')

STDS = ['c++98', 'c++03', 'c++11', 'gnu++0x', 'gnu++11', 'c++14', 'gnu++14', 'c++1y', 'c++17', 'gnu++17',
        'c++1z', 'c++20', 'gnu++20', 'c++2a', 'gnu++2a', 'c++23', 'gnu++23', 'c++2b', 'c++26', 'gnu++2c',
        'c11', 'gnu11', 'c99', 'gnu99', 'c17', 'c2x', 'gnu2x', 'gnu89', 'iso9899:1999']
CPP = {'c++20': 202002, 'c++2a': 202002, 'c++23': 202302, 'c++2b': 202302, 'c++26': 202400, 'c++2c': 202400}
LANGS = ['c', 'c++', 'c++-header', 'c-header', 'objective-c++', 'cuda' if False else 'c']

HEAD = PRE + '''
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#ifndef __GENPYBIND__
#error macro missing
#endif
#ifdef __STRICT_ANSI__
#define FLAVOUR iso
#else
#define FLAVOUR gnu
#endif
#ifndef MA
#define MA undef
#endif
#ifndef MB
#define MB undef
#endif
#include <where.h>
struct GENPYBIND(visible) CAT(std_, __cplusplus) {};
struct GENPYBIND(visible) CAT(flavour_, FLAVOUR) {};
struct GENPYBIND(visible) CAT(ma_, MA) {};
struct GENPYBIND(visible) CAT(mb_, MB) {};
struct GENPYBIND(visible) CAT(where_, WHERE) {};
#ifdef EXTRA
struct GENPYBIND(visible) CAT(extra_, EXTRA) {};
#endif
#include <stddef.h>
struct GENPYBIND(visible) CAT(res_, RES) {};
'''


def expected_std(stds):
    """(value of __cplusplus, flavour)"""
    if not stds:
        return 201703, 'iso'
    s = stds[-1]
    fl = 'gnu' if s.startswith('gnu') else 'iso'
    return CPP.get(s.replace('gnu', 'c'), 201703) if '++' in s else 201703, fl


def case(ctx, rng, k):
    d = os.path.join(ctx.dir, 'k%d' % k)
    os.makedirs(d)
    try:
        return _case(ctx, rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _case(ctx, rng, d):
    for i in 'abc':
        os.makedirs(d + '/inc' + i)
        with open(d + '/inc%s/where.h' % i, 'w') as f:
            f.write('#define WHERE %s\n' % i)
        with open(d + '/extra%s.h' % i, 'w') as f:
            f.write('#undef EXTRA\n#define EXTRA %s\n' % i)
        os.makedirs(d + '/res%s/include' % i)
        with open(d + '/res%s/include/stddef.h' % i, 'w') as f:
            f.write('#define RES %s\n' % i)
    args, stds = [], []
    macros = {'MA': 'undef', 'MB': 'undef'}
    incs, extra, res = [], None, None
    for _ in range(rng.choice([0, 1, 2, 4, 7, 10])):
        r = rng.random()
        if r < .35:
            s = rng.choice(STDS)
            stds.append(s)
            args.append(rng.choice(['-std=', '-std=', '--std=']) + s)
        elif r < .5:
            l = rng.choice(LANGS)
            args += rng.choice([['-x' + l], ['-x', l], ['--language=' + l], ['--language', l]])
        elif r < .7:
            m = rng.choice(['MA', 'MB'])
            if rng.random() < .3:
                macros[m] = 'undef'
                args += rng.choice([['-U' + m], ['-U', m]])
            else:
                macros[m] = str(rng.randrange(9))
                args += rng.choice([['-D%s=%s' % (m, macros[m])], ['-D', '%s=%s' % (m, macros[m])]])
        elif r < .85:
            i = rng.choice('abc')
            incs.append(i)
            args += rng.choice([['-I%s/inc%s' % (d, i)], ['-I', '%s/inc%s' % (d, i)]])
        elif r < .95:
            extra = rng.choice('abc')
            args += ['-include', '%s/extra%s.h' % (d, extra)]
        else:
            res = rng.choice('abc')
            args += rng.choice([['-resource-dir=%s/res%s' % (d, res)], ['-resource-dir', '%s/res%s' % (d, res)]])
    args.append('-nostdlibinc')
    args.append('-I%s/inca' % d)
    incs.append('a')
    db = rng.random() < .6
    name = 'h.h'
    head = HEAD
    if res is None:
        # the default resource directory of the installation, made recognisable
        head = HEAD.replace('RES)', 'RES_)').replace(
            '#include <stddef.h>', '#include <stddef.h>\n#ifdef NULL\n#define RES_ default_\n#endif')
    else:
        head = HEAD.replace('RES)', 'RES)')
    if db:
        name = rng.choice(['h.h', 'h.hpp', 'h.c', 'h.cpp'])
        cmd = [rng.choice(['clang++', 'clang', 'cc', 'g++', '/usr/bin/c++'])] + args
        if name.startswith('-') or rng.random() < .5:
            cmd.append('--')
        cmd.append(name)
        with open(d + '/compile_commands.json', 'w') as f:
            json.dump([{'directory': d, 'arguments': cmd, 'file': name}], f)
    p = d + '/' + name
    with open(p, 'w', encoding='utf-8') as f:
        f.write(head)
    out = d + '/out.cpp'
    if db:
        argv = ['-p', d, '-o', out, p]
    else:
        argv = ['-o', out, p, '--'] + args
        cmd = args
    r = ctx.exec(argv, header=head + '\n/* command: %s */' % ' '.join(cmd), cwd=d)
    need(not r.crashed, 'the tool crashed')
    need(not r.errors() and r.rc == 0, 'command %r is not accepted: %r' % (cmd, r.errors()))
    with open(out) as f:
        text = f.read()
    std, fl = expected_std(stds)
    want = ['flavour_' + fl, 'ma_' + macros['MA'], 'mb_' + macros['MB'], 'where_' + incs[0],
            'res_' + (res or 'default_')]
    if extra:
        want.append('extra_' + extra)
    for w in want:
        need('::%s>' % w in text, 'command %r: header is analysed without %s' % (cmd, w))
    have = [t.split('L>')[0] for t in text.split('class_<::std_')[1:2]]
    need(len(have) == 1 and (int(have[0]) == std or std == 202400 and int(have[0]) >= std),
         'command %r: __cplusplus is %r, expected %d' % (cmd, have, std))
    return ' '.join(cmd) if stds or 'x' in ' '.join(cmd) else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
