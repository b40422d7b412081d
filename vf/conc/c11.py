"""C11: generated names and the distribution over several output files."""
import os
import re
from . import scopes
from .core import need, run_cases, Module, PRE

NAMES = ['a', 'b', 'a_b', 'a_2', 'b_2', 'a_b_2', '_', '_2', 'A', 'root', 'context', 'x', 'a__b', 'a_b_a',
         '\u00e9', '\u00fc', 'a\u00e9', 'expose_a', 'a_3', 'T']
RULE = ('scope trees whose qualified names collide after sanitising (a::b / a_b / a_2 / non-ASCII, class '
        'template specialisations), 1 to 6 output files; declarations, calls, definitions, includes and '
        'module definition are located in every file; non-trivial: at least 3 scopes')


def gen(rng):
    """(header text, list of (key, what)) of exposed scopes; all visible"""
    lines = PRE.rstrip('\n').split('\n')
    scopes_ = []

    def fill(q, depth, ind, kinds):
        used = {'T'} if False else set()
        for _ in range(rng.choice([1, 2, 3, 4]) if depth < 3 else 0):
            n = rng.choice(NAMES)
            if n in used or len(scopes_) > 24:
                continue
            k = rng.choice(kinds)
            if depth and n == q.rsplit('::', 1)[-1]:
                continue
            used.add(n)
            pre = '  ' * ind
            if k == 'ns':
                lines.append(pre + 'namespace %s GENPYBIND(visible%s) {' % (
                    n, rng.choice(['', ', module', ''])))
                start = len(scopes_)
                scopes_.append(('ns', q + '::' + n))
                lines.append(pre + '  void fn_();')
                fill(q + '::' + n, depth + 1, ind + 1, kinds)
                lines.append(pre + '}')
                if rng.random() < .2:
                    lines.append(pre + 'namespace %s {}' % n)
            elif k == 'rec':
                lines.append(pre + 'struct GENPYBIND(visible) %s {' % n)
                scopes_.append(('rec', q + '::' + n))
                fill(q + '::' + n, depth + 1, ind + 1, ['rec', 'rec', 'enum'])
                lines.append(pre + '};')
            elif k == 'enum':
                lines.append(pre + 'enum class GENPYBIND(visible) %s { v };' % n)
                scopes_.append(('enum', q + '::' + n))
            else:
                args = rng.sample(['int', 'long', 'unsigned', 'char', 'int *', 'const int', 'int &'], 2)
                lines.append(pre + 'template <class X> struct %s {};' % n)
                for i, a in enumerate(args):
                    # extern template: the specialisation is a declaration of its own
                    lines.append(pre + 'extern template struct GENPYBIND(visible) %s<%s>;' % (n, a))
                    scopes_.append(('rec', q + '::%s<%s>' % (n, a)))
    fill('', 0, 0, ['ns', 'ns', 'rec', 'rec', 'enum', 'tpl'])
    return '\n'.join(lines) + '\n', scopes_


def check(m, nscopes, nfiles):
    need(m.module_file == [0], 'the module is defined in files %r instead of the first one' % m.module_file)
    need(all(f['includes'] == m.files[0]['includes'] and f['includes'] for f in m.files),
         'the files do not start with the same includes')
    for f in m.files:
        kinds = [k for k, _ in f['pos']]
        need(kinds[:len(f['includes'])] == ['include'] * len(f['includes']), 'includes are not at the start')
        need(not f.get('junk'), 'unexpected text %r' % f.get('junk'))
    ids = [i for i, _ in m.intro]
    need(len(set(ids)) == len(ids), 'generated names are not unique: %r' % sorted(
        i for i in set(ids) if ids.count(i) > 1))
    need(m.root not in ids, 'generated name collides with the module variable')
    need(len(ids) == nscopes, '%d scopes are emitted, expected %d' % (len(ids), nscopes))
    for i in ids:
        need(re.match(r'^[A-Za-z_]\w*$', i, re.A), 'generated name %r is no identifier' % i)
    calls = [c for c, _ in m.calls]
    need(calls == ids and all(a == b for a, b in m.calls), 'calls %r do not match the scopes %r' % (calls, ids))
    defs = [d[0] for d in m.defs()]
    need(sorted(defs) == sorted(ids), 'definitions %r do not match the scopes %r' % (sorted(defs), sorted(ids)))
    main = [d[0] for d in m.files[0]['decls']]
    pos = m.files[0]['pos']
    for i in ids:
        need(('decl', i) in pos and pos.index(('decl', i)) < pos.index(('call', i)),
             'function for %s is not declared before its use' % i)
    ty = {}
    for f in m.files:
        for n, t in f['decls']:
            need(ty.setdefault(n, t) == t, 'declarations of %s differ' % n)
        for n, t, _ in f['defs']:
            need(ty.setdefault(n, t) == t, 'definition and declaration of %s differ' % n)


def case(ctx, rng, k):
    h, sc = gen(rng)
    n = rng.choice([1, 1, 2, 3, 4, 5, 6])
    outs = [os.path.join(ctx.dir, 'out%d.cpp' % i) for i in range(n)]
    for o in outs:
        if os.path.exists(o):
            os.remove(o)
    if rng.random() < .3:
        open(os.path.join(ctx.dir, 'inc1.h'), 'w').close()
        h = '#pragma genpybind include "inc1.h"\n' + h
    args = []
    for o in outs:
        args += ['-o', o]
    r = ctx.run(h, args)
    need(not r.crashed, 'the tool crashed')
    if r.errors():
        need(False, 'unexpected error %r' % r.errors()[:1])
    for o in outs:
        need(os.path.exists(o), 'output file is missing')
    texts = [open(o, encoding='utf-8').read() for o in outs]
    ctx.log[-1]['stdout'] = '\n=====\n'.join(texts)
    m = Module(texts)
    exp = len(sc) + 1
    # empty namespaces are kept because of their function; all scopes are visible
    check(m, exp, n)
    return h + str(n) if len(sc) >= 3 else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 500 if tier == 'quick' else 6000, budget, RULE)
