"""C19: annotations of reopened namespaces."""
from . import scopes
from .core import need, run_cases

RULE = ('random programs that open namespaces several times (also nested), with equal, reordered, '
        'differing or missing annotations and with or without annotated content; the set of positions '
        'of "need to match" errors compared with the reference; non-trivial: at least two openings with '
        'annotated content')

ANN = [[], [], ['visible'], ['hidden'], ['visible(default)'], ['visible(false)'], ['module'],
       ['module(x)'], ['module', 'visible'], ['visible', 'module'], ['only_expose_in(m)'],
       ['only_expose_in(m, o)'], ['only_expose_in(o, m)'], ['only_expose_in(m)', 'only_expose_in(o)'],
       ['expose_as(x)', 'module'], ['expose_as(x)'], ['expose_as(y)'], ['hidden', 'visible'], []]


def settings(ann, name):
    sp = None
    for a in ann:
        if a.startswith('expose_as(') or a.startswith('module('):
            sp = a[a.index('(') + 1:-1]
    mods = []
    for a in ann:
        if a.startswith('only_expose_in('):
            mods += [x.strip() for x in a[15:-1].split(',')]
    return (scopes.vis_of('ns', ann), sp, any(a.startswith('module') for a in ann), tuple(mods))


def case(ctx, rng, k):
    p = scopes.Prog()
    cnt = [0]
    pool = rng.sample(ANN, rng.choice([1, 2, 2, 3]))
    if rng.random() < .5:
        # settings that differ in one place only
        one = [rng.choice(['visible', 'hidden', 'visible(default)'])] if rng.random() < .7 else []
        mods = rng.sample(['m', 'a', 'b', 'M'], rng.randint(1, 3))
        one.append('only_expose_in(%s)' % ', '.join(mods))
        if rng.random() < .5:
            one.append(rng.choice(['module', 'module(x)']))
        two = list(one)
        i = rng.randrange(len(two))
        if two[i].startswith('only'):
            mods[rng.randrange(len(mods))] = rng.choice(['m', 'a', 'b', 'M', 'c'])
            two[i] = 'only_expose_in(%s)' % ', '.join(mods)
        elif two[i].startswith('module'):
            two[i] = rng.choice(['module', 'module(x)', 'module(y)'])
        else:
            two[i] = rng.choice(['visible', 'hidden', 'visible(default)'])
        pool = [one, two]

    def nm(x):
        cnt[0] += 1
        return x + str(cnt[0])

    def fill(s, depth, bare):
        for _ in range(rng.choice([1, 2, 3, 4]) if depth else rng.choice([2, 4, 6])):
            r = rng.random()
            if r < (.6 if depth < 3 else 0) or depth == 0:
                c = scopes.S('ns', rng.choice(['n1', 'n2'] if depth else ['n1', 'n1', 'n2']), s,
                             [] if bare else rng.choice(pool))
                b = bare or rng.random() < .25
                if b:
                    c.ann = []
                s.items.append(c)
                p.scopes.append(c)
                c.ext = rng.random() < .1
                fill(c, depth + 1, b)
            elif r < .8:
                s.items.append(scopes.Fn(nm('f'), [] if bare else rng.choice([[], ['visible'], ['hidden']])))
            else:
                c = scopes.S('rec', nm('r'), s, [] if bare else rng.choice([[], ['visible']]))
                s.items.append(c)
                p.scopes.append(c)
                if not bare and rng.random() < .5:
                    c.items.append(scopes.Fn(nm('f'), ['visible'], 'public'))
    fill(p.tu, 0, False)
    h = p.text()
    r = ctx.run(h)
    need(not r.crashed, 'the tool crashed')
    first, want, cmpd = {}, [], 0

    def go(n):
        nonlocal cmpd
        for it in n.items:
            if isinstance(it, scopes.S) and it.kind == 'ns':
                go(it)
                if p.annotated(it):
                    f = first.setdefault(it.q(), it)
                    if f is not it:
                        cmpd += 1
                        if settings(f.ann, f.name) != settings(it.ann, it.name):
                            want.append(it.line)
    go(p.tu)
    got = [d.line for d in r.errors() if 'need to match' in d.msg]
    need(sorted(want) == sorted(got), 'errors about deviating annotations: expected at lines %r, got %r' % (
        sorted(want), sorted(got)))
    if want:
        need('PYBIND11_MODULE' not in r.out, 'bindings are generated in spite of an error')
    return h if cmpd else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
