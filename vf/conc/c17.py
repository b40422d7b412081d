"""C17: relocation with expose_here."""
from . import scopes
from .core import need, graphs, run_cases

RULE = ('random scope trees with one or more expose_here aliases (typedef and using form, before or after '
        'the definition of their target, via another alias, duplicates, cycles); the printed scope graph '
        'with names and visibility, respectively the positions of the errors, compared with the '
        'reference; non-trivial: at least one relocation')


def case(ctx, rng, k):
    opt = dict(size=rng.choice([4, 8, 16, 24]), module=.1, reopen=.2, base=.1, access=.3, ool=.2, ext=.1,
               bare=.5, only_here=True, cycle=.15, fwd=.4, rename=.2, inline=rng.choice([0, .2]))
    p = scopes.gen(rng, opt)
    cnt = [100]

    def nm(pre):
        cnt[0] += 1
        return '%s%d' % (pre, cnt[0])
    for _ in range(rng.choice([1, 2, 3, 4])):
        scopes.add_alias(p, rng, nm, opt)
    moved = [s for s in p.scopes if s.reloc]
    dups = []
    if moved and rng.random() < .25:
        t = rng.choice(moved)
        a0 = t.reloc
        w = rng.choice([p.tu, a0.scope])
        a = scopes.Alias(nm('t'), t, ['expose_here'], w, 'public' if w.kind == 'rec' else None)
        # after the first alias in the source: at the end of the same scope or of the file
        w.items.append(a)
        p.aliases.append(a)
        dups.append(a)
    h = p.text()
    r = ctx.run(h, ['--dump-graph=visibility'])
    need(not r.crashed, 'the tool crashed')
    errs = r.errors()
    if dups:
        need([d.line for d in errs] == [a.line for a in dups] and
             all('already been exposed' in d.msg for d in errs),
             'second expose_here: expected errors at lines %r, got %r' % ([a.line for a in dups], errs))
        need('PYBIND11_MODULE' not in r.out, 'bindings are generated in spite of an error')
        return h
    cyc = [s for s in p.unreachable_cycles() if s.reloc]
    if cyc:
        want = sorted(s.reloc.line for s in cyc)
        need([d.line for d in errs] == want and all('form a cycle' in d.msg for d in errs),
             'cyclic expose_here: expected errors at lines %r, got %r' % (want, errs))
        need('PYBIND11_MODULE' not in r.out, 'bindings are generated in spite of an error')
        return h
    keep, vis0, _ = p.kept('m')
    if p.order(keep) is not None:
        need(not errs, 'unexpected error: %r' % errs[:1])
        # nowhere else, under the alias' name
        if moved:
            m = scopes.parse_module(r)
            info = scopes.intro_info(m)
            for s in moved:
                c = [i for i, v in info.items() if scopes.last(v[1]) == s.name]
                need(len(c) == (1 if s in keep else 0), '%r is exposed %d times' % (s, len(c)))
                for i in c:
                    need(info[i][3] == p.py_name(s) and
                         scopes.path_of(info, m.root, info[i][2]) == p.py_path(p.enclosing(s)),
                         '%r is exposed as %r in %r' % (s, info[i][3], info[i][2]))
    vis = p.visibility()
    want = scopes.canon(p, set(p.scopes), lambda c: '%s %s' % (
        p.py_name(c), 'visible' if vis[c] else 'hidden'), vis)

    got = scopes.canon_dump([(d, k2, n, a or n.split('::')[-1], v) for d, k2, n, a, v in
                             graphs(r.err).get('visibility', [])], lambda a, v: '%s %s' % (a, v))
    need(want == got, 'scope graph differs\nexpected %r\ngot      %r' % (want, got))
    return h if moved else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
