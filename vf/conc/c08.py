"""C08: only_expose_in hides exactly the namespaces of other modules."""
from . import scopes
from .core import need, graphs, run_cases, Module

RULE = ('random scope trees whose namespaces name modules, generated for several module names; the set '
        'of scopes in the pruned graph and the exposed functions are compared with the reference; '
        'non-trivial: some namespace is hidden')


def case(ctx, rng, k):
    opt = dict(size=rng.choice([5, 10, 20, 30]), module=.15, only=.45, reopen=.35, here=rng.random() < .3,
               base=.05, access=.2, ext=.1, bare=.5, barefirst=.2, top=4,
               inline=rng.choice([0, 0, .2]), mods=rng.choice([None, ['m', 'M', 'mm', 'm_', 'other']]))
    p = scopes.gen(rng, opt)
    h = p.text()
    name = rng.choice(opt['mods'] or ['m', 'other', 'third', 'unrelated'])
    by_opt = rng.random() < .5
    r = ctx.run(h, ['--dump-graph=visibility', '--dump-graph=pruned'] +
                (['--module-name=' + name] if by_opt else []), name='m.h' if by_opt else name + '.h')
    need(not r.crashed, 'the tool crashed')
    keep, vis, _ = p.kept(name)
    if p.order(keep) is None:
        return None
    need(not r.errors(), 'unexpected error: %r' % r.errors()[:1])
    want = scopes.canon(p, keep, lambda c: 'visible' if vis[c] else 'hidden', vis)
    got = scopes.canon_dump(graphs(r.err).get('pruned', []), lambda a, v: v)
    need(want == got, 'scopes exposed for module %s differ\nexpected %r\ngot      %r' % (name, want, got))
    hid = p.hidden_by_module(name)
    # nothing that is declared in a hidden namespace is exposed
    text = r.out
    for n in hid:
        if n.kind != 'ns':
            continue
        for it in n.items:
            if isinstance(it, scopes.Fn):
                need('"%s"' % it.name not in text, 'function %s of hidden namespace %s is exposed' % (
                    it.name, n.name))
    # what is annotated elsewhere is exposed
    for n in keep:
        if n.kind in ('ns', 'tu'):
            for it in n.items:
                if isinstance(it, scopes.Fn) and scopes.vis_of('x', it.ann):
                    need('"%s"' % it.name in text, 'visible function %s is not exposed' % it.name)
    return h + name if hid else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
