"""C06: effective visibility (printed by --dump-graph=visibility) of random scope trees."""
from . import scopes
from .core import need, graphs, run_cases

RULE = ('random scope trees (namespaces incl. reopened, extern "C++" blocks, classes, enums, access '
        'specifiers, out-of-line definitions, expose_here/encourage aliases), all visibility '
        'annotations; compared with the reference semantics; non-trivial: at least 3 scopes')


def case(ctx, rng, k):
    opt = dict(size=rng.choice([4, 8, 16, 30]), module=.2, only=.1, reopen=.4, here=rng.random() < .5,
               base=.2, access=.5, ool=.3, ext=.15, inline=.1)
    p = scopes.gen(rng, opt)
    h = p.text()
    r = ctx.run(h, ['--dump-graph=visibility'])
    need(not r.crashed, 'the tool crashed')
    for d in r.errors():
        need('form a cycle' in d.msg, 'unexpected error: %r' % d)
    vis = p.visibility()
    want = scopes.canon(p, set(p.scopes), lambda c: 'visible' if vis[c] else 'hidden', vis)
    got = scopes.canon_dump(graphs(r.err).get('visibility', []), lambda a, v: v)
    need(want == got, 'effective visibility differs from the reference\nexpected %r\ngot      %r' % (want, got))
    return h if len(p.scopes) >= 3 else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
