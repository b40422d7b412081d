"""C05: implied visibility, order and completeness of annotations."""
from . import decls
from .core import run_cases

RULE = ('random declarations of 15 kinds below visible, hidden and unannotated scopes, with up to 3 '
        'annotations spread over several attributes, mixed with empty annotations and foreign attributes; '
        'visibility and last-wins effects of every emitted declaration, and one error per annotation that '
        'no handler accepts, compared with the reference; non-trivial: some attribute present')


def case(ctx, rng, k):
    g = decls.Gen(rng, rng.choice([0, 0, 0, 0, .1]), many=True)
    g.scope(None, rng.choice([1, 2, 3, 6]))
    h = decls.check(g, ctx)
    return h if any(d.mentions for d in g.all) else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 3000 if tier == 'quick' else 25000, budget, RULE)
