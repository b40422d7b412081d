"""C04: annotations are accepted only where documented and have exactly that effect."""
from . import decls
from .core import run_cases

RULE = ('random declarations of 15 kinds (namespaces, enums, classes, aliases, variables, fields, methods, '
        'constructors, operators, functions, enumerators ...) with 0-3 of the 23 annotations, mostly one '
        'doubtful annotation per header (wrong kind, wrong number or type of arguments, bad names); the '
        'errors per declaration and, if there are none, every emitted statement compared with the '
        'reference; non-trivial: some annotation present')


def case(ctx, rng, k):
    g = decls.Gen(rng, rng.choice([0, 0, .15, .5]), many=rng.random() < .4)
    g.scope(None, rng.choice([1, 2, 3, 5]))
    h = decls.check(g, ctx)
    return h if any(d.anns for d in g.all) else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 3000 if tier == 'quick' else 25000, budget, RULE)
