"""C09: pruning and the warnings about scopes that are not exposed."""
from . import scopes
from .core import need, graphs, run_cases

RULE = ('random scope trees; pruned graph (with parents) and the positions and order of the '
        '"not exposed" warnings compared with the reference; non-trivial: something is pruned')


def case(ctx, rng, k):
    opt = dict(size=rng.choice([4, 8, 16, 30]), module=.1, only=rng.choice([0, 0, .2]), reopen=.35,
               here=rng.random() < .4, base=.1, access=.5, ool=.2, ext=.15, bare=.5, barefirst=.2,
               inline=rng.choice([0, .2]))
    p = scopes.gen(rng, opt)
    h = p.text()
    r = ctx.run(h, ['--dump-graph=pruned'])
    need(not r.crashed, 'the tool crashed')
    keep, vis, rset = p.kept('m')
    cyc = p.order(keep) is None
    if not cyc:
        need(not r.errors(), 'unexpected error: %r' % r.errors()[:1])
    want = scopes.canon(p, keep, None, vis)
    got = scopes.canon_dump(graphs(r.err).get('pruned', []), None)
    need(want == got, 'kept scopes differ\nexpected %r\ngot      %r' % (want, got))
    want = sorted((n.reloc.line if n.reloc else n.line) for n in rset
                  if n is not p.tu and n not in keep)
    got = [d.line for d in r.warnings() if "contains 'visible' declarations" in d.msg]
    need(want == got, 'warnings about scopes that are not exposed differ: expected at lines %r, got %r' % (
        want, got))
    return h if len(keep) < len(p.scopes) else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
