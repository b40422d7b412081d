"""C10: emission order."""
import re
from . import scopes
from .core import need, run_cases

RULE = ('random scope trees with many base-class edges and relocations (also cyclic ones); the order of '
        'the introducers and calls compared with the reference order; non-trivial: an edge that '
        'reorders scopes or a cycle')


def order_of(m, info, p):
    """emitted order as a list of keys: type name, or the last namespace name in the identifier"""
    out = []
    for ident, _ in m.intro:
        what, t, par, name, _ = info[ident]
        if what in ('class_', 'enum_'):
            out.append(scopes.last(t))
    return out


def case(ctx, rng, k):
    opt = dict(size=rng.choice([6, 10, 20, 30]), module=.2, only=0, reopen=.25, here=rng.random() < .6,
               base=.7, access=.2, ool=.4, ext=.1, bare=.5, cycle=.05, virtual=.3,
               inline=rng.choice([0, .2]))
    p = scopes.gen(rng, opt)
    # many visible scopes, so that order matters
    for s in p.scopes:
        if s.first is s and rng.random() < .5 and not s.ann and s.kind != 'ns':
            s.ann = ['visible']
    for s in p.scopes:
        if s.kind == 'ns' and s.first is not s and p.annotated(s):
            s.ann = list(s.first.ann)
    h = p.text()
    if not _consistent(p):
        return None
    r = ctx.run(h)
    need(not r.crashed, 'the tool crashed')
    if p.unreachable_cycles():
        need(r.errors(), 'cyclic relocation is not reported')
        need('PYBIND11_MODULE' not in r.out, 'bindings are generated in spite of a cycle')
        return h
    keep, vis, _ = p.kept('m')
    want = p.order(keep)
    if want is None:
        need(any('cycle' in d.msg for d in r.errors()), 'cyclic prerequisites are not reported')
        need(not re.search(r'^auto ', r.out, re.M), 'an order is emitted in spite of a cycle')
        return h
    need(not r.errors(), 'unexpected error: %r' % r.errors()[:1])
    m = scopes.parse_module(r)
    info = scopes.intro_info(m)
    got = order_of(m, info, p)
    w = [n.name for n in want if n.tag()]
    need(w == got, 'emission order differs\nexpected %r\ngot      %r' % (w, got))
    calls = [c for c, _ in m.calls]
    need(calls == [i for i, _ in m.intro], 'calls are not in emission order')
    # namespaces: identified by the names of the functions they expose
    pos = {}
    for i, (ident, ty, body) in enumerate([(c, None, (m.def_of(c) or (0, 0, []))[2]) for c in calls]):
        for l in body:
            mm = re.match(r'context\.def\("(f\d+)"', l)
            if mm:
                need(mm[1] not in pos, 'function %s is exposed twice' % mm[1])
                pos[mm[1]] = i
    seq, seen = [], set()
    for n in want:
        if n.kind == 'ns':
            if n.q() in seen:
                continue
            seen.add(n.q())
        seq.append(n)
    need(len(seq) == len(calls), '%d scopes are emitted instead of %d' % (len(calls), len(seq)))
    for i, n in enumerate(seq):
        for it in n.items:
            if isinstance(it, scopes.Fn) and it.name in pos and n.kind != 'rec':
                need(pos[it.name] == i, 'scope %r is emitted at position %d instead of %d' % (
                    n, pos[it.name], i))
    srt = sorted((n.line for n in want if n is not p.tu))
    return h if [n.line for n in want if n is not p.tu] != srt else None


def _consistent(p):
    first = {}
    for s in p.scopes:
        if s.kind == 'ns' and p.annotated(s):
            f = first.setdefault(s.q(), s)
            if f.ann != s.ann:
                return False
    return True


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
