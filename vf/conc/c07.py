"""C07: the Python object on which each exposed class, enum and submodule is created."""
from . import scopes
from .core import need, run_cases

RULE = ('random scope trees with `module` namespaces, reopened namespaces and relocations; the parent '
        'of every class_/enum_/def_submodule in the generated code is resolved to a Python path and '
        'compared with the reference; non-trivial: at least 3 exposed scopes')


def case(ctx, rng, k):
    opt = dict(size=rng.choice([4, 8, 16, 30]), module=.4, only=.05, reopen=.45, here=rng.random() < .4,
               base=.1, access=.2, ool=.2, ext=.15, rename=.2, bare=.4, barefirst=.2, inline=rng.choice([0, 0, .3]))
    p = scopes.gen(rng, opt)
    h = p.text()
    r = ctx.run(h)
    need(not r.crashed, 'the tool crashed')
    keep, vis, _ = p.kept('m')
    if p.order(keep) is None:
        return None
    need(not r.errors(), 'unexpected error: %r' % r.errors()[:1])
    m = scopes.parse_module(r)
    info = scopes.intro_info(m)
    want, got = [], []
    for n in keep:
        if n.tag():
            want.append((n.kind, n.name, p.py_path(p.enclosing(n)), p.py_name(n)))
    mods = set()
    for n in keep:
        if p.is_module(n):
            key = n.q()
            if key not in mods:
                mods.add(key)
                want.append(('module', None, p.py_path(p.enclosing(n)), p.py_name(n)))
    for ident, (what, t, par, name, _) in info.items():
        if what == 'same':
            continue
        got.append(({'class_': 'rec', 'enum_': 'enum', 'module': 'module'}[what], scopes.last(t),
                    scopes.path_of(info, m.root, par), name))
    key = lambda x: tuple(map(str, x))
    want.sort(key=key)
    got.sort(key=key)
    need(want == got, 'scopes are created on the wrong object\nonly expected: %r\nonly generated: %r' % (
        [x for x in want if x not in got], [x for x in got if x not in want]))
    # an identifier that is called with expose_ stands for the same object everywhere
    return h if len(keep) >= 4 else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
