"""C15: exposed, hidden and inlined base classes."""
import re
from .core import PRE, Module, need, run_cases, split_args, stmts, unquote

RULE = ('random inheritance graphs (multiple, virtual, repeated and non-public inheritance, exposed and hidden '
        'classes, nested in namespaces) with hide_base/inline_base with and without names at several levels; '
        'Python bases and exposed members of every class compared with the reference; non-trivial: some base '
        'is inlined or hidden')


class C:
    pass


def case(ctx, rng, k):
    n = rng.choice([2, 3, 4, 6, 8])
    cs = []
    for i in range(n):
        c = C()
        c.name = 'K%d' % i
        c.ns = rng.choice(['', '', 'n'])
        c.visible = rng.random() < .75
        c.bases = []
        cand = list(cs)
        rng.shuffle(cand)
        for b in cand[:rng.choice([0, 1, 1, 2, 2, 3])]:
            c.bases.append((rng.choice(['public'] * 5 + ['protected', 'private']), b, rng.random() < .3))
        # non-virtual base that is also an indirect base cannot be named
        allb = lambda x: {y for _, y, _ in x.bases} | {z for _, y, _ in x.bases for z in allb(y)}
        c.bases = [(a, b, v) for a, b, v in c.bases
                   if not any(b in allb(o) for _, o, _ in c.bases if o is not b) or (v and rng.random() < .5)]
        c.hide = c.inl = None
        if rng.random() < .25 and c.bases:
            c.hide = rng.choice([[], [rng.choice(c.bases)[1]], [b for _, b, _ in c.bases[:2]]])
        if rng.random() < .45 and c.bases:
            ab = sorted(allb(c), key=lambda x: x.name)
            c.inl = rng.choice([[], rng.sample(ab, min(len(ab), rng.choice([1, 2]))),
                                [rng.choice(ab)]])
        c.g = rng.random() < .3
        c.priv = rng.random() < .3
        c.field = rng.random() < .3
        cs.append(c)
    q = lambda c: ('::%s' % c.ns if c.ns else '') + '::' + c.name
    lines = []
    for c in cs:
        ann = ['visible'] if c.visible else ['hidden']
        if c.hide is not None:
            ann.append('hide_base(%s)' % ', '.join('"%s"' % (q(b) if rng.random() < .3 else b.name)
                                                   for b in c.hide) if c.hide else
                       rng.choice(['hide_base', 'hide_base()']))
        if c.inl is not None:
            ann.append('inline_base(%s)' % ', '.join('"%s"' % b.name for b in c.inl) if c.inl else
                       rng.choice(['inline_base', 'inline_base()']))
        rng.shuffle(ann)
        d = 'struct GENPYBIND(%s) %s%s {' % (', '.join(ann), c.name, ' : ' + ', '.join(
            '%s%s %s' % ('virtual ' if v else '', a, q(b)) for a, b, v in c.bases) if c.bases else '')
        body = ['%s(); %s(%s *); ~%s();' % (c.name, c.name, c.name, c.name), 'void f_%s();' % c.name]
        if c.g:
            body.append('void g();')
        if c.field:
            body.append('int m_%s; static void s_%s(); enum E_%s { v_%s };' % ((c.name,) * 4))
        if c.priv:
            body.append('protected: void p_%s();' % c.name)
        t = '%s %s };' % (d, ' '.join(body))
        lines.append('namespace %s { %s }' % (c.ns, t) if c.ns else t)
    h = PRE + '\n'.join(lines) + '\n'
    r = ctx.run(h)
    need(not r.crashed, 'the tool crashed')
    if any('ambiguous' in d.msg or 'inaccessible' in d.msg or 'private' in d.msg for d in r.errors()):
        return None
    need(not r.errors(), 'unexpected error %r' % r.errors())
    m = Module([r.out])
    interesting = False
    # a class in namespace n is only exposed if it is visible, namespaces are then kept
    exposed = [c for c in cs if c.visible]
    for c in exposed:
        cand, hide, todo = set(), set(), [c]
        while todo:
            x = todo.pop()
            if x.hide is not None:
                hide |= set(x.hide) if x.hide else {b for _, b, _ in x.bases}
            if x.inl is not None:
                for b in (x.inl if x.inl else allb(x)):
                    if b not in cand:
                        cand.add(b)
                        todo.append(b)
        reach = set()

        def go(x):
            for a, b, _ in x.bases:
                if a == 'public' and b not in hide and b not in reach:
                    reach.add(b)
                    go(b)
        go(c)
        inl = cand & reach
        want = []

        def bases(x):
            for a, b, _ in x.bases:
                if a != 'public' or b in hide:
                    continue
                if b in inl:
                    bases(b)
                elif b.visible and q(b) not in want:
                    want.append(q(b))
        bases(c)
        interesting |= bool(inl or hide)
        ident = 'context_' + (c.ns + '_' if c.ns else '') + c.name
        ex = dict(m.intro).get(ident)
        need(ex, 'class %s is not exposed' % q(c))
        mm = re.match(r'^::pybind11::class_<(.*)>\((\w+), ', ex)
        need(mm, 'cannot read %r' % ex)
        got = split_args(mm[1])
        need(got[0] == q(c), 'type of %s' % ex)
        need(sorted(got[1:]) == sorted(want), 'bases of %s: expected %r, got %r' % (q(c), want, got[1:]))
        d = m.def_of(ident)
        need(d, '%s is not defined' % ident)
        need(d[1] == '::pybind11::class_<%s>' % mm[1], 'parameter type %r differs from %r' % (d[1], mm[1]))
        gm, ctors = [], 0
        for what, a in stmts(d[2]):
            need(what, 'cannot read %r' % a)
            if a[0].startswith('::pybind11::init<'):
                ctors += 1
                continue
            t = re.search(r'&(::[\w:]*)', a[1])
            gm.append((what, unquote(a[0]), t and t[1]))
        wm = []
        for x in [c] + sorted(inl, key=lambda x: x.name):
            wm.append(('def', 'f_' + x.name, q(x) + '::f_' + x.name))
            if x.g and (x is c or not c.g):
                wm.append(('def', 'g', q(x) + '::g'))
            if x.field:
                wm.append(('def_readwrite', 'm_' + x.name, q(x) + '::m_' + x.name))
                wm.append(('def_static', 's_' + x.name, q(x) + '::s_' + x.name))
        # hiding among bases depends on the order of lookup
        if not c.g:
            wm = [x for x in wm if x[1] != 'g']
            gm = [x for x in gm if x[1] != 'g']
        need(sorted(wm) == sorted(gm), 'members of %s: only expected %r, only generated %r' % (
            q(c), [x for x in wm if x not in gm], [x for x in gm if x not in wm]))
        need(ctors == 3, '%d constructors of %s' % (ctors, q(c)))
    return h if interesting else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
