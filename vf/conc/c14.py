"""C14: properties."""
import re
from .core import PRE, Module, need, run_cases, stmts, unquote

RULE = ('random classes whose methods are annotated as getters and setters of several properties in any order '
        '(several names per method, getter and setter on one method, overloaded accessors, missing or duplicate getters and setters, '
        'hidden and private ones, inlined base classes); emitted properties and methods, respectively the '
        'positions of the errors, compared with the reference; non-trivial: at least one property')

NAMES = ['p', 'q', 'value', 'Value', 'x1', '_y', 'p_', 'pp']


class M:
    pass


TYPES = ['int', 'double', 'bool', 'long']


def params(m):
    if m.get and m.set:
        return m.ty
    if m.set:
        return m.ty + (', int' if m.const else '')
    return ''


def signature(m):
    """what makes overloads of one name different"""
    return m.name, params(m), bool(m.get and not m.set and m.const)


def gen_methods(rng, cnt, names, wild):
    """wild: also duplicates and setters without getters"""
    out = []
    pairs = []
    if not wild:
        gs, ss = [], []
        for n in names:
            gs.append(n)
            if rng.random() < .5:
                ss.append(n)
        # distribute the names over methods
        for pool, what in ((gs, 'g'), (ss, 's')):
            rng.shuffle(pool)
            while pool:
                j = rng.choice([1, 1, 2, 3])
                pairs.append((what, pool[:j]))
                del pool[:j]
    else:
        for _ in range(rng.choice([1, 2, 3, 5])):
            pairs.append((rng.choice('gs'), rng.sample(names, rng.choice([1, 1, min(2, len(names))]))))
    rng.shuffle(pairs)
    for what, ns in pairs:
        m = M()
        cnt[0] += 1
        m.name = rng.choice(['get', 'set', 'm']) + str(cnt[0])
        m.get, m.set = (list(ns), []) if what == 'g' else ([], list(ns))
        m.hidden = m.private = False
        if wild and rng.random() < .15:
            m.hidden = True
        elif wild and rng.random() < .1:
            m.private = True
        elif wild and rng.random() < .15 and what == 'g':
            m.set = rng.sample(names, 1)
        m.const = rng.random() < .7
        m.ty = rng.choice(TYPES)
        if rng.random() < .3 and out:
            # an overload of another accessor
            m.name = rng.choice(out).name
        if any(signature(m) == signature(o) for o in out):
            cnt[0] += 1
            m.name = 'm%d' % cnt[0]
        out.append(m)
    for _ in range(rng.choice([0, 1, 2])):
        m = M()
        cnt[0] += 1
        m.name, m.get, m.set, m.hidden, m.private, m.const = 'plain%d' % cnt[0], [], [], False, False, False
        m.ty = 'int'
        out.insert(rng.randrange(len(out) + 1), m)
    return out


def text(m):
    ann = []
    q = (lambda n: '"%s"' % n) if len(m.name) % 2 else (lambda n: n)
    if m.get:
        if len(m.get) > 1 and m.const:
            ann += ['getter_for(%s)' % q(n) for n in m.get]
        else:
            ann.append('getter_for(%s)' % ', '.join(map(q, m.get)))
    if m.set:
        ann.append('setter_for(%s)' % ', '.join(map(q, m.set)))
    if m.hidden:
        ann.append('hidden')
    g = ' GENPYBIND(%s)' % ', '.join(ann) if ann else ''
    if m.get and m.set:
        return 'int %s(%s v = 0)%s;' % (m.name, m.ty, g)
    if m.get:
        return 'int %s()%s%s;' % (m.name, ' const' if m.const else '', g)
    if m.set:
        return 'void %s(%s v%s)%s;' % (m.name, m.ty, ', int w = 1' if m.const else '', g)
    return 'void %s()%s;' % (m.name, g)


def case(ctx, rng, k):
    cnt = [0]
    wild = rng.random() < .5
    classes = []
    for c in range(rng.choice([1, 1, 2])):
        names = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
        base = None
        if c and rng.random() < .5:
            base = rng.choice(['inline', 'plain'])
            if not wild:
                names = [n for n in names if n not in classes[0][1]] or ['zz']
        classes.append(('C%d' % c, names, gen_methods(rng, cnt, names, wild), base))
    lines = PRE.rstrip('\n').split('\n')
    for name, _, ms, base in classes:
        lines.append('struct GENPYBIND(visible%s) %s%s {' % (', inline_base' if base == 'inline' else '', name,
                                                           ' : C0' if base else ''))
        for m in ms:
            if m.private:
                lines.append('private:')
            lines.append(text(m))
            m.line = len(lines)
            m.cls = name
            if m.private:
                lines.append('public:')
        lines.append('};')
    h = '\n'.join(lines) + '\n'
    r = ctx.run(h)
    need(not r.crashed, 'the tool crashed')
    want_err, want = [], {}
    for name, _, ms, base in classes:
        props = {}
        order = (classes[0][2] if base == 'inline' else []) + ms
        plain = []
        for m in order:
            if m.hidden or m.private:
                continue
            if not m.get and not m.set:
                plain.append(m.name)
            for n in m.get:
                p = props.setdefault(n, [None, None])
                if p[0]:
                    want_err.append(m.line)
                p[0] = m
            for n in m.set:
                p = props.setdefault(n, [None, None])
                if p[1]:
                    want_err.append(m.line)
                p[1] = m
        for n, (g, s) in props.items():
            if g is None:
                want_err.append(s.line)
        want[name] = (props, plain)
    got = sorted(d.line for d in r.errors())
    need(sorted(want_err) == got, 'errors about properties: expected at lines %r, got %r' % (
        sorted(want_err), r.errors()))
    need((r.rc != 0) == bool(want_err), 'exit status %d' % r.rc)
    if want_err:
        return h
    mod = Module([r.out])
    for name, (props, plain) in want.items():
        body = mod.def_of('context_' + name)
        need(body, 'class %s is not exposed' % name)
        gp, gm = {}, []
        for what, a in stmts(body[2]):
            need(what is not None, 'cannot read %r' % a)
            if what.startswith('def_property'):
                nm = unquote(a[0])
                need(nm not in gp, 'property %s is defined twice' % nm)
                fp = [re.search(r'overload_cast<([^<>]*)>\(&::(\w+)::(\w+)(, ::pybind11::const_)?', x) for x in a[1:3]]
                gp[nm] = (what, [(x[2], x[3], x[1], bool(x[4])) for x in fp if x])
            elif what == 'def' and not a[0].startswith('::pybind11::init<'):
                gm.append(unquote(a[0]))
            elif what == 'def':
                pass
            else:
                need(False, 'unexpected %s' % what)
        wp = {n: ('def_property' if s else 'def_property_readonly',
                  [(x.cls,) + signature(x) for x in (g, s) if x]) for n, (g, s) in props.items()}
        need(wp == gp, 'properties of %s: expected %r, got %r' % (name, wp, gp))
        need(sorted(plain) == sorted(gm), 'methods of %s: expected %r, got %r' % (name, plain, gm))
    return h if any(p for p, _ in want.values()) else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
