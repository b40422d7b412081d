"""C18: which members are exposed, and how."""
import re
from .core import PRE, Module, need, run_cases, stmts, unquote

RULE = ('random namespaces (visible, hidden, unannotated, nested, reopened) and classes (abstract or not, with '
        'bases and nested types) with functions, variables, aliases, enums, constructors of all kinds, '
        'deleted, overloaded, static, const, private/protected members, members hidden by others, '
        'using-declarations and function template instantiations, some annotated; all statements emitted '
        'per scope compared with the reference; non-trivial: at least one exposed member')


class G:
    def __init__(self, rng):
        self.rng, self.lines, self.n, self.want, self.any = rng, [], 0, {}, 0

    def name(self, p):
        self.n += 1
        return p + str(self.n)

    def ann(self, extra=()):
        """(attribute text, visible, spelling, extra flags)"""
        rng = self.rng
        vis, sp, fl = None, '', {}
        parts = []
        if rng.random() < .45:
            for _ in range(rng.choice([1, 1, 2])):
                c = rng.choice(['visible', 'hidden', 'visible(true)', 'visible(false)', 'visible(default)',
                                'expose_as'] + list(extra))
                if not parts:
                    vis = True
                if c == 'expose_as':
                    sp = self.name('py')
                    c = 'expose_as(%s)' % sp
                elif c in ('visible', 'visible(true)'):
                    vis = True
                elif c in ('hidden', 'visible(false)'):
                    vis = False
                elif c == 'visible(default)':
                    vis = None
                else:
                    m = re.match(r'(\w+)(?:\((\w+)\))?$', c)
                    fl[m[1]] = m[2] != 'false'
                parts.append(c)
        t = 'GENPYBIND(%s)' % ', '.join(parts) if parts else ('GENPYBIND()' if rng.random() < .05 else '')
        return t, vis, sp, fl

    def expect(self, scope, what):
        self.any += 1
        self.want.setdefault(scope, []).append(what)


def ptypes(ps):
    return ', '.join(ps)


PT = ['int', 'double', 'bool', 'char', 'long']


def signature(rng, used):
    for _ in range(20):
        ps = tuple(rng.choice(PT) for _ in range(rng.choice([0, 1, 1, 2, 3])))
        if ps not in used:
            used.add(ps)
            return ps
    return None


def decl_ps(ps, g):
    return ', '.join('%s p%d' % (t, i) for i, t in enumerate(ps))


def args(ps):
    return ['::pybind11::arg("p%d")' % i for i in range(len(ps))]


def gen_enum(g, qual, dflt, ok, indent=''):
    rng = g.rng
    n = g.name('E')
    scoped = rng.random() < .5
    at, vis, sp, fl = g.ann(('export_values', 'export_values(false)', 'arithmetic'))
    v = dflt if vis is None else vis
    q = qual + '::' + n
    ex = v and ok
    g.lines.append('enum %s%s %s {' % ('class ' if scoped else '', at, n))
    if ex:
        g.want.setdefault(q, [])
    for _ in range(rng.choice([0, 1, 3])):
        e = g.name('e')
        at2, v2, sp2, _ = g.ann()
        g.lines.append('%s %s,' % (e, at2))
        if ex and (v if v2 is None else v2):
            g.expect(q, ('value', sp2 or e, q + '::' + e))
    g.lines.append('};')
    if ex and fl.get('export_values', not scoped):
        g.expect(q, ('export_values',))
    return n


def gen_ns(g, qual, dflt, depth, kept):
    rng = g.rng
    n = g.name('n')
    c = rng.choice(['', 'GENPYBIND(visible)', 'GENPYBIND(hidden)', 'GENPYBIND(visible(default))'])
    d = {'': dflt, 'GENPYBIND(visible)': True, 'GENPYBIND(hidden)': False}.get(c, dflt)
    q = qual + '::' + n
    g.lines.append('namespace %s %s {' % (n, c))
    fill(g, q, d, depth)
    g.lines.append('}')


def gen_function(g, q, dflt, used):
    rng = g.rng
    if rng.random() < .3 and used:
        n = rng.choice(sorted(used))
    else:
        n = g.name('f')
        used[n] = set()
    ps = signature(rng, used[n])
    if ps is None:
        return
    at, vis, sp, _ = g.ann()
    deleted = rng.random() < .1
    kind = rng.random()
    g.lines.append('int %s(%s) %s%s;' % (n, decl_ps(ps, g), at, ' = delete' if deleted else ''))
    if rng.random() < .15 and not deleted:
        g.lines.append('int %s(%s);' % (n, ptypes(ps)) if False else '')
    if (dflt if vis is None else vis) and not deleted:
        g.expect(q, ('def', sp or n, '::pybind11::overload_cast<%s>(&%s::%s)' % (ptypes(ps), q, n)) + tuple(args(ps)))


def fill(g, q, dflt, depth):
    rng = g.rng
    used = {}
    for _ in range(rng.choice([0, 1, 2, 4, 6])):
        r = rng.random()
        if r < .3:
            gen_function(g, q, dflt, used)
        elif r < .45:
            n = g.name('v')
            at, vis, sp, _ = g.ann()
            g.lines.append('%s %s %s;' % (rng.choice(['extern int', 'extern const int', 'extern double']), n, at))
            if dflt if vis is None else vis:
                g.expect(q, ('attr', sp or n, q + '::' + n))
        elif r < .55:
            gen_enum(g, q, dflt, True)
        elif r < .65:
            n = g.name('a')
            at, vis, sp, _ = g.ann()
            g.lines.append('using %s %s = Target;' % (n, at))
            if vis:
                g.expect(q, ('attr', sp or n, '::genpybind::getObjectForType<::Target>()'))
        elif r < .72:
            n = g.name('t')
            ta, tv, ts, _ = g.ann()
            g.lines.append('template <typename T> %s int %s(T p0) { return 0; }' % (ta, n))
            for ty in rng.sample(PT, rng.choice([0, 1, 2])):
                g.lines.append('template int %s<%s>(%s);' % (n, ty, ty))
                if dflt if tv is None else tv:
                    g.expect(q, ('def', ts or n, '::pybind11::overload_cast<%s>(&%s::%s<%s>)' % (ty, q, n, ty),
                                 '::pybind11::arg("p0")'))
        elif r < .78:
            # using-declarations make functions of another namespace members of this one
            n = g.name('u')
            at, vis, sp, _ = g.ann()
            src = g.name('src')
            g.lines.insert(g.top, 'namespace %s { int %s(int p0) %s; }' % (src, n, at))
            g.lines.append('using ::%s::%s;' % (src, n))
            if vis:
                g.expect('::' + src, ('def', sp or n, '::pybind11::overload_cast<int>(&::%s::%s)' % (src, n),
                                      '::pybind11::arg("p0")'))
            if dflt if vis is None else vis:
                g.expect(q, ('def', sp or n, '::pybind11::overload_cast<int>(&::%s::%s)' % (src, n),
                             '::pybind11::arg("p0")'))
        elif r < .94:
            gen_class(g, q, dflt, depth)
        elif depth:
            gen_ns(g, q, dflt, depth - 1, True)


def gen_class(g, qual, dflt, depth, ok=True):
    rng = g.rng
    n = g.name('C')
    at, vis, sp, _ = g.ann()
    v = dflt if vis is None else vis
    ok = ok and v
    q = qual + '::' + n
    key = rng.choice(['struct', 'class'])
    base = rng.random() < .15
    g.lines.append('%s %s %s%s {' % (key, at, n, ' : public ::Base' if base else ''))
    acc = 'public' if key == 'struct' else 'private'
    if ok:
        g.want.setdefault(q, [])
    used, ctors, pure, fields, stats = {}, set(), False, [], []
    has_ctor = {'default': None, 'copy': None}
    later = []
    user_move = False
    for _ in range(rng.choice([0, 1, 2, 4, 6, 9])):
        r = rng.random()
        if r < .2:
            acc = rng.choice(['public', 'public', 'protected', 'private'])
            g.lines.append(acc + ':')
            continue
        pub = acc == 'public'
        if r < .45:
            if rng.random() < .3 and used:
                m = rng.choice(sorted(used))
            else:
                m = g.name('m')
                used[m] = set()
            ps = signature(rng, used[m])
            if ps is None:
                continue
            at, vis, s2, _ = g.ann()
            form = rng.choice(['', '', 'const', 'static', 'virtual', 'pure', 'deleted'])
            pre = {'static': 'static ', 'virtual': 'virtual ', 'pure': 'virtual '}.get(form, '')
            post = {'const': ' const', 'pure': '', 'deleted': ''}.get(form, '')
            end = {'pure': ' = 0', 'deleted': ' = delete'}.get(form, '')
            pure |= form == 'pure'
            g.lines.append('%sint %s(%s)%s %s%s;' % (pre, m, decl_ps(ps, g), post, at, end))
            if pub and (v if vis is None else vis) and form != 'deleted':
                later.append(('def_static' if form == 'static' else 'def', s2 or m,
                              '::pybind11::overload_cast<%s>(&%s::%s%s)' % (
                                  ptypes(ps), q, m, ', ::pybind11::const_' if form == 'const' else '')) + tuple(args(ps)))
        elif r < .6:
            f = g.name('d')
            at, vis, s2, fl = g.ann(('readonly', 'readonly(false)', 'readonly(true)'))
            st = rng.random() < .4
            ty = rng.choice(['int', 'const int', 'double', 'int *', 'const int *', 'int *const', 'ConstInt',
                             'Alias', 'const Int', 'Int', 'PtrToConst', 'ConstPtr', 'volatile int'])
            const = ty in ('const int', 'int *const', 'ConstInt', 'Alias', 'const Int', 'ConstPtr')
            g.lines.append('%s%s %s %s%s;' % ('static ' if st else '', ty, f, at, '' if st else ' = 0'))
            if pub and (v if vis is None else vis):
                ro = const or fl.get('readonly', False)
                later.append(('def_%s%s' % ('readonly' if ro else 'readwrite', '_static' if st else ''), s2 or f,
                              '&%s::%s' % (q, f)))
        elif r < .75:
            kind = rng.choice(['default', 'copy', 'move', 'other', 'other'])
            at, vis, _, _ = g.ann()
            deleted = rng.random() < .15
            if kind == 'default':
                ps, text = (), ''
            elif kind == 'copy':
                ps, text = ('const %s &' % q,), 'const %s &p0' % n
            elif kind == 'move':
                ps, text = ('%s &&' % q,), '%s &&p0' % n
            else:
                ps = tuple(rng.choice(PT) for _ in range(rng.choice([1, 2])))
                text = decl_ps(ps, g)
            if ps in ctors:
                continue
            ctors.add(ps)
            g.lines.append('%s(%s) %s%s;' % (n, text, at, ' = delete' if deleted else ''))
            if kind in has_ctor:
                has_ctor[kind] = True
            user_move |= kind == 'move'
            if pub and (v if vis is None else vis) and not deleted and kind != 'move':
                later.append(('init', '::pybind11::init<%s>()' % ptypes(ps)) + tuple(args(ps)))
        elif r < .85:
            if pub:
                gen_enum(g, q, v, ok)
        elif r < .92:
            a = g.name('a')
            at, vis, s2, _ = g.ann()
            g.lines.append('using %s %s = Target;' % (a, at))
            if pub and vis:
                later.append(('attr', s2 or a, '::genpybind::getObjectForType<::Target>()'))
        elif depth:
            gen_class(g, q, v if pub else False, depth - 1, ok)
    # members to pin the implicitly declared ones
    g.lines.append('public:')
    if () not in ctors:
        g.lines.append('%s() GENPYBIND(hidden);' % n)
    if ('const %s &' % q,) not in ctors:
        g.lines.append('%s(const %s &) GENPYBIND(hidden);' % (n, n))
    g.lines.append('};')
    if ok:
        for w in later:
            if w[0] == 'init' and pure:
                continue
            g.expect(q, w)


def scope_key(ty, ident):
    m = re.match(r'::pybind11::(?:class_|enum_)<(.*)>$', ty)
    if m:
        return m[1].split(',')[0]
    return None


def case(ctx, rng, k):
    g = G(rng)
    g.top = 0
    fill(g, '', False, 2)
    for _ in range(rng.choice([0, 1, 2])):
        gen_ns(g, '', False, 2, True)
    h = PRE + 'using ConstInt = const int; typedef ConstInt Alias; using Int = int; using PtrToConst = const int *; using ConstPtr = int *const;\n' \
        'struct Target {}; struct Base { int base_member(); static int base_static; Base(); Base(const Base &); };\n' + '\n'.join(l for l in g.lines if l) + '\n'
    r = ctx.run(h)
    need(not r.crashed, 'the tool crashed')
    need(not r.errors(), 'errors: %r' % r.errors())
    m = Module([r.out])
    got = {}
    for ident, ty, body in m.defs():
        key = scope_key(ty, ident)
        ss = []
        for what, a in stmts(body):
            if what == 'attr' or what == 'value':
                ss.append((what, unquote(a[0]), a[1]))
            elif what == 'export_values':
                ss.append(('export_values',))
            elif what in ('def', 'def_static'):
                if a[0].startswith('::pybind11::init<'):
                    ss.append(('init', a[0]) + tuple(a[2:]))
                else:
                    ss.append((what, unquote(a[0]), a[1]) + tuple(a[3:]))
            else:
                ss.append((what, unquote(a[0])) + tuple(a[1:]))
        if key is None:
            # namespaces: identified by their generated name (the names used here are unique)
            key = ident[len('context'):].rsplit('_', 1)[-1]
            key = next((q for q in g.want if q.rsplit('::', 1)[-1] == key), key)
        got[key] = ss
    for q in set(g.want) | set(got):
        w, x = sorted(g.want.get(q, [])), sorted(got.get(q, []))
        need(w == x, 'scope %s:\nexposed %r\nexpected %r' % (
            q, [s for s in x if s not in w] or x, [s for s in w if s not in x] or w))
    return h if g.any else None


def explore(seed, tier, budget):
    return run_cases(__name__, seed, tier, 2500 if tier == 'quick' else 20000, budget, RULE)
