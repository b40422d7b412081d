"""Random annotated declarations of every kind with reference semantics (C04, C05)."""
import json
import re
from .core import PRE, Module, need, stmts, unquote

GENERAL = {'expose_as', 'hidden', 'visible'}
FN = {'keep_alive', 'noconvert', 'required', 'return_value_policy'}
ALLOWED = {
    'namespace': GENERAL | {'module', 'only_expose_in'},
    'enum': GENERAL | {'arithmetic', 'export_values'},
    'class': GENERAL | {'dynamic_attr', 'hide_base', 'holder_type', 'inline_base'},
    'alias': GENERAL | {'expose_here', 'encourage'},
    'var': GENERAL | {'readonly', 'manual', 'postamble'},
    'svar': GENERAL | {'readonly', 'manual', 'postamble'},
    'field': GENERAL | {'readonly'},
    'method': GENERAL | FN | {'getter_for', 'setter_for'},
    'smethod': GENERAL | FN | {'getter_for', 'setter_for'},
    'call': GENERAL | FN | {'getter_for', 'setter_for'},
    'ctor': GENERAL | FN | {'implicit_conversion'},
    'function': GENERAL | FN,
    'enumerator': GENERAL,
    'operator': GENERAL,
    'conversion': GENERAL,
}
FRIENDLY = {'namespace': 'namespace', 'enum': 'enum', 'class': 'class', 'alias': 'type alias',
            'var': 'variable', 'svar': 'variable', 'field': 'variable', 'method': 'method',
            'smethod': 'method', 'call': 'method', 'ctor': 'constructor', 'function': 'free function',
            'enumerator': 'named declaration', 'operator': 'operator', 'conversion': 'conversion function'}
ALL = sorted(set().union(*ALLOWED.values()))
IDENT = re.compile(r'^[A-Za-z_][A-Za-z0-9_]*$')
POL = ['copy', 'move', 'reference']


class Val:
    """kind is one of s(tring), i(nteger), b(oolean), d(efault)"""

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def text(self, rng):
        if self.kind == 's':
            if IDENT.match(self.v) and self.v not in ('true', 'false', 'default') and rng.random() < .6:
                return self.v
            return '"' + self.v + '"'
        return {'i': str(self.v), 'b': 'true' if self.v else 'false', 'd': 'default'}[self.kind]


def S(v):
    return Val('s', v)


class D:
    def __init__(self, kind, name, line=None):
        self.kind, self.name = kind, name
        self.params = []          # (type, name, default)
        self.anns = []            # (name, [Val])
        self.text = ''
        self.errs = []            # (name, 'kind' | 'other')
        self.kids = []
        self.parent = None


def junk(rng):
    r = rng.random()
    if r < .3:
        return S(rng.choice(['x y', '', '1a', 'a-b', 'true', 'no::pe', 'ok', 'a.b', ' lead', 'class']))
    if r < .5:
        return Val('i', rng.choice([0, 1, 7, 4294967295]))
    if r < .8:
        return Val('b', rng.random() < .5)
    return Val('d', None)


def gen_args(rng, d, name, valid):
    """A (mostly valid) argument list."""
    if not valid:
        r = rng.random()
        base = gen_args(rng, d, name, True)
        if r < .35:
            return base + [junk(rng)]
        if r < .55:
            return []
        if r < .8 and base:
            base[rng.randrange(len(base))] = junk(rng)
            return base
        return [junk(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    ident = lambda: S(rng.choice(['py', 'n_', '_x', 'A9', 'other', 'zz', 'Class']) + str(rng.randrange(90)))
    if name == 'expose_as':
        return [rng.choice([ident(), ident(), ident(), Val('d', None)])]
    if name == 'visible':
        return rng.choice([[], [], [Val('b', True)], [Val('b', False)], [Val('d', None)]])
    if name in ('arithmetic', 'export_values', 'dynamic_attr', 'implicit_conversion', 'readonly'):
        return rng.choice([[], [Val('b', True)], [Val('b', False)]])
    if name in ('getter_for', 'setter_for'):
        return [ident() for _ in range(rng.choice([1, 1, 2]))]
    if name in ('hide_base', 'inline_base'):
        return []
    if name == 'holder_type':
        return [S('std::shared_ptr<%s>' % rng.choice('XYZ'))]
    if name == 'return_value_policy':
        return [S(rng.choice(POL))]
    if name == 'keep_alive':
        ok = ['return'] + (['this'] if d.kind in ('method', 'call', 'ctor') else []) + [p[1] for p in d.params]
        return [S(rng.choice(ok)), S(rng.choice(ok))]
    if name in ('noconvert', 'required'):
        if not d.params:
            return []
        return [S(rng.choice(d.params)[1]) for _ in range(rng.choice([1, 1, 2]))]
    if name == 'module':
        return rng.choice([[], [ident()]])
    if name == 'only_expose_in':
        return [S(rng.choice(['m', 'n', 'other']))] + ([S('m')] if rng.random() < .6 else [])
    return []


def judge_annotation(d, name, args, s):
    """Applies the annotation to the settings `s`; returns the expected error class or None."""
    k = d.kind
    if name not in ALLOWED[k]:
        return 'kind'
    kinds = ''.join(a.kind for a in args)

    def flag(key):
        if kinds == '':
            s[key] = True
        elif kinds == 'b':
            s[key] = args[0].v
        else:
            return 'other'
    if name == 'hidden':
        if args:
            return 'other'
        s['visible'] = False
    elif name == 'visible':
        if kinds == 'd':
            s['visible'] = None
        else:
            return flag('visible')
    elif name == 'expose_as':
        if kinds == 'd':
            s['spelling'] = ''
        elif kinds == 's' and IDENT.match(args[0].v):
            s['spelling'] = args[0].v
        else:
            return 'other'
    elif name in ('arithmetic', 'export_values', 'dynamic_attr', 'readonly'):
        return flag(name)
    elif name == 'implicit_conversion':
        if len(d.params) != 1:
            return 'other'
        return flag(name)
    elif name in ('getter_for', 'setter_for'):
        need_ = sum(p[2] is None for p in d.params)
        if name == 'getter_for' and need_ > 0:
            return 'other'
        if name == 'setter_for' and (not d.params or need_ > 1):
            return 'other'
        if not args or set(kinds) != {'s'} or not all(IDENT.match(a.v) for a in args):
            return 'other'
        s[name] = s[name] | {a.v for a in args}
    elif name in ('hide_base', 'inline_base'):
        if set(kinds) - {'s'}:
            return 'other'
        s['warn'] += 1
    elif name in ('holder_type', 'return_value_policy'):
        if kinds != 's':
            return 'other'
        s[name] = args[0].v
    elif name == 'keep_alive':
        if kinds != 'ss':
            return 'other'
        ok = ['return'] + (['this'] if k in ('method', 'call', 'ctor') else []) + [p[1] for p in d.params]
        if not all(a.v in ok for a in args):
            return 'other'
        s[name] = s[name] + [tuple(ok.index(a.v) for a in args)]
    elif name in ('noconvert', 'required'):
        if not args or set(kinds) != {'s'} or not all(a.v in [p[1] for p in d.params] for a in args):
            return 'other'
        s[name] = s[name] | {a.v for a in args}
    elif name == 'module':
        if kinds == 's' and IDENT.match(args[0].v):
            s['spelling'] = args[0].v
        elif kinds != '':
            return 'other'
        s['module'] = True
    elif name == 'only_expose_in':
        if not args or set(kinds) != {'s'}:
            return 'other'
        s[name] = s[name] + [a.v for a in args]
    elif name in ('expose_here', 'encourage'):
        if args:
            return 'other'
        s[name] = True
        if s['expose_here'] and s['encourage']:
            return 'other'
    elif name in ('manual', 'postamble'):
        return 'other'            # the initialisers generated here are not suitable lambda expressions
    return None


def defaults():
    return dict(visible=None, spelling='', arithmetic=False, export_values=None, dynamic_attr=False,
                readonly=False, implicit_conversion=False, getter_for=frozenset(), setter_for=frozenset(),
                holder_type='', return_value_policy='', keep_alive=[], noconvert=frozenset(),
                required=frozenset(), module=False, only_expose_in=[], expose_here=False, encourage=False,
                warn=0)


def annotate(rng, d, rate_bad, many):
    """Chooses annotations and computes settings and expected errors."""
    s = defaults()
    parts = []
    nonempty = False
    if rng.random() < .8:
        pool = sorted(ALLOWED[d.kind] - {'manual', 'postamble', 'only_expose_in',
                                         'hide_base', 'inline_base'})
        for _ in range(rng.choice([1, 1, 2, 3] if many else [1, 1, 1, 2])):
            bad = rng.random() < rate_bad
            name = rng.choice(ALL if bad else pool if rng.random() < .6 else sorted(GENERAL))
            if name not in ALLOWED[d.kind] and d.kind in ('operator', 'conversion') and name in FN:
                continue
            if name in ('getter_for', 'setter_for') and not bad and not d.prop:
                continue
            if name == 'implicit_conversion' and not bad and len(d.params) != 1:
                continue
            if not bad and {name} | {n for n, _ in d.anns} >= {'encourage', 'expose_here'}:
                continue
            args = gen_args(rng, d, name, not (bad and rng.random() < .7))
            d.anns.append((name, args))
    # distribute over several attributes
    texts = []
    for name, args in d.anns:
        if args or rng.random() < .2:
            t = name + '(' + ', '.join(a.text(rng) for a in args) + (',' if args and rng.random() < .1 else '') + ')'
        else:
            t = name
        texts.append(t)
    groups = []
    for t in texts:
        if groups and rng.random() < .6:
            groups[-1].append(t)
        else:
            groups.append([t])
    attrs = ['GENPYBIND(%s%s)' % ((' , ' if rng.random() < .3 else ', ').join(g), ',' if rng.random() < .1 else '')
             for g in groups]
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        attrs.insert(rng.randrange(len(attrs) + 1), rng.choice([
            'GENPYBIND()', '__attribute__((annotate("visible")))', '__attribute__((annotate("")))',
            'GENPYBIND( )', '__attribute__((annotate("x\u25cavisible")))', '__attribute__((deprecated))']
            if d.kind != 'namespace' else ['GENPYBIND()', '__attribute__((annotate("visible")))']))
    if d.anns and d.kind != 'namespace':
        s['visible'] = True
    for name, args in d.anns:
        t = dict(s)
        e = judge_annotation(d, name, args, t)
        if e:
            d.errs.append((name, e))
        else:
            s = t
    d.s = s
    d.attrs = ' '.join(attrs)
    d.mentions = bool(attrs)


def params(rng, d, maxn):
    for j in range(rng.randrange(maxn + 1)):
        d.params.append([rng.choice(['int', 'double']), 'p%d' % j, None])
    if d.params and rng.random() < .3:
        d.params[-1][2] = '3'


def ptext(d):
    return ', '.join('%s %s%s' % (t, n, ' = ' + x if x else '') for t, n, x in d.params)


def args_expected(d):
    s = d.s
    out = ['::pybind11::arg("%s")%s%s%s' % (n, '.noconvert()' if n in s['noconvert'] else '',
           '.none(false)' if n in s['required'] else '', ' = ' + x if x else '') for t, n, x in d.params]
    if s['return_value_policy']:
        out.append('pybind11::return_value_policy::' + s['return_value_policy'])
    return out + ['pybind11::keep_alive<%d, %d>()' % k for k in s['keep_alive']]


class Gen:
    def __init__(self, rng, rate_bad, many=False):
        self.rng, self.bad, self.many = rng, rate_bad, many
        self.lines = []
        self.all = []
        self.n = 0
        self.targets = []

    def fresh(self, kind, parent):
        self.n += 1
        d = D(kind, '%s%d' % (kind, self.n))
        d.parent = parent
        d.prop = False
        self.all.append(d)
        if parent is not None:
            parent.kids.append(d)
        return d

    def ann(self, d):
        annotate(self.rng, d, self.bad, self.many)

    def put(self, d, text):
        self.lines.append(text)
        d.line = len(self.lines)
        d.text = text

    def member(self, cls, seen):
        rng = self.rng
        k = rng.choice(['method', 'method', 'smethod', 'field', 'svar', 'ctor', 'call', 'operator',
                        'conversion', 'enum', 'alias', 'class'])
        if k in ('ctor', 'call', 'conversion', 'operator'):
            if k in seen:
                return
            seen.add(k)
        if k == 'enum':
            return self.enum(cls)
        if k == 'alias':
            return self.alias(cls)
        if k == 'class':
            return self.cls(cls, 0)
        d = self.fresh(k, cls)
        if k in ('method', 'smethod', 'call', 'ctor'):
            params(rng, d, 3)
            d.prop = rng.random() < .3 and k == 'method'
        if k == 'ctor' and not d.params:
            d.params = [['int', 'p0', None]]
        d.scoped = False
        self.ann(d)
        a = d.attrs
        if k == 'method':
            t = 'int %s(%s) %s;' % (d.name, ptext(d), a)
        elif k == 'smethod':
            t = 'static int %s(%s) %s;' % (d.name, ptext(d), a)
        elif k == 'call':
            t = 'int operator()(%s) %s;' % (ptext(d), a)
        elif k == 'ctor':
            t = '%s(%s) %s;' % (cls.name, ptext(d), a)
        elif k == 'field':
            d.const = rng.random() < .3
            t = '%sint %s %s;' % ('const ' if d.const else '', d.name, a)
        elif k == 'svar':
            d.const = rng.random() < .3
            t = 'static %sint %s %s;' % ('const ' if d.const else '', d.name, a)
        elif k == 'operator':
            t = '%s operator-() const %s;' % (cls.name, a)
        else:
            t = 'operator bool() const %s;' % a
        self.put(d, t)

    def enum(self, parent):
        rng = self.rng
        d = self.fresh('enum', parent)
        d.scoped = rng.random() < .5
        self.ann(d)
        self.put(d, 'enum %s%s %s {' % ('class ' if d.scoped else '', d.attrs, d.name))
        for _ in range(rng.choice([0, 1, 2])):
            e = self.fresh('enumerator', d)
            self.ann(e)
            self.put(e, '%s %s,' % (e.name, e.attrs))
        self.lines.append('};')

    def alias(self, parent):
        rng = self.rng
        d = self.fresh('alias', parent)
        self.ann(d)
        d.target = 'T%d' % self.n
        self.targets.append(d)
        self.put(d, 'using %s %s = targets::%s;' % (d.name, d.attrs, d.target))

    def cls(self, parent, depth):
        rng = self.rng
        d = self.fresh('class', parent)
        self.ann(d)
        self.put(d, 'struct %s %s {' % (d.attrs, d.name))
        self.lines.append('%s(const %s &) GENPYBIND(hidden);' % (d.name, d.name))
        seen = set()
        if depth:
            for _ in range(rng.choice([0, 1, 2, 4])):
                self.member(d, seen)
        self.lines.append('};')

    def scope(self, ns, n):
        rng = self.rng
        for _ in range(n):
            k = rng.choice(['function', 'function', 'enum', 'class', 'class', 'var', 'alias', 'namespace'])
            if k == 'enum':
                self.enum(ns)
            elif k == 'class':
                self.cls(ns, 1)
            elif k == 'alias':
                self.alias(ns)
            elif k == 'namespace':
                d = self.fresh('namespace', ns)
                self.ann(d)
                self.put(d, 'namespace %s %s {' % (d.name, d.attrs))
                for _ in range(rng.choice([0, 1])):
                    f = self.fresh('function', d)
                    params(rng, f, 2)
                    self.ann(f)
                    self.put(f, 'int %s(%s) %s;' % (f.name, ptext(f), f.attrs))
                self.lines.append('}')
            elif k == 'var':
                d = self.fresh('var', ns)
                self.ann(d)
                self.put(d, 'extern int %s %s;' % (d.name, d.attrs))
            else:
                d = self.fresh('function', ns)
                params(rng, d, 3)
                self.ann(d)
                self.put(d, 'int %s(%s) %s;' % (d.name, ptext(d), d.attrs))

    def header(self):
        tg = 'namespace targets { %s }' % ' '.join('struct %s {};' % d.target for d in self.targets)
        pre = PRE + tg + '\n'
        self.off = pre.count('\n')
        return pre + '\n'.join(self.lines) + '\n'


def eff(d):
    """Effective visibility of a declaration, and whether its scope is exposed."""
    if d is None:
        return False
    if d.s['visible'] is not None:
        return d.s['visible']
    return eff(d.parent)


def blocked(d):
    """True if an enclosing class is hidden or an enclosing namespace belongs to another module."""
    p = d.parent
    while p is not None:
        if p.kind in ('class', 'enum') and not eff(p):
            return True
        if p.kind == 'namespace' and p.s['only_expose_in'] and 'm' not in p.s['only_expose_in']:
            return True
        p = p.parent
    return False


def spelling(d, fallback=None):
    return d.s['spelling'] or fallback or d.name


def check(g, ctx, errors_only=False):
    h = g.header()
    r = ctx.run(h, name='m.h')
    need(not r.crashed, 'the tool crashed')
    exp = {}
    for d in g.all:
        if d.errs:
            exp[d.line + g.off] = d
    got = {}
    late = 0
    for e in r.errors():
        # (the pairing of getters and setters is the subject of C14)
        if re.match(r"No getter for the|(getter|setter) already defined", e.msg):
            late += 1
            continue
        got.setdefault(e.line, []).append(e.msg)
    for ln, d in exp.items():
        msgs = got.pop(ln, [])
        rest = list(msgs)
        for name, k in d.errs:
            if k == 'kind':
                m = [x for x in rest if x.startswith('Invalid annotation for %s: %s(' % (FRIENDLY[d.kind], name))]
                need(m, '%s: annotation %r is not reported as invalid for this kind of declaration; '
                     'errors: %r' % (d.text, name, msgs))
                rest.remove(m[0])
        for name in sorted({n for n, k in d.errs if k == 'other'}):
            m = [x for x in rest if "'%s'" % name in x or ' %s(' % name in x]
            # (several arguments of one annotation can be wrong)
            need(len(m) >= d.errs.count((name, 'other')),
                 '%s: wrong use of %r is not reported; errors: %r' % (d.text, name, msgs))
            rest = [x for x in rest if x not in m]
        need(not rest, '%s: unexpected errors %r' % (d.text, rest))
    need(not got, 'errors for valid annotations: %r' % {
        (h.split('\n')[ln - 1] if ln else ln): m for ln, m in got.items()})
    if late:
        return h
    need((r.rc != 0) == bool(exp), 'exit status %d with errors expected: %r' % (r.rc, bool(exp)))
    if exp:
        return h
    if errors_only:
        return h
    verify_output(g, r)
    return h


def verify_output(g, r):
    m = Module([r.out])
    intros = {}
    for ident, ex in m.intro:
        intros[ident] = ex
    body, types = {}, {}
    for ident, ty, b in m.defs():
        body[ident] = stmts(b)
        types[ident] = ty
    by_name = {}
    for ident in body:
        by_name.setdefault(ident.rsplit('_', 1)[-1], []).append(ident)
    tgt = {}
    for d in g.targets:
        tgt[d.target] = d
    for name, d in tgt.items():
        enc = eff(d) and not blocked(d) if d.s['expose_here'] else d.s['encourage']
        need(bool(by_name.get(name)) == bool(enc), 'target %s of %r is %sexposed' % (
            name, d.text, '' if by_name.get(name) else 'not '))
        if enc:
            ex = intros[by_name[name][0]]
            want = spelling(d) if d.s['expose_here'] else name
            need('"%s"' % want in ex, 'target %s of %r is introduced by %s' % (name, d.text, ex))
    for d in g.all:
        s = d.s
        vis = eff(d) and not blocked(d)
        if d.kind == 'alias' and (s['visible'] is None or s['expose_here']):
            vis = False
        where = body_of(d.parent, by_name, body)
        if d.kind in ('class', 'enum'):
            ids = by_name.get(d.name, [])
            need(len(ids) == (1 if vis else 0), '%s: exposed %d times' % (d.text, len(ids)))
            if vis:
                ex = intros[ids[0]]
                need('(' in ex and '"%s"' % spelling(d) in ex, '%s: introduced by %s' % (d.text, ex))
                if d.kind == 'class':
                    need(('::pybind11::dynamic_attr()' in ex) == s['dynamic_attr'], '%s: %s' % (d.text, ex))
                    hold = re.search(r', (std::shared_ptr<\w>)>', ex)
                    need((hold[1] if hold else '') == s['holder_type'] or s['holder_type'] and
                         ', %s>' % s['holder_type'] in ex, '%s: holder in %s' % (d.text, ex))
                else:
                    need(('::pybind11::arithmetic()' in ex) == s['arithmetic'], '%s: %s' % (d.text, ex))
                    xv = s['export_values'] if s['export_values'] is not None else not d.scoped
                    need((('export_values', []) in body[ids[0]]) == xv, '%s: export_values %s' % (
                        d.text, body[ids[0]]))
            continue
        if d.kind == 'namespace':
            ids = by_name.get(d.name, [])
            if ids:
                ex = intros[ids[0]]
                need(('def_submodule("%s")' % spelling(d) in ex) if s['module'] else ('def_submodule' not in ex),
                     '%s: introduced by %s' % (d.text, ex))
            kids = [k for k in d.kids if eff(k) and not blocked(k)]
            if kids:
                need(len(ids) == 1, '%s: exposed %d times' % (d.text, len(ids)))
            continue
        if where is None:
            need(not vis, '%s: its scope is not exposed' % d.text)
            continue
        found = matching(d, where)
        if d.kind == 'operator':
            need(len(found) == (1 if vis else 0), '%s: exposed %d times' % (d.text, len(found)))
            continue
        if d.kind in ('method', 'smethod') and (s['getter_for'] or s['setter_for']):
            need(not found, '%s: exposed as a method' % d.text)
            if vis:
                for p in s['getter_for']:
                    ok = [a for w, a in where if w in ('def_property', 'def_property_readonly')
                          and unquote(a[0]) == p and '::%s' % d.name in a[1]]
                    need(len(ok) == 1, '%s: property %s' % (d.text, p))
            continue
        need(len(found) == (1 if vis else 0), '%s: exposed %d times' % (d.text, len(found)))
        if not vis:
            continue
        w, a = found[0]
        if d.kind in ('function', 'method', 'smethod', 'call'):
            need(w == ('def_static' if d.kind == 'smethod' else 'def'), '%s: %s' % (d.text, w))
            need(unquote(a[0]) == spelling(d, '__call__' if d.kind == 'call' else None), '%s: named %s' % (d.text, a[0]))
            need(a[3:] == args_expected(d), '%s: emitted %r, expected %r' % (d.text, a[3:], args_expected(d)))
        elif d.kind == 'ctor':
            need(a[2:] == args_expected(d), '%s: emitted %r, expected %r' % (d.text, a[2:], args_expected(d)))
            ic = [x for x in where if x[0] == 'implicitly_convertible']
            need(len(ic) == (1 if s['implicit_conversion'] else 0), '%s: %r' % (d.text, ic))
        elif d.kind in ('field', 'svar'):
            ro = d.const or s['readonly']
            need(w == 'def_%s%s' % ('readonly' if ro else 'readwrite', '_static' if d.kind == 'svar' else ''),
                 '%s: exposed by %s' % (d.text, w))
            need(unquote(a[0]) == spelling(d), '%s: named %s' % (d.text, a[0]))
        elif d.kind in ('var', 'alias', 'enumerator'):
            need(w == ('value' if d.kind == 'enumerator' else 'attr'), '%s: exposed by %s' % (d.text, w))
            need(unquote(a[0]) == spelling(d), '%s: named %s' % (d.text, a[0]))


def body_of(p, by_name, body):
    if p is None:
        ids = [i for i in body if i == 'context']
        return body[ids[0]] if ids else None
    ids = by_name.get(p.name, [])
    return body[ids[0]] if len(ids) == 1 else None


def matching(d, where):
    """Statements of the scope that refer to the declaration."""
    out = []
    for w, a in where:
        t = ', '.join(a)
        if d.kind == 'alias':
            ok = w == 'attr' and a[1] == '::genpybind::getObjectForType<::targets::%s>()' % d.target
        elif d.kind == 'ctor':
            ok = w == 'def' and a[0] == '::pybind11::init<%s>()' % ', '.join(p[0] for p in d.params)
        elif d.kind == 'call':
            ok = w == 'def' and '::operator()' in t
        elif d.kind == 'operator':
            ok = w == 'def' and a[0] == '"__neg__"'
        elif d.kind == 'conversion':
            ok = w == 'def' and '::operator bool' in t
        elif d.kind in ('var', 'enumerator', 'field', 'svar'):
            ok = len(a) > 1 and re.search(r'::%s$' % d.name, a[1])
        else:
            ok = w in ('def', 'def_static') and len(a) > 1 and re.search(r'::%s\b' % d.name, a[1])
        if ok:
            out.append((w, a))
    return out
