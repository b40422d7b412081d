"""Random scope trees (namespaces, classes, enums, relocations, reopenings) and the
reference semantics of visibility, nesting, pruning and emission order."""
import re

from .core import PRE, Failure, Module, graphs, need, split_args, stmts, tree, unquote


class S:
    """One scope declaration (each opening of a namespace is one)."""

    def __init__(self, kind, name, parent, ann=(), access=None):
        self.kind, self.name, self.parent, self.ann = kind, name, parent, list(ann)
        self.access = access          # None at namespace scope
        self.items = []               # S | Fn | Alias | Ext
        self.bases = []               # (access, S)
        self.virt = set()             # bases that are virtual
        self.line = 0                 # line of the definition
        self.reloc = None             # Alias that moved it
        self.scoped = True
        self.inline = False
        self.encouraged = False
        self.ext = False
        self.ool = False              # defined out of line
        self.first = self             # first opening
        self.fwd = False

    def q(self):
        p = self.parent.q() if self.parent and self.parent.kind != 'tu' else ''
        return p + '::' + self.name

    def tag(self):
        return self.kind in ('rec', 'enum')

    def __repr__(self):
        return '%s %s' % (self.kind, self.q())


class Fn:
    def __init__(self, name, ann=(), access=None):
        self.name, self.ann, self.access, self.line = name, list(ann), access, 0


class Alias:
    def __init__(self, name, target, ann, scope, access=None):
        self.name, self.target, self.ann, self.scope, self.access = name, target, list(ann), scope, access
        self.line = 0


class Using:
    """Annotated elsewhere; a declaration that must not matter."""


def vis_of(kind, ann):
    v = True if ann and kind != 'ns' else None
    for a in ann:
        if a in ('visible', 'visible()', 'visible(true)'):
            v = True
        elif a in ('visible(false)', 'hidden', 'hidden()'):
            v = False
        elif a == 'visible(default)':
            v = None
    return v


def arg_of(ann, name):
    """Last value of name(...) as text, '' for a bare one, None if absent."""
    r = None
    for a in ann:
        if a == name:
            r = ''
        elif a.startswith(name + '('):
            r = a[len(name) + 1:-1]
    return r


def spelling(ann, name):
    """annotated Python name, or the C++ one"""
    r = name
    for a in ann:
        m = re.match(r'(expose_as|module)\("?(\w+)"?\)$', a)
        if m:
            r = name if m[2] == 'default' and m[1] == 'expose_as' else m[2]
    return r


class Prog:
    def __init__(self):
        self.tu = S('tu', '', None)
        self.scopes = []
        self.aliases = []
        self.lines = PRE.rstrip('\n').split('\n')

    # -- text
    def text(self):
        self.lines = PRE.rstrip('\n').split('\n')
        for s in self.scopes:
            if s.fwd:
                self.put(0, 'struct %s;' % s.name)
        for a in self.aliases:
            if getattr(a, 'via', None):
                self.put(0, 'using %s = %s;' % (a.via, a.target.q()))
        self._items(self.tu, 0)
        return '\n'.join(self.lines) + '\n'

    def put(self, ind, s):
        self.lines.append('  ' * ind + s)
        return len(self.lines)

    @staticmethod
    def g(ann, multi=None):
        return 'GENPYBIND(%s) ' % ', '.join(ann) if ann else ''

    def _items(self, s, ind):
        acc = 'public'
        for it in s.items:
            if s.kind == 'rec' and it.access != acc:
                acc = it.access
                self.put(ind, acc + ':')
            if isinstance(it, Fn):
                it.line = self.put(ind, 'void %s() %s;' % (it.name, self.g(it.ann).strip()))
            elif isinstance(it, Alias):
                to = it.target.q()
                if getattr(it, 'via', None):
                    to = '::' + it.via
                if getattr(it, 'typedef', False):
                    it.line = self.put(ind, 'typedef %s %s %s;' % (to, it.name, self.g(it.ann).strip()))
                else:
                    it.line = self.put(ind, 'using %s %s= %s;' % (it.name, self.g(it.ann), to))
            elif it.kind == 'fwd':
                self.put(ind, 'struct %s;' % it.name)
            else:
                self._scope(it, ind)

    def _scope(self, n, ind, name=None):
        if n.ool and name is None:
            self.put(ind, 'struct %s;' % n.name)
            return
        name = name or n.name
        ext = n.ext and n.access is None
        if ext:
            self.put(ind, 'extern "C++" {')
        if n.kind == 'ns':
            n.line = self.put(ind, '%snamespace %s %s{' % ('inline ' if n.inline else '', name,
                                                          self.g(n.ann)))
            self._items(n, ind + 1)
            self.put(ind, '}')
        elif n.kind == 'rec':
            b = ', '.join('%s%s %s' % ('virtual ' if x in n.virt else '', a, x.q()) for a, x in n.bases)
            n.line = self.put(ind, 'struct %s%s%s {' % (self.g(n.ann), name, ' : ' + b if b else ''))
            self._items(n, ind + 1)
            self.put(ind, '};')
            for it in n.items:
                if isinstance(it, S) and it.ool:
                    pass
        else:
            n.line = self.put(ind, 'enum %s%s%s { v_%s };' % ('class ' if n.scoped else '',
                                                            self.g(n.ann), name, n.name))
        if ext:
            self.put(ind, '}')
        # out of line definitions follow at namespace scope
        if n.parent is None or n.parent.kind in ('tu', 'ns'):
            self._ool(n, ind, name)

    def _ool(self, n, ind, prefix):
        if n.kind != 'rec':
            return
        for it in n.items:
            if isinstance(it, S) and it.kind == 'rec':
                if it.ool:
                    self._scope(it, ind, prefix + '::' + it.name)
                self._ool(it, ind, prefix + '::' + it.name)

    # -- semantics
    def gparent(self, n):
        if n.reloc is not None:
            return n.reloc.scope
        return n.parent

    def children(self, n):
        return [c for c in self.scopes if self.gparent(c) is n]

    def visattr(self, n):
        if n.reloc is not None:
            return vis_of('alias', n.reloc.ann)
        if n.encouraged:
            return True
        return vis_of(n.kind, n.ann)

    def visibility(self):
        out = {self.tu: False}

        def go(n):
            for c in self.children(n):
                v = self.visattr(c)
                if v is None:
                    v = False if c.access in ('private', 'protected') else out[n]
                out[c] = v
                go(c)
        go(self.tu)
        return out

    def own_visible(self, n, default):
        """Visible declarations directly in this opening that are no scopes."""
        for it in n.items:
            if isinstance(it, (Fn, Alias)):
                if it.access in ('private', 'protected'):
                    continue
                v = vis_of('x', it.ann)
                if (default if v is None else v):
                    return True
            elif isinstance(it, S) and it.kind == 'enum' and not it.scoped and default \
                    and it.access not in ('private', 'protected'):
                return True         # its enumerators are found here as well
        if n.kind == 'enum':
            return default and n.access not in ('private', 'protected')    # the enumerator
        return False

    def with_visible(self, vis):
        r = set()

        def go(n):
            hit = False
            for c in self.children(n):
                go(c)
                if c in r and not (c.tag() and not vis[c]):
                    hit = True
                if c.tag() and vis[c]:
                    hit = True
            if hit or self.own_visible(n, vis[n]):
                r.add(n)
        go(self.tu)
        return r

    def nsann(self, n):
        """Annotations that decide about the module an opening of a namespace belongs to."""
        if n.kind != 'ns' or self.annotated(n):
            return n.ann
        for o in self.scopes:
            if o.kind == 'ns' and o.first is n.first and self.annotated(o):
                return o.ann
        return n.ann

    def only_in(self, n):
        mods = []
        for a in self.nsann(n):
            if a.startswith('only_expose_in('):
                mods += [x.strip().strip('"') for x in a[15:-1].split(',')]
        return mods

    def hidden_by_module(self, module):
        out = set()

        def go(n, dom):
            for c in self.children(n):
                m = self.only_in(c) if c.kind == 'ns' else []
                d = dom or (bool(m) and module not in m)
                if d:
                    out.add(c)
                go(c, d)
        go(self.tu, False)
        return out

    def kept(self, module):
        vis = self.visibility()
        r = self.with_visible(vis)
        for n in self.hidden_by_module(module):
            vis[n] = False
            r.discard(n)
        keep = set()

        def go(n):
            if n is not self.tu and not (vis[n] if n.tag() else n in r):
                return
            if n is self.tu and n not in r:
                return
            keep.add(n)
            for c in self.children(n):
                go(c)
        go(self.tu)
        return keep, vis, r

    def py_name(self, n):
        if n.reloc is not None:
            return spelling(n.reloc.ann, n.reloc.name)
        return spelling(self.nsann(n), n.name)

    def is_module(self, n):
        return n.kind == 'ns' and any(a == 'module' or a.startswith('module(') for a in self.nsann(n))

    def enclosing(self, n):
        # namespaces without any annotation stand for the same object as their parent, but
        # count as scopes of their own in the emission order
        p = self.gparent(n)
        while p.kind == 'ns' and self.nsann(p) and not self.is_module(p):
            p = self.gparent(p)
        return p

    def py_path(self, n):
        """Python path of the object that n's scope resolves to."""
        if n.kind == 'tu':
            return ()
        if n.kind == 'ns' and not self.is_module(n):
            return self.py_path(self.enclosing(n))
        return self.py_path(self.enclosing(n)) + (self.py_name(n),)

    def order(self, keep):
        """Emission order, or None if the prerequisites are cyclic."""
        nodes = {n for n in keep} | {self.tu}
        pre = {}
        for n in nodes:
            d = set()
            if n is not self.tu:
                e = self.enclosing(n)
                d.add(e)
                d |= {b for a, b in n.bases if a == 'public' and b in nodes}
            pre[n] = d
        done, out = set(), []
        while True:
            ready = [n for n in nodes if n not in done and pre[n] <= done]
            if not ready:
                break
            n = min(ready, key=lambda x: x.line if x is not self.tu else -1)
            done.add(n)
            out.append(n)
        return out if len(out) == len(nodes) else None

    def unreachable_cycles(self):
        """Relocated scopes from which the root cannot be reached."""
        bad = []
        for n in self.scopes:
            seen, p = set(), n
            while p is not None and p.kind != 'tu' and p not in seen:
                seen.add(p)
                p = self.gparent(p)
            if p is None or p.kind != 'tu':
                bad.append(n)
        return bad

    def annotated(self, n):
        """The opening carries annotations or contains annotated declarations."""
        if n.ann:
            return True
        for it in n.items:
            if isinstance(it, (Fn, Alias)) and it.ann:
                return True
            if isinstance(it, S) and self.annotated(it):
                return True
        return False


VIS = [[], [], [], ['visible'], ['visible'], ['hidden'], ['visible(false)'], ['visible(true)'],
       ['visible(default)'], ['hidden', 'visible'], ['visible', 'hidden'], ['visible', 'visible(default)']]


def gen(rng, opt, names=None):
    """opt: size, module, only, reopen, here, base, inline, enum, access, rename"""
    p = Prog()
    cnt = [0]
    mods = opt.get('mods') or ['m', 'other', 'third']

    def nm(pre):
        cnt[0] += 1
        if names:
            return names(rng, pre, cnt[0])
        return '%s%d' % (pre, cnt[0])

    def chance(k):
        return rng.random() < opt.get(k, 0)

    def ns_ann():
        a = list(rng.choice(VIS))
        if chance('module'):
            a.insert(rng.randrange(len(a) + 1),
                     rng.choice(['module', 'module', 'module(pm%d)' % cnt[0]]))
        if chance('only'):
            a.insert(rng.randrange(len(a) + 1), 'only_expose_in(%s)' % ', '.join(
                rng.sample(mods, rng.randint(1, 2))))
            if rng.random() < .2:
                a.append('only_expose_in(%s)' % rng.choice(mods))
        return a

    def tag_ann():
        a = list(rng.choice(VIS))
        if chance('rename'):
            a.append(rng.choice(['expose_as(py%d)' % cnt[0], 'expose_as("py%d")' % cnt[0]]))
        return a

    def fn_ann():
        return list(rng.choice(VIS))

    def fill(s, depth):
        k = rng.choice([0, 1, 1, 2, 2, 3]) if depth else rng.choice([2, 3, 4, 5])
        seen = {}
        if s.kind == 'tu':
            k = max(k, opt.get('top', 2))
        for _ in range(k):
            if cnt[0] >= opt.get('size', 12):
                return
            acc = None
            if s.kind == 'rec':
                acc = rng.choice(['public', 'public', 'public', 'protected', 'private']) \
                    if chance('access') else 'public'
            r = rng.random()
            if s.kind in ('tu', 'ns') and r < .4:
                prev = [x for x in s.items if isinstance(x, S) and x.kind == 'ns']
                if prev and chance('reopen'):
                    o = rng.choice(prev).first
                    c = S('ns', o.name, s, [], acc)
                    c.first = o
                    c.inline = o.inline
                    s.items.append(c)
                    p.scopes.append(c)
                    bare = rng.random() < opt.get('bare', .5)
                    if not bare:
                        c.ann = list(next((x.ann for x in p.scopes if x.first is o and x.ann), []))
                        fill(c, depth + 1)
                    else:
                        # nothing annotated in here
                        for _ in range(rng.choice([0, 1, 2])):
                            if rng.random() < .5:
                                c.items.append(Fn(nm('f')))
                            else:
                                t = S('rec', nm('r'), c, [], None)
                                c.items.append(t)
                                p.scopes.append(t)
                else:
                    c = S('ns', nm('n'), s, [], acc)
                    ann = ns_ann()
                    c.ext = chance('ext')
                    c.inline = chance('inline')
                    s.items.append(c)
                    p.scopes.append(c)
                    if chance('barefirst'):
                        b = c
                        b.nofill = True
                        if rng.random() < .5:
                            b.items.append(Fn(nm('f')))
                        if rng.random() < .7:
                            t = S('rec', nm('r'), b, [], None)
                            b.items.append(t)
                            p.scopes.append(t)
                        c = S('ns', b.name, s, [], acc)
                        c.first = b
                        c.inline = b.inline
                        s.items.append(c)
                        p.scopes.append(c)
                    c.ann = ann
                    fill(c, depth + 1)
            elif r < .75:
                c = S('rec', nm('r'), s, [], acc)
                c.ann = tag_ann()
                c.ext = chance('ext')
                c.ool = s.kind == 'rec' and chance('ool')
                s.items.append(c)
                if chance('base'):
                    cand = [x for x in p.scopes if x.kind == 'rec' and x.access in (None, 'public') and
                            not _encl(c, x) and not x.ool and all(a.access in (None, 'public')
                                                                  for a in _chain(x))
                            and x not in _chain(c) and not _inool(x)]
                    for b in rng.sample(cand, min(len(cand), rng.choice([1, 1, 2]))):
                        if c.ool and c.parent in _chain(b):
                            continue
                        if any(b2 in _allbases(b) or b in _allbases(b2) for _, b2 in c.bases):
                            continue
                        c.bases.append((rng.choice(['public', 'public', 'public', 'protected', 'private']),
                                        b))
                        if chance('virtual'):
                            c.virt.add(b)
                p.scopes.append(c)
                fill(c, depth + 1)
            elif r < .85 and opt.get('enum', 1):
                c = S('enum', nm('e'), s, [], acc)
                c.ann = tag_ann()
                c.scoped = rng.random() < .7
                if not c.scoped and vis_of('enum', c.ann) is False:
                    c.scoped = True
                s.items.append(c)
                p.scopes.append(c)
            else:
                s.items.append(Fn(nm('f'), fn_ann(), acc))
    fill(p.tu, 0)
    if opt.get('here'):
        for _ in range(rng.choice([1, 1, 2, 3])):
            add_alias(p, rng, nm, opt)
    return p


def _chain(n):
    out = []
    while n is not None and n.kind != 'tu':
        out.append(n)
        n = n.parent
    return out


def _inool(n):
    return any(x.ool for x in _chain(n))


def _encl(c, x):
    """x is c or encloses c (then it is incomplete)."""
    return x in _chain(c)


def _allbases(n):
    out = set()
    for _, b in n.bases:
        out |= {b} | _allbases(b)
    return out | {n}


def add_alias(p, rng, nm, opt):
    """A type alias with expose_here (or encourage) after its target, at the end of a scope."""
    cand = [x for x in p.scopes if x.tag() and x.reloc is None and not x.encouraged and not _inool(x)
            and all(y.access in (None, 'public') for y in _chain(x))
            and not any(isinstance(y, S) and y.kind == 'ns' and y.first is not y for y in _chain(x))]
    if not cand:
        return
    t = rng.choice(cand)
    places = [x for x in p.scopes if x.kind in ('ns', 'rec') and x.first is x and not _inool(x)
              and x not in _chain(t)[:1]] + [p.tu]
    places = [x for x in places if all(y.first is y and not getattr(y, 'nofill', False)
                                       for y in _chain(x))]
    order = []

    def num(s):
        for it in s.items:
            order.append(it)
            if isinstance(it, S):
                num(it)
                order.append(('end', it))
    num(p.tu)
    order.append(('end', p.tu))
    pos = {}
    for i, o in enumerate(order):
        pos[('e', o[1]) if isinstance(o, tuple) else o] = i
    cyc = opt.get('cycle') and rng.random() < opt['cycle']
    if opt.get('fwd') and t.parent is p.tu and t.kind == 'rec' and rng.random() < opt['fwd']:
        t.fwd = True
    if cyc:
        # target below itself
        pl = [x for x in places if t in _chain(x) and x.kind == 'rec'] or \
             ([t] if t.kind == 'rec' else [])
    else:
        pl = [x for x in places if (t.fwd or pos[('e', x)] > pos[t]) and t not in _chain(x)]
    if not pl:
        return
    w = rng.choice(pl)
    a = Alias(nm('t'), t, [], w, 'public' if w.kind == 'rec' else None)
    a.typedef = rng.random() < .3
    if t.fwd and rng.random() < .3:
        a.via = nm('via')
    if rng.random() < .15 and not cyc and not opt.get('only_here'):
        a.ann = ['encourage']
        t.encouraged = True
        w.items.append(a)
        p.aliases.append(a)
        return
    ann = ['expose_here'] + list(rng.choice([[], [], [], ['visible'], ['hidden'], ['visible(default)'],
                                             ['expose_as(py_%s)' % a.name]]))
    rng.shuffle(ann)
    a.ann = ann
    t.reloc = a
    w.items.append(a)
    p.aliases.append(a)


# ------------------------------------------------------------------ comparisons

def canon(p, nodes, text, vis):
    def go(n):
        return sorted((('%s %s%s' % (c.kind, c.name, ' ' + text(c) if text else '')), go(c))
                      for c in p.children(n) if c in nodes)
    return go(p.tu)


KIND = {'Namespace': 'ns', 'CXXRecord': 'rec', 'Enum': 'enum'}


def canon_dump(entries, text):
    t = tree(entries)

    def go(i):
        out = []
        for j, (par, kind, name, as_, vis) in enumerate(t):
            if par == i:
                last = name.split('::')[-1]
                out.append(('%s %s%s' % (KIND.get(kind, kind), last, ' ' + text(as_, vis) if text else ''),
                            go(j)))
        return sorted(out)
    return go(-1)


def parse_module(r):
    need(not r.crashed, 'the tool crashed: ' + r.err[-300:])
    return Module([r.out])


_intro_cls = re.compile(r'^::pybind11::(class_|enum_)<(.*)>\((\w+), (".*)\)$')


def intro_info(m):
    """identifier -> (what, type name or python name, parent identifier, python name)"""
    out = {}
    for ident, ex in m.intro:
        c = _intro_cls.match(ex)
        if c:
            t = split_args(c[2])[0]
            out[ident] = (c[1], t, c[3], unquote(split_args(c[4])[0]), split_args(c[2])[1:])
            continue
        c = re.match(r'^(\w+)\.def_submodule\((".*?")\)$', ex)
        if c:
            out[ident] = ('module', None, c[1], unquote(c[2]), [])
            continue
        need(re.match(r'^\w+$', ex), 'cannot read introducer: ' + ex)
        out[ident] = ('same', None, ex, None, [])
    return out


def last(t):
    return t.rsplit('::', 1)[-1] if t else t


def path_of(info, root, ident):
    if ident == root:
        return ()
    need(ident in info, 'identifier %s is not defined' % ident)
    what, _, par, name, _ = info[ident]
    base = path_of(info, root, par)
    return base if what == 'same' else base + (name,)
