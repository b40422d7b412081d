"""C02: LiteralValue is a value type that owns its string.

Every member function is proved for every kind of every operand (distinct
operands, and the same object where it can be passed twice) from the invariant

    kind = String    => the union holds a pointer to storage that is alive and
                        that no other value points to
    kind = Unsigned  => the union holds the integer
    kind = Boolean   => the union holds the boolean

to the same invariant for every value that is still alive, the documented
effect, and: storage is alive exactly if one value points to it.
"""
from .emit import *

SRC = 'src/annotations/literal_value.cpp'
LVQ = 'genpybind::annotations::LiteralValue'
KINDS = ['Nothing', 'String', 'Unsigned', 'Boolean', 'Default']
UNITS = []


def kinds(E):
    return {n.split('::')[-1]: v for n, v in E.tu.enums[LVQ + '::Kind'].items()}


def prepare(E):
    T = E.lib.terms

    def read(E2, s, o):
        E2.oblige(s, s.get(o, 'alive'), 'released storage is not read')
        return s.get(o, 'content')
    T['heapstr'] = read
    T['strview'] = lambda E2, s, o: read(E2, s, s.get(o, '&to'))
    old = E.lib.ctors.get('llvm::StringRef')

    def view(E2, s, ty, args, e):
        if len(args) == 1:
            v = E2.rv(s, args[0])
            if isinstance(v, Obj) and E2.cls(s, v) == 'heapstr':
                return E2.new_obj(s, 'strview', **{'&to': v})
            if isinstance(v, Obj) and E2.cls(s, v) == 'strview':
                return v
        return old(E2, s, ty, args, e) if old else NotImplemented
    E.lib.ctors['llvm::StringRef'] = view

    def assign(E2, s, c):
        v = E2.rv(s, c.obj)
        if not (isinstance(v, Obj) and E2.cls(s, v) == 'heapstr') or len(c.args) != 1:
            return NotImplemented
        t = E2.as_str(s, c.args[0])
        E2.oblige(s, s.get(v, 'alive'), 'released storage is not written')
        s.set(v, 'content', t)
        return v
    for q in ('operator=', 'assign'):
        E.contracts['std::basic_string<char>::' + q] = assign
    # A constructed object is one value: copies of the token are the same one
    # (elided), so that what is left at the end can be destroyed.
    ctor = E.repo_ctor

    def counted(st, rec, f, args, e):
        out = ctor(st, rec, f, args, e)
        if rec == LVQ:
            for s, o in out:
                s.set(o, '_one', next(E.counter))
        return out
    E.repo_ctor = counted
    E.contracts['llvm::raw_ostream::write_escaped'] = lambda E2, s, c: put(E2, s, c.obj, ('rec', 'escaped', (E2.as_str(s, c.args[0]),)))


def value(E, st, kind, tag):
    K = kinds(E)
    if set(K) != set(KINDS):
        raise Abort('kinds of values')
    o = E.init_fields(st, LVQ)
    un = st.heap[o.oid].get('_union')
    fs = {f['n']: E.T(f['t'])['k'] for f in E.all_fields(LVQ)}
    if un is None or fs != {'kind': 'enum', 'string': 'ptr', 'integer': 'int', 'boolean': 'bool'}:
        raise Abort('members of LiteralValue')
    st.set(o, 'kind', z3.IntVal(K[kind]))
    st.set(o, '_one', next(E.counter))
    n = z3.Int('%s.int' % tag)
    b = z3.Bool('%s.bool' % tag)
    st.assume(z3.And(n >= 0, n < 2 ** 32))
    st.set(o, 'integer', n)
    st.set(o, 'boolean', b)
    st.set(o, 'string', NULLP)
    act = {'String': 'string', 'Unsigned': 'integer', 'Boolean': 'boolean'}.get(kind)
    if act:
        a = z3.IntVal(E.union_tag(st.heap[o.oid], act))
    else:
        a = z3.Int('%s.active' % tag)
        st.assume(z3.And(a >= 0, a < len(un)))
    st.set(o, '_active', a)
    text = z3.Const('%s.text' % tag, STR)
    if kind == 'String':
        h = E.new_obj(st, 'heapstr', content=text, alive=z3.BoolVal(True))
        st.set(o, 'string', Ptr(h))
    return o, {'String': text, 'Unsigned': n, 'Boolean': b}.get(kind)


def holds(E, s, o, kind, val, what):
    """o holds exactly this value."""
    h = s.heap[o.oid]
    tag = lambda f: h['_active'] == E.union_tag(h, f)
    E.oblige(s, E.to_term(s, h['kind']) == kinds(E)[kind], 'post: %s has kind %s' % (what, kind))
    if kind == 'String':
        p = h['string']
        own = p.to if isinstance(p, Ptr) and isinstance(p.to, Obj) and E.cls(s, p.to) == 'heapstr' else None
        E.oblige(s, z3.And(z3.BoolVal(own is not None), tag('string')), 'post: %s holds a string' % what)
        if own is not None:
            E.oblige(s, z3.And(s.get(own, 'alive'), s.get(own, 'content') == val), 'post: the string of %s is stored and has the right text' % what)
    elif kind == 'Unsigned':
        E.oblige(s, z3.And(tag('integer'), E.to_term(s, h['integer']) == val), 'post: %s holds the right integer' % what)
    elif kind == 'Boolean':
        E.oblige(s, z3.And(tag('boolean'), E.to_term(s, h['boolean']) == val), 'post: %s holds the right boolean' % what)


def latest(s):
    out = {}
    for oid, h in s.heap.items():
        if h.get('cls') == LVQ and '_one' in h:
            out[h['_one']] = max(out.get(h['_one'], -1), oid)
    return {k: Obj(v) for k, v in out.items()}


def owned(E, s, live):
    """Storage is alive exactly if one live value points to it.  Values that
    are not live any more (locals, temporaries) are destroyed first."""
    d = one(E.tu, LVQ + '::~LiteralValue')
    gone = [o for k, o in latest(s).items() if o not in live]
    sts = [s]
    for o in gone:
        nxt = []
        for x in sts:
            x.env['this'] = o
            nxt += [y for y, _ in run(E, d, x)]
        sts = nxt
    K = kinds(E)['String']
    for x in sts:
        for oid, h in list(x.heap.items()):
            if h.get('cls') != 'heapstr':
                continue
            n = []
            for o in live:
                p = x.heap[o.oid]['string']
                if isinstance(p, Ptr) and p.to == Obj(oid):
                    n.append(E.to_term(x, x.heap[o.oid]['kind']) == K)
                elif not isinstance(p, Ptr):
                    raise Abort('string pointer %r' % (p,))
            count = z3.Sum([z3.If(c, 1, 0) for c in n]) if n else z3.IntVal(0)
            E.oblige(x, count == z3.If(h['alive'], 1, 0), 'post: string storage has exactly one owner while it exists')


def fn(E, name, pred=lambda f: True):
    return one(E.tu, LVQ + '::' + name, pred)


def setter(E):
    prepare(E)
    for name, want in (('setNothing', 'Nothing'), ('setString', 'String'), ('setUnsigned', 'Unsigned'), ('setBoolean', 'Boolean'), ('setDefault', 'Default')):
        f = fn(E, name)
        for k in KINDS:
            for own in ((False, True) if want == 'String' and k == 'String' else (False,)):
                st = State()
                o, v = value(E, st, k, 'old')
                arg = {'String': z3.Const('text', STR), 'Unsigned': z3.Int('number'), 'Boolean': z3.Bool('flag')}.get(want)
                if want == 'Unsigned':
                    st.assume(z3.And(arg >= 0, arg < 2 ** 32))
                st.env['this'] = o
                if arg is not None:
                    a = arg
                    if own:
                        a, arg = E.new_obj(st, 'strview', **{'&to': st.get(o, 'string').to}), v
                    p = f['params'][0]['id']
                    st.env[p] = a if isinstance(a, Obj) else E.new_cell(st, a)
                E.current = '%s on %s%s' % (name, k, ', argument refers to the old string' if own else '')
                for s, r in run(E, f, st):
                    holds(E, s, o, want, arg, 'the value')
                    owned(E, s, [o])


UNITS += [('LiteralValue::set*', SRC, setter)]


def copies(E):
    prepare(E)
    for name in ('operator=', 'LiteralValue'):
        for move in (False, True):
            cand = [f for f in E.tu.by_q[LVQ + '::' + name] if len(f['params']) == 1 and 'body' in f and E.T(f['params'][0]['t']).get('ref') == (2 if move else 1)]
            if len(cand) != 1:
                raise Abort('%s of LiteralValue' % name)
            f = cand[0]
            for k in KINDS:
                for k0 in (KINDS + ['self'] if name == 'operator=' else [None]):
                    st = State()
                    o, v = value(E, st, k, 'other')
                    live = [o]
                    if k0 == 'self':
                        t = o
                    elif k0:
                        t, _ = value(E, st, k0, 'old')
                        live.append(t)
                    E.current = '%s %s of %s%s' % ('move' if move else 'copy', name, k, ' over ' + k0 if k0 else '')
                    if name == 'operator=':
                        st.env['this'] = t
                        st.env[f['params'][0]['id']] = o
                        res = [(s, t, r) for s, r in run(E, f, st)]
                    else:
                        res = [(s, x, x) for s, x in E.repo_ctor(st, LVQ, f, [o], None)]
                    for s, x, r in res:
                        E.paths += name != 'operator='
                        r = E.rv(s, r)
                        if name == 'operator=':
                            E.oblige(s, z3.BoolVal(r == t), 'post: the assigned value is returned')
                        holds(E, s, x, k, v, 'the target')
                        if not move:
                            holds(E, s, o, k, v, 'the source')
                        elif k0 != 'self':
                            # moved from: any valid value
                            valid(E, s, o, 'the moved-from value')
                        owned(E, s, live + ([x] if x not in live else []))


def valid(E, s, o, what):
    h = s.heap[o.oid]
    K = kinds(E)
    k = E.to_term(s, h['kind'])
    tag = lambda f: h['_active'] == E.union_tag(h, f)
    p = h['string']
    ok = isinstance(p, Ptr) and isinstance(p.to, Obj) and E.cls(s, p.to) == 'heapstr'
    E.oblige(s, z3.And(z3.Or(*[k == v for v in K.values()]),
                       z3.Implies(k == K['String'], z3.And(tag('string'), s.get(p.to, 'alive') if ok else z3.BoolVal(False))),
                       z3.Implies(k == K['Unsigned'], tag('integer')), z3.Implies(k == K['Boolean'], tag('boolean'))),
             'post: %s is in one of the five states' % what)


UNITS += [('LiteralValue copy and move', SRC, copies)]


def destroy(E):
    prepare(E)
    f = fn(E, '~LiteralValue')
    for k in KINDS:
        st = State()
        o, v = value(E, st, k, 'old')
        st.env['this'] = o
        E.current = '~LiteralValue of %s' % k
        for s, r in run(E, f, st):
            st2 = s
            st2.heap[o.oid] = {x: y for x, y in s.heap[o.oid].items() if x != '_one'}
            owned(E, st2, [])


UNITS += [('LiteralValue::~LiteralValue', SRC, destroy)]


def create(E):
    prepare(E)
    for name, want in (('createString', 'String'), ('createUnsigned', 'Unsigned'), ('createBoolean', 'Boolean'), ('createDefault', 'Default')):
        f = fn(E, name)
        st = State()
        arg = {'String': z3.Const('text', STR), 'Unsigned': z3.Int('number'), 'Boolean': z3.Bool('flag')}.get(want)
        if arg is not None:
            st.env[f['params'][0]['id']] = E.new_cell(st, arg)
        E.current = name
        for s, r in run(E, f, st):
            r = E.rv(s, r)
            holds(E, s, r, want, arg, 'the result')
            owned(E, s, [r])
    cand = [f for f in E.tu.by_q[LVQ + '::LiteralValue'] if not f['params'] and 'body' in f]
    if len(cand) != 1:
        raise Abort('default constructor')
    E.current = 'default constructor'
    for s, r in E.repo_ctor(State(), LVQ, cand[0], [], None):
        E.paths += 1
        holds(E, s, r, 'Nothing', None, 'the result')
        owned(E, s, [r])


UNITS += [('LiteralValue::create*', SRC, create)]


def read(E):
    prepare(E)
    K = kinds(E)
    is_ = lambda w: lambda k, v: z3.BoolVal(k == w)
    for name, want in [('is' + w, is_(w)) for w in KINDS] + [('hasValue', lambda k, v: z3.BoolVal(k != 'Nothing')), ('operator bool', lambda k, v: z3.BoolVal(k != 'Nothing')),
                       ('getString', lambda k, v: v if k == 'String' else None), ('getUnsigned', lambda k, v: v if k == 'Unsigned' else None),
                       ('getBoolean', lambda k, v: v if k == 'Boolean' else None)]:
        f = fn(E, name)
        for k in KINDS:
            st = State()
            o, v = value(E, st, k, 'value')
            w = want(k, v)
            if w is None:
                continue
            st.env['this'] = o
            E.current = '%s of %s' % (name, k)
            for s, r in run(E, f, st):
                E.oblige(s, E.to_term(s, r) == w, 'post: what is stored is returned')
                holds(E, s, o, k, v, 'the value')
                owned(E, s, [o])
    f = fn(E, 'isa')
    for k in KINDS:
        st = State()
        o, v = value(E, st, k, 'value')
        st.env['this'] = o
        q = z3.Int('kind')
        st.env[f['params'][0]['id']] = E.new_cell(st, q)
        E.current = 'isa of %s' % k
        for s, r in run(E, f, st):
            E.oblige(s, E.to_bool(s, r) == (q == K[k]), 'post: isa tells the kind')


UNITS += [('LiteralValue::is*, get*, hasValue', SRC, read)]


def equality(E):
    prepare(E)
    for name in ('operator==', 'operator!='):
        f = fn(E, name)
        for a in KINDS:
            for b in KINDS + ['self']:
                st = State()
                o, v = value(E, st, a, 'left')
                p, w = (o, v) if b == 'self' else value(E, st, b, 'right')
                st.env['this'] = o
                st.env[f['params'][0]['id']] = p
                E.current = '%s: %s, %s' % (name, a, b)
                same = z3.BoolVal(True) if b == 'self' else z3.BoolVal(False) if a != b else z3.BoolVal(True) if v is None else v == w
                for s, r in run(E, f, st):
                    E.oblige(s, E.to_bool(s, r) == (same if name == 'operator==' else z3.Not(same)), 'post: values are equal exactly if kind and value agree')
                    holds(E, s, o, a, v, 'the left value')
                    holds(E, s, p, b if b != 'self' else a, w, 'the right value')


UNITS += [('LiteralValue::operator==, operator!=', SRC, equality)]
