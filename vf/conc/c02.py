"""C02: random histories of operations on argument values (built with ASan and UBSan)."""
from . import leaf

RULE = ('random sequences of up to 24 operations (set*, create*, copy and move assignment and construction incl. '
        'self, swap, container growth, comparison, printing) on six values; after every operation the kind and '
        'content of all values is compared with a reference; memory errors and leaks are detected by '
        'AddressSanitizer and allocation balance; non-trivial: moves or copies a string')
STRS = ['', '61', '6162', 'c3bc', '00', '22', '5c', '78' * 40, '616263' * 9]


def make(rng):
    ops = []
    for _ in range(rng.randint(1, 24)):
        i, j = rng.randrange(6), rng.randrange(6)
        if rng.random() < .15:
            j = i
        k = rng.choice(['nothing', 'string', 'string', 'string', 'unsigned', 'boolean', 'default', 'copy', 'copy',
                        'move', 'move', 'move', 'copyctor', 'movector', 'movector', 'own', 'create', 'swap', 'vec',
                        'eq', 'eq', 'print'])
        if k == 'string':
            ops.append((k, i, rng.choice(STRS) or '-'))
        elif k == 'unsigned':
            ops.append((k, i, rng.choice([0, 1, 2, 255, 4294967295])))
        elif k == 'boolean':
            ops.append((k, i, rng.randrange(2)))
        elif k == 'create':
            ops.append((k, i, rng.choice(['S' + rng.choice(STRS), 'U%d' % rng.randrange(2 ** 32), 'B0', 'B1', 'D'])))
        elif k in ('copy', 'move', 'copyctor', 'movector', 'swap', 'eq'):
            ops.append((k, i, j))
        else:
            ops.append((k, i))
    return ops


def line(c):
    return 'V ' + ' '.join(' '.join(map(str, o)) for o in c)


text = line
ANY = object()


def judge(c, o):
    bal, _, rest = o.partition(' ')
    st = ['N'] * 6
    moved = [False] * 6           # moved from: content unspecified, but consistent
    steps = rest.split('/')[1:]
    if len(steps) != len(c):
        return 'history ended early: ' + o[-200:]
    for n, (op, got) in enumerate(zip(c, steps)):
        res = None
        if got.startswith('('):
            res, got = got[1:].split(')', 1)
        g = got.split(',')[:-1]
        k, i = op[0], op[1]
        a = op[2] if len(op) > 2 else None
        free = set()
        if k == 'nothing':
            st[i] = 'N'
        elif k == 'string':
            st[i] = 'S' + a
        elif k == 'unsigned':
            st[i] = 'U%d' % a
        elif k == 'boolean':
            st[i] = 'B%d' % a
        elif k == 'default':
            st[i] = 'D'
        elif k in ('copy', 'copyctor'):
            st[i] = st[a]
        elif k in ('move', 'movector'):
            v = st[a]
            st[i] = v
            if a != i:
                free.add(a)
            elif k == 'move':
                free.add(i)       # self-move: only has to stay usable
        elif k == 'create':
            st[i] = a if a != 'S' else 'S-'
        elif k == 'swap':
            st[i], st[a] = st[a], st[i]
            if i == a:
                free.add(i)
        elif k == 'eq':
            if res != ('=' if st[i] == st[a] else '!'):
                return 'after %s: comparing %s and %s gives %s' % (line(c[:n + 1]), st[i], st[a], res)
        elif k == 'print':
            w = {'N': 'nothing', 'D': 'default', 'B0': 'false', 'B1': 'true'}.get(st[i])
            if st[i][0] == 'U':
                w = st[i][1:]
            if w is not None and bytes.fromhex(res).decode('utf-8', 'replace') != w:
                return 'after %s: printed as %r' % (line(c[:n + 1]), bytes.fromhex(res))
        for f in free:
            st[f] = g[f]
        for x in range(6):
            if g[x].startswith(('kinds', 'incons')):
                return 'after %s: value %d reports more than one kind or none' % (line(c[:n + 1]), x)
            if g[x] != st[x]:
                return 'after %s: value %d is %s, expected %s' % (line(c[:n + 1]), x, g[x], st[x])
    if bal != '0':
        return '%s: %s bytes are not released' % (line(c), bal)


def nontrivial(c):
    return any(o[0] in ('copy', 'move', 'copyctor', 'movector', 'swap') for o in c)


def explore(seed, tier, budget):
    return leaf.explore(__name__, seed, 40000 if tier == 'quick' else 800000, budget, RULE)
