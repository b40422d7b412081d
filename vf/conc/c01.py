"""C01: the annotation parser against an independent reference parser."""
from . import leaf
import os
import re

RULE = ('random annotation texts: grammatical ones with random blanks, trailing commas, literals and nesting '
        'defects, token soup, and random bytes; result (annotations and values, or error kind, token and its '
        'position) compared with a reference parser; non-trivial: has arguments or is rejected')
# the documented annotation names (README and annotations.def of the base commit)
NAMES = ('expose_as hidden visible arithmetic export_values getter_for setter_for dynamic_attr hide_base '
         'holder_type inline_base implicit_conversion keep_alive noconvert required return_value_policy manual '
         'postamble module only_expose_in expose_here encourage readonly').split()
WS = b' \t\f\v'


def tokens(s):
    """[(kind, text, value, position)], ends with eof"""
    out, i = [], 0
    while True:
        while i < len(s) and s[i] in WS:
            i += 1
        if i >= len(s):
            out.append(('eof', b'', None, -1))
            return out
        c = s[i:i + 1]
        if c in (b'(', b')', b','):
            out.append((c.decode(), c, None, i))
            i += 1
            continue
        m = re.compile(rb'[0-9]+').match(s, i)
        if m:
            v = int(m[0])
            out.append(('lit', m[0], 'U%d' % v, i) if v < 2 ** 32 else ('bad', m[0], None, i))
            i = m.end()
            continue
        m = re.compile(rb'[A-Za-z_][A-Za-z0-9_]*').match(s, i)
        if m:
            out.append(('id', m[0], None, i))
            i = m.end()
            continue
        if c == b'"':
            m = re.compile(rb'"((?:[^"\\]|\\.)*)"', re.S).match(s, i)
            if m:
                out.append(('lit', m[0], 'S' + (m[1].hex() or '-'), i))
                i = m.end()
            else:
                out.append(('bad', s[i:], None, i))
                i = len(s)
            continue
        out.append(('bad', c, None, i))
        i += 1


def ref(s):
    t = tokens(s)
    k = 0
    anns = []

    def err(kind, tok):
        return 'err %d %s %d' % (kind, tok[1].hex() or '-', tok[3])
    while t[k][0] == 'id':
        name = t[k]
        if name[1].decode() not in NAMES:
            return err(2, name)
        k += 1
        args = ''
        if t[k][0] == '(':
            k += 1
            while t[k][0] in ('lit', 'id'):
                if t[k][0] == 'lit':
                    args += t[k][2] + ';'
                else:
                    w = t[k][1]
                    args += {b'true': 'B1', b'false': 'B0', b'default': 'D'}.get(w, 'S' + w.hex()) + ';'
                k += 1
                if t[k][0] != ',':
                    break
                k += 1
            if t[k][0] != ')':
                return err(0 if t[k][0] == 'bad' else 1, t[k])
            k += 1
        anns.append(' %s=%s' % (name[1].decode(), args))
        if t[k][0] != ',':
            break
        k += 1
    if t[k][0] != 'eof':
        return err(0, t[k])
    return 'ok' + ''.join(anns)


NUM = ['0', '1', '007', '42', '4294967295', '4294967296', '4294967297', '99999999999999999999999', '00000000000000001',
       '18446744073709551616', '42949672950', '2147483648']
STRS = ['""', '"a"', '"a b"', r'"\""', r'"\\"', r'"a\\"', r'"\\\""', '"(,)"', '"true"', r'"\x"', '"ü"', '"']
IDS = ['true', 'false', 'default', 'True', 'truee', 'x', '_', 'a1', 'nothing', 'visible', 'tru']


def val(rng):
    return rng.choice([rng.choice(NUM), rng.choice(STRS[:-1]), rng.choice(IDS), str(rng.randrange(2 ** 33))])


def make(rng):
    r = rng.random()
    ws = lambda: rng.choice(['', '', '', ' ', '\t', '  ', ' \t\f', '\v'])
    if r < .55:
        out = ws()
        for i in range(rng.choice([0, 1, 1, 2, 3, 5])):
            n = rng.choice(NAMES)
            if rng.random() < .05:
                n = rng.choice(IDS + [n + 's', n[:-1], n.upper(), '_' + n])
            out += n + ws()
            if rng.random() < .7:
                out += '(' + ws()
                m = rng.choice([0, 1, 1, 2, 3, 6])
                for j in range(m):
                    out += val(rng) + ws()
                    if j < m - 1 or rng.random() < .2:
                        out += ',' + ws()
                out += ')' + ws()
            out += ',' + ws()
        if rng.random() < .8:
            out = out.rstrip(' \t\f\v').rstrip(',')
        out += ws()
        b = out.encode()
        if rng.random() < .3 and b:
            # damage
            i = rng.randrange(len(b))
            k = rng.random()
            if k < .4:
                b = b[:i] + b[i + 1:]
            elif k < .7:
                b = b[:i] + rng.choice([b'(', b')', b',', b'"', b'\\', b'-', b'\n', b'0', b'a', b'\x00', b'.']) + b[i:]
            elif k < .85:
                b = b[:i]
            else:
                b = b[i:]
        return b
    if r < .9:
        toks = NAMES[:4] + IDS + NUM + STRS + ['(', ')', ',', '(', ')', ',', '-', '.', '\n', '\\', '#', "'"]
        s = ''
        for _ in range(rng.randint(0, 9)):
            s += rng.choice(toks) + rng.choice(['', '', ' '])
        return s.encode()
    return bytes(rng.choice([rng.randrange(256), rng.choice(b'()," \\avx0')]) for _ in range(rng.randint(0, 12)))


def line(c):
    return 'P ' + c.hex()


def text(c):
    return repr(c)


def judge(c, o):
    w = ref(c)
    a, _, b = o.partition(' | ')
    for x, v in ((a, 'out parameter'), (b, 'returned value')):
        if x != w:
            return 'parsing %r (%s): got %s, expected %s' % (c, v, x, w)


def nontrivial(c):
    return b'(' in c or ref(c).startswith('err')


def explore(seed, tier, budget):
    return leaf.explore(__name__, seed, 60000 if tier == 'quick' else 1500000, budget, RULE)
