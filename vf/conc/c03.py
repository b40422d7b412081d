"""C03: makeValidIdentifier / isValidIdentifier on random byte strings."""
import re
from . import leaf

RULE = ('random byte strings (length 0 to 40, mixes of letters, digits, underscores, punctuation, bytes above '
        '0x7f and NUL); non-trivial: contains a character that has to be replaced')
POOL = [b'abzAZ', b'0129', b'_', b' :-.<>,', bytes([0, 9, 10, 127, 128, 195, 255, 64, 91, 96, 123, 47, 58])]


def make(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20, 40])
    w = [rng.random() for _ in POOL]
    if rng.random() < .1:
        return bytes(rng.randrange(256) for _ in range(n))
    return bytes(rng.choice(rng.choices(POOL, w)[0]) for _ in range(n))


def line(c):
    return 'I ' + c.hex()


def text(c):
    return repr(c)


def want(c):
    m = re.search(rb'[A-Za-z_]', c)
    h = m.start() if m else len(c)
    return (b'_' if h else b'') + re.sub(rb'[^A-Za-z0-9_]+', b'_', c[h:]) if h < len(c) else (b'_' if c else b'')


def judge(c, o):
    w = want(c)
    # a run that spans the start and is followed by more is replaced as one
    r, t, vi, vr = o.split(' ')
    r = b'' if r == '-' else bytes.fromhex(r)
    t = b'' if t == '-' else bytes.fromhex(t)
    if r != w:
        return 'makeValidIdentifier(%r) = %r, expected %r' % (c, r, w)
    if t != r:
        return 'makeValidIdentifier is not idempotent on %r: %r then %r' % (c, r, t)
    isid = bool(re.fullmatch(rb'[A-Za-z_][A-Za-z0-9_]*', c))
    if vi != str(int(isid)):
        return 'isValidIdentifier(%r) = %s' % (c, vi)
    if c and vr != '1':
        return 'result %r for %r is not an identifier' % (r, c)


def nontrivial(c):
    return want(c) != c


def explore(seed, tier, budget):
    return leaf.explore(__name__, seed, 40000 if tier == 'quick' else 800000, budget, RULE)
