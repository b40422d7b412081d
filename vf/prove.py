"""Running a function under contract."""
import z3
from .engine import Engine, State, U, Abort, Obj, Cell
from .lib import Lib


class Unit:
    """One verification unit: a repository function and its contract."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.status = None


def params(E, st, f, names=None, preset=None):
    """Binds the parameters of f to symbolic values; dict name -> value."""
    out = {}
    for p in f['params']:
        n = p['n'] or ('p%d' % f['params'].index(p))
        if preset and n in preset:
            v = preset[n]
        else:
            v = E.fresh(st, p['t'], lambda s, suf, n=n: z3.Const('%s%s' % (n, suf), s))
        out[n] = v
        st.env[p['id']] = v if isinstance(v, (Obj,)) or isinstance(v, Cell) else E.new_cell(st, v)
    return out


def run(E, f, st):
    """Executes the body; list of (state, returned value or None)."""
    res = []
    E.stack.append(f['fn']['id'])
    try:
        for s, fl in E.exec(f['body'], st):
            v = fl[1] if isinstance(fl, tuple) else None
            res.append((s, v))
    finally:
        E.stack.pop()
    E.paths += len(res)
    if E.smoke and res and all(E.check(s.pc, 400)[0] == z3.unsat for s, _ in res[:40]):
        E.vacuous = True
        raise Abort('vacuous: the assumptions of the contract are contradictory')
    return res


def one(tu, q, pred=None):
    c = tu.find(q, pred)
    if len(c) != 1:
        raise Abort('%s: %d definitions found' % (q, len(c)))
    return c[0]
