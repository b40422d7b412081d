"""Development driver: python3-vt -m vf.dev cXX [unit]"""
import sys, importlib, time, traceback
from .tu import TU
from . import repo
from .engine import Engine, Abort
from .lib import Lib
mod = importlib.import_module('vf.specs.' + sys.argv[1])
for name, src, fn in mod.UNITS:
    if len(sys.argv) > 2 and sys.argv[2][0] != '-' and sys.argv[2] not in name:
        continue
    t = time.time()
    E = Engine(TU(repo.extract(src)), Lib())
    try:
        fn(E)
        err = ''
    except Abort as e:
        err = 'ABORT ' + str(e)
        if '-v' in sys.argv: traceback.print_exc(limit=-4)
    bad = [o for o in E.obligations if o.status != 'proved']
    print('%-40s %3d obligations %3d not proved  %.1fs (%d q, %.1fs) paths=%d %s' % (name, len(E.obligations), len(bad), time.time() - t, E.queries, E.solver_time, E.paths, err))
    for o in bad[:8]:
        print('   ', o.status, o.name, o.taint, o.detail[:int(sys.argv[3]) if len(sys.argv) > 3 and sys.argv[3].isdigit() else 300])
