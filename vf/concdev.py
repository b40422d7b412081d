"""python3-vt -m vf.concdev cXX [count] : runs the concrete exploration only"""
import sys, importlib, time
mod = importlib.import_module('vf.conc.' + sys.argv[1])
t = time.time()
r = mod.explore(int(sys.argv[3]) if len(sys.argv) > 3 else 1, sys.argv[2] if len(sys.argv) > 2 else 'quick', 600)
print({k: v for k, v in r.items() if k not in ('failures', 'samples', 'errors')}, '%.1fs' % (time.time() - t))
for e in r['errors'][:2]: print(e)
print(len(r['failures']), 'failures')
for f in r['failures'][:2]:
    print(f['what'][:3000]); print((f['log'] or [{}])[-1].get('header')); print((f['log'] or [{}])[-1].get('argv')); print((f['log'] or [{}])[-1].get('stderr', '')[-1500:])
    if '-o' in sys.argv: print((f['log'] or [{}])[-1].get('stdout', ''))
