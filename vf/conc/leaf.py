"""Batch driver for /verif/harness/leaf.cpp."""
import multiprocessing
import os
import random
import re
import subprocess
import time

from .. import repo

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1')


def batch(lines, timeout=120):
    """(outputs, message) - message describes a crash at case len(outputs)."""
    p = subprocess.Popen([repo.harness('leaf')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=ENV)
    try:
        o, e = p.communicate(('\n'.join(lines) + '\n').encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return o.decode('utf-8', 'replace').split('\n')[:-1], 'does not terminate'
    out = o.decode('utf-8', 'replace').split('\n')[:-1]
    if p.returncode == 0 and len(out) == len(lines):
        return out, None
    e = e.decode('utf-8', 'replace')
    m = re.search(r'(ERROR: \w+Sanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*)', e)
    return out, 'exit status %d: %s' % (p.returncode, m[1] if m else e[-300:])


def _job(a):
    modname, seed, k, count = a
    import importlib
    mod = importlib.import_module(modname)
    rng = random.Random('%s/%d/%d' % (modname, seed, k))
    cases = [mod.make(rng) for _ in range(count)]
    out, msg = batch([mod.line(c) for c in cases])
    fails = []
    keys = set()
    for c, o in zip(cases, out):
        w = mod.judge(c, o)
        if w:
            fails.append((mod.line(c), mod.text(c), w))
        if mod.nontrivial(c):
            keys.add(mod.line(c))
    if msg and len(out) < len(cases):
        c = cases[len(out)]
        fails.append((mod.line(c), mod.text(c), msg))
    return len(out), len(keys), fails[:3], mod.text(cases[0])


def explore(mod, seed, n, budget, rule):
    repo.harness('leaf')
    end = time.time() + budget
    per = 400
    jobs = [(mod, seed, k, per) for k in range(max(1, n // per))]
    res = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': rule, 'samples': [], 'failures': [],
           'errors': [], 'tool_runs': 0}
    with multiprocessing.Pool(8) as pool:
        for i, (n1, k1, f, s) in enumerate(pool.imap_unordered(_job, jobs)):
            res['evaluations'] += n1
            res['distinct_nontrivial'] += k1
            res['tool_runs'] += 1
            if len(res['samples']) < 4:
                res['samples'].append(s)
            for line, text, w in f:
                res['failures'].append({'case': line, 'what': w + '\ninput: ' + text,
                                        'log': [{'header': text, 'argv': ['echo %s | %s' % (
                                            line, repo.harness('leaf'))]}]})
            if time.time() > end or len(res['failures']) > 20:
                pool.terminate()
                break
    res['failures'].sort(key=lambda f: len(f['case']))
    return res
