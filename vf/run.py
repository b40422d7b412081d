"""Runs the check of one property: python3-vt -m vf.run CXX --tier quick|thorough

1. proof: extract the functions under contract from the current sources, generate the
   obligations of every unit and discharge them with z3 (thorough: cross-check with cvc5);
2. bounded exploration of the built code (counterexample replay, stand-in for what is not
   under contract).
"""
import argparse
import importlib
import json
import multiprocessing
import os
import re
import sys
import time
import traceback

from . import repo

VERIF = repo.VERIF
BASE_TRUST = [
    'vf/engine.py: symbolic execution of the extracted C++ AST and VC generation',
    'extract/extract.cpp on clang 18: the AST handed to the verifier is that of the compiled source '
    '(implicit destructors of library types, template definitions outside /repo and source positions are dropped)',
    'z3 (python3-vt)',
    'machine integers are treated as mathematical integers unless an obligation bounds them',
]


def _unit(a):
    prop, idx, budget, keep = a
    import z3  # noqa
    from .tu import TU
    from .engine import Engine, Abort
    from .lib import Lib
    mod = importlib.import_module('vf.specs.' + prop.lower())
    name, src, fn = mod.UNITS[idx]
    t = time.time()
    out = {'unit': name, 'source': src, 'abort': None, 'obligations': [], 'time': 0, 'solver_time': 0,
           'queries': 0, 'paths': 0}
    try:
        E = Engine(TU(repo.extract(src)), Lib())
        E.keep_smt = keep
        E.deadline = t + budget
        try:
            fn(E)
        except Abort as e:
            out['abort'] = str(e)
        except repo.BuildError:
            raise
        except Exception:
            out['abort'] = 'verifier: ' + traceback.format_exc()[-1500:]
        out['obligations'] = [{'name': o.name, 'status': o.status, 'detail': o.detail, 'taint': list(o.taint),
                               't': round(o.t, 3), 'smt': o.smt} for o in E.obligations]
        out['solver_time'] = round(E.solver_time, 2)
        out['queries'] = E.queries
        out['paths'] = E.paths
        out['vacuous'] = E.vacuous
        out['contracts'] = sorted(map(str, E.used_contracts))
        out['models'] = sorted(map(str, E.used_models))
        out['observers'] = sorted(map(str, E.used_observers))
        out['inlined'] = sorted(map(str, E.inlined))
    except Exception as e:
        out['abort'] = '%s: %s' % (type(e).__name__, str(e)[-800:])
    out['time'] = round(time.time() - t, 2)
    return out


def cross_check(units, budget):
    """Re-discharges proved obligations with cvc5 (independent back end)."""
    import cvc5
    n = ok = 0
    end = time.time() + budget
    for u in units:
        for o in u['obligations']:
            if not o.get('smt') or o['status'] != 'proved' or time.time() > end:
                continue
            n += 1
            try:
                tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
                s = cvc5.Solver(tm) if tm else cvc5.Solver()
                s.setOption('tlimit-per', '3000')
                s.setOption('strings-exp', 'true')
                s.setLogic('ALL')
                p = cvc5.InputParser(s)
                p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, o['smt'], 'o')
                sm = p.getSymbolManager()
                while True:
                    c = p.nextCommand()
                    if c.isNull():
                        break
                    r = c.invoke(s, sm)
                    if 'unsat' in str(r):
                        ok += 1
            except Exception:
                pass
    return {'cvc5_tried': n, 'cvc5_confirmed': ok}


def load_findings(prop):
    known, fixed = [], []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) match=/(.*)/ (.*)$', l.strip())
            if m and m[1] == prop:
                known.append((re.compile(m[2]), m[3]))
            if l.startswith('fixed: property=%s ' % prop):
                fixed.append(l.strip())
    return known, fixed


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    t0 = time.time()
    quick = tier == 'quick'
    have = lambda pkg: os.path.exists(os.path.join(VERIF, 'vf', pkg, prop.lower() + '.py'))
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)

    # ---- proof
    units = []
    mod = None
    if have('specs'):
        mod = importlib.import_module('vf.specs.' + prop.lower())
        try:
            repo.extractor()
            for src in sorted({u[1] for u in mod.UNITS}):
                try:
                    repo.extract(src)
                except repo.BuildError as e:
                    print('extraction of %s failed: %s' % (src, str(e)[-400:]), file=sys.stderr)
        except repo.BuildError as e:
            print('extractor: %s' % str(e)[-2000:], file=sys.stderr)
        budget = 240 if quick else 900
        jobs = [(prop, i, budget, not quick) for i in range(len(mod.UNITS))]
        ctxm = multiprocessing.get_context('fork')
        with ctxm.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            res = [pool.apply_async(_unit, (j,)) for j in jobs]
            for j, r in zip(jobs, res):
                try:
                    units.append(r.get(timeout=max(1, t0 + budget + 120 - time.time())))
                except multiprocessing.TimeoutError:
                    units.append({'unit': mod.UNITS[j[1]][0], 'source': mod.UNITS[j[1]][1],
                                  'abort': 'time budget exhausted', 'obligations': [], 'time': budget,
                                  'solver_time': 0, 'queries': 0, 'paths': 0})
            pool.terminate()
    t_proof = time.time() - t0
    obls = [o for u in units for o in u['obligations']]
    failed = [(u, o) for u in units for o in u['obligations'] if o['status'] != 'proved']
    definite = [(u, o) for u, o in failed if not o['taint'] and ('saturated' in o['detail'] or
                'timeout' not in o['detail'] and 'canceled' not in o['detail'])]
    aborted = [u for u in units if u['abort']]
    vac = [u for u in units if u.get('vacuous')]

    # ---- bounded exploration
    expl = None
    conc = None
    if have('conc'):
        conc = importlib.import_module('vf.conc.' + prop.lower())
        try:
            expl = conc.explore(a.seed, tier, 180 if quick else 1500)
            if not expl['failures'] and (failed or aborted) and quick:
                # look harder for an input behind the failed obligation
                e2 = conc.explore(a.seed + 1000, 'thorough', 150)
                expl['failures'] = e2['failures']
                expl['evaluations'] += e2['evaluations']
                expl['errors'] += e2['errors']
        except repo.BuildError as e:
            print('BUILD FAILED: the tool does not build from %s\n%s' % (repo.REPO, e), file=sys.stderr)
            sys.exit(2)

    known, fixed = load_findings(prop)
    viol = 0
    lines = []
    failures = []
    if expl:
        for f in expl['failures']:
            hit = [d for r, d in known if r.search(f['what'])]
            if hit:
                l = 'KNOWN-FINDING: property=%s %s' % (prop, hit[0])
                if l not in lines:
                    lines.append(l)
            else:
                failures.append(f)
    if failures:
        f = failures[0]
        path = os.path.join(rdir, prop + '.json')
        json.dump({'property': prop, 'what': f['what'], 'case': f.get('case'), 'seed': a.seed, 'runs': f['log'],
                   'failed_obligations': [{'name': o['name'], 'status': o['status'], 'verifier_output': o['detail']}
                                          for _, o in failed][:20],
                   'how_to_replay': 'write runs[-1].header to the header file named in runs[-1].argv and run argv'},
                  open(path, 'w'), indent=1)
        print('\n'.join(lines))
        print('what fails: %s' % f['what'][:1500])
        for _, o in failed[:5]:
            print('failed obligation: %s (%s)' % (o['name'], o['status']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        viol = len(failures)
    elif definite:
        path = os.path.join(rdir, prop + '.json')
        json.dump({'property': prop,
                   'failed_obligations': [{'name': o['name'], 'unit': u['unit'], 'source': u['source'],
                                           'status': o['status'], 'verifier_output': o['detail'], 'smt2': o['smt']}
                                          for u, o in definite][:10]}, open(path, 'w'), indent=1)
        for _, o in definite[:5]:
            print('failed obligation: %s (%s)' % (o['name'], o['status']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        viol = len(definite)
    else:
        for l in lines:
            print(l)

    # ---- evidence
    level = mod.LEVEL if mod is not None and hasattr(mod, 'LEVEL') else ('proof' if mod else 'exploration')
    proved = sum(o['status'] == 'proved' for o in obls)
    cov = {}
    if mod is not None:
        cov.update({
            'obligations': len(obls),
            'discharged': proved,
            'checker_cmd': 'python3-vt -m vf.run %s --tier %s' % (prop, tier),
            'trusted_base': BASE_TRUST + list(getattr(mod, 'TRUST', [])),
            'functions_under_contract': [{'unit': u['unit'], 'source': u['source'],
                                          'obligations': len(u['obligations']),
                                          'discharged': sum(o['status'] == 'proved' for o in u['obligations']),
                                          'paths': u['paths'], 'solver_s': u['solver_time'],
                                          'queries': u['queries'],
                                          'verdict': 'undecided: ' + u['abort'] if u['abort'] else
                                          ('proved' if u['obligations'] and all(o['status'] == 'proved'
                                                                               for o in u['obligations'])
                                           else 'not proved'),
                                          'inlined_helpers': u.get('inlined', []),
                                          'callee_contracts': u.get('contracts', [])} for u in units],
            'back_end': 'z3 %s' % _z3v(),
            'solver_s': round(sum(u['solver_time'] for u in units), 2),
            'proof_wall_s': round(t_proof, 2),
            'assumed_library_models': sorted({m for u in units for m in u.get('models', [])}),
            'assumed_pure_observers': sorted({m for u in units for m in u.get('observers', [])}),
            'assumed_callee_contracts': sorted({m for u in units for m in u.get('contracts', [])}),
            'obligation_samples': [o['name'] for o in obls[:200:10]][:12],
        })
        if not quick and units:
            cov['cross_check'] = cross_check(units, 300)
    if expl:
        b = {'evaluations': expl['evaluations'], 'distinct_nontrivial': expl['distinct_nontrivial'],
             'rule': expl['rule'], 'samples': expl['samples'], 'tool_runs': expl.get('tool_runs', 0),
             'harness_errors': len(expl['errors'])}
        if level == 'exploration':
            cov.update(b)
        else:
            cov['bounded_exploration'] = b
    ass = list(getattr(mod, 'ASSUME', [])) if mod else []
    if mod is not None:
        ass += ['library models and callee contracts listed under coverage are assumed, not proved']
        ass += ['undecided in this run: %s: %s' % (u['unit'], u['abort']) for u in aborted]
    ev = {'property': prop, 'tier': tier, 'seed': a.seed, 'level': level, 'coverage': cov, 'assumptions': ass,
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)

    print('%s %s: %d/%d obligations discharged (%d units, %d undecided), %d cases explored, %.1fs' % (
        prop, tier, proved, len(obls), len(units), len(aborted), expl['evaluations'] if expl else 0,
        time.time() - t0))
    for u in aborted:
        print('  undecided: %s: %s' % (u['unit'], u['abort'][-300:]))
    for u, o in failed[:6]:
        print('  not proved: %s (%s%s)' % (o['name'], o['status'], ', imprecise' if o['taint'] else ''))
    for u in vac:
        print('  vacuous: %s' % u['unit'])
    if expl:
        for e in expl['errors'][:1]:
            print('  exploration error: %s' % e[-600:])
    if viol:
        sys.exit(1)


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
