#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--replay FILE] [-v]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(PY, [PY, '-X', 'frozen_modules=on', '-B'] + sys.argv)

import atexit
import json
import shutil
import tempfile
import time

for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
SCRATCH = tempfile.mkdtemp(prefix='vpcheck_')
_PID = os.getpid()


def _clean():
    if os.getpid() == _PID and os.path.basename(SCRATCH).startswith('vpcheck_'):
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_clean)
os.makedirs(os.path.join(SCRATCH, 'home', '.config'))
os.makedirs(os.path.join(SCRATCH, 'tmp'))
os.environ['HOME'] = os.path.join(SCRATCH, 'home')
os.environ['VERIF_TMP'] = os.path.join(SCRATCH, 'tmp')
os.environ['TMPDIR'] = os.path.join(SCRATCH, 'tmp')
os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'tmp')
os.environ['MPLBACKEND'] = 'Agg'
tempfile.tempdir = None
os.chdir(SCRATCH)
SRC = os.environ.get('VERIF_SRC', '/repo/src')
sys.path[0:0] = [HERE, SRC]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True


def known_findings():
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                f = dict(x.split('=', 1) for x in line[7:].split(' | ')[0].split())
                f['text'] = line.split(' | ', 1)[1] if ' | ' in line else ''
                out.append(f)
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    import pandas, scipy.interpolate, scipy.constants  # noqa  (before forking)
    from engine import runner
    prop = a.prop
    if a.replay:
        d = json.load(open(a.replay))
        mod = runner.load(prop)
        h = [x for x in mod.HARNESSES if x.name == d['harness']][0]
        case = {k: runner.untuple(v) for k, v in d['case'].items()}
        s, failed = runner.replay(h, case, d['inputs'])
        print(s, failed)
        return 1 if s in ('failed', 'hang') else 0
    opts = {'jobs': a.jobs}
    if tier == 'thorough':
        opts.update(deadline_s=3000, max_paths=60000, timeout_ms=20000, check_timeout_ms=60000, item_limit_s=600)
    r = runner.run_property(prop, tier, seed, opts, only=a.only, verbose=a.v)
    g, tot = r['agg'], r['total']
    und = {}
    for u in g['undecided']:
        k = (u.get('harness'), u['why'])
        und.setdefault(k, []).append(u)
    outdir = os.path.join(HERE, 'out')
    nviol = 0
    code = 0
    if r['violation']:
        v = r['violation']
        kf = None
        for f in known_findings():
            if f.get('property') == prop and f.get('harness') == v['harness'] and \
                    f.get('label', '').replace('_', ' ') in v['failed'][0][0]:
                kf = f
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, kf['text']))
        else:
            os.makedirs(outdir, exist_ok=True)
            p = os.path.join(outdir, '%s-%s.json' % (prop, v['harness']))
            with open(p, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('counterexample: harness=%s case=%s' % (v['harness'], v['case']))
            print('  label:  %s (%s)%s' % (v['label'], v['solver'], ' ' + str(v['note']) if v['note'] else ''))
            print('  inputs: %s' % json.dumps(v['inputs'], default=str)[:1500])
            for lab, note in v['failed'][:5]:
                print('  real code fails: %s: %s' % (lab, note))
            print('VIOLATION property=%s replay=%s' % (prop, p))
            nviol, code = 1, 1
    for (hn, why), us in list(und.items())[:12 if not a.v else 1000]:
        print('PARTIAL: %s: %s (x%d) %s' % (hn, why[:300], len(us), str(us[0].get('case', ''))[:120]))
        if a.v:
            for u in us[:3]:
                print('      inputs', str(u.get('inputs'))[:400], u.get('tb', ''))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['branches'],
            'traces_validated_against_impl': g['replayed'],
            'samples': g['samples'],
            'explanation': 'states = symbolic paths executed to their end; transitions = branch decisions put to the '
                           'solver; every path carries assertions that the solver shows for all inputs taking it',
            'assertions_checked': tot['checks'], 'assertions_discharged': tot['discharged'],
            'assertion_labels': g['labels'],
            'solver_queries': tot['queries'], 'solver_unsat': tot['unsat'], 'solver_sat': tot['sat'],
            'solver_unknown': tot['unknown'], 'solver_seconds': round(tot['solver_s'], 2),
            'paths_infeasible_or_assumed_away': tot['aborted'], 'values_concretised': tot['concretized'],
            'functions_encoded': sorted(g['funcs']), 'library_contracts_used': sorted(g['stubs']),
            'harnesses': [{'name': h.name, 'bounds': h.bounds,
                           'cases': len([1 for k in r['per'] if k[0] == h.name]),
                           'paths': sum(d['paths'] for k, d in r['per'].items() if k[0] == h.name),
                           'paths_with_assertions': sum(d['reached'] for k, d in r['per'].items() if k[0] == h.name)}
                          for h in r['hs']],
            'undecided': [{'harness': k[0], 'why': k[1], 'count': len(v)} for k, v in und.items()],
            'exhaustive': not und and not r['violation'],
        },
        'assumptions': list(getattr(r['mod'], 'ASSUMPTIONS', [])) + [
            'numbers are real numbers (float rounding outside the model) unless a harness says IEEE double',
            'numpy/scipy/pandas/file formatting obey the contracts in engine/symnp.py, engine/stubs.py'],
        'wall_s': round(r['wall'], 2), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d paths, %d branches, %d/%d assertions, %d queries (%.1f s solver), %d replays, %d undecided, %.1f s'
          % (prop, tier, tot['paths'], tot['branches'], tot['discharged'], tot['checks'], tot['queries'],
             tot['solver_s'], g['replayed'], len(g['undecided']), r['wall']))
    return code


if __name__ == '__main__':
    sys.exit(main())
