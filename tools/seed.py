#!/usr/bin/env python3
"""seed.py SPECFILE [ID...]: makes /verif/seeded/<id>/ from a list SEEDS of dicts
(id, property, edits [(file, old, new)], demo, needs, breaks) after confirming, in a scratch copy,
that the tests still pass and that the demonstration separates the two trees.  With --check also
runs the property's check on the changed copy."""
import json, os, shutil, subprocess, sys, tempfile
PY = '/opt/venv/bin/python'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


DEMO = '''#!/bin/bash
# exit 0: property holds; nonzero: broken
D="$(cd "$(dirname "$0")" && pwd)"
S="$(mktemp -d)"; trap 'rm -rf "$S"' EXIT
mkdir -p "$S/home/.config/dispersion" "$S/tmp"
export HOME="$S/home" TMPDIR="$S/tmp" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" PYTHONHASHSEED=0
export SCRATCH="$S/tmp"
/opt/venv/bin/python -W ignore "$D/demo.py"
'''


def tests(d):
    base = json.load(open('/opt/vp/BASELINE.json'))
    ids = base.get('passed') or base.get('stable') or base.get('tests')
    h = tempfile.mkdtemp()
    os.makedirs(h + '/.config')
    r = sh('cd %s && HOME=%s PYTHONPATH=%s/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg %s -m pytest -q -p no:cacheprovider --timeout=300 '
           '--continue-on-collection-errors -rA tests' % (d, h, d, PY))
    shutil.rmtree(h)
    n = sum(1 for l in r.stdout.splitlines() if l.startswith('PASSED'))
    return n, r.stdout


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = [a for a in sys.argv[2:] if not a.startswith('-')]
    run = '--check' in sys.argv
    base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
    res = []
    for s in spec['SEEDS']:
        if want and s['id'] not in want:
            continue
        d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        c = os.path.join(d, 'repo')
        sh('git clone -q /repo %s' % c)
        try:
            bad = None
            for f, old, new in s['edits']:
                p = os.path.join(c, 'src/dispersion', f)
                t = open(p).read()
                if t.count(old) != 1:
                    bad = 'edit matches %d times: %s' % (t.count(old), old)
                    break
                open(p, 'w').write(t.replace(old, new))
            if bad:
                print(s['id'], 'ERROR', bad)
                continue
            diff = sh('git -C %s diff' % c).stdout
            # the changed lines belong to the original repository
            orig = {}
            for f, _, _ in s['edits']:
                orig[f] = set(sh('git -C /repo show %s:src/dispersion/%s' % (base, f)).stdout.splitlines())
            notorig = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip()
                       and not any(l[1:] in o for o in orig.values())]
            n, out = tests(c)
            out_dir = os.path.join('/verif/seeded', s['id'])
            os.makedirs(out_dir, exist_ok=True)
            open(out_dir + '/patch.diff', 'w').write(diff)
            open(out_dir + '/demo.sh', 'w').write(DEMO)
            os.chmod(out_dir + '/demo.sh', 0o755)
            open(out_dir + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(out_dir + '/meta.json', 'w'), indent=1)
            r0 = sh('cd /repo && bash %s/demo.sh' % out_dir)
            r1 = sh('cd %s && bash %s/demo.sh' % (c, out_dir))
            ok = n >= 19 and r0.returncode == 0 and r1.returncode != 0 and not notorig
            line = '%s %s %s tests=%d demo=%d/%d' % (s['id'], s['property'], 'ok' if ok else 'BAD', n, r0.returncode, r1.returncode)
            if notorig:
                line += ' NOTORIG ' + repr(notorig)
            if not ok:
                print(r0.stderr[-600:], r1.stderr[-300:])
                shutil.rmtree(out_dir)
            elif run:
                rc = sh('cd /verif && VERIF_SRC=%s/src ./check.py %s' % (c, s['property']))
                hit = [l for l in rc.stdout.splitlines() if l.startswith('VIOLATION')]
                line += ' check=%d %s' % (rc.returncode, 'CAUGHT' if rc.returncode == 1 and hit else 'MISSED')
                line += ' | ' + ' / '.join(l.strip()[:150] for l in rc.stdout.splitlines() if 'label:' in l or 'PARTIAL' in l)[:400]
            print(line, flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
