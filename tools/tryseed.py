#!/usr/bin/env python3
"""tryseed.py SPEC.py... : try seeds in scratch copies of /repo (parallel): demo clean/patched, check, tests; nothing in /repo or /verif is touched"""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
base = json.load(open('/opt/vp/BASELINE.json'))
base = set(base if isinstance(base, list) else base.get('passed') or base.get('stable') or list(base.values())[0])
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAVE = '--save' in sys.argv
SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cd "$work"
/opt/venv/bin/python "$here/demo.py"
"""
NOTEST = '--notest' in sys.argv


def sh(cmd, t=900, **kw):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', stdin=subprocess.DEVNULL, timeout=t, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -9, 'TIMEOUT'


def one(fn):
    s = {}
    exec(open(fn).read(), s)
    w = '/tmp/sb/' + s['ID']
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/tmp')
    sh('cp -a /repo %s/repo && mkdir %s/verif && cp -a /verif/run /verif/vf /verif/known_findings.txt %s/verif/' % (w, w, w))
    out = ['== %s' % s['ID']]
    try:
        open(w + '/demo.py', 'w').write(s['DEMO'].lstrip('\n').replace('/repo/', w + '/repo/'))
        env = dict(os.environ, PYTHONPATH=w + '/repo/src', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
        os.makedirs(w + '/w1'); os.makedirs(w + '/w2')
        rc, o = sh('/opt/venv/bin/python %s/demo.py' % w, cwd=w + '/w1', env=env)
        if rc: out.append('  DEMO FAILS ON CLEAN %d %s' % (rc, o[-600:]))
        for f, old, new in s['EDITS']:
            p = os.path.join(w, 'repo', f)
            t = open(p).read()
            if t.count(old) != 1:
                return '\n'.join(out + ['  EDIT MATCHES %d times: %s' % (t.count(old), old[:80])])
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s/repo diff' % w)[1]
        for f in set(e[0] for e in s['EDITS']):
            orig = sh('git -C %s/repo show 656cf2e:%s' % (w, f))[1].splitlines()
            for l in diff.splitlines():
                if l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
                    out.append('  NOT ORIGINAL: ' + l)
        f90 = any(e[0].endswith('.f90') for e in s['EDITS'])
        if f90:
            out.append('  (fortran: demo/tests not tried here)')
        else:
            rc, o = sh('/opt/venv/bin/python %s/demo.py' % w, cwd=w + '/w2', env=env)
            if rc == 0: out.append('  DEMO PASSES WITH PATCH')
            else: out.append('  demo: ' + (o.strip().splitlines() or [''])[-1][:150])
        env2 = dict(os.environ, VF_REPO=w + '/repo', VF_NPROC='4', VF_TMP=w + '/tmp', SRC=w + '/repo', VERIF_SEED='1', VERIF_TIER='quick')
        rc, o = sh('%s/verif/run %s' % (w, s['PROP']), env=env2)
        out.append('  CHECK rc %d %s' % (rc, 'CAUGHT' if rc == 1 else '***MISSED***' if rc == 0 else o[-400:]))
        if rc == 1:
            out.append('     ' + ' / '.join(l.strip()[:140] for l in o.splitlines()[-6:]))
        bad = None
        if not NOTEST and not f90:
            sh('bash %s/tools/mutest.sh %s/o.json' % (VERIF, w), env=env2)
            try:
                bad = sorted(base - set(json.load(open(w + '/o.json'))['passed']))
            except Exception:
                bad = ['no result']
            out.append('  tests: %s' % (bad or 'all pass'))
        if SAVE and bad == [] and not any(k in '\n'.join(out) for k in ('NOT ORIGINAL', 'DEMO', 'EDIT')):
            d = os.path.join(VERIF, 'seeded', s['ID'])
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write(SH)
            json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
            out.append('  saved')
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return '\n'.join(out)


with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, [a for a in sys.argv[1:] if a.endswith('.py')]):
        print(r, flush=True)
