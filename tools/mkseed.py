#!/usr/bin/env python3
"""mkseed.py SPEC.py [--notest] : make seeded/<ID>/ from a spec and try it on /repo (applied, tested, undone)

A spec defines ID, PROP, EDITS = [(file, old, new)], NEEDS, BREAKS, DEMO (python source).
"""
import json, os, re, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    s = {}
    exec(open(sys.argv[1]).read(), s)
    assert not sh('git -C /repo status --short').stdout.strip(), 'repo dirty'
    d = os.path.join(VERIF, 'seeded', s['ID'])
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f:
        f.write(s['DEMO'].lstrip('\n'))
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                'work=$(mktemp -d) || exit 3\ntrap \'rm -rf "$work"\' EXIT\ncd "$work"\n'
                '/opt/venv/bin/python "$here/demo.py"\n')
    with open(d + '/meta.json', 'w') as f:
        json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, f, indent=1)
    p0 = sh('bash %s/demo.sh' % d, cwd=REPO)
    print('demo clean rc', p0.returncode, p0.stdout[-800:] if p0.returncode else '')
    try:
        for fn, old, new in s['EDITS']:
            p = os.path.join(REPO, fn)
            t = open(p).read()
            assert t.count(old) == 1, (fn, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        # only original lines may be changed
        for fn in set(e[0] for e in s['EDITS']):
            rm = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            orig = sh('git -C /repo show 656cf2e:%s' % fn).stdout.splitlines()
            for l in rm:
                if l not in orig:
                    print('  NOT ORIGINAL:', l)
        b = sh('bash /opt/vp/build.sh')
        print('build rc', b.returncode, b.stdout[-300:] if b.returncode else '')
        p1 = sh('bash %s/demo.sh' % d, cwd=REPO)
        print('demo patched rc', p1.returncode, p1.stdout[-300:])
        if '--notest' not in sys.argv:
            sh('bash /opt/vp/test.sh /tmp/sd/o.json')
            dd = json.load(open('/tmp/sd/o.json'))
            bb = json.load(open('/opt/vp/BASELINE.json'))
            base = bb if isinstance(bb, list) else bb.get('passed') or bb.get('stable') or list(bb.values())[0]
            print('stable not passed:', sorted(set(base) - set(dd['passed'])))
        c = sh('VERIF_SEED=1 VERIF_TIER=quick ./run %s' % s['PROP'], cwd=VERIF)
        print('check rc', c.returncode, '\n'.join(c.stdout.splitlines()[-4:]))
    finally:
        sh('git -C /repo checkout -- .')
        if any(e[0].endswith('.f90') for e in s['EDITS']):
            sh('bash /opt/vp/build.sh')


main()
