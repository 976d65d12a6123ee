import argparse
import atexit
import importlib
import json
import os
import re
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def prop_modules():
    d = os.path.join(HERE, 'vf', 'props')
    return sorted(f[:-3].upper() for f in os.listdir(d) if f.endswith('.py') and not f.startswith('_'))


def load_known(prop):
    """Findings that are recorded, not repaired (see known_findings.txt)."""
    out = []
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'open:\s+property=(\S+)\s+key=(\S+)\s+scenario=(\S+)\s+(.*)', line.strip())
            if m and m.group(1) == prop:
                out.append(dict(key=m.group(2), scenario=m.group(3), what=m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--selfcheck', action='store_true')
    ap.add_argument('--only', help='run only this scenario')
    ap.add_argument('--case', type=int, help='with --only: run only this case')
    ap.add_argument('--times', action='store_true')
    args = ap.parse_args()
    if args.selfcheck:
        import numpy, scipy, h5py  # what the checks need
        for p in prop_modules():
            compile(open(os.path.join(HERE, 'vf', 'props', p.lower() + '.py')).read(), p, 'exec')
        print('selfcheck ok: %d checks' % len(prop_modules()))
        return 0
    if args.list:
        print(' '.join(prop_modules()))
        return 0
    prop = args.prop.upper()
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop, dir=os.environ.get('VF_TMP', '/tmp'))
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(clean)
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.environ['XDG_CACHE_HOME'] = os.path.join(scratch, 'cache')

    replay = None
    if args.replay:
        with open(args.replay) as f:
            replay = json.load(f)
        prop, seed, args.tier = replay['property'], replay['seed'], replay['tier']

    from vf import stage
    try:
        path, how = stage.stage(scratch)
    except Exception as e:
        print('INCONCLUSIVE property=%s cannot stage /repo: %s' % (prop, e))
        return 2
    sys.path.insert(0, path)
    os.environ['VF_STAGE'] = path
    os.environ['VF_SCRATCH'] = scratch
    import warnings
    warnings.simplefilter('ignore')
    from vf import cov as linecov
    linecov.start(path)
    try:
        import pwtools
        assert os.path.abspath(pwtools.__file__).startswith(path), pwtools.__file__
        mod = importlib.import_module('vf.props.' + prop.lower())
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('INCONCLUSIVE property=%s import failed: %s' % (prop, e))
        return 2
    from vf import core
    reg = mod.reg
    seed_list = [seed]
    if hasattr(mod, 'setup'):
        mod.setup(scratch, args.tier)

    if replay or args.case is not None:
        name, idx = (replay['scenario'], replay['case']) if replay else (args.only, args.case)
        r = core.run_case(reg, name, idx, seed, args.tier, scratch)
        print(json.dumps(r['notes'], default=str))
        for m, k in r['viol']:
            print('[%s] key=%s\n  %s' % (name, k, m))
        print('observed', r['observed'], 'inconclusive', r['inconc'])
        return 1 if r['viol'] else 0

    tasks = []
    for n, s in reg.scenarios.items():
        if args.only and n != args.only:
            continue
        tasks += [(n, i) for i in range(s.count(args.tier))]
    # interleave scenarios so that slow ones do not pile up at the end
    tot = {n: s.count(args.tier) for n, s in reg.scenarios.items()}
    tasks.sort(key=lambda t: (t[1] + 0.5) / tot[t[0]])
    nproc = int(os.environ.get('VF_NPROC', getattr(mod, 'NPROC', 8)))
    budget = 780. if args.tier == 'quick' else float(os.environ.get('VF_BUDGET', 6 * 3600))

    known = load_known(prop)
    n_cases = observed = 0
    distinct = set()
    per = {n: dict(cases=0, observations=0) for n in reg.scenarios}
    counters, samples, viols, inconc, khits = {}, {}, [], [], {}
    lines = set()
    times = {}
    for r in core.run_all(reg, tasks, seed, args.tier, scratch, nproc, budget):
        if r['inconc']:
            inconc.append('%s[%d]: %s' % (r['scen'], r['idx'], r['inconc']))
        n_cases += 1
        observed += r['observed']
        lines.update(r.get('lines', ()))
        times.setdefault(r['scen'], []).append(r['t'])
        if r['scen'] in per:
            per[r['scen']]['cases'] += 1
            per[r['scen']]['observations'] += r['observed']
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        if r['observed'] and r['notes']:
            distinct.add((r['scen'], json.dumps(r['notes'], sort_keys=True, default=str)))
            if r['scen'] not in samples:
                samples[r['scen']] = dict(scenario=r['scen'], case=r['idx'], observations=r['observed'],
                                          config=r['notes'])
        for msg, key in r['viol']:
            kf = [d for d in known if d['key'] == key and d['scenario'] in ('*', r['scen'])]
            if kf:
                khits.setdefault(kf[0]['key'], [kf[0], 0])[1] += 1
            else:
                viols.append(dict(property=prop, scenario=r['scen'], case=r['idx'], seed=seed,
                                  tier=args.tier, key=key, msg=msg, config=r['notes']))
    wall = time.time() - t0
    full = not args.only
    few = len(inconc) <= 0.2 * n_cases
    evid = os.path.join(HERE, 'evidence')
    os.makedirs(evid, exist_ok=True)
    rdir = os.path.join(evid, 'replay')
    for n, s in per.items():
        if full and not s['observations'] and not viols:
            inconc.append('scenario %s observed nothing' % n)
            few = False
    order = sorted(samples)
    cov = dict(evaluations=n_cases, distinct_nontrivial=len(distinct),
               rule=reg.rule + ' A case is non-trivial when at least one oracle looked at a result of the real code; '
                    'cases are distinct when scenario or configuration (sizes, options, kinds of data; not random values) differ.',
               samples=[samples[k] for k in order[:12]] or [dict(note='no sample')],
               oracle_observations=observed, scenarios=per, counters=counters,
               extensions=how, package_lines_executed=linecov.summary(lines), inconclusive=inconc[:20], known_findings_seen={k: v[1] for k, v in khits.items()},
               exhaustive=False)
    ev = dict(property=prop, tier=args.tier, seed=seed, level='exploration', coverage=cov,
              assumptions=reg.assumptions, wall_s=round(wall, 2), violations=len(viols))
    if full:
        with open(os.path.join(evid, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for kf, n in khits.values():
        print('KNOWN-FINDING: property=%s %s (seen %d times in this run)' % (prop, kf['what'], n))
    for d in known:
        if d['key'] not in khits and full:
            print('KNOWN-FINDING: property=%s %s (not reached in this run)' % (prop, d['what']))
    seen = {}
    for v in sorted(viols, key=lambda v: (v['scenario'], v['case'])):
        k = (v['scenario'], v['key'])
        seen.setdefault(k, []).append(v)
    if viols:
        os.makedirs(rdir, exist_ok=True)
    for i, (k, vs) in enumerate(sorted(seen.items(), key=str)):
        if i < 12:
            fn = os.path.join(rdir, '%s-%s-%d.json' % (prop, k[0], vs[0]['case']))
            with open(fn, 'w') as f:
                json.dump(vs[0], f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (prop, fn))
            print('  scenario %s case %d key=%s (%d cases): %s' % (k[0], vs[0]['case'], k[1], len(vs), vs[0]['msg']))
            print('  config: %s' % json.dumps(vs[0]['config'], default=str)[:600])
    if args.times:
        for n, t in sorted(times.items(), key=lambda x: -sum(x[1])):
            print('  time %-34s n=%4d sum=%7.2f max=%6.2f' % (n, len(t), sum(t), max(t)))
    print('%s %s seed=%d: %d cases, %d distinct, %d observations, %d violations, %.1f s [%s]' % (
        prop, args.tier, seed, n_cases, len(distinct), observed, len(viols), wall, how))
    if os.environ.get('VF_COV'):
        with open(os.environ['VF_COV'], 'w') as f:
            json.dump(dict(t=wall, lines=sorted(lines)), f)
    if viols:
        return 1
    if inconc:
        for m in inconc[:10]:
            print('INCONCLUSIVE property=%s %s' % (prop, m))
        # a few cases without an answer do not matter as long as every scenario has answers
        return 0 if few else 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
