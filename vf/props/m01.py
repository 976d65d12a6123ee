import json
import os
import subprocess
import sys

from vf import sanit
from vf.core import Registry, Inconclusive

reg = Registry('M01', 'Both Fortran extensions are rebuilt from the current sources with AddressSanitizer + UBSan + Fortran bounds '
               'checks (uninitialised memory poisoned with NaN), with ThreadSanitizer over a fork-join runtime on plain threads '
               '(random start delays), and with the project\'s flags under valgrind memcheck; the package then drives every kernel '
               'with random sizes, memory layouts and thread counts, results are compared with an independent computation and '
               'any sanitizer report naming the extensions is a violation')
NPROC = 6
_paths = {}
_err = []
ALL = ['distances', 'distances_traj', 'angles', 'transform', 'fvacf', 'acorr', 'distsq', 'dcd', 'random']
PAR = ['distances_traj', 'fvacf', 'distsq']


def setup(scratch, tier):
    try:
        _paths.update(sanit.build(os.environ['VF_STAGE'], scratch))
    except sanit.BuildError as e:
        _err.append(str(e))


def _go(ctx, variant, ops, n, big, threads):
    if _err:
        raise Inconclusive('instrumented build failed: ' + _err[0][-1500:])
    d = ctx.tmp()
    log = os.path.join(d, 'san.log')
    spec = os.path.join(d, 'spec.json')
    with open(spec, 'w') as f:
        json.dump(dict(ops=ops, n=n, seed=int(ctx.rng.integers(2 ** 31)), big=big, threads=threads, tmp=d), f)
    from vf import mwork
    cmd = sanit.argv(variant, log) + [mwork.__file__, spec]
    env = sanit.env(variant, _paths[variant], log)
    env['OMP_NUM_THREADS'] = str(ctx.pick([3, 8, 2, 5, 1, 4]))
    with open(os.path.join(d, 'err'), 'wb') as ef:
        p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=ef)
        late = False
        try:
            out = p.communicate(timeout=100 * (1 if ctx.tier == 'quick' else 20) * (3 if variant == 'memcheck' else 1))[0]
        except subprocess.TimeoutExpired:
            late = True
            p.kill()
            out = p.communicate()[0]
    with open(os.path.join(d, 'err'), errors='replace') as f:
        err = f.read()
    ev = []
    for line in out.decode('utf8', 'replace').splitlines():
        try:
            ev.append(json.loads(line))
        except ValueError:
            pass
    last = [e for e in ev if 'start' in e][-1:]
    for r in sanit.reports(variant, log):
        ctx.fail('%s reports an error in the compiled code (last operation %s):\n%s' % (variant, last, r[:3000]))
    kinds = {}
    for e in ev:
        if 'done' in e:
            ctx.observed += 1
            kinds[e['op']] = kinds.get(e['op'], 0) + 1
            if e['err']:
                ctx.fail('wrong result in the %s build: %s: %s' % (variant, e['op'], e['err']))
    if late:
        raise Inconclusive('workload did not finish in time (last operation %s)' % last)
    if not any('end' in e for e in ev):
        if 'Error termination' in err or 'runtime error' in err or 'Fortran runtime error' in err or p.returncode < 0 or last:
            ctx.fail('workload died in the %s build (exit %s, last operation %s):\n%s' % (variant, p.returncode, last, err[-2500:]))
        if 'undefined symbol' in err:
            raise Inconclusive('instrumented extension cannot be loaded: ' + err[-500:])
        raise Inconclusive('workload did not start (exit %s): %s' % (p.returncode, err[-1500:]))
    ctx.note(variant=variant, omp=env['OMP_NUM_THREADS'], threads=threads, big=big)
    for k, v in kinds.items():
        ctx.count('%s %s' % (variant, k), v)
    for e in ev:
        if e.get('regions'):
            ctx.count('%s parallel regions' % variant, e['regions'])
            ctx.count('%s threads forked' % variant, e['team'])


@reg.scenario(quick=8, thorough=60)
def address(ctx):
    """ASan/UBSan/bounds checks over all kernels"""
    _go(ctx, 'asan', ALL, 500 if ctx.tier == 'quick' else 3000, ctx.idx % 2 == 0, ctx.pick([0, 9, 4]))


@reg.scenario(quick=6, thorough=60)
def races(ctx):
    """ThreadSanitizer over the parallel kernels"""
    _go(ctx, 'tsan', PAR, 300 if ctx.tier == 'quick' else 2000, ctx.idx % 2 == 0, ctx.pick([0, 3, 4]))


@reg.scenario(quick=3, thorough=24)
def memcheck(ctx):
    """valgrind over the optimised build: uninitialised reads, heap errors"""
    ops = [ALL, ['dcd', 'acorr', 'fvacf'], ['distances', 'distances_traj', 'distsq', 'transform', 'angles']][ctx.idx % 3]
    _go(ctx, 'memcheck', ops, 54 if ctx.tier == 'quick' else 250, False, 0)


@reg.scenario(quick=6, thorough=100)
def stress(ctx):
    """the build users get: many repetitions, thread counts and concurrent callers"""
    _go(ctx, 'plain', ALL if ctx.coin() else PAR, 800 if ctx.tier == 'quick' else 4000, ctx.idx % 2 == 0, ctx.pick([2, 3, 0]))
