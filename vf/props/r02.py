import copy
import itertools
import warnings

import numpy as np

from pwtools import rbf
from pwtools.rbf import hyperopt
from vf.core import Registry
from vf import storage
from vf.props import r01

reg = Registry('R02', 'Every optimiser on random point clouds with caller-supplied bounds, grids, starts, seeds and cross-validators '
               '(which record their splits); every error evaluation of the optimiser is recorded, and the oracle recomputes '
               'errors with its own kernel solver and its own split bookkeeping')


def data(ctx, n=None):
    N = ctx.ri(1, 3)
    n = ctx.ri(12, 30) if n is None else n
    x = ctx.rng.uniform(0, 1, (n, N)) * ctx.choice([1.0, 5.0])
    u = x / x.max()
    z = np.sin(4 * u.sum(1)) + u[:, 0]**2 + ctx.choice([0, 0.05]) * ctx.rng.standard_normal(n)
    return x, z


def err(xt, zt, xv, zv, p, r, kname):
    """error of an own fit; returns error and how much rounding can change it"""
    ker = r01.KER[kname]
    K = ker(r01.dsq(xt, xt), p) + (r or 0) * np.eye(len(xt))
    c = np.linalg.cond(K)
    try:
        w = np.linalg.solve(K, zt)
    except np.linalg.LinAlgError:
        return np.nan, np.inf
    f = ker(r01.dsq(xv, xt), p) @ w
    e = np.mean((f - zv)**2)
    return (np.exp(abs(e)) if p < 0 else e), c


class CV:
    """cross-validator that records its splits"""
    def __init__(self, folds, n):
        self.folds, self.n, self.calls = folds, n, 0

    def get_n_splits(self, X=None, y=None, groups=None):
        return len(self.folds)

    def split(self, X, y=None, groups=None):
        self.calls += 1
        assert len(X) == self.n
        for te in self.folds:
            yield np.setdiff1d(np.arange(self.n), te), np.array(te)


def folds(ctx, n, k, rep):
    out = []
    for _ in range(rep):
        i = ctx.rng.permutation(n)
        out += [np.sort(a) for a in np.array_split(i, k)]
    return out


class Spy:
    """records the training sets of all interpolators made by hyperopt"""
    def __enter__(self):
        self.old = hyperopt.Rbf
        log = self.log = []

        class R(self.old):
            def __init__(self, points, values, *a, **k):
                super().__init__(points, values, *a, **k)
                log.append(dict(points=np.array(points), values=np.array(values), p=self.p, r=self.r, kern=self.rbf, tests=[]))
                self._log = log[-1]

            def fit_error(self, points, values):
                e = super().fit_error(points, values)
                self._log['tests'].append((np.array(points), np.array(values), e))
                return e
        hyperopt.Rbf = R
        return self

    def __exit__(self, *a):
        hyperopt.Rbf = self.old


@reg.scenario(quick=250, thorough=4000)
def fit_error(ctx):
    """cross-validation and direct errors"""
    x, z = data(ctx)
    n = len(x)
    kname = ctx.choice(list(r01.KER))
    p = rbf.estimate_p(x) * ctx.choice([0.1, 0.2, 0.5, -0.2])
    r = ctx.choice([0, 1e-8, 1e-3, 0.3, None])
    k, rep = ctx.ri(2, 6), ctx.ri(1, 3)
    mode = ctx.choice(['own', 'dict', 'cv_kwds', 'direct'])
    way = ctx.choice(['p,r', 'p'])
    ctx.note(kernel=kname, r=str(r), splits=k, repeats=rep, mode=mode, params=way)
    kw = dict(rbf=kname)
    if way == 'p':
        kw['r'] = r
    seed = ctx.ri(0, 10**6)
    cvd = dict(n_splits=k, n_repeats=rep, random_state=seed)
    fo = folds(ctx, n, k, rep)
    cv = dict(own=CV(fo, n), dict=cvd, cv_kwds=None, direct=None)[mode]
    inp = (x.copy(), z.copy(), dict(kw), dict(cvd))
    with Spy() as spy, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fe = hyperopt.FitError(x, z, rbf_kwds=kw, cv=cv, **(dict(cv_kwds=cvd) if mode == 'cv_kwds' else {}))
        par = [p, r] if way == 'p,r' else [p]
        direct = fe.err_direct(par)
        nd = len(spy.log)
        if mode == 'direct':
            errs = None
            total = fe(par)
        else:
            errs = fe.cv(par)
            ncv = len(spy.log)
            mean = fe.err_cv(par)
            total = fe(par)
    ctx.same((x, z, kw, cvd), inp, 'input changed')
    e, c = err(x, z, x, z, p, r, kname)
    s = np.mean(z**2)
    if c < 1e8 and e < 1e200:
        ctx.close(direct, e, 'direct error', rtol=1e-6, atol=(1e-14 * c)**2 * s * len(x) + 1e-14 * s)
    if mode == 'direct':
        ctx.close(total, direct, 'error without cross-validation is the direct one', rtol=1e-9)
        return
    ctx.check(np.shape(errs) == (k * rep,), 'one error per split', got=errs)
    lim = lambda v: np.minimum(v, 1e300)         # penalty may overflow
    ctx.close(lim(mean), lim(np.mean(errs)), 'mean of the errors (same splits)', rtol=1e-9)
    ctx.close(lim(total), lim(mean), 'call gives the cross-validation error', rtol=1e-9)
    if mode == 'own':
        want = [err(np.delete(x, t, 0), np.delete(z, t), x[t], z[t], p, r, kname) for t in fo]
        for a, (b, c) in zip(errs, want):
            if c < 1e8 and b < 1e200:
                ctx.close(a, b, 'error of a split', rtol=1e-5 + 1e-12 * c, atol=1e-14 * c * s)
                ctx.count('splits recomputed')
        ctx.check(cv.calls == 3, 'splits are made once per evaluation', got=cv.calls)
    log = [q for q in spy.log[nd:] if q['tests']]
    if not log:
        ctx.count('interpolators not observed')
        return
    ctx.check(len(log) == 3 * k * rep, 'one interpolator per split', got=len(log))
    key = {tuple(a): i for i, a in enumerate(x)}
    for o in range(3):
        for b in range(rep):
            seen = []
            for q in log[o * k * rep:][b * k:(b + 1) * k]:
                tr = [key[tuple(a)] for a in q['points']]
                te = [key[tuple(a)] for t in q['tests'] for a in t[0]]
                ctx.check(not set(tr) & set(te) and sorted(tr + te) == list(range(n)), 'training and test set are complementary', train=tr, test=te)
                ctx.same(q['values'], z[tr], 'training values belong to their points')
                ctx.same(np.concatenate([t[1] for t in q['tests']]), z[te], 'test values belong to their points')
                ctx.check(q['p'] == p and q['r'] == r, 'parameters used', got=(q['p'], q['r']))
                seen += te
            ctx.check(sorted(seen) == list(range(n)), 'every point is tested exactly once per repetition', got=sorted(seen))
    ctx.count('cross-validations observed', 3 * rep)


@reg.scenario(quick=100, thorough=1500)
def optimise(ctx):
    """bounds, candidates, reproducibility, options"""
    method = ctx.choice(['de', 'brute', 'brute', 'fmin'])
    what = ctx.choice(['p', 'pr'])
    x, z = data(ctx, n=ctx.ri(8, 14))
    n = len(x)
    kname = ctx.choice(['gauss', 'gauss', 'inv_multi', 'multi'])
    p0 = rbf.estimate_p(x)
    kw = dict(rbf=kname) if ctx.coin(0.7) or kname != 'gauss' else {}
    if what == 'p':
        kw['r'] = ctx.choice([1e-6, 1e-3])
    mode = ctx.choice(['direct', 'own', 'dict'])
    k = ctx.ri(2, 4)
    fo = folds(ctx, n, k, 1)
    cv = dict(direct=None, own=CV(fo, n), dict=dict(n_splits=k, n_repeats=1, random_state=ctx.ri(0, 10**6)))[mode]
    bounds = [(p0 * ctx.rng.uniform(0.05, 0.3), p0 * ctx.rng.uniform(0.5, 2)), (1e-6, ctx.choice([1e-3, 0.5]))][:len(what)]
    finish = None
    if method == 'de':
        opt = dict(bounds=bounds, seed=ctx.ri(0, 10**6), maxiter=4, popsize=4, polish=ctx.coin())
    elif method == 'brute':
        finish = ctx.coin(0.3)
        opt = dict(Ns=ctx.ri(3, 5))
        if ctx.coin():
            opt['ranges'] = bounds
        else:
            opt['ranges'] = tuple(slice(a, b, (b - a) / 3.7) for a, b in bounds)
        if not finish:
            opt['finish'] = None
    else:
        opt = dict(x0=[b[0] for b in bounds], maxiter=15)
    if ctx.coin(0.3):
        opt['disp'] = False
    ctx.note(method=method, what=what, kernel=kname, cv=mode, finish=bool(finish), N=x.shape[1])
    inp = [x.copy(), z.copy(), copy.deepcopy(opt), dict(kw), dict(cv) if mode == 'dict' else None]
    with Spy() as spy, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            f = hyperopt.fit_opt(x, z, method=method, what=what, cv=cv, opt_kwds=opt, rbf_kwds=kw)
        except ValueError as ex:
            if (method == 'fmin' or finish) and 'infs or NaNs' in str(ex):
                ctx.count('unbounded search hit p=0')
                return
            raise
        n1 = len(spy.log)
        f2 = hyperopt.fit_opt(x, z, method=method, what=what, cv=cv, opt_kwds=opt, rbf_kwds=kw)
    ctx.same([x, z, opt, kw, cv if mode == 'dict' else None], inp, "caller's data or options changed")
    ctx.check(isinstance(f, rbf.Rbf), 'an interpolator is returned', got=type(f))
    ctx.check(np.shape(f.p) == () and (what == 'p' or np.shape(f.r) == ()), 'scalar parameters', got=(f.p, f.r))
    ctx.same((f2.p, f2.r), (f.p, f.r), 'the same call gives the same answer')
    if what == 'p':
        ctx.same(f.r, kw['r'], 'fixed r kept')
    par = [f.p, f.r][:len(what)]
    ctx.same(f.points, x, 'all points used')
    ctx.same(f.rbf, rbf.rbf_dct[kname], 'kernel option used')
    ker = r01.KER[kname]
    K = ker(r01.dsq(x, x), f.p) + f.r * np.eye(n)
    ctx.close(K @ f.w, z, 'weights belong to the returned parameters', rtol=1e-6, atol=1e-6 * np.abs(z).max() + 1e-15 * n * np.abs(K).max() * np.abs(f.w).max())
    if mode == 'own':
        sets = [(np.setdiff1d(np.arange(n), t), t) for t in fo]
    elif mode == 'dict':
        from sklearn.model_selection import RepeatedKFold
        sets = list(RepeatedKFold(**cv).split(x))
    else:
        sets = [(np.arange(n), np.arange(n))]

    def total(q):
        r = q[1] if what == 'pr' else kw['r']
        w = [err(x[a], z[a], x[b], z[b], q[0], r, kname) for a, b in sets]
        return np.mean([e[0] for e in w]), max(e[1] for e in w)
    e, c = total(par)
    if method in ('de', 'brute') and not finish:
        for v, (a, b) in zip(par, bounds):
            ctx.check(a * (1 - 1e-12) <= v <= b * (1 + 1e-12), 'inside the requested bounds', got=v, want=(a, b))
    slack = lambda c: 1e-6 + 1e-11 * c
    if method == 'fmin':
        e0, c0 = total(opt['x0'])
        if max(c, c0) < 1e9:
            ctx.check(e <= e0 * (1 + slack(max(c, c0))) + 1e-20, 'not worse than the start', got=e, want=e0)
            ctx.count('starts compared')
    if method == 'brute':
        if isinstance(opt['ranges'][0], slice):
            gr = [np.arange(s.start, s.stop, s.step) for s in opt['ranges']]
        else:
            gr = [np.linspace(a, b, opt['Ns']) for a, b in opt['ranges']]
        for q in itertools.product(*gr):
            e0, c0 = total(q)
            if max(c, c0) < 1e9:
                ctx.check(e <= e0 * (1 + slack(max(c, c0))) + 1e-20, 'not worse than the grid candidates', got=e, want=e0, cand=q, par=par)
                ctx.count('grid candidates compared')
        if not finish:
            ctx.check(all(np.isclose(v, g, rtol=1e-12).any() for v, g in zip(par, gr)), 'a grid point is returned', got=par)
    ev = [q for q in spy.log[:n1] if q['tests']]
    if ev:
        # best evaluation the optimiser saw
        m = len(sets)
        es = [np.mean([t[2] for q in ev[i:i + m] for t in q['tests']]) for i in range(0, len(ev) - m + 1, m)]
        mine = min((abs(a['p'] - par[0]) / abs(par[0]) + (abs(a['r'] - par[1]) / abs(par[1]) if what == 'pr' else 0), i)
                   for i, a in enumerate(ev[::m]))
        if method == 'brute' and not finish or method == 'de' and not opt['polish']:
            ctx.check(mine[0] < 1e-12, 'returned parameters were evaluated', got=par)
        # (a polish that runs into its call limit may drop its last evaluation)
        if mine[0] < 1e-12 and not finish and not (method == 'de' and opt['polish']):
            ctx.check(es[mine[1]] <= min(es) * (1 + 1e-5) + 1e-300, 'not worse than any evaluated candidate', got=es[mine[1]], want=min(es))
            ctx.count('evaluations observed', len(es))
    else:
        ctx.count('interpolators not observed')


@reg.scenario(quick=30, thorough=300)
def defaults(ctx):
    """calls sharing the default dictionaries do not influence each other; default bounds"""
    x, z = data(ctx, n=ctx.ri(8, 12))
    p0 = rbf.estimate_p(x)
    kind = ctx.choice(['fmin', 'brute', 'de'])
    what = ctx.choice(['p', 'pr'])
    ctx.note(method=kind, what=what, N=x.shape[1])
    opt = dict(fmin=dict(maxiter=3), brute=dict(Ns=3, finish=None), de=dict(maxiter=1, popsize=2, seed=3, polish=False))[kind]
    kw = {} if what == 'pr' else dict(r=1e-6)
    with Spy() as spy, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = hyperopt.fit_opt(x, z, method=kind, what=what, cv=None, opt_kwds=opt, rbf_kwds=kw)
        first = spy.log[0] if spy.log else None
        hyperopt.fit_opt(x, z, method='brute', what='pr', cv=None, opt_kwds=dict(ranges=[(0.5, 1), (1e-3, 1e-2)], Ns=2, finish=None))
        np.random.seed(3)
        hyperopt.fit_opt(x, z, method='fmin', what='p', opt_kwds=dict(maxiter=2))
        b = hyperopt.fit_opt(x, z, method=kind, what=what, cv=None, opt_kwds=opt, rbf_kwds=kw)
    ctx.same((b.p, b.r), (a.p, a.r), 'calls in between change nothing')
    if kind in ('brute', 'de'):
        ctx.check(0 <= a.p <= 5 * p0 * (1 + 1e-12), 'default bounds of p', got=a.p, want=5 * p0)
        if what == 'pr':
            ctx.check(1e-12 * (1 - 1e-9) <= a.r <= 0.1 * (1 + 1e-12), 'default bounds of r', got=a.r)
    elif first:
        ctx.close(first['p'], p0, 'default start is the estimated p', rtol=1e-9)
    for bad in (dict(method='xx'), dict(what='r'), dict(what='rp'), dict(what='p', rbf_kwds=dict(p=1.0)), dict(what='pr', rbf_kwds=dict(r=1.0))):
        ctx.raises(Exception, lambda: hyperopt.fit_opt(x, z, cv=None, **bad), _msg='refused: %r' % bad)
    fe = hyperopt.FitError(x, z, cv=None)
    ctx.raises(Exception, lambda: fe([1.0, 1e-3, 2]), _msg='three parameters')
    ctx.raises(Exception, lambda: hyperopt.FitError(x, z, rbf_kwds=dict(p=1.0), cv=None)([1.0]), _msg='p twice')
    ctx.raises(Exception, lambda: hyperopt.FitError(x, z, rbf_kwds=dict(r=1.0), cv=None)([1.0, 2.0]), _msg='r twice')


storage.add(reg, 60, 'fits.fit_opt', 'fits.fit_opt_fmin')
