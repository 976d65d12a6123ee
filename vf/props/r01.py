import numpy as np

from pwtools import rbf
from vf.core import Registry
from vf import storage

reg = Registry('R01', 'Interpolators for random point clouds, jittered grids and cloud shapes in 1-5 dimensions, three kernels and own '
               'kernels, with and without regularisation and with the least-squares solver, values of any kind (zero, constant, '
               'tiny, huge) and any memory layout; the oracle evaluates kernel sums, gradients, residuals and errors itself '
               'and knows that the training residual is r*w')


def dsq(a, b):
    return np.array([[sum((x - y)**2 for x, y in zip(u, v)) for v in b] for u in a]).reshape(len(a), len(b))


def k_gauss(d2, p):
    return np.exp(-d2 / (2 * p * p))


def k_multi(d2, p):
    return (d2 + p * p)**0.5


def k_inv(d2, p):
    return (d2 + p * p)**-0.5


def own(rsq, p):
    return np.exp(-np.sqrt(rsq) / p)


KER = dict(gauss=k_gauss, multi=k_multi, inv_multi=k_inv)
# d phi / d(r^2)
DK = dict(gauss=lambda d2, p: -0.5 / p**2 * k_gauss(d2, p), multi=lambda d2, p: 0.5 / k_multi(d2, p),
          inv_multi=lambda d2, p: -0.5 * k_inv(d2, p)**3)


def cloud(ctx, n=None, N=None):
    N = ctx.ri(1, 5) if N is None else N
    n = ctx.ri(2, 40) if n is None else n
    kind = ctx.choice(['uniform', 'grid', 'flat', 'integer'])
    if kind == 'integer':
        pool = np.array(np.meshgrid(*[np.arange(-4, 5 if N > 2 else 40)] * min(N, 3))).reshape(min(N, 3), -1).T
        x = ctx.rng.permutation(pool)[:n].astype(float)
        if N > 3:
            x = np.hstack([x, ctx.rng.integers(-3, 4, (len(x), N - 3)).astype(float)])
    else:
        x = ctx.rng.uniform(0, 1, (n, N))
        if kind == 'grid':
            m = int(np.ceil(n**(1. / N)))
            g = np.array(np.meshgrid(*[np.arange(m)] * N)).reshape(N, -1).T / max(m - 1, 1)
            x = ctx.rng.permutation(g)[:n] + 0.1 / m * x
        elif kind == 'flat' and N > 1:
            x[:, -1] = 0.5
    x = x * ctx.choice([1.0, 1.0, 7.0, 1e-3]) + ctx.choice([0., 0., -3., 100.])
    return x, kind


def values(ctx, x):
    k = ctx.choice(['smooth', 'random', 'zero', 'constant', 'huge', 'tiny', 'one-hot', 'int'])
    u = (x - x.mean(0)) / (np.ptp(x, axis=0).max() + 1e-300)
    z = dict(smooth=np.sin(3 * u.sum(1)) + u[:, 0]**2, random=ctx.rng.standard_normal(len(x)), zero=np.zeros(len(x)),
             constant=np.full(len(x), 2.5), huge=1e8 * np.cos(2 * u.sum(1)), tiny=1e-9 * np.cos(2 * u.sum(1)),
             int=ctx.rng.integers(-5, 6, len(x)))
    z['one-hot'] = np.eye(len(x))[ctx.ri(0, len(x) - 1)]
    return z[k], k


def conditioned(x, ker, p, r, lim=1e6):
    K = ker(dsq(x, x), p) + r * np.eye(len(x))
    c = np.linalg.cond(K)
    return K, c if np.isfinite(c) else np.inf


def make(ctx, kname=None, N=None, n=None):
    for _ in range(30):
        x, kind = cloud(ctx, n=n, N=N)
        kname = kname or ctx.choice(list(KER))
        d = np.sqrt(dsq(x, x))
        m = d.mean()
        if len(x) < 2 or m == 0:
            continue
        p = m * ctx.choice([0.1, 0.3, 1.0, 2.0])
        r = ctx.choice([0, 0, 0.0, 1e-8, 1e-3, 0.5, None])
        K, c = conditioned(x, KER[kname], p, r or 0)
        if c < 1e7:
            z, zk = values(ctx, x)
            return x, kind, kname, p, r, K, c, z, zk
        kname = None if _ < 20 else 'gauss'
    x = np.arange(4.)[:, None]
    z, zk = values(ctx, x)
    K, c = conditioned(x, k_gauss, 0.5, 0)
    return x, 'plain', 'gauss', 0.5, 0, K, c, z, zk


def layout(ctx, a):
    k = ctx.choice(['C', 'C', 'F', 'strided'])
    if k == 'F':
        return np.asfortranarray(a)
    if k == 'strided':
        b = np.zeros([2 * s for s in a.shape], dtype=a.dtype)
        s = tuple(slice(None, None, 2) for _ in a.shape)
        b[s] = a
        return b[s]
    return a.copy()


@reg.scenario(quick=700, thorough=15000)
def interpolation(ctx):
    """weights, predictions, training values, gradients, shapes"""
    x, kind, kname, p, r, K, c, z, zk = make(ctx)
    ctx.note(kernel=kname, r=str(r), N=x.shape[1], M=len(x), cloud=kind, values=zk)
    X, Z = layout(ctx, x), layout(ctx, z)
    kw = dict(rbf=kname, p=p)
    if r != 0 or ctx.coin():
        kw['r'] = r
    if kname == 'gauss' and ctx.coin(0.3):
        kw.pop('rbf')
    if ctx.coin(0.2):
        f = rbf.Rbf(X, Z, fit=False, **kw)
        f.fit()
    else:
        f = rbf.Rbf(X, Z, **kw)
    s = np.abs(z).max()
    tol = 1e-13 * c * 50 + 1e-12
    ctx.check(f.get_params()[0] == p and f.get_params()[1] == (kw.get('r', 0)), 'parameters kept', got=f.get_params())
    w = np.linalg.solve(K, z) if r is not None else np.linalg.lstsq(K, z, rcond=None)[0]
    ws = np.abs(w).max()
    ctx.close(f.w, w, 'weights', rtol=1e-7, atol=tol * ws)
    t = f(X)
    ctx.check(np.shape(t) == (len(x),), 'one value per point', got=t)
    ks = np.abs(K).max() * max(ws, 1e-300) * len(x)
    ctx.close(t, z - (r or 0) * w, 'training values', rtol=1e-9, atol=1e-13 * ks + tol * (r or 0) * ws + 1e-12 * s)
    q = np.vstack([x.min(0) + ctx.rng.uniform(-0.2, 1.2, (ctx.sz(1, 8, 300), x.shape[1])) * np.ptp(x, axis=0), x[:2]])
    Q = layout(ctx, q)
    q0 = Q.copy()
    G = KER[kname](dsq(q, x), p)
    ctx.close(f(Q), G @ f.w, 'prediction is the kernel sum', rtol=1e-9, atol=1e-13 * ks)
    ctx.close(f.predict(Q), G @ f.w, 'predict', rtol=1e-9, atol=1e-13 * ks)
    ctx.check(np.shape(f(Q[0])) == (), 'scalar for a single point', got=f(Q[0]))
    one = f(q[:1])
    ctx.check(np.shape(one) == (1,), 'an array of one point gives an array', got=one)
    ctx.close(one, f(Q)[:1], 'an array of one point', rtol=1e-9, atol=1e-13 * ks)
    ctx.check(np.shape(f(q[:1], der=1)) == (1, x.shape[1]), 'shape of the gradient at an array of one point', got=f(q[:1], der=1))
    ctx.check(np.shape(f(q[:0])) == (0,), 'no points', got=f(q[:0]))
    ctx.close(f(Q[0]), f(Q)[0], 'single point', rtol=1e-9, atol=1e-13 * ks)
    D = f(Q, der=1)
    ctx.check(np.shape(D) == q.shape, 'shape of the gradients', got=D)
    dk = 2 * DK[kname](dsq(q, x), p)
    want = np.array([[(dk[i] * (q[i, k] - x[:, k]) * f.w).sum() for k in range(x.shape[1])] for i in range(len(q))])
    gs = np.abs(dk).max() * max(ws, 1e-300) * np.ptp(np.vstack([x, q]), axis=0).max() * len(x)
    ctx.close(D, want, 'gradient of the kernel sum', rtol=1e-8, atol=1e-12 * gs)
    ctx.check(np.shape(f(Q[0], der=1)) == (x.shape[1],), 'shape of one gradient', got=f(Q[0], der=1))
    ctx.close(f(Q[0], der=1), D[0], 'single gradient', rtol=1e-9, atol=1e-13 * gs)
    ctx.close(f.deriv(Q), D, 'deriv', rtol=1e-9, atol=1e-13 * gs)
    # numerical derivative of the prediction itself
    h = 1e-4 * p
    k = ctx.ri(0, x.shape[1] - 1)
    e = np.eye(x.shape[1])[k] * h
    num = (f(q + e) - f(q - e)) / 2 / h
    ctx.close(D[:, k], num, 'gradient is the derivative of the prediction', rtol=1e-5, atol=1e-5 * gs + 1e-11 * ks / h)
    ctx.same((X, Z, Q), (x, z, q0), 'input arrays changed')
    w1 = f.w.copy()
    f.fit()
    ctx.close(f.w, w1, 'fit again', rtol=1e-12, atol=1e-14 * ws)
    # errors
    e = np.mean((f(Q) - 1.25 * s)**2)
    ctx.close(f.fit_error(Q, np.full(len(q), 1.25 * s)), e, 'mean squared error', rtol=1e-9)
    ctx.check('Rbf' in repr(f), 'repr')


@reg.scenario(quick=300, thorough=5000)
def symmetry(ctx):
    """order, offset, scale, linearity; solvers agree"""
    x, kind, kname, p, r, K, c, z, zk = make(ctx)
    r = r or 0
    K, c = conditioned(x, KER[kname], p, r)
    ctx.note(kernel=kname, r=str(r), N=x.shape[1], M=len(x), values=zk)
    q = x.min(0) + ctx.rng.uniform(0, 1, (5, x.shape[1])) * np.ptp(x, axis=0)
    z = np.asarray(z, float)
    f = rbf.Rbf(x, z, rbf=kname, p=p, r=r)
    ws = np.abs(f.w).max()
    at = max(ws, 1e-300) * np.abs(K).max() * len(x) * 1e-13 * (1 + c * 30)
    i = ctx.rng.permutation(len(x))
    ctx.close(rbf.Rbf(x[i], z[i], rbf=kname, p=p, r=r)(q), f(q), 'order of the points', rtol=1e-9, atol=at)
    o = ctx.rng.uniform(-1, 1, x.shape[1]) * np.ptp(x, axis=0).max() * 3
    ctx.close(rbf.Rbf(x + o, z, rbf=kname, p=p, r=r)(q + o), f(q), 'constant offset of the points', rtol=1e-9, atol=at * 100)
    ctx.close(rbf.Rbf(x * 16, z, rbf=kname, p=p * 16, r=r if kname == 'gauss' else dict(multi=16 * r, inv_multi=r / 16)[kname])(q * 16), f(q),
              'scaled coordinates', rtol=1e-9, atol=at)
    z2 = ctx.rng.standard_normal(len(x)) * (np.abs(z).max() or 1)
    g = rbf.Rbf(x, z2, rbf=kname, p=p, r=r)
    at2 = at + max(np.abs(g.w).max(), 1e-300) * np.abs(K).max() * len(x) * 1e-13 * (1 + c * 30)
    ctx.close(rbf.Rbf(x, 2 * z - 3 * z2, rbf=kname, p=p, r=r)(q), 2 * f(q) - 3 * g(q), 'linear in the values', rtol=1e-9, atol=4 * at2)
    ctx.close(rbf.Rbf(x, z, rbf=kname, p=-p, r=r)(q), f(q), 'kernels depend on p^2', rtol=1e-9, atol=at)
    if r == 0:
        ctx.close(rbf.Rbf(x, z, rbf=kname, p=p, r=None)(q), f(q), 'least-squares and direct solver', rtol=1e-8, atol=at * 100)
    fun = dict(gauss=rbf.rbf_gauss, multi=rbf.rbf_multi, inv_multi=rbf.rbf_inv_multi)[kname]
    ctx.same(rbf.rbf_dct[kname], fun, 'kernel of this name')
    ctx.close(rbf.Rbf(x, z, rbf=fun, p=p, r=r)(q), f(q), 'kernel given as function', rtol=1e-12, atol=at)
    h = rbf.Rbf(x, z, rbf=own, p=p, r=1e-3)
    ctx.close(h(q), own(dsq(q, x), p) @ h.w, 'own kernel', rtol=1e-9, atol=at + 1e-12 * np.abs(h.w).max() * len(x))
    ctx.close(h(x), z - 1e-3 * h.w, 'own kernel: training values', rtol=1e-8, atol=1e-10 * np.abs(h.w).max() * len(x))
    fe = rbf.Rbf(x, z, rbf=kname, p=-p, r=r)
    v = z * 0 + 0.1
    e = np.mean((fe(x) - v)**2)
    ctx.close(min(fe.fit_error(x, v), 1e300), min(np.exp(min(e, 700.0)), 1e300), 'penalty on negative p', rtol=1e-9 + 1e-13 * e) if e < 650 else ctx.check(fe.fit_error(x, v) > 1e250, 'penalty on negative p is huge')
    if kname == 'gauss' and r:
        from sklearn.kernel_ridge import KernelRidge
        kr = KernelRidge(alpha=r, kernel='rbf', gamma=0.5 / p**2).fit(x - x.mean(0), z)
        ctx.close(kr.predict(q - x.mean(0)), f(q), 'kernel ridge regression', rtol=1e-7, atol=at * 100)
        ctx.count('compared with sklearn')


@reg.scenario(quick=200, thorough=3000)
def distances(ctx):
    """distance matrices, kernels, estimated p"""
    x, kind = cloud(ctx)
    y, _ = cloud(ctx, N=x.shape[1])
    off = ctx.choice([0.0, 0.0, 1e3, 1e6])
    x, y = x + off, y + off
    ctx.note(N=x.shape[1], cloud=kind, offset=off)
    X, Y = layout(ctx, x), layout(ctx, y)
    d = dsq(x, y)
    ctx.close(rbf.squared_dists(X, Y), d, 'squared distances', rtol=1e-10)
    ctx.close(rbf.euclidean_dists(X, Y), np.sqrt(d), 'distances', rtol=1e-10)
    ctx.same((X, Y), (x, y), 'input arrays changed')
    d = np.sqrt(dsq(x, x))
    M = len(x)
    for kw in ({}, dict(method='mean')):
        ctx.close(rbf.estimate_p(X, **kw), d.sum() / M**2, 'mean distance', rtol=1e-10)
    e = np.ptp(x, axis=0)
    e = e[e != 0]
    if len(e):
        ctx.close(rbf.estimate_p(X, 'scipy'), (np.prod(e) / M)**(1. / len(e)), 'scipy estimate', rtol=1e-10)
    if M > 1:
        z = ctx.rng.standard_normal(M)
        kw = dict(r=1.0, rbf='inv_multi')
        f = rbf.Rbf(X, z, **kw)
        ctx.close(f.p, d.sum() / M**2, 'default p is the mean distance', rtol=1e-10)
        ctx.close(rbf.Rbf(X, z, p='mean', **kw).p, f.p, 'p="mean"', rtol=1e-12)
        if len(e):
            ctx.close(rbf.Rbf(X, z, p='scipy', **kw).p, (np.prod(e) / M)**(1. / len(e)), 'p="scipy"', rtol=1e-10)
        ctx.close(f.get_distsq(), d**2, 'training distances', rtol=1e-9)
        ctx.close(f.get_distsq(Y), dsq(y, x), 'distances to centers', rtol=1e-9)
        K = k_inv(d**2, f.p) + np.eye(M)
        ctx.close(K @ f.w, z, 'weights with estimated p', rtol=1e-8, atol=1e-9)
    r2 = ctx.rng.uniform(0, 50, 20)
    p = ctx.rng.uniform(0.1, 5)
    for n, k in KER.items():
        ctx.close(rbf.rbf_dct[n](r2, p), k(r2, p), 'kernel ' + n, rtol=1e-12)
        ctx.check(np.shape(rbf.rbf_dct[n](2.0, p)) == (), 'scalar kernel value')


@reg.scenario(quick=60, thorough=500)
def refuse(ctx):
    """wrong shapes and options are refused"""
    x, kind = cloud(ctx, n=ctx.ri(3, 10))
    z = ctx.rng.standard_normal(len(x))
    N = x.shape[1]
    ctx.note(N=N, M=len(x))
    f = rbf.Rbf(x, z, p=1.0, r=1e-3)
    ctx.raises(Exception, lambda: rbf.Rbf(x[:, 0], z), _msg='1d points')
    ctx.raises(Exception, lambda: rbf.Rbf(x, z[:, None]), _msg='2d values')
    ctx.raises(Exception, lambda: rbf.Rbf(x, z[:-1]), _msg='lengths differ')
    ctx.raises(Exception, lambda: rbf.Rbf(x, z, p='median'), _msg='unknown p')
    ctx.raises(Exception, lambda: rbf.Rbf(x, z, rbf='thinplate'), _msg='unknown kernel')
    ctx.raises(Exception, lambda: rbf.estimate_p(x, 'median'), _msg='unknown estimate')
    for q in (np.zeros((3, N + 1)), np.zeros(N + 1)):
        ctx.raises(Exception, lambda: f(q), _msg='wrong dimension')
        ctx.raises(Exception, lambda: f(q, der=1), _msg='wrong dimension (gradient)')
    for d in (0, 2, 3):
        ctx.raises(Exception, lambda: f(x, der=d), _msg='der=%i' % d)
    g = rbf.Rbf(x, z, rbf=own, p=1.0, r=1e-3)
    ctx.raises(Exception, lambda: g(x, der=1), _msg='no gradient for an own kernel')
    ctx.raises(NotImplementedError, lambda: f.deriv_jax(x), _msg='jax not in use')


storage.add(reg, 160, 'fits.Rbf', 'fits.Rbf_lstsq', 'fits.estimate_p', 'fits.squared_dists')
