"""N01: slicing, extending, reducing."""
import itertools
import math
from fractions import Fraction
import numpy as np
import scipy.integrate as si
from vf.core import Registry
from vf import storage
from pwtools import num

reg = Registry('N01', 'Random arrays (0 to 5 dimensions, sizes from 0 up, integer/float/complex, views with negative and non-unit strides, Fortran order) are '
               'sliced, written, extended and reduced along random (negative, several, all) axes; the results are compared element by element with '
               'plain Python loops over the indices, and the arguments are compared before and after.')


def arr(ctx, nd=None, zero=True, cplx=False, lo=0):
    r = ctx.rng
    nd = ctx.ri(1, 5) if nd is None else nd
    hi = [0, 12, 8, 6, 5, 4][nd] if nd < 6 else 3
    shp = [int(r.integers(lo if zero else 1, hi)) for _ in range(nd)]
    big = [n * 2 + 3 for n in shp]
    kind = ctx.choice(['i', 'f', 'f', 'f32'] + (['c'] if cplx else []))
    a = r.integers(-50, 50, big) if kind == 'i' else r.normal(size=big) * 10.0 ** r.integers(-5, 5)
    if kind == 'c':
        a = a + 1j * r.normal(size=big)
    if kind == 'f32':
        a = a.astype(np.float32)
    lay = ctx.choice(['c', 'f', 'neg', 'stride', 'sub'])
    cut = tuple(slice(0, n) for n in shp)
    if lay == 'c':
        out = a[cut].copy()
    elif lay == 'f':
        out = np.asfortranarray(a[cut])
    elif lay == 'neg':
        out = a[cut][tuple(slice(None, None, -1) for _ in shp)]
    elif lay == 'stride':
        out = a[tuple(slice(1, 1 + 2 * n, 2) for n in shp)]
    else:
        out = a[tuple(slice(2, 2 + n) for n in shp)]
    assert list(out.shape) == shp
    ctx.note(shape=tuple(shp), kind=kind, layout=lay)
    return out


def sl1(ctx, n):
    r = ctx.rng
    k = ctx.choice(['slice', 'slice', 'slice', 'int', 'all', 'list', 'mask'])
    if k == 'int' and n > 0:
        return int(r.integers(-n, n))
    if k == 'list' and n > 0:
        return [int(x) for x in r.integers(-n, n, ctx.ri(1, 4))]
    if k == 'mask':
        return r.random(n) < 0.5
    if k == 'all':
        return slice(None)
    g = lambda: None if ctx.coin() else int(r.integers(-n - 2, n + 3))
    return slice(g(), g(), ctx.choice([None, 1, 2, 3, -1, -2]))


def sel(s, n):
    """list of indices and whether the axis stays"""
    if isinstance(s, slice):
        return list(range(*s.indices(n))), True
    if isinstance(s, (int, np.integer)):
        return [int(s) % n], False
    if isinstance(s, list):
        return [x % n for x in s], True
    return [i for i in range(n) if s[i]], True


def model(a, sels):
    idx = [x for x, _ in sels]
    out = np.empty([len(x) for x in idx], a.dtype)
    for p in itertools.product(*[range(len(x)) for x in idx]):
        out[p] = a[tuple(ix[q] for ix, q in zip(idx, p))]
    return out.reshape([len(x) for x, keep in sels if keep])


@reg.scenario(quick=2500)
def take(ctx):
    r = ctx.rng
    a = arr(ctx, cplx=True)
    a0 = a.copy()
    cp = ctx.coin()
    if ctx.coin():
        ax = ctx.ri(-a.ndim, a.ndim - 1)
        s = sl1(ctx, a.shape[ax])
        sels = [sel(s, n) if i == ax % a.ndim else (list(range(n)), True) for i, n in enumerate(a.shape)]
        got = num.slicetake(a, s, axis=ax, copy=cp) if cp or ctx.coin() else num.slicetake(a, s, ax)
        full = [slice(None)] * a.ndim
        full[ax] = s
        ctx.note(axis=ax, s=type(s).__name__)
    else:
        full = []
        for n in a.shape:
            s = sl1(ctx, n)
            full.append(s if isinstance(s, (slice, int)) else slice(None))
        sels = [sel(s, n) for s, n in zip(full, a.shape)]
        f0 = list(full)
        got = num.slicetake(a, list(full) if ctx.coin() else tuple(full), axis=None, copy=cp)
        ctx.check(full == f0, 'slices changed')
    want = model(a, sels)
    ctx.check(np.shape(got) == want.shape and np.array_equal(got, want), 'taken part', got=got, want=want, sl=full)
    ctx.check(np.array_equal(a, a0), 'input changed')
    basic = all(isinstance(s, slice) for s in full)
    if basic and want.size:
        got[...] = 77
        if cp:
            ctx.check(np.array_equal(a, a0), 'a copy must not write through', sl=full)
        else:
            ctx.check((model(a, sels) == 77).all() and (a == 77).sum() - (a0 == 77).sum() <= want.size, 'a view must write through', sl=full)
        ctx.count('views')


@reg.scenario(quick=2500)
def put(ctx):
    r = ctx.rng
    a = arr(ctx)
    a0 = a.copy()
    if ctx.coin():
        ax = ctx.ri(-a.ndim, a.ndim - 1)
        s = sl1(ctx, a.shape[ax])
        if isinstance(s, list):
            s = sorted(set(x % a.shape[ax] for x in s))
        full = [slice(None)] * a.ndim
        full[ax] = s
        sels = [sel(q, n) for q, n in zip(full, a.shape)]
        arg, kw = s, {'axis': ax}
    else:
        full = []
        for n in a.shape:
            s = sl1(ctx, n)
            full.append(s if isinstance(s, (slice, int)) else slice(None))
        sels = [sel(s, n) for s, n in zip(full, a.shape)]
        arg, kw = (list(full) if ctx.coin() else tuple(full)), ctx.choice([{}, {'axis': None}])
    shp = [len(x) for x, keep in sels if keep]
    b = ctx.choice([200, r.integers(100, 999, shp), r.integers(100, 999, shp[-1:])])
    ctx.note(b=np.ndim(b), kw=str(kw), s=type(arg).__name__)
    got = num.sliceput(a, b, arg, **kw)
    want = a0.copy()
    vals = np.broadcast_to(b, shp).reshape([len(x) for x, keep in sels])
    for p in itertools.product(*[range(len(x)) for x, _ in sels]):
        want[tuple(x[q] for (x, _), q in zip(sels, p))] = vals[p]
    ctx.check(got is a, 'the array itself is returned')
    ctx.check(np.array_equal(a, want), 'array after writing', got=a, want=want, sl=full)


@reg.scenario(quick=1000)
def extend(ctx):
    a = arr(ctx, cplx=True)
    a0 = a.copy()
    n = ctx.sz(0, 5, 40)
    ax = ctx.ri(-1, a.ndim)
    got = num.extend_array(a, n, axis=ax) if ax or ctx.coin() else num.extend_array(a, n)
    pos = a.ndim if ax == -1 else ax
    ctx.note(n=n, axis=ax)
    ctx.check(got.shape == a.shape[:pos] + (n,) + a.shape[pos:], 'shape', got=got.shape, a=a.shape, n=n, axis=ax)
    for i in range(n):
        ctx.check(np.array_equal(got[(slice(None),) * pos + (i,)], a0), 'each repetition is the array', i=i, axis=ax)
    ctx.check(got.dtype == a.dtype, 'type')
    if got.size:
        got[...] = 0
        ctx.check(np.array_equal(a, a0), 'input changed')
    for bad in (-2, a.ndim + 1):
        ctx.raises(AssertionError, num.extend_array, a, n, axis=bad)


def pysum(a, axes):
    """sum over `axes` (set) by a loop; exact for int and float"""
    keep = [i for i in range(a.ndim) if i not in axes]
    acc = {}
    for p in np.ndindex(*a.shape):
        acc.setdefault(tuple(p[i] for i in keep), []).append(a[p])
    out = np.zeros([a.shape[i] for i in keep], complex if a.dtype.kind == 'c' else float)
    for p in np.ndindex(*out.shape):
        v = acc.get(p, [])
        out[p] = complex(math.fsum(x.real for x in v), math.fsum(x.imag for x in v)) if a.dtype.kind == 'c' else math.fsum(float(x) for x in v)
    return out


@reg.scenario(quick=2000)
def total(ctx):
    r = ctx.rng
    a = arr(ctx, cplx=True)
    if a.dtype == np.float32:
        a = a.astype(float)
    a0 = a.copy()
    tol = 1e-12 * float(np.abs(a).sum()) + 1e-300
    kind = ctx.choice(['none', 'int', 'tuple', 'tuple', 'list'])
    kd = ctx.coin() and kind != 'none'
    if kind == 'none':
        axes, arg = set(range(a.ndim)), None
    elif kind == 'int':
        arg = ctx.ri(-a.ndim, a.ndim - 1)
        axes = {arg % a.ndim}
        if ctx.coin(0.2):
            arg = np.int64(arg)
    else:
        k = ctx.ri(0, a.ndim)
        chosen = [int(x) for x in r.permutation(a.ndim)[:k]]
        axes = set(chosen)
        arg = [x - a.ndim if ctx.coin() else x for x in chosen]
        arg = tuple(arg) if kind == 'tuple' else arg
    ctx.note(axis=str(arg), keep=kd)
    arg0 = list(arg) if isinstance(arg, list) else arg
    got = num.sum(a, axis=arg, keepdims=True) if kd else num.sum(a, axis=arg) if arg is not None or ctx.coin() else num.sum(a)
    ctx.check(arg == arg0, 'axis argument changed')
    if kd:
        axes = set(range(a.ndim)) - axes
    want = pysum(a, axes)
    ctx.close(got, want, 'sum over axes', rtol=1e-12, atol=tol)
    ctx.check(np.array_equal(a, a0), 'input changed')
    if arg is not None and a.dtype.kind == 'i':
        ctx.check(np.asarray(num.sum(a, axis=arg, keepdims=kd, dtype=float)).dtype == float, 'keywords are passed to the sum', axis=arg)
        if isinstance(arg, int):
            ctx.same(num.sum(a, axis=arg), num.sum(a, axis=(arg,)), 'int and tuple axis')
    ctx.raises(Exception, num.sum, a, axis=None, keepdims=True)
    ctx.raises(Exception, num.sum, a, axis=(a.ndim,))
    ctx.raises(Exception, num.sum, a, axis='x')


@reg.scenario(quick=1000)
def root_mean_square(ctx):
    r = ctx.rng
    a = arr(ctx, zero=False).astype(float)
    nit = ctx.choice(['all', 'all', 1, 3.5, a.size])
    flat = [float(x) for x in a.ravel()]
    N = len(flat) if nit == 'all' else nit
    kw = {} if nit == 'all' and ctx.coin() else {'nitems': nit}
    ctx.close(num.rms(a, **kw), math.sqrt(math.fsum(x * x for x in flat) / N), 'rms', rtol=1e-12)
    b = arr(ctx, nd=3, zero=False).astype(float)
    for ax in (-1, 0, 1, 2):
        sub = [np.take(b, i, axis=ax) for i in range(b.shape[ax])]
        N = sub[0].size if nit == 'all' else nit
        want = [math.sqrt(math.fsum(float(x) ** 2 for x in s.ravel()) / N) for s in sub]
        got = num.rms3d(b, axis=ax, **kw) if ax or ctx.coin() else num.rms3d(b, **kw)
        ctx.close(got, want, 'rms3d', rtol=1e-12, key=None)
    ctx.raises(AssertionError, num.rms3d, b, axis=3)
    ctx.raises(AssertionError, num.rms3d, b[0], axis=0)
    v = r.normal(size=ctx.sz(1, 9, 300)) * 10.0 ** r.integers(-8, 8)
    ctx.close(num.norm(v), math.sqrt(math.fsum(float(x) ** 2 for x in v)), 'norm', rtol=1e-12)
    ctx.raises(AssertionError, num.norm, b)


@reg.scenario(quick=600)
def integral(ctx):
    r = ctx.rng
    n = ctx.sz(3, 60, 600)
    x = np.cumsum(r.uniform(0.05, 1, n)) * 10.0 ** r.integers(-20, 20) + 0
    if ctx.coin():
        x = x - x.mean()
    y = (r.random(n) + 0.1) * 10.0 ** r.integers(-30, 30)
    if ctx.coin(0.2):
        y = -y
    area = float(ctx.choice([1.0, 3.5, 1e-10, 3 * 12]))
    func = ctx.choice([None, si.trapezoid])
    kw = {} if func is None else {'func': func}
    if ctx.coin():
        kw['scale'] = ctx.coin()
    y0, x0 = y.copy(), x.copy()
    got = num.norm_int(y, x, area=area, **kw)
    ctx.same(y, y0, 'y'), ctx.same(x, x0, 'x')
    # the trapezoid rule by hand; Simpson's rule through exactly integrated quadratics below
    ctx.close(got * y[0], y * got[0], 'same shape', rtol=1e-12)
    if func is not None:
        A = math.fsum(float((got[i] + got[i + 1]) / 2 * (x[i + 1] - x[i])) for i in range(n - 1))
        ctx.close(A, area, 'area', rtol=1e-10)
    else:
        A = si.simpson(got / np.abs(got).max(), x=x / np.abs(x).max()) * np.abs(got).max() * np.abs(x).max()
        ctx.close(A, area, 'area', rtol=1e-9)
        # parabola: exact
        u = np.linspace(0, 1, 2 * ctx.ri(1, 20) + 1)
        c = r.random(3)
        p = c[0] + c[1] * u + c[2] * u ** 2
        ctx.close(num.norm_int(p, u * 4, area=area), p * area / 4 / (c[0] + c[1] / 2 + c[2] / 3), 'parabola', rtol=1e-9)
    # the given integrator is called with y, x=x
    calls = []

    def f(yy, x=None):
        calls.append((len(yy), len(x)))
        return si.trapezoid(yy, x=x)
    a1 = num.norm_int(y, x, area=area, func=f)
    ctx.check(calls == [(n, n)], 'integrator called once', calls=calls)
    ctx.close(a1, num.norm_int(y, x, area=area, func=f, scale=False), 'scaling does not matter', rtol=1e-9)


@reg.scenario(quick=1200)
def distances(ctx):
    r = ctx.rng
    nx, ny, nd = ctx.sz(1, 25, 150), ctx.sz(1, 25, 150), ctx.sz(1, 6, 20)
    X, Y = r.normal(size=(nx * 2, nd)) * 10.0 ** r.integers(-5, 5), r.normal(size=(ny, nd * 2))
    lay = ctx.choice(['c', 'f', 'view', 'int', 'f32', 'same'])
    X, Y = (X[::2], Y[:, ::2]) if lay == 'view' else (X[:nx].copy(), Y[:, :nd].copy())
    if lay == 'f':
        X, Y = np.asfortranarray(X), np.asfortranarray(Y)
    if lay == 'int':
        X, Y = r.integers(-99, 99, X.shape), r.integers(-99, 99, Y.shape) + (0.5 if ctx.coin() else 0)
    if lay == 'f32':
        X = X.astype(np.float32)
    if lay == 'same':
        Y = X
    X0, Y0 = X.copy(), Y.copy()
    ctx.note(nx=nx, ny=ny, nd=nd, layout=lay)
    got = num.distsq(X, Y)
    want = np.array([[math.fsum((float(X0[i, k]) - float(Y0[j, k])) ** 2 for k in range(nd)) for j in range(len(Y0))] for i in range(len(X0))])
    ctx.close(got, want, 'squared distances', rtol=1e-12)
    ctx.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'input changed')
    if lay == 'same':
        ctx.same(got, got.T, 'symmetric')
        ctx.check((np.diag(got) == 0).all(), 'distance to itself')
    ctx.raises(AssertionError, num.distsq, X, np.zeros((2, nd + 1)))


@reg.scenario(quick=1500)
def grids(ctx):
    r = ctx.rng
    # normalize
    v = r.normal(size=ctx.sz(1, 20, 300)) * 10.0 ** r.integers(-9, 9)
    if ctx.coin(0.3):
        v = v + 1j * r.normal(size=len(v))
    m = max(v, key=lambda z: (z.real, z.imag))
    v0 = v.copy()
    ctx.close(num.normalize(v), [z / m for z in v0], 'normalize', rtol=1e-12)
    ctx.same(v, v0, 'input')
    # vlinspace
    nd, n = ctx.ri(1, 5), ctx.choice([1, 2, 3, 5, 17, 100])
    a, b = r.normal(size=nd), r.normal(size=nd) * 10.0 ** r.integers(-3, 3)
    if ctx.coin(0.2):
        a, b = r.integers(-9, 9, nd), r.integers(-9, 9, nd)
    ep = ctx.coin()
    got = num.vlinspace(a, b, n, endpoint=ep) if not ep or ctx.coin() else num.vlinspace(a, b, n)
    den = n if not ep else max(n - 1, 1)
    want = [[float(Fraction(float(a[k])) + (Fraction(float(b[k])) - Fraction(float(a[k]))) * i / den) for k in range(nd)] for i in range(n)]
    ctx.close(got, want, 'vlinspace', rtol=1e-12, atol=1e-12 * (np.abs(a).max() + np.abs(b).max()))
    ctx.raises(AssertionError, num.vlinspace, a, b, 0)
    ctx.raises(AssertionError, num.vlinspace, a, np.append(b, 1), 3)
    # meshgrid
    x, y = r.normal(size=ctx.sz(1, 6, 120)), r.normal(size=ctx.sz(1, 6, 120))
    X, Y = num.meshgridt(x, y)
    ctx.check(X.shape == Y.shape == (len(x), len(y)), 'grid shape')
    ctx.check(all(X[i, j] == x[i] and Y[i, j] == y[j] for i in range(len(x)) for j in range(len(y))), 'grid')
    # multiples
    q, mm = int(r.integers(-1000, 1000)), int(r.integers(1, 60))
    got = num.round_up_next_multiple(q, mm)
    ctx.check(got % mm == 0 and q <= got < q + mm, 'next multiple', got=got, x=q, mult=mm)
    # empty arrays
    e = num.fempty((3, 4), np.float32)
    ctx.check(e.shape == (3, 4) and e.flags['F_CONTIGUOUS'] and e.dtype == np.float32 and num.fempty((2, 3)).dtype == float, 'fempty')


@reg.scenario(quick=800)
def euler(ctx):
    r = ctx.rng
    p, t, s = r.uniform(-2, 2) * np.pi, r.uniform(-1, 1) * np.pi, r.uniform(-2, 2) * np.pi
    if ctx.coin(0.2):
        p, t, s = [float(x) for x in r.choice([-np.pi, -np.pi / 2, 0, np.pi / 2, np.pi], 3)]
    deg = ctx.coin()
    A = num.euler_matrix(*([math.degrees(x) for x in (p, t, s)] if deg else (p, t, s)), deg=deg)
    ctx.close(A @ A.T, np.eye(3), 'orthogonal', rtol=0, atol=1e-13)
    ctx.close(np.linalg.det(A), 1.0, 'proper', rtol=1e-12)
    # the x-convention of Mathworld (Goldstein), written out
    c, S = math.cos, math.sin
    want = [[c(s) * c(p) - c(t) * S(p) * S(s), c(s) * S(p) + c(t) * c(p) * S(s), S(s) * S(t)],
            [-S(s) * c(p) - c(t) * S(p) * c(s), -S(s) * S(p) + c(t) * c(p) * c(s), c(s) * S(t)],
            [S(t) * S(p), -S(t) * c(p), c(t)]]
    ctx.close(A, want, 'written-out matrix', rtol=0, atol=1e-12)
    ctx.raises(AssertionError, num.euler_matrix, 0, 3.2, 0)


storage.add(reg, 440, 'num.vlinspace', 'num.slicetake', 'num.extend_array', 'num.sum', 'num.distsq', 'num.rms', 'num.rms3d',
            'num.inner_points_mask', 'num.meshgridt', 'num.norm', 'num.normalize')
