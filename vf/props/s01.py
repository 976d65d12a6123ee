"""S01: signal processing."""
import cmath
import itertools
import math
import numpy as np
from scipy.signal import windows
from vf.core import Registry
from vf import storage
from pwtools import signal
from vf.props.n01 import arr

reg = Registry('S01', 'Random signals (1 to 500 points, 1 to 4 dimensions, every axis including negative ones, even/odd lengths, even/odd and over-long kernels) go '
               'through the seven autocorrelation methods, the Fourier, padding, mirroring, smoothing, window, peak and filter routines; compared with literal '
               'loops over the definitions. Peak data are built from known maxima, edges and thresholds.')


@reg.scenario(quick=700)
def autocorrelation(ctx):
    r = ctx.rng
    n = ctx.choice([1, 2, 3, ctx.ri(4, 20), ctx.ri(20, 80)])
    v = r.normal(size=n) * 10.0 ** r.integers(-6, 7)
    kind = ctx.choice(['c', 'view', 'neg', 'int', 'zeros'])
    if kind == 'view':
        v = np.repeat(v, 3)[::3]
    elif kind == 'neg':
        v = v[::-1]
    elif kind == 'int':
        v = r.integers(-9, 10, n)
        v[0] = 3
    elif kind == 'zeros':
        v[: n // 2] = 0.0
    v0 = v.copy()
    c = np.array([math.fsum(float(v0[t]) * float(v0[t + tau]) for t in range(n - tau)) for tau in range(n)])
    norm = ctx.coin()
    want = c / c[0] if norm else c
    scale = 1.0 if norm else c[0]
    ctx.note(n=n, kind=kind, norm=norm)
    for m in range(1, 8):
        got = signal.acorr(v, method=m, norm=norm) if m != 7 or ctx.coin() else signal.acorr(v, norm=norm)
        ctx.check(np.shape(got) == (n,), 'length', method=m)
        ctx.close(got, want, 'method %i' % m, rtol=0, atol=1e-11 * scale)
        ctx.check(np.array_equal(v, v0), 'input changed', method=m)
    ctx.raises(ValueError, signal.acorr, v, method=8)


def dft(v):
    n = len(v)
    return np.array([sum(complex(v[t]) * cmath.exp(-2j * math.pi * ((t * k) % n) / n) for t in range(n)) for k in range(n)])


@reg.scenario(quick=500)
def fourier(ctx):
    r = ctx.rng
    n = ctx.sz(1, 50, 500)
    v = r.normal(size=n) + (1j * r.normal(size=n) if ctx.coin() else 0)
    want = dft(v)
    tol = 1e-10 * np.abs(v).sum()
    for m in ('loop', 'matmul'):
        ctx.close(signal.dft(v, method=m), want, m, rtol=0, atol=tol)
    ctx.raises(ValueError, signal.dft, v, method='x')
    dt = 10.0 ** r.uniform(-3, 3)
    f, d = signal.ezfft(v, dt) if ctx.coin(0.8) else signal.ezfft(v, dt=dt)
    ctx.check(len(f) == len(d) == n // 2, 'half spectrum')
    ctx.close(f, [k / (n * dt) for k in range(n // 2)], 'frequencies', rtol=1e-12)
    ctx.close(d, want[:n // 2], 'ezfft', rtol=0, atol=tol)
    a = arr(ctx, nd=ctx.ri(1, 4), zero=False, cplx=True)
    a0 = a.copy()
    for ax in range(-a.ndim, a.ndim):
        got = signal.fft_1d_loop(a, axis=ax) if ax != -1 or ctx.coin() else signal.fft_1d_loop(a)
        ctx.check(got.shape == a.shape, 'shape')
        b, g = np.moveaxis(a0, ax, -1), np.moveaxis(got, ax, -1)
        t = 1e-5 if a.dtype == np.float32 else 1e-10
        for idx in itertools.islice(np.ndindex(*b.shape[:-1]), 6):
            ctx.close(g[idx], dft(b[idx]), 'transform along one axis', rtol=0, atol=t * np.abs(b[idx]).sum() + 1e-30)
    ctx.check(np.array_equal(a, a0), 'input changed')


@reg.scenario(quick=500)
def sampling(ctx):
    r = ctx.rng
    fmax, df = 10.0 ** r.uniform(-3, 13), 1.0
    df = fmax / r.uniform(2, 1000)
    mirr = ctx.coin()
    dt, N = signal.fftsample(fmax, df, mode='f', mirr=mirr) if mirr or ctx.coin() else signal.fftsample(fmax, df)
    ctx.close(dt, 1 / (2 * fmax), 'time step', rtol=1e-12)
    tot = 2 * N if mirr else N
    ctx.close(1 / (tot * dt), df, 'resolution', rtol=1e-12)
    back = signal.fftsample(dt, N, mode='t', mirr=mirr)
    ctx.close(back, [fmax, df], 'there and back', rtol=1e-12)
    n = ctx.sz(2, 60, 500) * 2
    f = np.fft.fftfreq(n, dt)
    a = signal.fftsample(dt, n, mode='t')
    ctx.close([np.abs(f).max(), f[1]], a, 'agrees with the FFT axis', rtol=1e-12)
    ctx.raises(ValueError, signal.fftsample, 1.0, 1.0, mode='x')
    ctx.note(mirr=mirr)


@reg.scenario(quick=1500)
def padding(ctx):
    r = ctx.rng
    a = arr(ctx, nd=ctx.ri(1, 4), zero=False, cplx=True)
    a0 = a.copy()
    ax = ctx.ri(-a.ndim, a.ndim - 1)
    n = a.shape[ax]
    where = ctx.choice(['end', 'start', None])
    how = ctx.choice(['default', 'nadd', 'upto', 'tonext', 'tonext_min', 'tonext_false'])
    kw = {} if where is None else {'where': where}
    if how == 'default':
        add = n
    elif how == 'nadd':
        add = ctx.ri(0, 7)
        kw['nadd'] = add
    elif how == 'upto':
        add = ctx.ri(0, 7)
        kw['upto'] = n + add
    elif how == 'tonext_false':
        add = ctx.ri(0, 4)
        kw.update(nadd=add, tonext=False)
    else:
        mn = n
        kw['tonext'] = True
        if how == 'tonext_min':
            mn = n + ctx.choice([0, 1, 5, 16, 40])
            kw['tonext_min'] = mn
        L = 1
        while L < mn:
            L *= 2
        add = L - n
    if ax != 0 or ctx.coin():
        kw['axis'] = ax
    ctx.note(how=how, where=where, axis=ax)
    got = signal.pad_zeros(a, **kw)
    b, g = np.moveaxis(a0, ax, 0), np.moveaxis(got, ax, 0)
    ctx.check(g.shape == (n + add,) + b.shape[1:], 'shape', got=got.shape, a=a.shape, kw=kw)
    off = add if where == 'start' else 0
    ctx.check(np.array_equal(g[off:off + n], b), 'the data', kw=kw)
    ctx.check((g[:off] == 0).all() and (g[off + n:] == 0).all(), 'zeros', kw=kw)
    ctx.check(got.dtype == a.dtype, 'type')
    ctx.raises(AssertionError, signal.pad_zeros, a, nadd=1, upto=100)
    if add:
        ctx.raises(Exception, signal.pad_zeros, a, nadd=1, where='middle')
        got[...] = 1
        ctx.check(np.array_equal(a, a0), 'input changed')


@reg.scenario(quick=1000)
def mirroring(ctx):
    a = arr(ctx, nd=ctx.ri(1, 4), zero=False, cplx=True)
    a0 = a.copy()
    ax = ctx.ri(-a.ndim, a.ndim - 1)
    got = signal.mirror(a, axis=ax) if ax or ctx.coin() else signal.mirror(a)
    b, g = np.moveaxis(a0, ax, 0), np.moveaxis(got, ax, 0)
    n = len(b)
    ctx.check(g.shape == (2 * n - 1,) + b.shape[1:], 'shape', got=got.shape, a=a.shape, axis=ax)
    for k in range(-(n - 1), n):
        ctx.check(np.array_equal(g[n - 1 + k], b[abs(k)]), 'reflection', k=k, axis=ax)
    ctx.check(np.array_equal(a, a0), 'input changed')


def kernel(ctx, M):
    r = ctx.rng
    k = ctx.choice(['hann', 'gauss', 'welch', 'lorentz', 'rand', 'delta'])
    if k == 'hann':
        return windows.hann(M + 2)[1:-1]
    if k == 'gauss':
        return windows.gaussian(M, max(M / 6.0, 0.5))
    if k == 'welch':
        return signal.welch(M + 2)[1:-1]
    if k == 'lorentz':
        return signal.lorentz(M, std=2.0)
    if k == 'delta':
        o = np.zeros(M)
        o[M // 2] = 1.0
        return o
    return r.random(M) + 0.1


@reg.scenario(quick=900)
def smoothing(ctx):
    r = ctx.rng
    nd = ctx.choice([1, 1, 2, 3])
    ax = ctx.ri(-nd, nd - 1)
    N = ctx.choice([1, 2, 3, ctx.sz(4, 30, 300)])
    shp = [ctx.ri(1, 3) for _ in range(nd)]
    shp[ax] = N
    M = ctx.choice([1, 2, 3, ctx.ri(1, N + 1), ctx.ri(1, 3 * N + 4)])
    data = r.normal(size=shp) + r.normal() * 5
    k = kernel(ctx, M)
    edge = ctx.choice(['m', 'c'])
    norm = ctx.coin(0.7)
    ks = [1] * nd
    ks[ax] = M
    kw = {}
    if ax != 0 or ctx.coin():
        kw['axis'] = ax
    if edge != 'm' or ctx.coin():
        kw['edge'] = edge
    if not norm or ctx.coin():
        kw['norm'] = norm
    d0, k0 = data.copy(), k.copy()
    got = signal.smooth(data, k.reshape(ks), **kw)
    ctx.note(nd=nd, axis=ax, N=N, M=M, edge=edge, norm=norm)
    ctx.check(np.array_equal(data, d0) and np.array_equal(k, k0), 'input changed')
    ctx.check(got.shape == data.shape, 'shape')
    kk = k0 / k0.sum() if norm else k0
    b, g = np.moveaxis(d0, ax, -1), np.moveaxis(got, ax, -1)

    def at(v, i):
        if edge == 'c':
            return v[min(max(i, 0), N - 1)]
        if i < 0:
            return v[-i] if -i < N else 0.0
        if i > N - 1:
            j = 2 * (N - 1) - i
            return v[j] if j >= 0 else 0.0
        return v[i]
    h = M // 2 if M % 2 else M // 2 - 1
    tol = 1e-11 * float(np.abs(d0).max() * np.abs(kk).sum()) + 1e-14
    for idx in itertools.islice(np.ndindex(*b.shape[:-1]), 4):
        v = b[idx]
        want = [math.fsum(float(kk[j]) * float(at(v, i + h - j)) for j in range(M)) for i in range(N)]
        ctx.close(g[idx], want, 'convolution with edge handling', rtol=0, atol=tol)
    if norm and (edge == 'c' or M // 2 <= N - 1):
        c = float(r.normal() * 3)
        ctx.close(signal.smooth(np.full(shp, c), k.reshape(ks), **kw), np.full(shp, c), 'a constant stays', rtol=0, atol=1e-10)
        if (k0 >= 0).all():
            ctx.check(g.min() >= b.min() - 1e-9 and g.max() <= b.max() + 1e-9, 'stays within the data')
    ctx.raises(Exception, signal.smooth, data, k.reshape(ks), axis=ax, edge='x')
    for n in range(-3, 6):
        o = signal.odd(n, add=ctx.choice([-1, 1]))
        ctx.check(o % 2 == 1 and abs(o - n) <= 1 and (n % 2 == 0 or o == n), 'odd', n=n, o=o)


@reg.scenario(quick=900)
def window_functions(ctx):
    r = ctx.rng
    M = ctx.choice([0, 1, 2, 3, 4, ctx.sz(5, 60, 600)])
    std = float(r.uniform(0.2, 10))
    w = signal.welch(M)
    ctx.check(len(w) == M, 'length')
    if M > 1:
        c = (M - 1) / 2.0
        ctx.close(w, [1 - ((i - c) / c) ** 2 for i in range(M)], 'Welch window', rtol=0, atol=1e-13)
    if M % 2 == 0 and M:
        ctx.close(signal.welch(M, sym=0), signal.welch(M + 1)[:-1], 'periodic Welch window', rtol=1e-13)
    l = signal.lorentz(M, std=std)
    ctx.check(len(l) == M, 'length')
    if M:
        c = (M - 1) / 2.0
        f = np.array([std / ((i - c) ** 2 + std ** 2) for i in range(M)])
        ctx.close(l, f / f.max(), 'Lorentz window', rtol=1e-12)
        ctx.close(l, l[::-1], 'symmetric', rtol=1e-12)
        ctx.close(l.max(), 1.0, 'maximum', rtol=1e-12)
        if M % 2 == 0:
            q = signal.lorentz(M, std=std, sym=False)
            ctx.close(q, signal.lorentz(M + 1, std=std)[:-1], 'periodic Lorentz window', rtol=1e-12)
    x = r.normal(size=10) * std * 3
    ctx.close(signal.gauss(x, std=std), np.exp(-x ** 2 / (2 * std ** 2)), 'Gauss', rtol=1e-12)
    t = np.linspace(-12 * std, 12 * std, 4001)
    ctx.close(np.trapezoid(signal.gauss(t, std, norm=True), t) if hasattr(np, 'trapezoid') else np.trapz(signal.gauss(t, std, norm=True), t), 1.0, 'area', rtol=1e-9)
    y = r.normal(size=ctx.ri(2, 20)) * 10.0 ** r.integers(-5, 5)
    if ctx.coin(0.3):
        y = np.arange(ctx.ri(2, 9)) - 4
    y0 = y.copy()
    s = signal.scale(y, copy=ctx.coin())
    ctx.close(s, (y0 - y0.min()) / (y0.max() - y0.min()), 'scaled to unity', rtol=1e-12, atol=1e-15)
    ctx.same(y, y0, 'y')
    ctx.note(M=M)


@reg.scenario(quick=900)
def peaks(ctx):
    r = ctx.rng
    # finite differences: exactly the strict local maxima which are not below the threshold
    n = ctx.sz(1, 60, 600)
    y = r.normal(size=n) if ctx.coin(0.7) else r.integers(0, 4, n) * 1.0
    ymin = ctx.choice([None, None, float(r.normal()), float(y.max()), float(y.max() + 1), float(np.median(y))])
    kw = {} if ymin is None else {'ymin': ymin}
    want = [i for i in range(1, n - 1) if y[i - 1] < y[i] > y[i + 1] and (ymin is None or y[i] >= ymin)]
    y0 = y.copy()
    idx, pos = signal.find_peaks(y, **kw)
    ctx.check(list(idx) == want and pos is None, 'maxima', got=idx, want=want, y=y, ymin=ymin)
    ctx.same(y, y0, 'y')
    # positions
    m = ctx.sz(1, 4, 12)
    dx = 10.0 ** r.uniform(-3, 3)
    w = 6.0
    cs = np.cumsum(r.uniform(40, 60, m))
    h = r.uniform(0.3, 1, m)
    N = int(cs[-1] + 40)
    t = np.arange(N)
    x = t * dx + r.normal()
    y = sum(a * np.exp(-(t - c) ** 2 / 2 / w ** 2) for a, c in zip(h, cs))
    ymin = float(ctx.choice([0.0, 0.25, 0.65]))
    cut = ctx.choice([None, 'left', 'right'])
    lo, hi = 0, N
    if cut == 'left':
        lo = int(cs[0]) - ctx.ri(1, 3)          # the peak lies next to the border
    if cut == 'right':
        hi = int(math.ceil(cs[-1])) + ctx.ri(2, 3)
    spread, k = ctx.choice([(2, 3), (2, 3), (3, 3), (4, 5), (3, 4)])
    if cut and (spread, k) != (2, 3):
        spread, k = 3, 3
    kw = {} if (spread, k) == (2, 3) else {'spread': spread, 'k': k}
    idx, pos = signal.find_peaks(y[lo:hi], x[lo:hi], ymin=ymin, **kw)
    true = [(c, a) for c, a in zip(cs, h) if a > ymin * 1.01]
    near = [c for c, a in zip(cs, h) if ymin * 0.98 < a <= ymin * 1.01]
    ctx.note(m=m, cut=cut, spread=spread, k=k)
    if not near:
        ctx.check(len(idx) == len(true) == len(pos), 'number of peaks', idx=idx, true=true)
        for i, p, (c, a) in zip(idx, pos, true):
            ctx.check(abs(i + lo - c) <= 1, 'index', i=i + lo, c=c)
            ctx.close(p, c * dx + (x[0] - 0), 'position', rtol=0, atol=0.15 * dx if cut else 0.03 * dx)
    ctx.count('peaks', len(idx))


@reg.scenario(quick=200)
def filters(ctx):
    r = ctx.rng
    nyq = 10.0 ** r.uniform(-1, 4)
    mode = ctx.choice(['lowpass', 'highpass', 'bandpass', 'bandstop'])
    lo, hi = r.uniform(0.2, 0.33) * nyq, r.uniform(0.65, 0.8) * nyq
    cutoff = {'lowpass': hi, 'highpass': lo}.get(mode, [lo, hi])
    if mode == 'lowpass' and ctx.coin():
        kw = {}
    else:
        kw = {'mode': mode}
    kai = ctx.coin() and mode in ('lowpass', 'bandpass', 'bandstop')
    if kai:
        kw.update(ripple=60.0, width=0.08 * nyq)
        F = signal.FIRFilter(cutoff, nyq, **kw)
    else:
        F = signal.FIRFilter(cutoff, nyq, ntaps=ctx.choice([101, 151, 201]), **kw)
    ctx.note(mode=mode, kaiser=kai)
    c = np.atleast_1d(cutoff)
    m = 0.12 * nyq
    w = F.w
    A = np.abs(F.h)
    ctx.close(w, np.arange(len(w)) / len(w) * nyq, 'frequency axis', rtol=1e-9)
    below = lambda q: w < q - m
    above = lambda q: w > q + m
    if mode == 'lowpass':
        pas, stop = below(c[0]), above(c[0])
    elif mode == 'highpass':
        pas, stop = above(c[0]), below(c[0])
    elif mode == 'bandpass':
        pas, stop = above(c[0]) & below(c[1]), below(c[0]) | above(c[1])
    else:
        pas, stop = below(c[0]) | above(c[1]), above(c[0]) & below(c[1])
    ctx.check(np.abs(A[pas] - 1).max() < 0.02, 'pass band', worst=float(np.abs(A[pas] - 1).max()))
    ctx.check(A[stop].max() < 0.02, 'stop band', worst=float(A[stop].max()))
    # application: the causal convolution with the coefficients
    x = r.normal(size=(3, 60))
    ax = ctx.choice([-1, 1, 0])
    g = F(x if ax != 0 else x.T, axis=ax)
    g = g if ax != 0 else g.T
    T = F.taps
    want = [[math.fsum(float(T[j]) * float(row[i - j]) for j in range(min(i + 1, len(T)))) for i in range(60)] for row in x]
    ctx.close(g, want, 'filtered signal', rtol=0, atol=1e-11)
    ctx.raises(Exception, signal.FIRFilter, cutoff, nyq, ntaps=11, mode='x')
    ctx.raises(AssertionError, signal.FIRFilter, cutoff, nyq)


storage.add(reg, 400, 'signal.dft', 'signal.ezfft', 'signal.fft_1d_loop', 'signal.pad_zeros', 'signal.mirror', 'signal.acorr', 'signal.gauss',
            'signal.find_peaks', 'signal.smooth', 'signal.scale')
