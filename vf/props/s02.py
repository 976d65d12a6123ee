"""S02: velocity autocorrelation and phonon DOS."""
import math
import os
import warnings
import numpy as np
from scipy.integrate import simpson
from vf.core import Registry
from vf import storage
from pwtools import pydos

reg = Registry('S02', 'Random trajectories (2 to 80 steps, 1 to 12 atoms, C/F order and strided views, with and without masses) go through the three Python and two '
               'compiled autocorrelation methods with 1 to 16 threads set by argument or environment, each repeated; spectra of random, windowed, padded data and '
               'of superposed oscillations are compared with the written-out Fourier sums, areas, axes and known peak positions.')


def traj(ctx, lo=2, hi=60):
    r = ctx.rng
    n, na = ctx.choice([lo, lo + 1, ctx.ri(lo, hi)]), ctx.choice([1, 2, ctx.sz(1, 12, 130)])
    v = r.normal(size=(n, na, 3)) * 10.0 ** r.integers(-8, 6)
    lay = ctx.choice(['c', 'f', 'view', 'neg', 'swap'])
    if lay == 'f':
        v = np.asfortranarray(v)
    elif lay == 'view':
        v = np.repeat(np.repeat(v, 2, axis=0), 2, axis=2)[::2, :, ::2]
    elif lay == 'neg':
        v = v[::-1]
    elif lay == 'swap':
        v = np.ascontiguousarray(v.transpose(1, 0, 2)).transpose(1, 0, 2)
    m = None if ctx.coin(0.3) else r.uniform(1, 200, na) * 10.0 ** r.integers(-28, 3)
    ctx.note(n=n, na=na, layout=lay, mass=m is not None)
    return v, m


def vacf(v, m):
    n, na, _ = v.shape
    m = np.ones(na) if m is None else m
    c = [math.fsum(float(m[i] * v[t, i, k] * v[t + tau, i, k]) for t in range(n - tau) for i in range(na) for k in range(3)) for tau in range(n)]
    return np.array(c) / c[0]


@reg.scenario(quick=350)
def correlation(ctx):
    r = ctx.rng
    v, m = traj(ctx, hi=40)
    v0, m0 = v.copy(), None if m is None else m.copy()
    want = vacf(v0, m0)
    for meth in (1, 2, 3):
        got = pydos.pyvacf(v, m=m, method=meth) if m is not None or ctx.coin() else pydos.pyvacf(v, method=meth)
        ctx.close(got, want, 'python method %i' % meth, rtol=0, atol=1e-11)
    old = os.environ.get('OMP_NUM_THREADS')
    try:
        for meth in (1, 2):
            first = None
            for k in range(3):
                nt = ctx.choice([None, 1, 2, 3, 4, 7, 8, 16])
                env = ctx.choice([None, '1', '3', '8'])
                if env is None:
                    os.environ.pop('OMP_NUM_THREADS', None)
                else:
                    os.environ['OMP_NUM_THREADS'] = env
                got = pydos.fvacf(v, m=m, method=meth, nthreads=nt)
                ctx.close(got, want, 'compiled method %i' % meth, rtol=0, atol=1e-11)
                if first is None:
                    first = got
                ctx.check(np.array_equal(first, got), 'bit for bit repeatable, whatever the number of threads', method=meth, nthreads=nt, env=env)
                ctx.count('threaded calls')
    finally:
        if old is None:
            os.environ.pop('OMP_NUM_THREADS', None)
        else:
            os.environ['OMP_NUM_THREADS'] = old
    ctx.check(np.array_equal(v, v0) and (m is None or np.array_equal(m, m0)), 'input changed')
    ctx.raises(ValueError, pydos.pyvacf, v, method=4)
    ctx.raises(AssertionError, pydos.fvacf, v[:, :, :2])
    # the same masses for all atoms do not matter; scaling neither
    ctx.close(pydos.fvacf(v, m=np.full(v.shape[1], 3.7)), pydos.fvacf(v), 'equal masses', rtol=0, atol=1e-12)
    if m is not None:
        ctx.close(pydos.fvacf(v * 3, m=m * 5), want, 'scaled', rtol=0, atol=1e-11)
        p = r.permutation(v.shape[1])
        ctx.close(pydos.fvacf(v[:, p], m=m[p]), want, 'order of atoms', rtol=0, atol=1e-11)


@reg.scenario(quick=12, thorough=60, serial=True)
def threads_stress(ctx):
    """bigger arrays, oversubscribed threads, many repetitions: bit-for-bit the same"""
    r = ctx.rng
    n, na = ctx.ri(100, 400), ctx.ri(1, 40)
    v, m = r.normal(size=(n, na, 3)), r.uniform(1, 100, na)
    ctx.note(n=n, na=na)
    ref = {}
    for k in range(12):
        for meth in (1, 2):
            for mm in (None, m):
                c = pydos.fvacf(v, m=mm, method=meth, nthreads=[1, 2, 3, 4, 5, 8, 16, 32][(k + ctx.ri(0, 3)) % 8])
                ref.setdefault((meth, mm is None), c)
                ctx.check(np.array_equal(ref[meth, mm is None], c), 'repeatable', method=meth, k=k)
                ctx.count('threaded calls')
    for mm in (None, m):
        w = np.ones(na) if mm is None else mm
        tau = [0, 1, n // 2, n - 1]
        full = [(v[:n - t] * v[t:] * w[None, :, None]).sum() for t in tau]
        for meth in (1, 2):
            ctx.close(ref[meth, mm is None][tau], np.array(full) / full[0], 'values', rtol=0, atol=1e-11)


def dft(a):
    """(n, ...) -> Fourier sums along axis 0"""
    n = a.shape[0]
    k = np.arange(n)
    W = np.exp(-2j * np.pi * (np.outer(k, k) % n) / n)
    return np.tensordot(W, a, axes=(1, 0))


def welch(n):
    c = (n - 1) / 2.0
    return np.array([1 - ((i - c) / c) ** 2 for i in range(n)]) if n > 1 else np.ones(1)


def flat(t):
    out = []
    for x in t:
        out += flat(x) if isinstance(x, (tuple, list)) else [x]
    return out


@reg.scenario(quick=700)
def spectrum(ctx):
    r = ctx.rng
    v, m = traj(ctx, lo=8)
    n = v.shape[0]
    v0, m0 = v.copy(), None if m is None else m.copy()
    dt = 10.0 ** r.uniform(-16, 2)
    area = ctx.choice([1.0, 1.0, 3.0 * v.shape[1], 0.01])
    win = ctx.coin()
    full = ctx.coin()
    kw = dict(dt=dt, m=m)
    if not win or ctx.coin():
        kw['window'] = win
    if area != 1.0 or ctx.coin():
        kw['area'] = area
    if full:
        kw['full_out'] = True
    mode = ctx.choice(['direct', 'direct', 'pad', 'tonext', 'direct_pdos', 'vacf', 'vacf_mirr', 'vacf_pdos'])
    w = v0 * welch(n)[:, None, None] if win else v0
    mm = np.ones(v.shape[1]) if m is None else m0
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if mode in ('direct', 'pad', 'tonext', 'direct_pdos'):
            npad = {'direct': 0, 'direct_pdos': 1}.get(mode, ctx.ri(0, 6))
            N = n + npad * (n - 1)
            if mode == 'direct':
                if ctx.coin():
                    kw['npad'] = ctx.choice([None, 0])
                if ctx.coin():
                    kw['method'] = 'direct'
                got = pydos.pdos(v, **kw)
            elif mode == 'direct_pdos':
                if ctx.coin():
                    kw[ctx.choice(['tonext', 'pad_tonext'])] = True
                    N = 1 << (N - 1).bit_length()
                got = pydos.direct_pdos(v, **kw)
            else:
                if mode == 'tonext':
                    N = 1 << (N - 1).bit_length()
                    kw['tonext'] = True
                got = pydos.pdos(v, npad=npad, **kw)
            pad = np.concatenate((w, np.zeros((N - n,) + w.shape[1:])))
            fullp = (np.abs(dft(pad)) ** 2 * mm[None, :, None]).sum(axis=(1, 2))
            extra = ()
        else:
            mirr = mode != 'vacf'
            c = vacf(w, m0)
            got = pydos.vacf_pdos(v, **kw) if mode == 'vacf_pdos' else pydos.pdos(v, method='vacf', mirr=mirr, **kw) if mirr or ctx.coin() else \
                pydos.pdos(v, method='vacf', **kw)
            cc = np.concatenate((c[::-1], c[1:])) if mirr else c
            N = len(cc)
            F = dft(cc)
            fullp = np.abs(F)
            extra = (c, F)
    ctx.note(mode=mode, window=win, full=full)
    got = flat(got)
    half = N // 2
    ctx.check(len(got) == 2 + (3 + len(extra) if full else 0), 'number of results', n=len(got))
    f, p = got[:2]
    ctx.check(len(f) == len(p) == half, 'lengths', got=(len(f), len(p)), want=half)
    ctx.close(f, np.arange(half) / (N * dt), 'frequency axis', rtol=1e-12)
    ctx.check((f >= 0).all() and f[-1] < 0.5 / dt, 'frequencies are not negative and below the Nyquist limit')
    ref = fullp[:half]
    sc = ref.max()
    ctx.close(simpson(p, x=f), area, 'area', rtol=1e-8)
    ctx.close(p / p.max(), ref / sc, 'spectrum', rtol=0, atol=1e-9)
    ctx.close(p, ref * (area / simpson(ref / sc, x=f * dt) / sc * dt), 'normalised spectrum', rtol=0, atol=1e-8 * float(p.max()))
    if full:
        ff, fp, si = got[2:5]
        ctx.close(ff, np.array([k if k < (N + 1) // 2 else k - N for k in range(N)]) / (N * dt), 'full axis', rtol=1e-12)
        ctx.close(fp, fullp, 'full spectrum', rtol=0, atol=1e-9 * fullp.max())
        ctx.check(si == half, 'split index')
        for g, e, what in zip(got[5:], extra, ('vacf', 'fft_vacf')):
            ctx.close(g, e, what, rtol=0, atol=1e-10 * np.abs(e).sum())
    ctx.check(np.array_equal(v, v0) and (m is None or np.array_equal(m, m0)), 'input changed')
    ctx.raises(AssertionError, pydos.pdos, v, method='vacf', npad=1)
    ctx.raises(AssertionError, pydos.pdos, v, m=np.ones(v.shape[1] + 1))


@reg.scenario(quick=400)
def routes_agree(ctx):
    v, m = traj(ctx, lo=8)
    dt = float(ctx.rng.uniform(0.1, 5))
    win = ctx.choice([False, False, True])
    a = pydos.direct_pdos(v, dt=dt, m=m, window=win)
    b = pydos.vacf_pdos(v, dt=dt, m=m, window=win)
    ctx.close(a[0], b[0], 'axes', rtol=1e-13)
    ctx.close(a[1], b[1], 'direct and autocorrelation route', rtol=0, atol=1e-9 * float(np.abs(a[1]).max()))


@reg.scenario(quick=150)
def oscillators(ctx):
    r = ctx.rng
    n = ctx.ri(300, 700)
    dt = 10.0 ** r.uniform(-2, 2)
    na = ctx.ri(1, 4)
    fs = []
    while len(fs) < na:
        f = r.uniform(0.03, 0.45) / dt
        if all(abs(f - g) > 12.0 / (n * dt) for g in fs):
            fs.append(f)
    t = np.arange(n) * dt
    m = r.uniform(1, 5, na)
    v = np.zeros((n, na, 3))
    for i, f in enumerate(fs):
        d = r.normal(size=3)
        d /= np.linalg.norm(d)
        v[:, i, :] = np.cos(2 * np.pi * f * t + r.uniform(0, 6))[:, None] * d / np.sqrt(m[i])
    kind = ctx.choice(['direct', 'padded', 'vacf'])
    f, p = {'direct': lambda: pydos.pdos(v, m=m, dt=dt), 'padded': lambda: pydos.direct_pdos(v, m=m, dt=dt, npad=3),
            'vacf': lambda: pydos.vacf_pdos(v, m=m, dt=dt)}[kind]()
    df = f[1] - f[0]
    ctx.note(na=na, kind=kind)
    tot = float(p.sum())
    for g in fs:
        sel = np.abs(f - g) < 5.0 / (n * dt)
        k = int(np.argmax(np.where(sel, p, -1)))
        ctx.check(abs(f[k] - g) <= 1.6 / (n * dt), 'peak position', found=f[k], want=g, df=df)
        # equal kinetic energy: equal weight
        ctx.close(float(p[sel].sum()) / tot, 1.0 / na, 'weight of the mode', rtol=0, atol=0.08)
    ctx.check((p >= -1e-12 * p.max()).all(), 'not negative')


storage.add(reg, 200, 'signal.pyvacf', 'signal.fvacf', 'signal.pdos', 'signal.vacf_pdos', 'signal.direct_pdos')
