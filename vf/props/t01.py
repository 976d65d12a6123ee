import contextlib
import io

import numpy as np
from scipy import integrate

from pwtools import thermo
from pwtools.constants import kb, hplanck, c0, eV
from vf.core import Registry
from vf import storage

reg = Registry('T01', 'Random phonon densities of states (smooth, peaked, gapped, discrete modes, with zero/negative frequencies, on '
               'uniform, random and descending grids) at temperatures from 0.01 K to 1e5 K; the oracle integrates overflow-free '
               'single-mode formulas written independently and checks the identities, limits and numerical T-derivatives')
HCK = hplanck * c0 * 100 / kb          # K per cm^-1
HC = hplanck * c0 * 100 / eV           # eV per cm^-1


def n_bose(x):
    with np.errstate(over='ignore'):
        return 1.0 / np.expm1(np.minimum(x, 700.0)) * (x < 700)


def mode(f, T):
    """energy [eV], free energy [eV], entropy [kb], heat capacity [kb] of one mode of f [cm^-1]"""
    x = HCK * f / T
    n = n_bose(x)
    e = HC * f * (0.5 + n)
    F = HC * f / 2 + kb / eV * T * np.log(-np.expm1(-x))
    s = x * n - np.log(-np.expm1(-x))
    with np.errstate(over='ignore'):
        c = x**2 * n * (n + 1)
    return e, F, s, c


def trap(y, x):
    return (0.5 * (y[..., 1:] + y[..., :-1]) * np.diff(x)).sum(-1)


def want(f, dos, T, integ=trap):
    e, F, s, c = mode(f[None, :], np.atleast_1d(T)[:, None])
    return [integ(dos * q, f) for q in (e, F, s, c)]


def simp(y, x):
    return integrate.simpson(y, x=x, axis=-1)


def grid(ctx, lo=None):
    n = ctx.ri(20, 400)
    lo = ctx.choice([0.01, 1.0, 30.0]) if lo is None else lo
    hi = ctx.choice([100., 500., 1500., 4000.])
    f = np.linspace(lo, hi, n) if ctx.coin(0.6) else np.sort(ctx.rng.uniform(lo, hi, n))
    return f


def make_dos(ctx, f):
    k = ctx.choice(['debye', 'peaks', 'random', 'gap', 'flat', 'spike'])
    m = f.max()
    if k == 'debye':
        d = f**2
    elif k == 'peaks':
        d = sum(ctx.rng.random() * np.exp(-0.5 * ((f - ctx.rng.uniform(0, m)) / (0.05 * m))**2) for _ in range(4))
    elif k == 'random':
        d = ctx.rng.random(len(f))
    elif k == 'gap':
        d = np.where((f > 0.3 * m) & (f < 0.6 * m), 0.0, 1.0 + ctx.rng.random(len(f)))
    elif k == 'flat':
        d = np.ones(len(f))
    else:
        d = np.zeros(len(f))
        d[ctx.ri(1, len(f) - 2)] = 1.0
    return k, d * 10**ctx.rng.uniform(-3, 3)


def temps(ctx):
    n = ctx.sz(1, 12, 150)
    return np.sort(10**ctx.rng.uniform(*ctx.choice([(-2, 0.5), (0, 3.5), (2, 5)]), n))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()) as out, np.errstate(all='ignore'):
        r = f(*a, **k)
    return r, out.getvalue()


def four(h, *a):
    with np.errstate(all='ignore'):
        return [h.evib(*a), h.fvib(*a), h.svib(*a), h.cv(*a)]


NAMES = ['internal energy', 'free energy', 'entropy', 'heat capacity']


def cmp(ctx, got, w, T, msg, rtol=1e-9):
    for n, g, x in zip(NAMES, got, w):
        # the entropy is a difference of terms of the size E/(kT)
        sc = 1e-2 * np.abs(w[0]) * eV / kb / T if n == 'entropy' else np.abs(w[0]).max() if n.endswith('energy') else 0
        ctx.close(g, x, '%s: %s' % (msg, n), rtol=rtol, atol=1e-11 * sc + 1e-250)


@reg.scenario(quick=700)
def formulas(ctx):
    """all four quantities against independent integrals; identities; order of T; ways to pass T"""
    f = grid(ctx)
    k, d = make_dos(ctx, f)
    T = temps(ctx)
    area = ctx.choice([None, None, 3.0, 12.0])
    integ = ctx.choice(['trapz', 'trapz', 'simpson'])
    kw = dict(integrator=integrate.simpson) if integ == 'simpson' else {}
    ii = simp if integ == 'simpson' else trap
    down = ctx.coin(0.2) and area is not None and integ == 'trapz'
    ctx.note(dos=k, n=len(f), T='%.0e' % T[0], area=area, integ=integ, down=down)
    w_d = d if area is None else d * area / ii(d, f)
    w = want(f, w_d, T, ii)
    ff, dd = (f[::-1].copy(), d[::-1].copy()) if down else (f, d)
    f1, d1 = ff.copy(), dd.copy()
    via = ctx.choice(['T', 'temp', 'call'])
    kw.update(dosarea=area, verbose=False)
    if via == 'T':
        h = thermo.HarmonicThermo(ff, dd, T, **kw)
        args = ()
    elif via == 'temp':
        h = thermo.HarmonicThermo(ff, dd, temp=T, **kw)
        args = ()
    else:
        h = thermo.HarmonicThermo(ff, dd, None if ctx.coin() else np.array([77.0]), **kw)
        args = (T,)
    got = four(h, *args)
    # simpson's cancellations on non-uniform grids
    cmp(ctx, got, w, T, 'definition', 1e-9 if integ == 'trapz' else 1e-7)
    ctx.check((ff == f1).all() and (dd == d1).all(), 'input arrays changed')
    e, F, s, c = got
    ctx.close(F, e - T * s * kb / eV, 'F = E - T*S', rtol=1e-8, atol=1e-9 * np.abs(e).max())
    full = four(h, *args)
    for n, a, b in zip(NAMES, got, full):
        ctx.same(a, b, 'second call: ' + n)
    long = [h.vibrational_internal_energy, h.vibrational_free_energy, h.vibrational_entropy, h.isochoric_heat_capacity]
    with np.errstate(all='ignore'):
        for n, g, m in zip(NAMES, got, long):
            ctx.same(m(*args), g, 'long name: ' + n)
    # each temperature on its own, in any order
    i = ctx.rng.permutation(len(T))
    with np.errstate(all='ignore'):
        for n, g, m in zip(NAMES, got, long):
            ctx.close(m(T[i]), g[i], 'order of temperatures: ' + n, rtol=1e-13)
            ctx.close(m(T[i[:1]])[0], g[i[0]], 'one temperature: ' + n, rtol=1e-13)


@reg.scenario(quick=300)
def limits(ctx):
    """zero point energy, Dulong-Petit, derivatives; everything finite"""
    f = grid(ctx, 5.0)
    k, d = make_dos(ctx, f)
    h = thermo.HarmonicThermo(f, d, verbose=False)
    zpe = trap(d * HC * f / 2, f)
    area = trap(d, f)
    ctx.note(dos=k, n=len(f), fmax=f.max())
    T = np.array([0.01, 0.03, 0.1])
    e, F, s, c = four(h, T)
    for n, q in zip(NAMES, (e, F, s, c)):
        ctx.check(np.isfinite(q).all(), 'finite at low temperature: ' + n, got=q)
    ctx.close(e, [zpe] * 3, 'zero point energy', rtol=1e-9)
    ctx.close(F, [zpe] * 3, 'zero point free energy', rtol=1e-9)
    ctx.close(s, np.zeros(3), 'entropy goes to zero', atol=1e-9 * area)
    ctx.close(c, np.zeros(3), 'heat capacity goes to zero', atol=1e-9 * area)
    T = np.array([3e2, 1e3]) * HCK * f.max()
    e, F, s, c = four(h, T)
    ctx.close(c, [area] * 2, 'Dulong-Petit', rtol=1e-5)
    ctx.close(e, area * T * kb / eV, 'classical energy', rtol=1e-5)
    cl = np.array([trap(d * (1 - np.log(HCK * f / t)), f) for t in T])
    ctx.close(s, cl, 'classical entropy', rtol=1e-4, atol=1e-5 * area)
    T = np.exp(ctx.rng.uniform(np.log(0.02), np.log(20), 6)) * HCK * f.max()
    T = np.maximum(T, 1.0)
    st = 1e-3 * T
    def d1(m):
        with np.errstate(all='ignore'):
            return (m(T - 2 * st) - 8 * m(T - st) + 8 * m(T + st) - m(T + 2 * st)) / 12 / st
    e, F, s, c = four(h, T)
    ctx.close(-d1(h.fvib) * eV / kb, s, 'S = -dF/dT', rtol=1e-5, atol=1e-8 * area)
    ctx.close(d1(h.evib) * eV / kb, c, 'Cv = dE/dT', rtol=1e-5, atol=1e-8 * area)
    ctx.close(T * d1(h.svib), c, 'Cv = T dS/dT', rtol=1e-5, atol=1e-8 * area)
    # monotonic
    T = np.sort(T)
    e, F, s, c = four(h, T)
    for n, q in ((NAMES[0], e), (NAMES[1], -F), (NAMES[2], s), (NAMES[3], c)):
        ctx.check((np.diff(q) >= -1e-12 * np.abs(q).max()).all(), 'monotonic: ' + n, got=q)


@reg.scenario(quick=200)
def discrete(ctx):
    """narrow triangles of unit area: a sum over modes; additivity"""
    m = ctx.sz(1, 6, 120)
    nu = np.sort(ctx.rng.uniform(20, 1500, m))
    nu = nu[0] + np.cumsum(np.concatenate([[0], np.diff(nu) + 2.0]))
    w = 0.02
    f = np.sort(np.concatenate([nu - w, nu, nu + w]))
    deg = ctx.rng.integers(1, 4, m)
    d = np.zeros(len(f))
    d[np.searchsorted(f, nu)] = deg / w
    T = temps(ctx)
    T = np.maximum(T, 1.0)
    ctx.note(modes=m, T='%.0e' % T[0])
    h = thermo.HarmonicThermo(f, d, T, verbose=False, dosarea=ctx.choice([None, float(deg.sum())]))
    got = four(h)
    ref = [sum(g * q for g, q in zip(deg, qs)) for qs in zip(*[[np.asarray(x) for x in mode(v, T)] for v in nu])]
    ref = [sum(deg[i] * mode(nu[i], T)[k] for i in range(m)) for k in range(4)]
    cmp(ctx, got, ref, T, 'sum over modes', 1e-9)
    k, d2 = make_dos(ctx, f)
    a, b = ctx.rng.uniform(0.1, 5, 2)
    g1, g2 = four(thermo.HarmonicThermo(f, d, T, verbose=False)), four(thermo.HarmonicThermo(f, d2, T, verbose=False))
    g3 = four(thermo.HarmonicThermo(f, a * d + b * d2, T, verbose=False))
    cmp(ctx, g3, [a * x + b * y for x, y in zip(g1, g2)], T, 'linear in the dos', 1e-9)


@reg.scenario(quick=300)
def skipped(ctx):
    """zero and negative frequencies are left out on request, with a warning"""
    f = grid(ctx, 1.0)
    k, d = make_dos(ctx, f)
    nneg = ctx.ri(0, 8)
    zero = ctx.choice(['none', 'exact', 'tiny'])
    pre = np.concatenate([-np.sort(ctx.rng.uniform(0.1, 40, nneg))[::-1], {'none': [], 'exact': [0.0], 'tiny': [1e-17]}[zero]])
    pd = ctx.rng.random(len(pre)) * d.max()
    eps = ctx.choice([None, None, 1e-3, 20.0])
    kw = {} if eps is None else dict(eps=eps)
    ff, dd = np.concatenate([pre, f]), np.concatenate([pd, d])
    lim = 1e-15 if eps is None else eps
    if eps == 20.0:
        keep = ff > lim
        if keep.sum() < 5 or not trap(dd[keep], ff[keep]) > 0:
            return
    else:
        keep = ff > lim
    T = temps(ctx)
    area = ctx.choice([None, 6.0])
    verbose = ctx.coin()
    ctx.note(dos=k, nneg=nneg, zero=zero, eps=eps, area=area, verbose=verbose)
    f1, d1 = ff.copy(), dd.copy()
    h, out = quiet(thermo.HarmonicThermo, ff, dd, T, skipfreq=True, dosarea=area, verbose=verbose, **kw)
    w_d = dd[keep]
    if area is not None:
        w_d = w_d * (area / trap(w_d, ff[keep]))
        ctx.close(trap(h.dos, h.f), area, 'area of the dos after skipping', rtol=1e-9)
    ctx.check(len(h.f) == keep.sum() and len(h.dos) == keep.sum(), 'number of points kept', got=len(h.f), want=int(keep.sum()))
    ctx.close(h.f, ff[keep], 'frequencies kept', rtol=1e-14)
    got = four(h)
    cmp(ctx, got, want(ff[keep], w_d, T), T, 'after skipping')
    for n, g in zip(NAMES, got):
        ctx.check(np.isfinite(g).all(), 'finite: ' + n)
    ctx.check((ff == f1).all() and (dd == d1).all(), 'input arrays changed')
    if verbose:
        ctx.check('skipping %i dos points' % (~keep).sum() in out, 'skipped points are reported', got=out)
    else:
        ctx.check(out == '', 'silent with verbose=False', got=out)
    if zero == 'exact' and nneg == 0 and eps is None:
        # without skipping: NaN filled on request only where it occurs
        h2 = thermo.HarmonicThermo(ff, dd, T, fixnan=True, nanfill=0.0, verbose=False)
        with np.errstate(all='ignore'):
            cv = h2.cv()
        y = mode(f[None], T[:, None])[3] * d
        y = np.concatenate([np.zeros((len(T), 1)), y], 1)
        ctx.close(cv, trap(y, ff), 'NaN replaced by zero in the heat capacity', rtol=1e-9, atol=1e-12 * trap(d, f))
    # T = 0 in a list of temperatures: the integrand of the entropy is not a number there, and only there
    if ctx.coin(0.3):
        k0 = ctx.ri(0, len(T))
        T0 = np.insert(T, k0, 0.0)
        fill = ctx.choice([None, 0.0, 1.0])
        h3 = thermo.HarmonicThermo(f, d, T0, fixnan=True, verbose=False, **({} if fill is None else dict(nanfill=fill)))
        h4 = thermo.HarmonicThermo(f, d, T, verbose=False)
        with np.errstate(all='ignore'):
            sv = h3.svib()
            s4 = h4.svib()
        ctx.close(np.delete(sv, k0), s4, 'entropy at the other temperatures when T=0 is filled', rtol=1e-12)
        ctx.close(sv[k0], (fill or 0.0) * (f[-1] - f[0]), 'entropy at T=0 with the fill value', rtol=1e-9, atol=1e-12)
        ctx.count('entropies at T=0')


@reg.scenario(quick=150)
def models(ctx):
    """Debye and Einstein functions equal their integrals; thermal expansion model"""
    x = np.sort(10**ctx.rng.uniform(-3, 1.3, ctx.sz(1, 8, 120)))
    ctx.note(n=len(x), lo='%.0e' % x[0])
    g = thermo.debye_func(x)
    w = np.array([3 * integrate.quad(lambda t: t**3 / np.expm1(t * y) if t > 0 else 0, 0, 1, epsabs=1e-13)[0] for y in x])
    ctx.close(g, w, 'Debye integral', rtol=1e-3, atol=2e-5)
    ctx.close(thermo.debye_func(x, nstep=4000, zero=1e-6), w, 'Debye integral, fine grid', rtol=1e-5, atol=1e-8)
    ctx.close(thermo.einstein_func(x), n_bose(x), 'Einstein function', rtol=1e-9)
    s = float(x[0])
    ctx.close(np.ravel(thermo.debye_func(s)), g[:1], 'scalar', rtol=1e-12)
    ctx.close(np.ravel(thermo.einstein_func(s)), n_bose(x[:1]), 'scalar', rtol=1e-9)
    y = np.concatenate([-x[::-1], x])
    ctx.close(thermo.coth(y), np.cosh(y) / np.sinh(y), 'coth', rtol=1e-10)
    th, al, x0 = ctx.rng.uniform(100, 2000), 10**ctx.rng.uniform(-6, -4), ctx.rng.uniform(1, 10)
    T = th / x
    for fn, ref in ((thermo.einstein_func, n_bose(x)), (thermo.debye_func, g), (lambda q: 1 / q, 1 / x)):
        ctx.close(thermo.expansion(T, al, th, x0=x0, func=fn), x0 * (1 + al * th * ref), 'expansion', rtol=1e-12)
    ctx.close(thermo.expansion(T, al, th), 1 + al * th * g, 'expansion, defaults', rtol=1e-12)
    # high T limit: slope alpha
    t = np.array([80., 81.]) * th
    a = np.diff(thermo.expansion(t, al, th, func=lambda q: thermo.debye_func(q, nstep=2000)))[0] / th
    ctx.close(a, al, 'high temperature expansion coefficient', rtol=2e-3)
    b = np.diff(thermo.expansion(t, al, th, func=thermo.einstein_func))[0] / th
    ctx.close(b, al, 'high temperature expansion coefficient', rtol=2e-3)


storage.add(reg, 160, 'fits.HarmonicThermo', 'fits.HarmonicThermo_area', 'fits.debye', 'fits.expansion')
