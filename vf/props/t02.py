import numpy as np
from scipy import interpolate, optimize

from pwtools import eos, num, thermo
from pwtools.constants import kb, eV
from vf.core import Registry
from vf import storage
from vf.props import t01

reg = Registry('T02', 'Quasi-harmonic models with known answer: analytic energy surfaces in one, two and three cell axes, phonon '
               'frequencies that scale with volume (Grueneisen), random T/P grids, point orders and fit functions; the oracle '
               'minimises the analytic Gibbs energy itself, recomputes every table from its definition, records the fit objects '
               'used, and uses the exact relation alpha = gamma*Cv/(V*B)')
GPA = 160.2176634
KB = kb / eV


class Model:
    """E(V) with frequencies f_i(V) = f_i (V/V0)^-gamma"""
    def __init__(self, ctx, aniso=False):
        self.v0, self.b0, self.b1 = ctx.rng.uniform(15, 60), ctx.rng.uniform(0.2, 1.2), ctx.rng.uniform(3.5, 5.5)
        self.e0 = ctx.choice([0., -5.0, -300.0])
        self.gam = ctx.rng.uniform(0.8, 2.2)
        self.f = np.linspace(1.0, ctx.rng.uniform(200, 1000), ctx.ri(60, 150))
        self.d = self.f**2 * (1 + 0.3 * np.sin(self.f / self.f[-1] * 7))
        self.nm = 3 * ctx.ri(1, 3)
        self.d *= self.nm / t01.trap(self.d, self.f)
        self.kap = ctx.rng.uniform(0.5, 3) * (1 if aniso else 0)

    def etot(self, V):
        x = (V / self.v0)**(1 / 3.)
        c = 1.5 * (self.b1 - 1)
        return self.e0 + 9 * self.b0 * self.v0 / c**2 * (1 - np.exp(c * (1 - x)) * (1 - c * (1 - x)))

    def dos(self, V):
        s = (V / self.v0)**(-self.gam)
        return np.array([self.f * s, self.d / s]).T

    def fvib(self, V, T):
        p = self.dos(V)
        return t01.want(p[:, 0], p[:, 1], np.atleast_1d(T))[1]

    def cv(self, V, T):
        p = self.dos(V)
        return t01.want(p[:, 0], p[:, 1], np.atleast_1d(T))[3]

    def G(self, V, T, P):
        return self.etot(V) + float(self.fvib(V, T)[0]) + P / GPA * V

    def vmin(self, T, P, lo, hi):
        r = optimize.minimize_scalar(lambda v: self.G(v, T, P) - self.e0, bounds=(lo, hi), method='bounded', options=dict(xatol=1e-9))
        # polish: root of the derivative (Grueneisen: P_th = gamma*E_th/V)
        def dG(v):
            p = self.dos(v)
            ev = t01.want(p[:, 0], p[:, 1], np.array([T]))[0][0]
            x = (v / self.v0)**(1 / 3.)
            return -3 * self.b0 * (1 - x) / x**2 * np.exp(1.5 * (self.b1 - 1) * (1 - x)) - self.gam * ev / v + P / GPA
        return optimize.brentq(dG, r.x * 0.98, r.x * 1.02, xtol=1e-12)


def prange(m, lo, hi, Tmax, mg=0.02):
    """pressures for which the minima of G (up to Tmax) and H lie well inside the volume range"""
    def pr(v, T):
        ev = 0
        if T:
            p = m.dos(v)
            ev = t01.want(p[:, 0], p[:, 1], np.array([T]))[0][0]
        x = (v / m.v0)**(1 / 3.)
        return (3 * m.b0 * (1 - x) / x**2 * np.exp(1.5 * (m.b1 - 1) * (1 - x)) + m.gam * ev / v) * GPA
    return pr(hi * (1 - mg), Tmax), pr(lo * (1 + mg), None)


def setup1(ctx, nax=1, n=None, mg=0.02):
    m = Model(ctx)
    n = ctx.ri(12, 20) if n is None else n
    V = np.linspace(0.88, 1.14, n) * m.v0
    V = V * (1 + ctx.rng.uniform(-0.003, 0.003, n))
    order = ctx.choice(['up', 'down', 'random'])
    V = V if order == 'up' else V[::-1].copy() if order == 'down' else ctx.rng.permutation(V)
    nT = ctx.choice([6, 12, 25])
    T = np.linspace(ctx.choice([5., 50., 300.]), ctx.choice([400., 900.]), nT)
    plo, phi = prange(m, V.min(), V.max(), T[-1], mg)
    if plo >= phi:
        ctx.count('model too soft for its volume range')
        m.gam, T = 0.8, T * (200. / T[-1])
        plo, phi = prange(m, V.min(), V.max(), T[-1], 0.02)
        phi = max(phi, plo + 0.1)
    P = np.sort(ctx.rng.uniform(plo, phi, ctx.sz(1, 4, 12)))
    ratio = [1.0, ctx.rng.uniform(0.6, 1.5), ctx.rng.uniform(0.7, 2)][:nax]
    # V = k * prod(ax): axes follow the volume
    if nax == 1:
        ax = V[:, None]**(1 / 3.)
        vf = lambda a: a[0]**3
    elif nax == 2:
        a = (V / ratio[1])**(1 / 3.)
        ax = np.array([a, ratio[1] * a]).T
        vf = lambda a: a[0]**2 * a[1]
    else:
        a = (V / ratio[1] / ratio[2])**(1 / 3.)
        ax = np.array([a, a * ratio[1], a * ratio[2]]).T
        vf = lambda a: a[0] * a[1] * a[2]
    et = m.etot(V)
    ph = [m.dos(v) for v in V]
    return m, V, T, P, ax, vf, et, ph, order


class Rec:
    """wraps a fit function and keeps what it was asked and returned"""
    def __init__(self, func):
        self.func, self.log = func, []

    def __call__(self, x, y):
        f = self.func(x, y)
        self.log.append((np.array(x), np.array(y), f))
        return f


FITS = dict(default=None,
            poly4=lambda x, y: num.PolyFit1D(x, y, deg=4, scale=True),
            poly6=lambda x, y: num.PolyFit1D(x, y, deg=6, scale=True),
            eos=lambda x, y: eos.EosFit(x, y))


def tables(ctx, g, pre, V, T, P, ax, et, ph, full=True):
    """everything that is defined without a fit"""
    ctx.check('/T/T' in g and '/P/P' in g, 'grids stored')
    ctx.same(np.asarray(g['/T/T']), np.asarray(T), 'T grid')
    ctx.same(np.asarray(g['/P/P']), np.asarray(P), 'P grid')
    ctx.same(np.asarray(g[pre + pre]), ax, 'axes grid')
    ctx.close(g[pre + '/V'], V, 'volumes', rtol=1e-12)
    ctx.same(np.asarray(g[pre + '/Etot']), et, 'total energies')
    F = g[pre + '/T/F']
    ctx.check(F.shape == (len(V), len(T)), 'shape of F', got=F)
    w = [t01.want(p[:, 0], p[:, 1], T) for p in ph]
    wf = np.array([x[1] for x in w])
    ctx.close(g[pre + '/T/Fvib'], wf, 'vibrational free energy', rtol=1e-8, atol=1e-9)
    ctx.close(F - et[:, None], wf, 'F = Etot + Fvib', rtol=1e-8, atol=1e-9)
    if full:
        S, C = g[pre + '/T/Svib'], g[pre + '/T/Cv']
        ctx.close(S, np.array([x[2] for x in w]), 'entropy', rtol=1e-7, atol=1e-8)
        ctx.close(C, np.array([x[3] for x in w]), 'heat capacity', rtol=1e-7, atol=1e-8)
        E = np.asarray(g[pre + '/T/Evib'])
        we = np.array([x[0] for x in w])
        if E.shape == we.shape and not np.allclose(E, we, rtol=1e-7) and np.allclose(E, wf + T * S, rtol=1e-10):
            ctx.softfail('Evib is Fvib + T*Svib with Svib in kb, not eV', key='evib-units', got=E, want=we)
        else:
            ctx.close(E, we, 'internal energy', rtol=1e-7, atol=1e-8)


def gtables(ctx, g, pre, V, T, P, et, extra=0.0):
    F = g[pre + '/T/F']
    H = g['/P' + pre + '/H']
    ctx.check(H.shape == (len(P), len(V)), 'shape of H', got=H)
    pv = P[:, None] * V / GPA
    ctx.close(H, et + pv, 'H = Etot + P*V', rtol=1e-9, atol=1e-6 * np.abs(pv).max())
    G = g['/T/P' + pre + '/G']
    ctx.check(G.shape == (len(T), len(P), len(V)), 'shape of G', got=G)
    ctx.close(G, F.T[:, None, :] + pv[None], 'G = F + P*V', rtol=1e-9, atol=1e-6 * np.abs(pv).max())


def spl(T, x, der, k=5):
    return interpolate.make_interp_spline(T, x, k=k).derivative(der)(T)


@reg.scenario(quick=120, thorough=2000)
def one_axis(ctx):
    """1d (and several axes following the volume): all tables and the optimum"""
    nax = ctx.choice([1, 1, 2, 3])
    fit = ctx.choice(list(FITS))
    m, V, T, P, ax, vf, et, ph, order = setup1(ctx, nax, mg=0.07 if fit == 'eos' else 0.02)
    flat = nax == 1 and ctx.coin()
    ctx.note(nax=nax, n=len(V), nT=len(T), nP=len(P), order=order, fit=fit, flat=flat)
    pre = ['/ax0', '/ax0-ax1', '/ax0-ax1-ax2'][nax - 1]
    inp = (T.copy(), P.copy(), et.copy(), [p.copy() for p in ph], ax.copy())
    gb = thermo.Gibbs(T=T, P=P, etot=et, phdos=ph, axes_flat=ax[:, 0] if flat else ax, volfunc_ax=vf,
                      case='1d' if nax > 1 else ctx.choice([None, '1d']))
    rec = {}
    for k in ('1d-G', '1d-ax', 'alpha', 'C'):
        rec[k] = Rec(FITS[fit] if k == '1d-G' and FITS[fit] else gb.fitfunc[k])
        gb.set_fitfunc(k, rec[k])
    how = ctx.choice(['all', 'F first', 'plus'])
    extra = 0.0
    try:
        if how == 'all':
            g = gb.calc_G(calc_all=True)
        else:
            r = gb.calc_F(calc_all=True)
            if how == 'plus':
                extra = 0.01 * (T / T[-1])**2
                r[pre + '/T/F'] = r[pre + '/T/F'] - extra
            g = gb.calc_G(ret=r, calc_all=True)
    except Exception as ex:
        # documented for EosFit: refuses when its start parabola has its minimum outside of the data
        if fit == 'eos' and 'minimum volume' in str(ex):
            ctx.count('EosFit refused the data')
            return
        raise
    ctx.same((T, P, et, ph, ax), inp, 'input arrays changed')
    if how == 'plus':
        ctx.close(g[pre + '/T/F'], et[:, None] + g[pre + '/T/Fvib'] - extra, 'own contribution to F is kept', rtol=1e-9)
    else:
        tables(ctx, g, pre, V, T, P, ax, et, ph)
    gtables(ctx, g, pre, V, T, P, et)
    names = ['V', 'G', 'B'] + ['ax%d' % i for i in range(nax)]
    o = {k: g['/#opt/T/P/' + k] for k in names + ['Cp', 'alpha_V'] + ['alpha_ax%d' % i for i in range(nax)]}
    for k, a in o.items():
        ctx.check(np.shape(a) == (len(T), len(P)), 'shape of optimum ' + k, got=a)
    for k in ['ax%d' % i for i in range(nax, 3)]:
        for q in ('/#opt/T/P/' + k, '/#opt/P/' + k, '/#opt/T/P/alpha_' + k):
            ctx.check(g.get(q) is None, 'axis that does not exist', key_=q)
    h = {k: g['/#opt/P/' + k] for k in ['V', 'H', 'B'] + ['ax%d' % i for i in range(nax)]}
    # which fit belongs to which grid point: identified by its y data
    Gt, Ht = g['/T/P' + pre + '/G'], g['/P' + pre + '/H']
    def fit_of(y):
        c = [f for x, yy, f in rec['1d-G'].log if yy.shape == y.shape and np.array_equal(yy, y)]
        ctx.check(c, 'no fit was made to the data of this grid point')
        return c[-1]
    pts = [('T', i, j) for i in range(len(T)) for j in range(len(P))] + [('P', None, j) for j in range(len(P))]
    step = 1e-4 * m.v0
    for kind, i, j in pts:
        f = fit_of(Gt[i, j] if kind == 'T' else Ht[j])
        v, e, b = (o['V'][i, j], o['G'][i, j], o['B'][i, j]) if kind == 'T' else (h['V'][j], h['H'][j], h['B'][j])
        ctx.check(V.min() < v < V.max(), 'optimal volume outside of the data', got=v)
        ctx.close(e, float(f(v)), 'tabulated minimum is the fit at the minimum', rtol=1e-10)
        ctx.check(e <= float(f(v - 1e-2 * v)) and e <= float(f(v + 1e-2 * v)), 'not a minimum')
        d2 = float(f(v + step) - 2 * f(v) + f(v - step)) / step**2
        ctx.close(b, v * d2 * GPA, 'bulk modulus of the fit', rtol=1e-3, atol=1e-6 * np.abs(e) / step**2 * v * 1e-6)
        # the model
        if fit == 'eos' and kind == 'T':
            tv, tb, te = 2e-3, 6e-2, 5e-4
        else:
            tv, tb, te = (2e-3, 8e-2, 1e-3) if fit == 'poly4' else (4e-4, 3e-2, 2e-4)
        if how != 'plus':
            if kind == 'T':
                vw = m.vmin(T[i], P[j], V.min(), V.max())
                gw = m.G(vw, T[i], P[j])
            else:
                x = optimize.brentq(lambda v: 3 * m.b0 * (1 - (v / m.v0)**(1 / 3.)) / (v / m.v0)**(2 / 3.)
                                    * np.exp(1.5 * (m.b1 - 1) * (1 - (v / m.v0)**(1 / 3.))) - P[j] / GPA, 0.7 * m.v0, 1.4 * m.v0)
                vw, gw = x, m.etot(x) + P[j] / GPA * x
            ctx.close(v, vw, 'optimal volume', rtol=tv)
            ctx.close(e, gw, 'optimal energy', rtol=1e-12, atol=te * m.b0)
        axw = [V**0 * 0 + 1, ][0]
        for k in range(nax):
            a = (o if kind == 'T' else h)['ax%d' % k]
            a = a[i, j] if kind == 'T' else a[j]
            w = (v / np.prod(ax[0] / ax[0, k]) if nax != 2 else v / (ax[0, 0]**2 * ax[0, 1] / ax[0, k]**3))**(1 / 3.)
            ctx.close(a, w, 'optimal axis belongs to the optimal volume', rtol=1e-5)
    # derivative tables
    for k in ['V'] + ['ax%d' % i for i in range(nax)]:
        ctx.close(o['alpha_' + k], np.array([spl(T, o[k][:, j], 1) / o[k][:, j] for j in range(len(P))]).T,
                  'thermal expansion is (1/x) dx/dT of the table: ' + k, rtol=1e-5, atol=1e-9)
    for j in range(len(P)):
        w = -T * spl(T, o['G'][:, j] / KB, 2)
        ctx.close(o['Cp'][:, j], w, 'Cp is -T d2G/dT2 of the table', rtol=1e-4, atol=1e-4 * m.nm)
    for k in ('ax%d' % i for i in range(nax)):
        ctx.close(o['alpha_' + k] * 3, o['alpha_V'], 'axis and volume expansion', rtol=2e-2, atol=1e-3 * np.abs(o['alpha_V']).max())


@reg.scenario(quick=30, thorough=400)
def grueneisen(ctx):
    """smooth T grid: alpha = gamma*Cv/(V*B), Cp - Cv = T*V*B*alpha^2"""
    m, V, T, P, ax, vf, et, ph, order = setup1(ctx, 1, n=18)
    T = np.linspace(20, 500, 60)
    plo, phi = prange(m, V.min(), V.max(), T[-1])
    P = np.sort(ctx.rng.uniform(plo + 0.2 * (phi - plo), phi - 0.2 * (phi - plo), 2))
    ctx.note(gamma='%.1f' % m.gam, order=order, n=len(V))
    g = thermo.Gibbs(T=T, P=P, etot=et, phdos=ph, axes_flat=ax, volfunc_ax=vf).calc_G(calc_all=True)
    s = slice(6, -6)
    for j in range(len(P)):
        v, b, a, cp = (g['/#opt/T/P/' + k][:, j] for k in ('V', 'B', 'alpha_V', 'Cp'))
        cv = np.array([m.cv(x, t)[0] for x, t in zip(v, T)])
        aw = m.gam * cv * KB / (v * b / GPA)
        ctx.close(a[s], aw[s], 'alpha = gamma*Cv/(V*B)', rtol=4e-2, atol=1e-2 * np.abs(aw).max())
        d = T * v * b / GPA * a**2 / KB
        ctx.close((cp - cv)[s], d[s], 'Cp - Cv = T*V*B*alpha^2', rtol=8e-2, atol=1e-2 * cv.max())


@reg.scenario(quick=40, thorough=600)
def independent(ctx):
    """a grid point's results do not depend on other grid points, point order or earlier calls"""
    nax = ctx.choice([1, 1, 2])
    m, V, T, P, ax, vf, et, ph, order = setup1(ctx, nax)
    case = '1d' if nax > 1 else None
    ctx.note(nax=nax, n=len(V), nT=len(T), nP=len(P))
    mk = lambda T, P, i, **k: thermo.Gibbs(T=T, P=P, etot=et[i], phdos=[ph[q] for q in i], axes_flat=ax[i], volfunc_ax=vf, case=case, **k)
    al = np.arange(len(V))
    gb = mk(T, P, al)
    g = gb.calc_G()
    names = ['V', 'G', 'B', 'ax0'] + (['ax1'] if nax == 2 else [])
    it = np.sort(ctx.rng.choice(len(T), max(6, len(T) // 2), replace=False))
    ip = np.sort(ctx.rng.choice(len(P), max(1, len(P) // 2), replace=False))
    g2 = mk(T[it], P[ip], al).calc_G()
    g3 = mk(T, P, ctx.rng.permutation(len(V))).calc_G()
    g4 = gb.calc_G()
    h4 = gb.calc_H()
    f4 = gb.calc_F()
    for k in names:
        q = '/#opt/T/P/' + k
        ctx.close(g2[q], g[q][np.ix_(it, ip)], 'sub-grid: ' + k, rtol=1e-9)
        ctx.close(g3[q], g[q], 'order of the points: ' + k, rtol=1e-6)
        ctx.same(g4[q], g[q], 'second call: ' + k)
        if k != 'G':
            ctx.same(h4['/#opt/P/' + k], g['/#opt/P/' + k], 'calc_H alone: ' + k)
    for k in f4:
        ctx.same(f4[k], g[k], 'calc_F alone: ' + k)
    for q in ('/#opt/T/P/alpha_V', '/#opt/T/P/Cp'):
        ctx.close(g3[q], g[q], 'order of the points: ' + q, rtol=1e-3, atol=1e-3 * np.abs(g[q]).max())
    few = gb.calc_G(calc_all=False)
    pre = '/ax0' if nax == 1 else '/ax0-ax1'
    ctx.same(few['/T/P' + pre + '/G'], g['/T/P' + pre + '/G'], 'without optimum: G')
    ctx.check(not any(k.startswith('/#opt/T/P') for k in few), 'no optimum without calc_all', got=sorted(few))
    f = gb.calc_F(calc_all=False)
    ctx.check({k.split('/')[-1] for k in f if k.startswith(pre + '/T/')} == {'F', 'Fvib'}, 'only F and Fvib', got=sorted(f))
    # options of the harmonic part arrive there
    area = ctx.rng.uniform(2, 20)
    f = mk(T, P, al, dosarea=area).calc_F()
    ctx.close(f[pre + '/T/Fvib'], g[pre + '/T/Fvib'] * (area / m.nm), 'dos normalised on request', rtol=1e-7, atol=1e-9)


@reg.scenario(quick=40, thorough=600)
def two_axes(ctx):
    """free optimisation of two axes"""
    m = Model(ctx)
    ca = ctx.rng.uniform(0.8, 1.8)
    a0 = (m.v0 / ca)**(1 / 3.)
    k = ctx.rng.uniform(0.5, 2) * m.b0 * m.v0
    cross = ctx.rng.uniform(-0.3, 0.3)
    n0, n1 = ctx.ri(7, 9), ctx.ri(7, 9)
    A, C = a0 * np.linspace(0.96, 1.045, n0), a0 * ca * np.linspace(0.955, 1.05, n1)
    ax = np.array([(x, y) for x in A for y in C])
    if ctx.coin():
        ax = ctx.rng.permutation(ax)
    vf = lambda a: a[0]**2 * a[1]
    en = lambda a, c: m.etot(a**2 * c) + k * (c / a / ca - 1)**2 * (1 + cross * (c / a / ca - 1))
    V = ax[:, 0]**2 * ax[:, 1]
    et = en(ax[:, 0], ax[:, 1])
    # frequencies depend on the axes separately
    g0, g1 = ctx.rng.uniform(0.5, 2.5), ctx.rng.uniform(0.3, 2)
    sc = lambda a, c: (a / a0)**(-2 * g0) * (c / a0 / ca)**(-g1)
    ph = [np.array([m.f * sc(a, c), m.d / sc(a, c)]).T for a, c in ax]
    T = np.linspace(20, 400, 7)
    P = np.sort(ctx.rng.uniform(-0.5, 2, ctx.ri(1, 3)))
    ctx.note(n=len(ax), nP=len(P), offset=m.e0)
    inp = (et.copy(), ax.copy())
    gb = thermo.Gibbs(T=T, P=P, etot=et, phdos=ph, axes_flat=ax, volfunc_ax=vf, case=ctx.choice([None, '2d']))
    g = gb.calc_G()
    ctx.same((et, ax), inp, 'input arrays changed')
    tables(ctx, g, '/ax0-ax1', V, T, P, ax, et, ph)
    gtables(ctx, g, '/ax0-ax1', V, T, P, et)
    for q in ('/#opt/T/P/B', '/#opt/P/B', '/#opt/T/P/ax2', '/#opt/P/ax2', '/#opt/T/P/alpha_ax2'):
        ctx.check(g.get(q) is None, 'quantity that does not exist', key_=q)
    def best(T_, P_):
        def fun(x):
            a, c = x[0] * a0, x[1] * a0 * ca
            e = en(a, c) - m.e0 + P_ / GPA * a * a * c
            if T_ is not None:
                s = sc(a, c)
                e += t01.want(m.f * s, m.d / s, np.array([T_]))[1][0]
            return e
        r = optimize.minimize(fun, [1.0, 1.0], method='Nelder-Mead', options=dict(xatol=1e-8, fatol=1e-13, maxiter=4000))
        return r.x[0] * a0, r.x[1] * a0 * ca, r.fun + m.e0
    for j in range(len(P)):
        for i in list(range(0, len(T), 3)) + [None]:
            x, y, e = best(None if i is None else T[i], P[j])
            if not (A[0] * 1.01 < x < A[-1] * 0.99 and C[0] * 1.01 < y < C[-1] * 0.99):
                continue
            if i is None:
                q = [g['/#opt/P/' + n][j] for n in ('ax0', 'ax1', 'V', 'H')]
            else:
                q = [g['/#opt/T/P/' + n][i, j] for n in ('ax0', 'ax1', 'V', 'G')]
            ctx.close(q[:2], [x, y], 'optimal axes', rtol=2e-3)
            ctx.close(q[2], q[0]**2 * q[1], 'volume belongs to the axes', rtol=1e-10)
            ctx.close(q[3], e, 'optimal energy', rtol=1e-10, atol=1e-4 * m.b0 * m.v0)
            ctx.count('two axis optima checked')
    for n in ('ax0', 'ax1', 'V'):
        t = g['/#opt/T/P/' + n]
        ctx.close(g['/#opt/T/P/alpha_' + n], np.array([spl(T, t[:, j], 1) / t[:, j] for j in range(len(P))]).T,
                  'thermal expansion is (1/x) dx/dT of the table: ' + n, rtol=1e-5, atol=1e-9)
    t = g['/#opt/T/P/G']
    ctx.close(g['/#opt/T/P/Cp'], np.array([-T * spl(T, t[:, j] / KB, 2) for j in range(len(P))]).T, 'Cp is -T d2G/dT2 of the table',
              rtol=1e-4, atol=1e-3 * m.nm)


@reg.scenario(quick=20, thorough=200)
def refuse(ctx):
    """three free axes, unknown fit functions and wrong lengths are refused"""
    m, V, T, P, ax, vf, et, ph, order = setup1(ctx, 3)
    gb = thermo.Gibbs(T=T, P=P, etot=et, phdos=ph, axes_flat=ax, volfunc_ax=vf)
    pre = '/ax0-ax1-ax2'
    ctx.note(n=len(V))
    f = gb.calc_F()
    tables(ctx, f, pre, V, T, P, ax, et, ph)
    ctx.raises(Exception, gb.calc_G, _msg='three free axes')
    ctx.raises(Exception, lambda: gb.set_fitfunc('xx', None), _msg='unknown fit function key')
    ctx.raises(Exception, lambda: thermo.Gibbs(T=T, P=P, etot=et[:-1], phdos=ph, axes_flat=ax, volfunc_ax=vf), _msg='energies too short')
    ctx.raises(Exception, lambda: thermo.Gibbs(T=T, P=P, etot=et, phdos=ph[:-1], axes_flat=ax, volfunc_ax=vf), _msg='dos too short')


AXF = dict(default=None, spl3=lambda x, y: num.Spline(*[np.asarray(q)[np.argsort(x)] for q in (x, y)], k=3, eps=1e-3),
           poly1=lambda x, y: num.PolyFit1D(x, y, deg=1), poly3=lambda x, y: num.PolyFit1D(x, y, deg=3, scale=True))
TDF = dict(default=None, spl3=lambda x, y: num.Spline(x, y, k=3, eps=1e-3), poly4=lambda x, y: num.PolyFit1D(x, y, deg=4, scale=True))


@reg.scenario(quick=60, thorough=1000)
def history(ctx):
    """one object, fit functions changed between calculations: every result is that of a new object with the functions set now"""
    nax = ctx.choice([1, 1, 2])
    m, V, T, P, ax, vf, et, ph, order = setup1(ctx, nax)
    mk = lambda: thermo.Gibbs(T=T, P=P, etot=et, phdos=ph, axes_flat=ax, volfunc_ax=vf, case='1d')
    gb = mk()
    menu = {'1d-G': {k: f for k, f in FITS.items() if k != 'eos'}, '1d-ax': AXF, 'alpha': TDF, 'C': TDF}
    defaults = dict(gb.fitfunc)
    now, trail = {}, []

    def setf(obj, k, name):
        obj.set_fitfunc(k, menu[k][name] or defaults[k])

    def run(obj, op):
        if op == 'F':
            return obj.calc_F()
        if op == 'H':
            return obj.calc_H()
        if op == 'Fonly':
            return obj.calc_F(calc_all=False)
        if op == 'Gonly':
            return obj.calc_G(calc_all=False)
        return obj.calc_G()
    for step in range(ctx.ri(2, 6)):
        if ctx.coin(0.6) or not trail:
            k = ctx.choice(['1d-ax', '1d-ax', '1d-G', 'alpha', 'C'])
            now[k] = ctx.choice(sorted(menu[k]))
            setf(gb, k, now[k])
            trail.append('%s=%s' % (k, now[k]))
        op = ctx.choice(['F', 'H', 'G', 'G', 'Fonly', 'Gonly'])
        trail.append(op)
        got = run(gb, op)
        new = mk()
        for k, name in now.items():
            setf(new, k, name)
        want = run(new, op)
        ctx.note(trail=' '.join(trail), nax=nax)
        ctx.check(sorted(got) == sorted(want), 'result keys', trail=trail)
        for k in want:
            if want[k] is None:
                ctx.check(got[k] is None, 'empty entry', entry=k)
            else:
                ctx.close(got[k], want[k], 'result of a used object differs from that of a new one: ' + k, rtol=1e-9, atol=1e-12)
        ctx.count('histories')


storage.add(reg, 30, 'fits.Gibbs')
