import os
import sys
import warnings

import numpy as np
from scipy import integrate

from pwtools import eos
from pwtools.constants import eV_by_Ang3_to_GPa
from vf.core import Registry
from vf import storage

reg = Registry('E01', 'Energies generated from known parameters (four analytic equations of state written independently, exact or with '
               'known noise, all magnitudes, offsets, point counts, orders) are fitted; parameters are compared with the truth, '
               'pressure and bulk modulus with numerical derivatives and integrals of the fitted curve; the external interface '
               'runs against a stand-in executable that records its input')
GPA = eV_by_Ang3_to_GPa


def _refused(ctx, f):
    """the spline fallback refuses energies too large for its accuracy limit"""
    try:
        f.spl
    except AssertionError as e:
        ctx.check('spline not accurate' in str(e), 'unexpected %r' % e)
        return True
    return False


# independent models: E and its volume derivatives from the stress-strain form
def vinet(V, p):
    x = (V / p['v0'])**(1 / 3.)
    c = 1.5 * (p['b1'] - 1)
    # E = E0 + int_V^V0 P dV with P = 3 B0 (1-x)/x^2 exp(c(1-x))
    return p['e0'] + 9 * p['b0'] * p['v0'] / c**2 * (1 - np.exp(c * (1 - x)) * (1 - c * (1 - x)))


def vinet_p(V, p):
    x = (V / p['v0'])**(1 / 3.)
    return 3 * p['b0'] * (1 - x) / x**2 * np.exp(1.5 * (p['b1'] - 1) * (1 - x))


class Murnaghan(eos.EVFunction):
    """no derivatives of its own: the fit has to fall back"""
    def evaluate(self, V, p):
        e0, b0, b1, v0 = (p[k] for k in ('e0', 'b0', 'b1', 'v0'))
        return e0 + b0 * V / b1 * ((v0 / V)**b1 / (b1 - 1) + 1) - v0 * b0 / (b1 - 1)

    def deriv(self, V, p, der=None):
        raise eos.MaxDerivException('none')

    def true(self, V, p, der):
        b0, b1, v0 = (p[k] for k in ('b0', 'b1', 'v0'))
        if der == 1:
            return -b0 / b1 * ((v0 / V)**b1 - 1)
        return b0 / V * (v0 / V)**b1


class Birch(eos.EVFunction):
    """other parameter order, one derivative of its own"""
    def __init__(self):
        self.param_order = ['v0', 'b1', 'e0', 'b0']

    def evaluate(self, V, p):
        s = (p['v0'] / V)**(2 / 3.)
        return p['e0'] + 9 * p['v0'] * p['b0'] / 16. * ((s - 1)**3 * p['b1'] + (s - 1)**2 * (6 - 4 * s))

    def true(self, V, p, der):
        b0, b1, v0 = (p[k] for k in ('b0', 'b1', 'v0'))
        s, ds, dds = (v0 / V)**(2 / 3.), -2 / 3. * (v0 / V)**(2 / 3.) / V, 10 / 9. * (v0 / V)**(2 / 3.) / V**2
        f1 = 3 * (s - 1)**2 * b1 + 2 * (s - 1) * (6 - 4 * s) - 4 * (s - 1)**2
        f2 = 6 * (s - 1) * b1 + 2 * (6 - 4 * s) - 8 * (s - 1) - 8 * (s - 1)
        c = 9 * v0 * b0 / 16.
        return c * f1 * ds if der == 1 else c * (f2 * ds**2 + f1 * dds)

    def deriv(self, V, p, der=None):
        if der == 1:
            return self.true(V, p, 1)
        raise eos.MaxDerivException('none')


def _params(ctx):
    off = ctx.pick([0, 1, -30, 400., -7e3, 9e4, -2.5e5])
    return dict(e0=off * ctx.rng.uniform(0.3, 1), b0=10**ctx.rng.uniform(-1.7, 0.6), b1=ctx.rng.uniform(2.8, 7.5),
                v0=10**ctx.rng.uniform(0.6, 2.7))


def _volumes(ctx, p, lo=0.84, hi=1.2):
    n = ctx.ri(6, 40)
    a, b = ctx.rng.uniform(lo, 0.95), ctx.rng.uniform(1.05, hi)
    v = np.linspace(a, b, n)
    if ctx.coin():
        v = v + ctx.rng.uniform(-0.2, 0.2, n) * (b - a) / n
    return v * p['v0']


def _order(ctx, v):
    k = ctx.choice(['up', 'down', 'random'])
    return k, (v if k == 'up' else v[::-1] if k == 'down' else ctx.rng.permutation(v))


def _num_d1(f, x, h):
    return (f(x - 2 * h) - 8 * f(x - h) + 8 * f(x + h) - f(x + 2 * h)) / 12 / h


@reg.scenario(quick=600)
def recover(ctx):
    """known parameters come back, for the built-in and user models"""
    p = _params(ctx)
    v = _volumes(ctx, p)
    kind, v = _order(ctx, v)
    mod = ctx.choice(['vinet', 'vinet', 'murnaghan', 'birch'])
    func = dict(vinet=eos.Vinet, murnaghan=Murnaghan, birch=Birch)[mod]()
    e = vinet(v, p) if mod == 'vinet' else func.evaluate(v, p)
    ctx.note(model=mod, n=len(v), order=kind, offset='%.0e' % p['e0'], b0='%.1f' % np.log10(p['b0']), v0='%.1f' % np.log10(p['v0']))
    v0c, e0c = v.copy(), e.copy()
    f = eos.EosFit(v, e, func=func) if mod != 'vinet' or ctx.coin() else eos.EosFit(v, e)
    ctx.check((v == v0c).all() and (e == e0c).all(), 'input arrays changed')
    # what the data can resolve: rounding of the energies over the energy range
    eps = 4e-16 * np.abs(e).max() / np.ptp(e)
    ctx.check(set(f.params) == {'e0', 'b0', 'b1', 'v0'}, 'parameter names', got=sorted(f.params))
    ctx.close(f.params['v0'], p['v0'], 'equilibrium volume', rtol=1e-7 + 3e1 * eps)
    ctx.close(f.params['e0'], p['e0'], 'minimum energy', rtol=1e-12, atol=(1e-7 + 1e2 * eps) * np.ptp(e))
    ctx.close(f.params['b0'], p['b0'], 'bulk modulus', rtol=1e-6 + 1e3 * eps)
    ctx.close(f.params['b1'], p['b1'], 'bulk modulus derivative', rtol=1e-5 + 2e4 * eps)
    ctx.close(f.get_min(), f.params['v0'], 'get_min', rtol=1e-13)
    ctx.close(f(v), e, 'fitted energies', rtol=1e-12, atol=(1e-7 + 10 * eps) * np.ptp(e))
    if mod != 'vinet' and abs(p['e0']) > 1e3:
        _refused(ctx, f)
        return
    tol = 1e-5 + 1e4 * eps
    x = np.linspace(v.min(), v.max(), 7)[1:-1]
    if mod == 'vinet':
        pt = vinet_p(x, p)
        h = 1e-3 * x
        bt = -x * _num_d1(lambda y: vinet_p(y, p), x, h)
    else:
        pt, bt = -func.true(x, p, 1), x * func.true(x, p, 2)
        tol = max(tol, 1e-4)
    ctx.close(f.pressure(x), pt * GPA, 'pressure [GPa]', rtol=tol, atol=tol * p['b0'] * GPA)
    ctx.close(f.bulkmod(x), bt * GPA, 'bulk modulus at given volumes [GPa]', rtol=10 * tol)
    s = float(x[2])
    ctx.close(f.bulkmod(s), f.bulkmod(np.array([s]))[0], 'bulk modulus, scalar volume', rtol=1e-10)
    ctx.close(f.pressure(s), f.pressure(np.array([s]))[0], 'pressure, scalar volume', rtol=1e-10)


@reg.scenario(quick=300)
def identities(ctx):
    """of any fit (noisy data too): P=-dE/dV, B=-V dP/dV, both at the minimum"""
    p = _params(ctx)
    p['e0'] = ctx.choice([0., -3., 150.])
    v = _volumes(ctx, p, 0.8, 1.3)
    e = vinet(v, p)
    noise = ctx.choice([0, 3e-4, 3e-3])
    e = e + noise * np.ptp(e) * ctx.rng.standard_normal(len(v))
    mod = ctx.choice(['vinet', 'vinet', 'murnaghan', 'birch'])
    func = dict(vinet=eos.Vinet, murnaghan=Murnaghan, birch=Birch)[mod]()
    ctx.note(model=mod, noise=noise, n=len(v))
    try:
        f = eos.EosFit(v, e, func=func)
    except Exception as ex:
        # documented: parabola minimum outside of the data
        ctx.check('minimum volume' in str(ex) and noise > 0, 'unexpected %r' % ex)
        return
    v0 = f.params['v0']
    g = eos.EosFit(v[::-1], e[::-1], func=func)
    for k in ('v0', 'b0', 'b1', 'e0'):
        ctx.close(g.params[k], f.params[k], 'fit of reversed data: ' + k, rtol=5e-4 if k != 'b1' else 1e-2, atol=(1e-4 if noise else 1e-6) * np.ptp(e))
    x = np.linspace(v.min(), v.max(), 9)[1:-1]
    h = 2e-3 * x
    sc = abs(f.params['b0']) * GPA
    fd = mod != 'vinet'
    ctx.close(f.pressure(x), -_num_d1(f, x, h) * GPA, 'pressure is minus the energy derivative', rtol=1e-5, atol=(1e-4 if fd else 1e-6) * sc)
    ctx.close(f.bulkmod(x), -x * _num_d1(f.pressure, x, h), 'bulk modulus is -V dP/dV', rtol=1e-5, atol=(1e-3 if fd else 1e-6) * sc)
    ctx.close(f(x, der=1), -f.pressure(x) / 160.2176634, 'first derivative', rtol=1e-6)
    d2 = f(x, der=2)
    ctx.close(d2 * x * 160.2176634, f.bulkmod(x), 'second derivative', rtol=1e-6)
    if v.min() < v0 < v.max():
        ctx.close(f.pressure(v0), 0.0, 'pressure at the minimum', atol=(1e-4 if fd else 1e-9) * sc)
        ctx.close(f.bulkmod(v0), f.params['b0'] * GPA, 'bulk modulus at the minimum', rtol=1e-3 if fd else 1e-8)
        ctx.close(f(v0), f.params['e0'], 'energy at the minimum', rtol=1e-10, atol=1e-8 * np.ptp(e))
        ctx.check(f(v0) <= f(x).min() + 1e-9 * np.ptp(e), 'not the minimum')
    lo, hi = float(x[0]), float(x[-1])
    i = integrate.quad(lambda y: float(f.pressure(y)), lo, hi, epsrel=1e-9)[0] / GPA
    ctx.close(-i, f(hi) - f(lo), 'integral of the pressure', rtol=1e-6, atol=1e-4 * np.ptp(e) if fd else 1e-8 * np.ptp(e))
    # third derivative: through the spline
    d3 = f(x[1:-1], der=3)
    ctx.close(d3, _num_d1(lambda y: f(y, der=2), x[1:-1], h[1:-1]), 'third derivative', rtol=5e-2,
              atol=(4e-1 if fd else 1e-1) * abs(f.params['b0'] / v0**2) * 10)
    # another set of units: energies x s, volumes x t
    s, t = 10**ctx.rng.uniform(-1, 1.5), 10**ctx.rng.uniform(-1, 1)
    u = eos.EosFit(v * t, e * s, func=func).params
    for k, w in (('v0', v0 * t), ('e0', f.params['e0'] * s), ('b0', f.params['b0'] * s / t), ('b1', f.params['b1'])):
        ctx.close(u[k], w, 'scaled units: ' + k, rtol=2e-3, atol=1e-5 * np.ptp(e) * s)


@reg.scenario(quick=40)
def refuse(ctx):
    """data without a minimum inside is refused, not extrapolated"""
    p = _params(ctx)
    a, b = (0.6, 0.9) if ctx.coin() else (1.1, 1.3)
    v = np.linspace(a, b, ctx.ri(6, 30)) * p['v0']
    q = (v - p['v0'])**2
    ctx.note(side=a < 1, n=len(v))
    ctx.raises(Exception, lambda: eos.EosFit(v, q + p['e0']), _msg='minimum outside the data')


FAKE = '''#!{py}
import sys
sys.path.insert(0, {vf!r})
import numpy as np
l = open('eos.in').read().split('\\n')
open('seen.txt', 'w').write('\\n'.join(l))
t = ' '.join(l).replace(',', ' ').split()
name, natoms, etype = t[0], int(t[1]), int(t[2])
lo, hi, n, m = float(t[3]), float(t[4]), int(t[5]), int(t[6])
d = np.array([float(x) for x in t[7:7 + 2 * m]]).reshape(m, 2)
c = np.polyfit((d[:, 0] - d[:, 0].mean()), d[:, 1] - d[:, 1].mean(), 4)
v = np.linspace(lo, hi, n)
e = np.polyval(c, v - d[:, 0].mean()) + d[:, 1].mean()
p = -np.polyval(np.polyder(c), v - d[:, 0].mean()) * 29421.02648438959
np.savetxt('EVPAI.OUT', np.array([v / natoms, e / natoms]).T, fmt='%.16e')
np.savetxt('PVPAI.OUT', np.array([v / natoms, p]).T, fmt='%.16e')
open('PARAM.OUT', 'w').write('params\\n')
print('done')
'''


@reg.scenario(quick=24, thorough=300)
def external(ctx):
    """ElkEOSFit against a stand-in for eos.x that records what it was given"""
    d = ctx.tmp()
    bindir = os.path.join(d, 'bin')
    os.makedirs(bindir)
    exe = os.path.join(bindir, 'eos.x')
    with open(exe, 'w') as f:
        f.write(FAKE.format(py=sys.executable, vf='/'))
    os.chmod(exe, 0o755)
    onpath = ctx.coin()
    p = _params(ctx)
    p['e0'] = ctx.choice([0., -50., -2000.])
    v = _volumes(ctx, p, 0.88, 1.12)
    e = vinet(v, p)
    nat, npt = ctx.choice([1, 2, 7]), ctx.choice([60, 100, 300])
    meth = ctx.choice(['ev', 'pv'])
    ctx.note(natoms=nat, npoints=npt, method=meth, path=onpath, n=len(v))
    here, path = os.getcwd(), os.environ['PATH']
    try:
        os.chdir(d)
        if onpath:
            os.environ['PATH'] = bindir + os.pathsep + path
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f = eos.ElkEOSFit(app='eos.x' if onpath else exe, natoms=nat, npoints=npt, etype=ctx.ri(1, 7), energy=e, volume=v,
                              dir=None if ctx.coin() else os.path.join(d, 'work'), bv_method=meth, verbose=False)
        f.fit()
        seen = open(os.path.join(f.dir, 'seen.txt')).read()
        first = _external_judge(ctx, f, seen, v, e, nat, npt, p, meth)
        # the same object again, other method: nothing is left over
        meth2 = 'pv' if meth == 'ev' else 'ev'
        f.set_bv_method(meth2)
        if ctx.coin():
            w = v * 1.3
            f.volume = w
        else:
            w = v
        f.fit()
        q = dict(p, v0=p['v0'] * (w[0] / v[0]), b0=p['b0'] / (w[0] / v[0]))
        _external_judge(ctx, f, open(os.path.join(f.dir, 'seen.txt')).read(), w, e, nat, npt, q, meth2)
    finally:
        os.chdir(here)
        os.environ['PATH'] = path


def _external_judge(ctx, f, seen, v, e, nat, npt, p, meth):
    t = seen.replace(',', ' ').split()
    ctx.check(int(t[1]) == nat and int(t[5]) == npt and int(t[6]) == len(v), 'numbers in the input', got=t[:7])
    b, h = 0.529177210903, 27.211386245988
    ctx.close([float(t[3]), float(t[4])], np.array([v[0], v[-1]]) / b**3, 'plot range [Bohr^3]', rtol=1e-6, atol=1e-5)
    d = np.array([float(x) for x in t[7:]]).reshape(-1, 2)
    ctx.close(d[:, 0], v / b**3, 'volumes written [Bohr^3]', rtol=1e-6)
    ctx.close(d[:, 1], e / h, 'energies written [Ha]', rtol=1e-6)
    # differences between the energies count
    ctx.close(np.diff(d[:, 1]), np.diff(e / h), 'energy differences written', rtol=1e-5, atol=1e-6 * np.ptp(e / h) + 1e-12 * np.abs(e).max())
    ctx.check(f.ev.shape == f.pv.shape == f.bv.shape == (npt, 2), 'shapes', ev=f.ev.shape)
    ctx.close(f.ev[[0, -1], 0], [v[0], v[-1]], 'fitted volume axis', rtol=1e-5)
    ctx.close(f.spl_ev(v[1:-1]), e[1:-1], 'fitted curve goes through the data', rtol=1e-9, atol=2e-3 * np.ptp(e))
    x = np.linspace(v[0], v[-1], 9)[2:-2]
    sc = p['b0'] * GPA
    ctx.close(f.spl_pv(x), -f.spl_ev(x, der=1) * GPA, 'pressure is minus the energy derivative', rtol=1e-4, atol=1e-4 * sc)
    ctx.close(f.spl_bv(x), -x * f.spl_pv(x, der=1), 'bulk modulus is -V dP/dV', rtol=1e-3, atol=1e-3 * sc)
    m = f.get_min()
    ctx.close(m['v0'], p['v0'], 'equilibrium volume', rtol=2e-3)
    ctx.close(m['e0'], p['e0'], 'minimum energy', rtol=1e-9, atol=5e-3 * np.ptp(e))
    ctx.close(m['b0'], sc, 'bulk modulus', rtol=5e-2)
    ctx.close(m['p0'], 0., 'pressure at the minimum', atol=1e-3 * sc)
    ctx.close(m['b0'], f.spl_bv(m['v0']), 'bulk modulus belongs to the minimum', rtol=1e-9)
    o = f.get_min(behave='old')
    ctx.check(len(o) == 4, 'old behaviour', got=o)
    ctx.close(o[:2], [m['v0'], m['e0']], 'old behaviour', rtol=1e-12)


storage.add(reg, 100, 'fits.EosFit')
