"""U02: leaving an optional argument out is the same as giving its documented default."""
import contextlib
import copy
import io as sio
import os
import random as pyrandom
import re
import shutil
import sqlite3
import sys
import tempfile
import warnings

import numpy as np
from scipy.integrate import trapezoid

from pwtools import (arrayio, batch, calculators, comb, common, crys, dcd, eos, io, kpath, mpl, mttk, num, parse, pwscf,
                     pydos, rbf, signal, sql, symmetry, thermo, timer, visualize)
from pwtools import random as prandom
from pwtools.rbf import hyperopt
from vf import gen, mdw
from vf.core import Registry, differ
from vf.props import a01, e01, i03, p01, p04, v01

reg = Registry('U02', 'For every public function with optional arguments: random inputs; the outcome (result, exception, changed '
               'arguments, printed text, files written) of the call with an argument left out is compared with the call that gives the '
               'documented default, one argument at a time and all together; other values are also tried to see that the input is '
               'one where the argument matters')

TABLE = {}


def entry(name, defaults, others=None):
    """defaults: documented; others: values which differ, to record that the argument matters"""
    def deco(make):
        assert name not in TABLE, name
        TABLE[name] = (make, defaults, others or {})
        return make
    return deco


def norm(x, depth=0):
    if depth > 6:
        return repr(type(x))
    if isinstance(x, (crys.Structure, crys.Trajectory)):
        return {k: norm(getattr(x, k), depth + 1) for k in sorted(x.attr_lst)}
    if isinstance(x, np.ma.MaskedArray):
        return [np.ma.getdata(x), np.ma.getmaskarray(x)]
    if isinstance(x, np.ndarray) and x.dtype == object:
        return [norm(v, depth + 1) for v in x.ravel()]
    if isinstance(x, (np.ndarray, np.generic, str, int, float, complex, bool, bytes, type(None))):
        return x
    if isinstance(x, dict):
        return {str(k): norm(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v, depth + 1) for v in x]
    if hasattr(x, '__iter__'):
        return [norm(v, depth + 1) for v in x]
    if hasattr(x, '__dict__') and not callable(x):
        return {k: norm(v, depth + 1) for k, v in vars(x).items() if not callable(v)}
    return repr(type(x))


DATE = re.compile(rb'(Mon|Tue|Wed|Thu|Fri|Sat|Sun) [A-Z][a-z][a-z] +\d+ \d\d:\d\d:\d\d \d{4}')


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for n in ds:
            out[os.path.relpath(os.path.join(r, n), d)] = 'dir'
        for n in fs:
            fn = os.path.join(r, n)
            if n.endswith('.db'):
                c = sqlite3.connect(fn)
                t = sorted(x[0] for x in c.execute("select name from sqlite_master where type='table'"))
                txt = []
                for k in t:
                    cur = c.execute('select * from ' + k)
                    names = [q[0] for q in cur.description]
                    txt.append([k, sorted(names), [dict(zip(names, row)) for row in cur]])
                c.close()
            else:
                with open(fn, 'rb') as f:
                    txt = DATE.sub(b'<date>', f.read())
            out[os.path.relpath(fn, d)] = txt
    return out


def outcome(ctx, run, kw):
    """run(kw) in a fresh working directory"""
    d = tempfile.mkdtemp(dir=ctx.tmp())
    here = os.getcwd()
    buf = sio.StringIO()
    np.random.seed(7)
    pyrandom.seed(7)
    os.chdir(d)
    try:
        with warnings.catch_warnings(record=True) as warned, np.errstate(all='ignore'), contextlib.redirect_stdout(buf):
            warnings.simplefilter('always')
            try:
                r = ('returned', norm(run(copy.deepcopy(kw))))
            except (Exception, SystemExit) as ex:
                r = ('raised', type(ex).__name__)
    finally:
        os.chdir(here)
    files = tree(d)
    shutil.rmtree(d)
    return [r[0], r[1], re.sub(' at 0x[0-9a-f]+', '', buf.getvalue().replace(d, '<dir>')), files,
            [str(w.message).replace(d, '<dir>') for w in warned if w.category is UserWarning]]


def decide(ctx, name):
    make, defaults, others = TABLE[name]
    run = make(ctx)
    base = outcome(ctx, run, {})
    ctx.note(call=name, n=len(defaults), outcome=base[0])
    ctx.count('calls that returned' if base[0] == 'returned' else 'calls that raised')
    again = outcome(ctx, run, {})
    ctx.same(again, base, '%s: the same call again' % name)
    for k, v in defaults.items():
        ctx.same(outcome(ctx, run, {k: v}), base, '%s: leaving out %s is not the same as %s=%r' % (name, k, k, v))
    if len(defaults) > 1:
        ctx.same(outcome(ctx, run, dict(defaults)), base, '%s: all defaults given' % name)
    for k, v in others.items():
        if differ(outcome(ctx, run, {k: v}), base) is not None:
            ctx.count('other value matters')
            ctx.count('matters: %s %s' % (name, k))
        else:
            ctx.count('other value without effect')


# ---------------------------------------------------------------- crys
def st(ctx, nmin=2, nmax=7, **kw):
    n = ctx.ri(nmin, nmax)
    r = ctx.rng
    cell = gen.rand_cell(r)
    return crys.Structure(coords_frac=r.uniform(-0.5, 1.5, (n, 3)), cell=cell, symbols=gen.rand_symbols(r, n, 2 if n > 1 else 1), **kw)


def tr(ctx, nmin=2, nmax=6, tmin=3, tmax=9, **kw):
    n, t = ctx.ri(nmin, nmax), ctx.ri(tmin, tmax)
    r = ctx.rng
    return crys.Trajectory(coords_frac=r.uniform(-0.5, 1.5, (t, n, 3)), cell=gen.rand_cells(r, t), symbols=gen.rand_symbols(r, n, 2),
                           timestep=0.7, **kw)


def arr(ctx, *shape):
    return ctx.rng.normal(size=shape)


def fresh(f, *args):
    """call with copies of the arguments; the arguments afterwards are part of the outcome"""
    def run(kw):
        a = copy.deepcopy(args)
        return [f(*a, **kw), a]
    return run


for _n, _mk in (('volume_cc3d', 'cc'), ('cc2cell3d', 'cc'), ('volume_cell3d', 'cell'), ('cell2cc3d', 'cell')):
    def _f(ctx, n=_n, mk=_mk):
        c = np.array([gen.rand_cell(ctx.rng, 'tricl') for _ in range(ctx.choice([3, 6, 2, 5]))])
        return fresh(getattr(crys, n), c if mk == 'cell' else np.array([gen.cc_from_cell(x) for x in c]))
    entry('crys.' + _n, dict(axis=0))(_f)


@entry('crys.cc2celldm', dict(fac=1.0), dict(fac=2.0))
def _(ctx):
    return fresh(crys.cc2celldm, gen.cc_from_cell(gen.rand_cell(ctx.rng)))


@entry('crys.celldm2cc', dict(fac=1.0), dict(fac=2.0))
def _(ctx):
    return fresh(crys.celldm2cc, np.concatenate([ctx.rng.uniform(1, 3, 3), ctx.rng.uniform(-0.3, 0.3, 3)]))


@entry('crys.scell_mask', dict(direc=1), dict(direc=-1))
def _(ctx):
    return fresh(crys.scell_mask, *[ctx.ri(2, 4) for _ in range(3)])


@entry('crys.scell', dict(method=1), dict(method=2))
def _(ctx):
    return fresh(crys.scell, st(ctx) if ctx.coin() else tr(ctx), tuple(ctx.ri(1, 3) for _ in range(3)))


@entry('crys.rmsd', dict(ref_idx=0), dict(ref_idx=-1))
def _(ctx):
    return fresh(crys.rmsd, tr(ctx))


@entry('crys.coord_trans', dict(copy=True, axis=-1), dict(copy=False, axis=0))
def _(ctx):
    x, o, n = arr(ctx, 3, 3) if ctx.coin() else arr(ctx, 3, 4, 3), gen.rand_cell(ctx.rng), gen.rand_cell(ctx.rng)
    def run(kw):
        y = x.copy()
        r = crys.coord_trans(y, old=o, new=n, **kw)
        return [r, y, np.shares_memory(r, y)]
    return run


@entry('crys.coord_trans3d', dict(copy=True, axis=-1, timeaxis=0), dict(axis=1, timeaxis=1))
def _(ctx):
    x, o, n = arr(ctx, 3, 3, 3), arr(ctx, 3, 3, 3) + 3 * np.eye(3), arr(ctx, 3, 3, 3) + 3 * np.eye(3)
    def run(kw):
        y = x.copy()
        r = crys.coord_trans3d(y, old=o, new=n, **kw)
        return [r, y]
    return run


@entry('crys.min_image_convention', dict(copy=False), dict(copy=True))
def _(ctx):
    n = ctx.ri(2, 5)
    x = ctx.rng.uniform(-1, 1, (n, n, 3))
    def run(kw):
        y = x.copy()
        r = crys.min_image_convention(y, **kw)
        return [r, y, np.shares_memory(r, y)]
    return run


@entry('crys.distances', dict(pbc=False, squared=False, fullout=False), dict(pbc=True, squared=True, fullout=True))
def _(ctx):
    return fresh(crys.distances, st(ctx))


@entry('crys.distances_traj', dict(pbc=False), dict(pbc=True))
def _(ctx):
    return fresh(crys.distances_traj, tr(ctx))


@entry('crys.angles', dict(pbc=False, mask_val=999.0, deg=True), dict(pbc=True, mask_val=1.0, deg=False))
def _(ctx):
    return fresh(crys.angles, st(ctx, 3, 6))


NN = dict(pbc=True, sort=True, fullout=False)
NNO = dict(pbc=False, sort=False, fullout=True)


def nn_kw(ctx, symbols):
    kw = dict(idx=ctx.ri(0, len(symbols) - 1))
    if ctx.coin():
        kw['num'] = ctx.ri(2, len(symbols) - 1)
    else:
        kw['cutoff'] = ctx.rng.uniform(3, 9)
    if ctx.coin(0.3):
        kw['skip'] = ctx.choice(list(symbols))
    return kw


@entry('crys.nearest_neighbors', NN, NNO)
def _(ctx):
    s = st(ctx, 4, 9)
    k = nn_kw(ctx, s.symbols)
    return lambda kw: crys.nearest_neighbors(s, **dict(k, **kw))


@entry('crys.nearest_neighbors, no skip', dict(skip=None), dict(skip='O'))
def _(ctx):
    s = st(ctx, 4, 9)
    s = crys.Structure(coords_frac=s.coords_frac, cell=s.cell, symbols=['O' if i % 2 else 'H' for i in range(s.natoms)])
    k = nn_kw(ctx, s.symbols)
    k.pop('skip', None)
    return lambda kw: crys.nearest_neighbors(s, **dict(k, **kw))


@entry('crys.nearest_neighbors_from_dists', NN, dict(sort=False, fullout=True))
def _(ctx):
    s = st(ctx, 4, 9)
    k = nn_kw(ctx, s.symbols)
    d = crys.distances(s, pbc=ctx.coin())
    return lambda kw: crys.nearest_neighbors_from_dists(copy.deepcopy(d), s.symbols, **dict(k, **kw))


@entry('crys.smooth', dict(method=1), dict(method=2))
def _(ctx):
    return fresh(crys.smooth, tr(ctx, tmin=8, tmax=14), signal.welch(5))


@entry('crys.rpdf', dict(dr=0.05, rmax='auto', amask=None, tmask=None, dmask=None, pbc=True, norm_vmd=False, maxmem=2.0),
       dict(dr=0.5, rmax=1.5, amask=['True', 'False'], tmask='slice(0,1)', dmask='<1', pbc=False, norm_vmd=True, maxmem=1e-9))
def _(ctx):
    t = tr(ctx, nmin=3)
    return lambda kw: crys.rpdf(copy.deepcopy(t), **kw)


@entry('crys.grid_in_cell', dict(minpoints=1, even=False, fullout=False), dict(minpoints=7, even=True, fullout=True))
def _(ctx):
    c, k = gen.rand_cell(ctx.rng), dict(h=ctx.rng.uniform(0.5, 3)) if ctx.coin() else dict(size=np.array([3, 2, 4]))
    return lambda kw: crys.grid_in_cell(c, **dict(k, **kw))


@entry('crys.velocity_traj', dict(dt=1.0, axis=0, endpoints=True), dict(dt=2.0, axis=1, endpoints=False))
def _(ctx):
    return fresh(crys.velocity_traj, arr(ctx, ctx.ri(4, 7), 4, 3))


@entry('crys.pbc_wrap', dict(copy=True, mask=[True] * 3, xyz_axis=-1), dict(copy=False, mask=[True, False, True]))
def _(ctx):
    o = st(ctx) if ctx.coin() else tr(ctx)
    def run(kw):
        p = copy.deepcopy(o)
        r = crys.pbc_wrap(p, **kw)
        return [r, p, r is p]
    return run


@entry('crys.pbc_wrap_coords', dict(copy=True, mask=[True] * 3, xyz_axis=-1), dict(copy=False, mask=[True, False, True], xyz_axis=0))
def _(ctx):
    x = ctx.rng.uniform(-2, 2, (3, 3))
    def run(kw):
        y = x.copy()
        r = crys.pbc_wrap_coords(y, **kw)
        return [r, y, np.shares_memory(r, y)]
    return run


@entry('crys.center_on_atom', dict(copy=True), dict(copy=False))
def _(ctx):
    o = st(ctx) if ctx.coin() else tr(ctx)
    def run(kw):
        p = copy.deepcopy(o)
        r = crys.center_on_atom(p, idx=1, **kw)
        return [r, p]
    return run


def right_angle(ctx, traj):
    """an object with atoms 0, 1, 2 at a right angle"""
    n, r = ctx.ri(3, 5), ctx.rng
    R = gen.rand_rot(r)
    x = r.normal(size=(n, 3))
    x[1], x[2] = x[0] + 1.7 * R[0], x[0] + 0.9 * R[1]
    kw = dict(cell=gen.rand_cell(r), symbols=['H'] * n)
    return (crys.Trajectory(coords=np.array([x, x + 0.1]), **kw) if traj else crys.Structure(coords=x, **kw)), R


@entry('crys.align_cart', dict(x=None, y=None, cart=None, eps=1e-5), {})
def _(ctx):
    traj = ctx.coin()
    o, R = right_angle(ctx, traj)
    k = dict(vecs=np.array([np.ones(3), np.ones(3) + R[0], np.ones(3) + R[1]])) if ctx.coin() else dict(indices=[0, 0, 1, 2] if traj else [0, 1, 2])
    return lambda kw: crys.align_cart(copy.deepcopy(o), **dict(k, **kw))


@entry('crys.align_cart, x and y', dict(vecs=None, indices=None, cart=None, eps=1e-5), dict(eps=2.0))
def _(ctx):
    o, R = right_angle(ctx, False)
    d = ctx.choice([0.0, 1e-9, 3e-6, 1e-4, 0.3])
    return lambda kw: crys.align_cart(copy.deepcopy(o), x=2 * R[0], y=R[1] + d * R[0], **kw)


@entry('crys.compress', dict(copy=True, forget=['forces', 'stress', 'coords', 'cryst_const'], dtype=np.float32),
       dict(copy=False, forget=['coords'], dtype=np.float64))
def _(ctx):
    t = tr(ctx)
    t.forces, t.stress = arr(ctx, t.nstep, t.natoms, 3), arr(ctx, t.nstep, 3, 3)
    def run(kw):
        p = copy.deepcopy(t)
        r = crys.compress(p, **kw)
        return [{k: [norm(getattr(r, k)), str(getattr(getattr(r, k), 'dtype', ''))] for k in r.attr_lst}, norm(p), r is p]
    return run


@entry('Structure', dict(set_all_auto=True, units=None), dict(set_all_auto=False, units={'length': 2.0}))
def _(ctx):
    x, c, s = arr(ctx, 3, 3), gen.rand_cell(ctx.rng), ['H', 'O', 'H']
    f = ctx.choice([crys.Structure, crys.Trajectory])
    def run(kw):
        o = f(coords=x[None] if f is crys.Trajectory else x, cell=c, symbols=s, **kw)
        return {k: norm(getattr(o, k, None)) for k in o.attr_lst}
    return run


@entry('symmetry.spglib_get_primitive', {}, {})
def _(ctx):
    return fresh(symmetry.spglib_get_primitive, st(ctx))


# ---------------------------------------------------------------- num
@entry('num.extend_array', dict(axis=0), dict(axis=1))
def _(ctx):
    return fresh(num.extend_array, arr(ctx, *[ctx.ri(1, 3) for _ in range(ctx.ri(1, 3))]), ctx.ri(2, 4))


@entry('num.sum', dict(axis=None, keepdims=False), dict(axis=0, keepdims=True))
def _(ctx):
    return fresh(num.sum, arr(ctx, 2, 3, 4))


@entry('num.rms', dict(nitems='all'), dict(nitems=2.0))
def _(ctx):
    return fresh(num.rms, arr(ctx, 2, 3, 4))


@entry('num.rms3d', dict(axis=0, nitems='all'), dict(axis=1, nitems=2.0))
def _(ctx):
    return fresh(num.rms3d, arr(ctx, 3, 3, 3))


@entry('num.norm_int', dict(area=1.0, scale=True), dict(area=2.0))
def _(ctx):
    f = ctx.choice([1.0, 1e160, 1e-200])
    return fresh(num.norm_int, np.abs(arr(ctx, 9)) * f, np.linspace(0, 1, 9) * f)


@entry('num.deriv_spl', dict(x=None, xnew=None, n=1, fullout=False), dict(n=2, fullout=True, xnew=np.array([1.5, 2.5])))
def _(ctx):
    return fresh(num.deriv_spl, arr(ctx, 9))


@entry('num.slicetake', dict(axis=None, copy=False), dict(copy=True))
def _(ctx):
    x = arr(ctx, 4, 5)
    def run(kw):
        r = num.slicetake(x, (slice(0, 2), slice(1, 3)), **kw)
        return [r, np.shares_memory(r, x)]
    return run


@entry('num.sliceput', dict(axis=None), {})
def _(ctx):
    return fresh(num.sliceput, arr(ctx, 4, 5), arr(ctx, 2, 2), (slice(0, 2), slice(1, 3)))


@entry('num.match_mask', dict(fullout=False, eps=None), dict(fullout=True, eps=1.1))
def _(ctx):
    return fresh(num.match_mask, ctx.rng.integers(0, 4, 9), np.array([1, 3]))


@entry('num.order_similar', dict(repeat=1, order=2), dict(repeat=3, order=1))
def _(ctx):
    x = np.linspace(0, 1, 40)[:, None]
    a = np.concatenate([np.sin(7 * x), np.cos(9 * x), x * 1.7 - 0.6], 1) + 0.05 * arr(ctx, 40, 3)
    for i in range(len(a)):
        a[i] = a[i][ctx.rng.permutation(3)]
    return fresh(num.order_similar, a)


@entry('num.vlinspace', dict(endpoint=True), dict(endpoint=False))
def _(ctx):
    return fresh(num.vlinspace, arr(ctx, 3), arr(ctx, 3), ctx.ri(2, 6))


@entry('num.euler_matrix', dict(deg=False), dict(deg=True))
def _(ctx):
    return fresh(num.euler_matrix, *[float(x) for x in arr(ctx, 3)])


@entry('num.fempty', dict(dtype=np.float64), dict(dtype=np.float32))
def _(ctx):
    def run(kw):
        r = num.fempty((2, 3), **kw)
        return [r.shape, str(r.dtype), r.flags['F_CONTIGUOUS']]
    return run


@entry('num.polyfit', dict(scale=True, scale_vand=False), dict(scale=False))
def _(ctx):
    p = arr(ctx, 12, 2) * 10
    return fresh(num.polyfit, p, (p**2).sum(1) + 3, 2)


@entry('num.polyval', dict(der=0), dict(der=1))
def _(ctx):
    p = arr(ctx, 12, 1)
    return fresh(num.polyval, num.polyfit(p, p[:, 0]**2, 2), arr(ctx, 4, 1))


def xy(ctx):
    x = np.sort(ctx.rng.uniform(0, 5, 12)) + np.arange(12)
    return x, np.abs(ctx.rng.normal(size=12)).cumsum() + 0.2


@entry('num.Spline', dict(eps=1e-10, checkeps=True), dict(eps=1e-300, checkeps=False))
def _(ctx):
    x, y = xy(ctx)
    s = ctx.choice([0, 0, 1.0])
    def run(kw):
        f = num.Spline(x, y, s=s, **kw)
        return [f(x[:-1] + 0.1), f.invsplev(0.5 * (y[3] + y[7])), f.is_mono()]
    return run


@entry('num.Spline.invsplev', dict(x0=None, xab=None), dict(xab=[1.0, 2.0]))
def _(ctx):
    x, y = xy(ctx)
    return lambda kw: num.Spline(x, y).invsplev(0.5 * (y[3] + y[7]), **kw)


@entry('num.Fit1D.get_min', dict(x0=None, xab=None), dict(xab=[0.0, 0.1]))
def _(ctx):
    x = np.linspace(-2, 3, 15)
    f = ctx.choice([num.PolyFit1D, num.Spline])
    return lambda kw: f(x, (x - 0.3)**2, **(dict(deg=3) if f is num.PolyFit1D else {})).get_min(**kw)


@entry('num.Interpol2D', dict(what='rbf_inv_multi', dd=None, xx=None, yy=None), dict(what='linear'))
def _(ctx):
    g = np.array(np.meshgrid(*[np.linspace(0, 1, 4)] * 2)).reshape(2, -1).T + 0.02 * arr(ctx, 16, 2)
    z = ((g - 0.4)**2).sum(1)
    q = ctx.rng.uniform(0.2, 0.8, (5, 2))
    def run(kw):
        f = num.Interpol2D(points=g, values=z, **kw)
        return [f(q), f.get_min() if kw.get('what') != 'linear' else None]
    return run


@entry('num.DataND', dict(axes=None), {})
def _(ctx):
    a = np.array([[x, y, x * y] for x in (0., 1., 2.) for y in (3., 4.)])
    def run(kw):
        f = num.DataND(a2=a, **kw)
        return [f.a2, f.an, list(f.axes)]
    return run


# ---------------------------------------------------------------- signal, dos
@entry('signal.scale', dict(copy=True), dict(copy=False))
def _(ctx):
    return fresh(signal.scale, arr(ctx, 6))


@entry('signal.acorr', dict(method=7, norm=True), dict(norm=False))
def _(ctx):
    return fresh(signal.acorr, arr(ctx, 13))


@entry('signal.welch', dict(sym=1), dict(sym=0))
def _(ctx):
    return fresh(signal.welch, ctx.ri(3, 12))


for _n in ('lorentz', 'cauchy'):
    def _f(ctx, n=_n):
        return fresh(getattr(signal, n), ctx.ri(3, 12))
    entry('signal.' + _n, dict(std=1.0, sym=True), dict(std=2.0, sym=False))(_f)


@entry('signal.gauss', dict(std=1.0, norm=False), dict(std=2.0, norm=True))
def _(ctx):
    return fresh(signal.gauss, arr(ctx, 5))


@entry('signal.mirror', dict(axis=0), dict(axis=1))
def _(ctx):
    return fresh(signal.mirror, arr(ctx, 4, 3))


@entry('signal.odd', dict(add=1), dict(add=-1))
def _(ctx):
    return fresh(signal.odd, ctx.ri(0, 20))


@entry('signal.pad_zeros', dict(axis=0, where='end', upto=None, tonext=None, tonext_min=None), dict(axis=1, where='start'))
def _(ctx):
    x, n = arr(ctx, 3, 4), ctx.ri(1, 5)
    return lambda kw: signal.pad_zeros(x, nadd=n, **kw)


@entry('signal.smooth', dict(axis=0, edge='m', norm=True), dict(axis=1, edge='c', norm=False))
def _(ctx):
    return fresh(signal.smooth, arr(ctx, 11, 9), signal.welch(5)[:, None] if ctx.coin() else signal.gauss(np.arange(-2, 3.))[:, None])


@entry('signal.ezfft', dict(dt=1.0), dict(dt=2.0))
def _(ctx):
    return fresh(signal.ezfft, arr(ctx, 12))


@entry('signal.dft', dict(method='loop'), dict(method='matmul'))
def _(ctx):
    return fresh(signal.dft, arr(ctx, 7))


@entry('signal.fft_1d_loop', dict(axis=-1), dict(axis=0))
def _(ctx):
    return fresh(signal.fft_1d_loop, arr(ctx, 3, 4))


@entry('signal.fftsample', dict(mode='f', mirr=False), dict(mode='t', mirr=True))
def _(ctx):
    return fresh(signal.fftsample, ctx.rng.uniform(1, 9), ctx.rng.uniform(0.01, 0.3))


@entry('signal.find_peaks', dict(x=None, k=3, spread=2, ymin=None), dict(k=1, spread=5, ymin=0.5))
def _(ctx):
    y = np.abs(np.convolve(arr(ctx, 60), np.ones(4), 'same'))
    return lambda kw: signal.find_peaks(y, **kw)


@entry('signal.FIRFilter', dict(window='hamming', mode='lowpass'), dict(window='hann', mode='highpass'))
def _(ctx):
    nt, c = 11, ctx.rng.uniform(0.1, 0.8)
    return lambda kw: signal.FIRFilter(c, 1.0, ntaps=nt, **kw).taps


@entry('signal.FIRFilter()', dict(axis=-1), dict(axis=0))
def _(ctx):
    f, x = signal.FIRFilter(0.3, 1.0, ntaps=5), arr(ctx, 3, 12, 9)
    return lambda kw: f(x, **kw)


@entry('signal.find_peaks, positions', dict(k=3, spread=2, ymin=None), dict(k=2, spread=4, ymin=1.0))
def _(ctx):
    x = np.linspace(0, 20, 140)
    y = np.sin(x) + 0.1 * np.sin(0.7 * x + ctx.rng.uniform(0, 6)) + 0.02 * np.sin(5 * x)
    return fresh(signal.find_peaks, y, x)


@entry('pydos.pyvacf', dict(m=None, method=3), dict(m=np.array([1., 2., 3.])))
def _(ctx):
    return fresh(pydos.pyvacf, arr(ctx, 7, 3, 3))


@entry('pydos.fvacf', dict(m=None, method=2, nthreads=None), dict(m=np.array([1., 2., 3.])))
def _(ctx):
    return fresh(pydos.fvacf, arr(ctx, 7, 3, 3))


@entry('pydos.pdos', dict(dt=1.0, m=None, full_out=False, area=1.0, window=True, npad=None, tonext=False, mirr=False, method='direct'),
       dict(dt=2.0, m=np.array([1., 2., 3.]), full_out=True, area=2.0, window=False, npad=2, tonext=True, mirr=True, method='vacf'))
def _(ctx):
    return fresh(pydos.pdos, arr(ctx, ctx.ri(10, 30), 3, 3))


for _n, _d, _o in (('vacf_pdos', dict(mirr=True), dict(mirr=False)), ('direct_pdos', dict(npad=1), dict(npad=2))):
    def _f(ctx, n=_n):
        return fresh(getattr(pydos, n), arr(ctx, 17, 3, 3))
    entry('pydos.' + _n, _d, _o)(_f)


# ---------------------------------------------------------------- thermo, eos
def dos(ctx):
    f = np.linspace(0, 300, 60)[ctx.ri(0, 1):]
    d = np.abs(np.sin(f / 40.0)) * (f > 0)
    return f, d, np.linspace(ctx.choice([0.0, 10.0]), 900, 6)


@entry('thermo.HarmonicThermo', dict(temp=None, skipfreq=False, eps=1.5 * num.EPS, fixnan=False, nanfill=0.0, dosarea=None,
                                     integrator=trapezoid, verbose=True),
       dict(skipfreq=True, fixnan=True, dosarea=2.0, verbose=False))
def _(ctx):
    f, d, T = dos(ctx)
    def run(kw):
        h = thermo.HarmonicThermo(f.copy(), d.copy(), T, **kw)
        return [h.evib(), h.fvib(), h.cv(), h.svib()]
    return run


@entry('thermo.HarmonicThermo, skipping', dict(eps=1.5 * num.EPS, verbose=True), dict(eps=20.0, verbose=False))
def _(ctx):
    f, d, T = dos(ctx)
    f = np.concatenate([[-3., 1e-17, 3.0e-16, 1e-15, 1e-10], f + 1])
    d = np.concatenate([[.1, .2, .3, .4, .5], d])
    def run(kw):
        h = thermo.HarmonicThermo(f.copy(), d.copy(), T + 1, skipfreq=True, **kw)
        return [h.evib(), h.fvib(), h.cv(), h.svib(), h.f]
    return run


@entry('thermo.HarmonicThermo, filling', dict(nanfill=0.0), dict(nanfill=1.0))
def _(ctx):
    f, d, T = dos(ctx)
    f = np.concatenate([[0.0], f[f > 0]])
    d = np.ones_like(f)
    def run(kw):
        h = thermo.HarmonicThermo(f.copy(), d.copy(), np.concatenate([[0.0], T + 1]), fixnan=True, verbose=False, **kw)
        return [h.evib(), h.fvib(), h.cv(), h.svib()]
    return run


for _n in ('evib', 'cv', 'fvib', 'svib', 'vibrational_internal_energy', 'isochoric_heat_capacity', 'vibrational_free_energy', 'vibrational_entropy'):
    def _f(ctx, n=_n):
        f, d, T = dos(ctx)
        return lambda kw: getattr(thermo.HarmonicThermo(f + 1, d, T + 1, verbose=False), n)(**kw)
    entry('thermo.HarmonicThermo.' + _n, dict(temp=None), dict(temp=np.array([20., 30.])))(_f)


@entry('thermo.debye_func', dict(nstep=100, zero=1e-8), dict(nstep=7, zero=0.2))
def _(ctx):
    return fresh(thermo.debye_func, ctx.rng.uniform(0.1, 9, 4))


@entry('thermo.expansion', dict(x0=1.0, func=thermo.debye_func), dict(x0=2.0, func=thermo.einstein_func))
def _(ctx):
    return fresh(thermo.expansion, np.linspace(10, 900, 5), 1e-5, 300.0)


@entry('thermo.Gibbs', dict(case=None, volfunc_ax=None), {})
def _(ctx):
    v = np.linspace(9, 13, 7)
    f = np.linspace(1, 300, 60)
    T, P = np.linspace(5, 900, 8), np.linspace(0, 4, 3)
    def run(kw):
        g = thermo.Gibbs(T=T, P=P, etot=0.4 * (v - 11)**2, phdos=[np.array([f * (1 - 0.02 * (x - 11)), np.abs(np.sin(f / 40))]).T for x in v],
                         axes_flat=v, volfunc_ax=lambda x: np.atleast_1d(x)[0], **{k: w for k, w in kw.items() if k != 'volfunc_ax'})
        return g.calc_G()
    return run


for _n, _d in (('calc_F', dict(calc_all=True)), ('calc_H', dict(calc_all=True)), ('calc_G', dict(ret=None, calc_all=True))):
    def _f(ctx, n=_n):
        v = np.linspace(9, 13, 7)
        f = np.linspace(1, 300, 60)
        T, P = np.linspace(5, 900, 8), np.linspace(0, 4, 3)
        return lambda kw: getattr(thermo.Gibbs(T=T, P=P, etot=0.4 * (v - 11)**2, axes_flat=v, volfunc_ax=lambda x: np.atleast_1d(x)[0],
                                               phdos=[np.array([f * (1 - 0.02 * (x - 11)), np.abs(np.sin(f / 40))]).T for x in v]), n)(**kw)
    entry('thermo.Gibbs.' + _n, _d, dict(calc_all=False))(_f)


def ev(ctx):
    p = e01._params(ctx)
    v = np.linspace(0.88, 1.12, 12) * p['v0']
    return v, e01.vinet(v, p)


@entry('eos.EosFit', dict(splpoints=500), dict(splpoints=30))
def _(ctx):
    v, e = ev(ctx)
    def run(kw):
        f = eos.EosFit(v, e, **kw)
        return [f.params, f.get_min(), f.spl.get_min(), f.bulkmod(v), f.pressure(v), len(f.spl.x)]
    return run


@entry('eos.EosFit, function', dict(func=eos.Vinet()), {})
def _(ctx):
    v, e = ev(ctx)
    return lambda kw: eos.EosFit(v, e, **kw).params


@entry('eos.EosFit()', dict(der=0), dict(der=1))
def _(ctx):
    v, e = ev(ctx)
    f = eos.EosFit(v, e)
    return lambda kw: f(v, **kw)


@entry('eos.Vinet()', dict(der=0), dict(der=1))
def _(ctx):
    p = e01._params(ctx)
    return lambda kw: eos.Vinet()(np.linspace(0.9, 1.1, 5) * p['v0'], p, **kw)


@entry('eos.ElkEOSFit', dict(app='eos.x', natoms=1, name='foo', etype=1, npoints=300, bv_method='ev', verbose=True),
       dict(natoms=2, name='bar', etype=2, npoints=100, bv_method='pv', verbose=False))
def _(ctx):
    v, e = ev(ctx)
    b = os.path.join(ctx.tmp(), 'bin')
    os.makedirs(b)
    v01.put(os.path.join(b, 'eos.x'), e01.FAKE.format(py=sys.executable, vf='/'))
    def run(kw):
        path = os.environ['PATH']
        os.environ['PATH'] = b + ':' + path
        try:
            f = eos.ElkEOSFit(energy=e, volume=v, dir='work', **kw)
            f.fit()
            return [f.ev, f.pv, f.bv, f.get_min()]
        finally:
            os.environ['PATH'] = path
    return run


@entry('eos.ExternEOS.get_min', dict(behave='new'), dict(behave='old'))
def _(ctx):
    v, e = ev(ctx)
    b = os.path.join(ctx.tmp(), 'bin')
    os.makedirs(b)
    exe = v01.put(os.path.join(b, 'eos.x'), e01.FAKE.format(py=sys.executable, vf='/'))
    def run(kw):
        f = eos.ElkEOSFit(energy=e, volume=v, dir='work', app=exe, verbose=False)
        f.fit()
        return f.get_min(**kw)
    return run


# ---------------------------------------------------------------- files
@entry('io.write_xyz', dict(name='pwtools_dummy_mol_name'), dict(name='x'))
def _(ctx):
    o = st(ctx) if ctx.coin() else tr(ctx)
    return lambda kw: io.write_xyz('a.xyz', o, **kw)


@entry('io.write_lammps', dict(symbolsbasename='lmp.struct.symbols'), dict(symbolsbasename='sy'))
def _(ctx):
    s = st(ctx)
    s = crys.Structure(coords_frac=s.coords_frac, cryst_const=s.cryst_const, symbols=s.symbols)
    return lambda kw: io.write_lammps('lmp.struct', s, **kw)


@entry('io.wien_sgroup_input', dict(lat_symbol='P'), dict(lat_symbol='F'))
def _(ctx):
    return fresh(io.wien_sgroup_input, st(ctx))


@entry('arrayio.writetxt', dict(axis=-1, maxdim=3, header=True), dict(axis=0, maxdim=2, header=False))
def _(ctx):
    a = arr(ctx, *[ctx.ri(2, 4) for _ in range(3)])
    def run(kw):
        arrayio.writetxt('a.txt', a, **kw)
        return arrayio.readtxt('a.txt') if kw.get('header', True) else None
    return run


@entry('arrayio.readtxt', dict(axis=None, shape=None, header_maxlines=20, header_comment='#', maxdim=3), dict(axis=0, maxdim=2, header_maxlines=0))
def _(ctx):
    a = arr(ctx, *[3] * ctx.ri(1, 3))
    def run(kw):
        arrayio.writetxt('a.txt', a, axis=0 if a.ndim == 3 else -1)
        return arrayio.readtxt('a.txt', **kw)
    return run


@entry('arrayio.arr2d_to_3d', dict(axis=-1), dict(axis=0))
def _(ctx):
    return fresh(arrayio.arr2d_to_3d, arr(ctx, 9, 3), (3, 3, 3))


for _n, _d in (('read_dcd_data', dict(convang=False)), ('read_dcd_data_f', dict(convang=False, nstephdr=False)), ('read_dcd_data_ref', dict(convang=False))):
    def _f(ctx, n=_n):
        while True:
            fn, flavour = (lambda q: (q[0], q[3]))(i03._data(ctx, 8, 5, stale=True))
            if flavour == 'lammps':     # the other one has no frame count in its header
                break
        return lambda kw: getattr(dcd, n)(fn, **kw)
    entry('dcd.' + _n, _d, dict(convang=True, nstephdr=True))(_f)


@entry('pwscf.read_dynmat', dict(path='.', filename='dynmat.out', axsf='dynmat.axsf'), dict(path='sub', filename='dynmat.outX', axsf='x'))
def _(ctx):
    r, n = ctx.rng, ctx.ri(1, 3)
    l = ['# mode   [cm-1]    [THz]      IR'] + ['%5d%10.2f%10.4f%10.4f' % (i + 1, *r.normal(size=3)) for i in range(3 * n)] + ['', 'end']
    x = ['ANIMSTEPS %d' % (3 * n), 'CRYSTAL', 'PRIMVEC'] + ['1 0 0', '0 1 0', '0 0 1']
    for m in range(3 * n):
        x += ['PRIMCOORD %4d' % (m + 1), '%7d   1' % n] + ['   Al' + ''.join('%10.5f' % v for v in r.normal(size=6)) for a in range(n)]
    def run(kw):
        for fn in ('dynmat.out', 'dynmat.outX'):
            common.file_write(fn, '\n'.join(l if fn == 'dynmat.out' else [l[0]] + [q.replace('1', '2') for q in l[1:]]) + '\n')
        common.file_write('dynmat.axsf', '\n'.join(x) + '\n')
        return [pwscf.read_dynmat(natoms=n, **kw), pwscf.read_dynmat_ir_raman(natoms=n, **{k: v for k, v in kw.items() if k == 'filename'})]
    return run


@entry('pwscf.read_dynmat_ir_raman', dict(cols={1: 'freqs', 3: 'ir', 4: 'raman', 5: 'depol'}), dict(cols={2: 'thz'}))
def _(ctx):
    r, n, nc = ctx.rng, ctx.ri(1, 3), ctx.choice([2, 3, 5])
    l = ['# mode   [cm-1]    [THz]' + '      IR' * (nc > 2) + '          Raman   depol.fact' * (nc > 3)]
    l += ['%5d' % (i + 1) + ''.join('%12.4f' % v for v in r.normal(size=nc)) for i in range(3 * n)] + ['', 'end']
    def run(kw):
        common.file_write('dynmat.out', '\n'.join(l) + '\n')
        return pwscf.read_dynmat_ir_raman(natoms=n, **kw)
    return run


@entry('pwscf.read_all_dyn', dict(base='ph.dyn'), dict(base='dyn'))
def _(ctx):
    n, nq = ctx.ri(1, 3), ctx.ri(1, 3)
    fs = [p04.dyn_file(ctx.rng, p04.Modes(ctx.rng, n, 'freq'), 1) for _ in range(2 * nq)]
    def run(kw):
        for i in range(2 * nq):
            common.file_write('%s%d' % ('ph.dyn' if i < nq else 'dyn', i % nq + 1), '\n'.join(fs[i]) + '\n')
        return pwscf.read_all_dyn('.', nqpoints=nq, natoms=n, **kw)
    return run


@entry('pwscf.atpos_str', dict(fmt='%.16e', zero_eps=None, eps=num.EPS, delim='    '), dict(fmt='%.3f', zero_eps=True, delim=' '))
def _(ctx):
    x = arr(ctx, 4, 3)
    x[0, 0], x[1, 1] = 1e-17, 3e-16
    return fresh(pwscf.atpos_str, ['H', 'O', 'Al', 'H'], x)


for _n in ('kpoints_str', 'kpointstr'):
    def _f(ctx, n=_n):
        return fresh(getattr(pwscf, n), [ctx.ri(1, 9) for _ in range(3)])
    entry('pwscf.' + _n, dict(base='nk'), dict(base='k'))(_f)
for _n in ('kpoints_str_pwin', 'kpointstr_pwin'):
    def _f(ctx, n=_n):
        return fresh(getattr(pwscf, n), [ctx.ri(1, 9) for _ in range(3)])
    entry('pwscf.' + _n, dict(shift=[0, 0, 0]), dict(shift=[1, 0, 1]))(_f)
for _n in ('kpoints_str_pwin_full', 'kpointstr_pwin2'):
    def _f(ctx, n=_n):
        return fresh(getattr(pwscf, n), ctx.choice(['gamma', [1, 1, 1], [1, 2, 3]]))
    entry('pwscf.' + _n, dict(shift=[0, 0, 0], gamma=True), dict(shift=[1, 0, 1], gamma=False))(_f)


@entry('parse.arr1d_from_txt', dict(dtype=float), dict(dtype=np.float32))
def _(ctx):
    t = ' '.join('%.17g' % v for v in arr(ctx, 5))
    def run(kw):
        r = parse.arr1d_from_txt(t, **kw)
        return [r, str(r.dtype)]
    return run


@entry('parse.arr2d_from_txt', dict(dtype=float), dict(dtype=np.float32))
def _(ctx):
    t = '\n'.join(' '.join('%.17g' % v for v in arr(ctx, 3)) for _ in range(ctx.ri(1, 3)))
    def run(kw):
        r = parse.arr2d_from_txt(t, **kw)
        return [r, str(r.dtype)]
    return run


@entry('parse.traj_from_txt', dict(axis=0, dtype=float, sep=' '), dict(axis=1, dtype=np.float32))
def _(ctx):
    t = '\n'.join(' '.join('%.17g' % v for v in arr(ctx, 3)) for _ in range(9))
    def run(kw):
        r = parse.traj_from_txt(t, (3, 3, 3), **kw)
        return [r, str(r.dtype)]
    return run


@entry('parse.axis_lens', dict(axis=0), dict(axis=1))
def _(ctx):
    return fresh(parse.axis_lens, [arr(ctx, ctx.ri(1, 4), 3) for _ in range(3)])


# ---------------------------------------------------------------- text, files, databases
def rep(ctx):
    key = {'XXXA': ctx.ri(1, 9), 'XXXB': 1.5, 'XXXC': 3}
    return 'x=XXXA y=XXXB z=XXXA %s' % ctx.choice(['XXXC', '']), key


@entry('common.template_replace', dict(conv=False, warn_mult_found=True, warn_not_found=True, disp=True, mode='dct'),
       dict(conv=True, warn_mult_found=False, warn_not_found=False, disp=False))
def _(ctx):
    return lambda kw: common.template_replace('%(a)s %(b)s %(a)s %(c)s', dict(a='1', b='2', c='3', d='4'), **kw)


@entry("common.template_replace, 'txt'", dict(conv=False, warn_mult_found=True, warn_not_found=True, disp=True),
       dict(conv=True, warn_mult_found=False, warn_not_found=False, disp=False))
def _(ctx):
    t, d = rep(ctx)
    if ctx.coin(0.7):
        d = {k: str(v) for k, v in d.items()}
    return lambda kw: common.template_replace(t, d, mode='txt', **kw)


@entry('common.file_template_replace', dict(bak='', conv=False), dict(bak='.bak'))
def _(ctx):
    t, d = rep(ctx)
    d = {k: str(v) for k, v in d.items()}
    def run(kw):
        common.file_write('f', t)
        return common.file_template_replace('f', d, mode='txt', **kw)
    return run


@entry('common.backup', dict(prefix='.'), dict(prefix='_'))
def _(ctx):
    n, isdir = ctx.ri(1, 3), ctx.coin()
    def run(kw):
        for i in range(n):
            if isdir:
                os.makedirs('f', exist_ok=True)
                common.file_write('f/x', str(i))
            else:
                common.file_write('f', str(i))
            common.backup('f', **kw)
    return run


@entry('common.dict2class', dict(name='Dummy'), dict(name='Other'))
def _(ctx):
    def run(kw):
        o = common.dict2class(dict(a=1, b='x'), **kw)
        return [type(o).__name__, o.__class__.__name__, o.a, o.b]
    return run


@entry('common.fix_eps', dict(eps=num.EPS, copy=True), dict(eps=0.5, copy=False))
def _(ctx):
    x = arr(ctx, 3, 3)
    x[0, 0], x[1, 1] = 1e-17, 3e-16
    return fresh(common.fix_eps, x)


@entry('common.frepr', dict(ffmt='%.16e'), dict(ffmt='%.3f'))
def _(ctx):
    return fresh(common.frepr, ctx.choice([0.1, 3, 'x', True, 1e-300]))


for _n in ('seq2str', 'tup2str'):
    def _f(ctx, n=_n):
        return fresh(getattr(common, n), [1, 2.5, 'x'])
    entry('common.' + _n, dict(func=str, sep=' '), dict(func=repr, sep=','))(_f)


@entry('common.str2seq', dict(func=int, sep=None), dict(func=float, sep=' '))
def _(ctx):
    return fresh(common.str2seq, '1 2  3\t4')


@entry('common.str_arr', dict(fmt='%.16e', delim='    ', zero_eps=None, eps=num.EPS), dict(fmt='%.3f', delim=' ', zero_eps=True))
def _(ctx):
    x = arr(ctx, 3) if ctx.coin() else arr(ctx, 3, 3)
    x.flat[0], x.flat[1] = 1e-17, 3e-16
    return fresh(common.str_arr, x)


@entry('common.system', dict(wait=True), {})
def _(ctx):
    return fresh(common.system, 'echo x > out; sleep 0.01; echo y >> out')


@entry('common.assert_cond', dict(string=None), dict(string='x'))
def _(ctx):
    return fresh(common.assert_cond, ctx.coin())


@entry('comb.nested_loops', dict(flatten=False), dict(flatten=True))
def _(ctx):
    return fresh(comb.nested_loops, [[(1, 2), (3, 4)], ['a', ('b', 'c')], [ctx.ri(1, 5)]])


@entry('comb.unique2d', dict(what='row'), dict(what='col'))
def _(ctx):
    return fresh(comb.unique2d, ctx.rng.integers(0, 2, (4, 4)))


@entry('batch.conv_table', dict(ffmt='%15.4f', sfmt='%15s', mode='last', orig=False, absdiff=False),
       dict(ffmt='%9.1f', sfmt='%5s', mode='next', orig=True, absdiff=True))
def _(ctx):
    n = ctx.ri(2, 5)
    return fresh(batch.conv_table, list(range(n)), arr(ctx, n) if ctx.coin() else arr(ctx, 2, n))


def study(ctx):
    n = ctx.ri(1, 3)
    def run(kw, wkw, twice=True):
        os.makedirs('calc.templ')
        common.file_write('calc.templ/in', 'a=XXXA XXXIDX XXXREVISION XXXCALC_NAME XXXSTUDY_NAME\n')
        common.file_write('calc.templ/job', 'XXXSUBCMD XXXSCRATCH XXXHOME\n')
        m = batch.Machine(hostname='host', template=batch.FileTemplate(basename='job'), subcmd='sub', scratch='/s', home='/h')
        for k in range(2 if twice else 1):
            p = batch.ParameterStudy(machines=m, templates=[batch.FileTemplate(basename='in')],
                                     params_lst=[[sql.SQLEntry(key='a', sqlval=i + 10 * k)] for i in range(n)], **kw)
            p.write_input(**wkw)
    return run


@entry('batch.ParameterStudy', dict(study_name='calc', db_name='calc.db', db_table='calc', calc_root='.', calc_dir_prefix='calc'),
       dict(study_name='s', db_name='x.db', db_table='t', calc_root='sub', calc_dir_prefix='c'))
def _(ctx):
    r = study(ctx)
    return lambda kw: r(kw, {})


@entry('batch.ParameterStudy.write_input', dict(mode='a', backup=True, sleep=0, excl=True), dict(mode='w', backup=False, sleep=1, excl=False))
def _(ctx):
    r = study(ctx)
    return lambda kw: r({}, kw)


@entry('batch.Calculation', dict(machine=None, templates=[], params=[], calc_dir='calc_dir'), dict(calc_dir='c'))
def _(ctx):
    def run(kw):
        c = batch.Calculation(**kw)
        c.write_input()
        return [c.calc_dir, c.templates, norm(c.get_sql_record())]
    return run


@entry('batch.FileTemplate', dict(txt=None, filename=None, templ_dir='calc.templ', keys=None), dict(keys=['a'], templ_dir='t2'))
def _(ctx):
    def run(kw):
        for d in ('calc.templ', 't2', 'calc'):
            os.makedirs(d)
        common.file_write('calc.templ/in', 'a=XXXA b=XXXB\n')
        common.file_write('t2/in', 'second a=XXXA b=XXXB\n')
        batch.FileTemplate(basename='in', **kw).write(dict(a=1, b=2))
    return run


@entry('batch.FileTemplate.write', dict(calc_dir='calc', mode='dct'), dict(calc_dir='c2'))
def _(ctx):
    def run(kw):
        for d in ('c2', 'calc'):
            os.makedirs(d)
        batch.FileTemplate(basename='in', txt='a=XXXA b=XXXB\n').write(dict(a=1, b=2), **kw)
    return run


@entry('batch.FileTemplate.writesql', dict(calc_dir='calc'), dict(calc_dir='c2'))
def _(ctx):
    def run(kw):
        for d in ('c2', 'calc'):
            os.makedirs(d)
        batch.FileTemplate(basename='in', txt='a=XXXA b=XXXB\n').writesql(
            dict(a=sql.SQLEntry(key='a', sqlval=1, fileval='one'), b=sql.SQLEntry(key='b', sqlval=2)), **kw)
    return run


@entry('batch.Machine', dict(subcmd=None, scratch=None, home=None, template=None), dict(subcmd='x', scratch='y', home='z'))
def _(ctx):
    return lambda kw: batch.Machine(hostname='h', filename='job.x', **kw).get_sql_record()


@entry('sql.makedb', dict(mode='a', close=True), dict(mode='w', close=False))
def _(ctx):
    def run(kw):
        out = []
        for i in range(2):
            d = sql.makedb('x.db', [[1, 2], ['a', 'b']], ['c', 'd'], table='tab%d' % i, **kw)
            try:
                out.append(d.get_header())
            except Exception as ex:
                out.append(type(ex).__name__)
            else:
                d.finish()
        return out
    return run


@entry('sql.makedb, one call', dict(table=None, mode='a', close=True), dict(table='foo'))
def _(ctx):
    def run(kw):
        sql.makedb('x.db', [[1, 2], ['a', 'b']], ['c', 'd'], **kw)
    return run


@entry('sql.SQLiteDB', dict(table=None), dict(table='foo'))
def _(ctx):
    def run(kw):
        d = sql.SQLiteDB('x.db', **kw)
        r = [d.table if hasattr(d, 'table') else None]
        d.finish()
        return r
    return run


@entry('sql.SQLiteDB methods', dict(table=None), dict(table='t2'))
def _(ctx):
    which = ctx.choice(['has_column', 'add_column', 'add_columns', 'get_max_rowid', 'fill_column', 'attach_column', 'get_header'])
    ctx.note(method=which)
    args = dict(has_column=['a'], add_column=['n', 'FLOAT'], add_columns=[[('n', 'FLOAT'), ('m', 'TEXT')]], get_max_rowid=[],
                fill_column=['b', [4., 5., 6.]], attach_column=['n', [1, 2, 3]], get_header=[])[which]
    def run(kw):
        d = sql.SQLiteDB('x.db', table='t1')
        for t, n in (('t1', 2), ('t2', 3)):
            d.execute('create table %s (a integer, b float)' % t)
            for i in range(n):
                d.execute('insert into %s (a) values (?)' % t, (i,))
        r = getattr(d, which)(*args, **kw)
        d.finish()
        return r
    return run


@entry('sql.SQLiteDB.fill_column', dict(start=1, extend=True, overwrite=False), dict(start=2, extend=False, overwrite=True))
def _(ctx):
    full = ctx.coin(0.3)
    def run(kw):
        d = sql.SQLiteDB('x.db', table='t1')
        d.execute('create table t1 (a integer, b float)')
        for i in range(2):
            d.execute('insert into t1 (a, b) values (?,?)', (i, i * 0.5 if full else None))
        try:
            return d.fill_column('b', [4., 5., 6.], **kw)
        finally:
            d.finish()
    return run


@entry('sql.SQLEntry', dict(sqltype=None, fileval=None, key=None), dict(sqltype='text', fileval='f', key='k'))
def _(ctx):
    v = ctx.choice([1, 2.5, 'x', True, None, np.float64(3.)])
    def run(kw):
        e = sql.SQLEntry(sqlval=v, **kw)
        return [e.sqlval, e.sqltype, e.fileval, e.key]
    return run


@entry('sql.sql_column', dict(sqltype=None), dict(sqltype='text'))
def _(ctx):
    l = [1, 2, 3] if ctx.coin() else ['a', 'b']
    return lambda kw: [[e.key, e.sqlval, e.sqltype, e.fileval] for e in sql.sql_column('k', l, **kw)]


@entry('sql.sql_matrix', dict(sqlval_funcs=None, fileval_funcs=None, header=None), {})
def _(ctx):
    return lambda kw: [[[e.key, e.sqlval, e.sqltype, e.fileval] for e in row] for row in sql.sql_matrix([[1, 'a'], [2, 'b']], colnames=['x', 'y'], **kw)]


# ---------------------------------------------------------------- the rest
@entry('kpath.kpath', dict(N=10), dict(N=3))
def _(ctx):
    return fresh(kpath.kpath, arr(ctx, ctx.ri(2, 4), 3))


for _n, _d, _o in (('barostat_mass_w', dict(nf=None, ndim=3), dict(nf=5, ndim=2)), ('barostat_mass_wg', dict(nf=None, ndim=3), dict(nf=5, ndim=2)),
                   ('barostat_nhc_masses', dict(ndim=3, nnos=4), dict(ndim=2, nnos=5)), ('particle_nhc_masses', dict(nnos=4), dict(nnos=5))):
    def _f(ctx, n=_n):
        f, T = ctx.rng.uniform(10, 900), ctx.rng.uniform(10, 900)
        k = {} if n == 'barostat_nhc_masses' else dict(nf=ctx.ri(3, 90))
        return lambda kw: getattr(mttk, n)(f, T, **dict(k, **{a: b for a, b in kw.items() if not (a == 'nf' and b is None)}))
    entry('mttk.' + _n, _d, _o)(_f)


@entry('random.RandomStructure', dict(vol_scale=4, angle_range=[60.0, 120.0], vol_range_scale=[0.7, 1.3], length_range_scale=[0.7, 1.3],
                                      close_scale=1, cell_maxtry=100, atom_maxtry=1000, verbose=False),
       dict(vol_scale=5, angle_range=[80., 100.], vol_range_scale=[0.9, 1.3], length_range_scale=[0.7, 1.2], close_scale=0.3, cell_maxtry=2,
            atom_maxtry=1))
def _(ctx):
    n, hard = ctx.ri(1, 5), ctx.choice(['', '', 'cell', 'atom'])
    extra = dict(cell=dict(vol_range_scale=[5., 6.]), atom=dict(close_scale=3.0)).get(hard, {})
    def run(kw):
        if any(k in kw for k in extra):
            return None
        r = prandom.RandomStructure(['Al', 'O', 'H', 'Si', 'N'][:n], **dict(extra, **kw))
        try:
            return [r.get_random_struct(), r.counters]
        except prandom.RandomStructureFail:
            return ['failed', r.counters]
    def check(kw):
        if any(k in kw for k in extra):
            kw = {k: v for k, v in kw.items() if k not in extra}
        return run(kw)
    return check


@entry('random.RandomStructure.get_random_struct', dict(fail=True), dict(fail=False))
def _(ctx):
    # cells are found at once; the atoms do not fit at the first attempt of most cells, so that without failing it goes on
    r = dict(cell_maxtry=100, atom_maxtry=ctx.choice([1, 2, 4]), close_scale=ctx.choice([0.5, 0.7, 0.9]), vol_scale=8)
    return lambda kw: prandom.RandomStructure(['Al', 'Al', 'O'], **r).get_random_struct(**kw)


@entry('random.RandomStructure, trying again', dict(verbose=False), dict(verbose=True))
def _(ctx):
    r = dict(cell_maxtry=100, atom_maxtry=2, close_scale=ctx.choice([0.5, 0.7, 0.9]), vol_scale=8)
    return lambda kw: prandom.RandomStructure(['Al', 'Al', 'O'], **dict(r, **kw)).get_random_struct(fail=False)


@entry('rbf.Rbf', dict(rbf='gauss', r=0, p='mean', fit=True), dict(rbf='multi', r=0.1, p=2.0, fit=False))
def _(ctx):
    x = arr(ctx, 9, 2)
    z, q = x[:, 0] + x[:, 1]**2, arr(ctx, 3, 2)
    def run(kw):
        f = rbf.Rbf(x, z, **kw)
        return [f.p, f.r, f(q) if kw.get('fit', True) else None]
    return run


@entry('rbf.estimate_p', dict(method='mean'), dict(method='scipy'))
def _(ctx):
    return fresh(rbf.estimate_p, arr(ctx, 9, 2))


@entry('rbf.hyperopt.FitError', dict(rbf_kwds={}, cv={'n_splits': 5, 'n_repeats': 1}, cv_kwds=None), dict(rbf_kwds=dict(rbf='multi'), cv=None))
def _(ctx):
    x = arr(ctx, 12, 2)
    def run(kw):
        f = hyperopt.FitError(x, x[:, 0]**2 + x[:, 1], **kw)
        np.random.seed(3)
        return [f([1.3, 1e-3]), f.cv([1.3, 1e-3]), f.err_direct([1.3, 1e-3])]
    return run


@entry('rbf.hyperopt.fit_opt', dict(method='de', what='pr', cv={'n_splits': 5, 'n_repeats': 1}, rbf_kwds={}), dict(what='p', cv=None))
def _(ctx):
    x = arr(ctx, 10, 2)
    def run(kw):
        f = hyperopt.fit_opt(x, x[:, 0]**2 + x[:, 1], opt_kwds=dict(maxiter=1, popsize=2, seed=3, polish=False), **kw)
        return [f.p, f.r]
    return run


@entry('timer.TagTimer', dict(silence=False), dict(silence=True))
def _(ctx):
    def run(kw):
        t = timer.TagTimer(**kw)
        buf = sio.StringIO()
        with contextlib.redirect_stdout(buf):
            t.t('a')
            t.pt('a')
            t.pt('a', 'message')
        return re.sub(r'[0-9.]+(e-?\d+)?', '#', buf.getvalue())
    return run


@entry('timer.TagTimer.pt', dict(msg=''), dict(msg='m'))
def _(ctx):
    def run(kw):
        t = timer.TagTimer()
        buf = sio.StringIO()
        with contextlib.redirect_stdout(buf):
            t.t('a')
            t.pt('a', **kw)
        return re.sub(r'[0-9.]+(e-?\d+)?', '#', buf.getvalue())
    return run


@entry('visualize.ViewFactory', dict(suffix='.axsf', assert_cmd=None, writer=io.write_axsf), dict(suffix='.x'))
def _(ctx):
    o = st(ctx)
    def run(kw):
        v = visualize.ViewFactory(cmd='cat', **kw)
        v(o, structfile='out', keepfiles=True, logfile='log', disp=False, tmpdir='.')
        return v.suffix
    return run


@entry('visualize.ViewFactory()', dict(logfile=None, structfile=None, disp=False, keepfiles=False, wait=True, bg=False, options=''),
       dict(logfile='log', structfile='str', disp=True, keepfiles=True, options='-n'))
def _(ctx):
    o = st(ctx)
    def run(kw):
        v = visualize.ViewFactory(cmd='cat -A', suffix='.xyz', writer=io.write_xyz)
        kw = dict(kw)
        r = v(o, tmpdir='.', **kw)
        left = sorted(os.listdir('.'))
        # names of temporary files are random
        for f in left:
            if f not in ('log', 'str'):
                os.unlink(f)
        return [r, len(left)]
    return run


@entry('visualize.ViewFactory(), folder', dict(tmpdir='/tmp'), {})
def _(ctx):
    o = st(ctx)
    b = os.path.join(ctx.tmp(), 'echoname')
    v01.put(b, '#!/bin/sh\ndirname "$1" > "$VF_OUT"\n')
    def run(kw):
        os.environ['VF_OUT'] = os.path.join(os.getcwd(), 'seen')
        visualize.ViewFactory(cmd=b)(o, **kw)
    return run


GOFR = dict(first=0, last=-1, step=1, usepbc=1, verbose=False)
GOFRO = dict(first=1, last=0, step=2, usepbc=0)


@entry('crys.vmd_measure_gofr', dict(GOFR, sel=['all', 'all'], dr=0.05, rmax='auto', slicefirst=True), dict(GOFRO, dr=0.3, rmax=1.5, last=1))
def _(ctx):
    o = v01.rand_obj(ctx, traj=True, ortho=True, nstep=3)
    def run(kw):
        with v01.vmd_env(ctx) as env:
            g = crys.vmd_measure_gofr(o, tmpdir=env.tmp, **kw)
            rec = [l.rstrip('\n').rstrip('\t').split('\t') for l in open(env.vrec)]
            # with slicefirst the frames are cut before VMD sees them
            return [g, [r[2:4] + r[4:] for r in rec if r[0] == 'gofr'], len(os.listdir(env.tmp))]
    return run


@entry('crys.call_vmd_measure_gofr', dict(GOFR, sel=['all', 'all'], fntype='xsf', datafn=None, scriptfn=None, logfn=None), dict(GOFRO, last=1))
def _(ctx):
    o = v01.rand_obj(ctx, traj=True, ortho=True, nstep=3, varcell=False)
    def run(kw):
        with v01.vmd_env(ctx) as env:
            io.write_axsf('t.axsf', o)
            g = crys.call_vmd_measure_gofr('t.axsf', dr=0.1, rmax=2.0, tmpdir=env.tmp, **kw)
            rec = [l.rstrip('\n').rstrip('\t').split('\t') for l in open(env.vrec)]
            return [g, [r[2:4] + r[4:] for r in rec if r[0] == 'gofr']]
    return run


def figure(f):
    """what a figure shows"""
    out = []
    for a in f.axes:
        out.append([a.get_position().bounds, a.get_xlim(), a.get_ylim(), [l.get_label() for l in a.lines],
                    [norm(np.array(l.get_data())) for l in a.lines], a.get_xlabel(), a.get_ylabel(), a.name, a.get_frame_on(),
                    {k: [s.get_visible(), s.get_edgecolor()] for k, s in a.spines.items()},
                    [t.label1.get_color() for t in a.yaxis.get_major_ticks()], a.yaxis.label.get_color(), a.xaxis.label.get_color(),
                    [str(s.get_position()) for s in a.spines.values()],
                    [[t.get_text() for t in g.get_texts()] for g in [a.get_legend()] if g is not None]])
        out[-1].append([round(x, 9) for s in ('left', 'bottom') if s in a.spines for x in np.ravel(a.spines[s].get_window_extent().bounds)])
    out.append([f.subplotpars.bottom, f.subplotpars.left, f.subplotpars.right, f.subplotpars.top])
    return out


@entry('mpl.color_ax', dict(axis='y', spine_loc='left', spine_invisible=None), dict(axis='x', spine_loc='right', spine_invisible='left'))
def _(ctx):
    def run(kw):
        f, a = mpl.fig_ax()
        a.plot([0, 1], [2, 3])
        mpl.color_ax(a, 'red', **kw)
        r = figure(f)
        mpl.plt.close('all')
        return r
    return run


@entry('mpl.new_axis', dict(off=50, loc='bottom', ticks=None, wsadd=0.1, label='', sharex=False, sharey=False),
       dict(off=20, loc='left', wsadd=0.2, label='x', ticks=[0.1]))
def _(ctx):
    def run(kw):
        f, host = mpl.make_axes_grid_fig()
        host.plot([0, 1], [2, 3])
        f, h, p = mpl.new_axis(f, host, **kw)
        host.set_xlim(-3, 3)
        host.set_ylim(-4, 4)
        f.canvas.draw()
        new = [k for k in p.axis.keys() if k[-1].isdigit()]
        a = p.axis[new[0]]
        r = [new, p.get_xlabel(), p.get_ylabel(), p.get_xlim(), p.get_ylim(), [round(v, 6) for v in a.line.get_window_extent(f.canvas.get_renderer()).bounds],
             list(a.axis.get_majorticklocs()), [f.subplotpars.bottom, f.subplotpars.left, f.subplotpars.right, f.subplotpars.top], len(h.parasites)]
        mpl.plt.close('all')
        return r
    return run


@entry('mpl.fig_ax3d', dict(clean=False), dict(clean=True))
def _(ctx):
    def run(kw):
        f, a = mpl.fig_ax3d(**kw)
        r = [a.name, [p.get_edgecolor() for p in (a.xaxis.pane, a.yaxis.pane, a.zaxis.pane)],
             [p.get_facecolor() for p in (a.xaxis.pane, a.yaxis.pane, a.zaxis.pane)], a.xaxis._axinfo['grid'] if hasattr(a.xaxis, '_axinfo') else None,
             [x.line.get_color() for x in (a.xaxis, a.yaxis, a.zaxis)]]
        mpl.plt.close('all')
        return r
    return run


@entry('mpl.get_2d_testdata', dict(n=20), dict(n=5))
def _(ctx):
    return lambda kw: norm(mpl.get_2d_testdata(**kw))


@entry('mpl.Plot', dict(fig=None, ax=None, projection='2d'), dict(projection='3d'))
def _(ctx):
    def run(kw):
        p = mpl.Plot(**kw)
        if kw.get('projection') != '3d':
            p.ax.plot([1, 2], [3, 4], label='x')
        r = [p.ax.name, figure(p.fig) if p.ax.name == 'rectilinear' else None]
        mpl.plt.close('all')
        return r
    return run


@entry('mpl.Plot.legend', dict(axnames=None, legaxname='ax'), dict(axnames=['ax', 'ax2'], legaxname='ax2'))
def _(ctx):
    def run(kw):
        p = mpl.Plot()
        p.ax2 = p.ax.twinx()
        p.ax.plot([1, 2], [3, 4], label='x')
        p.ax2.plot([1, 2], [3, 4], label='y')
        p.legend(**kw)
        r = figure(p.fig)
        mpl.plt.close('all')
        return r
    return run


@entry('mpl.Plot.collect_legends', dict(axnames=['ax']), dict(axnames=['ax', 'ax2']))
def _(ctx):
    def run(kw):
        p = mpl.Plot()
        p.ax2 = p.ax.twinx()
        p.ax.plot([1, 2], [3, 4], label='x')
        p.ax2.plot([1, 2], [3, 4], label='y')
        h, l = p.collect_legends(**kw)
        mpl.plt.close('all')
        return [len(list(h)), list(l)]
    return run


@entry('mpl.Plot.savefig', dict(ext=['png']), dict(ext=['png', 'pdf']))
def _(ctx):
    def run(kw):
        p = mpl.Plot()
        p.savefig('fig', **kw)
        mpl.plt.close('all')
        r = sorted(os.listdir('.'))
        for f in r:
            os.unlink(f)
        return r
    return run


@entry('mpl.prepare_plots', dict(projection='2d'), dict(projection='3d'))
def _(ctx):
    def run(kw):
        d = mpl.prepare_plots(['a', 'b'], **kw)
        r = {k: v.ax.name for k, v in d.items()}
        mpl.plt.close('all')
        return r
    return run


# ---------------------------------------------------------------- readers, calculators
@entry('parse.PwSCFOutputFile', dict(use_alat=True, units=None), dict(use_alat=False, units={'energy': 2.0}))
def _(ctx):
    pw = p01.base(ctx, 4)[0]
    pw.scf(True, True, 0, True)
    fn = p01.put(ctx, pw)
    def run(kw):
        q = parse.PwSCFOutputFile(fn, **kw)
        return [q.get_coords(), q.get_cell(), q.get_alat(), q.get_struct()]
    return run


@entry('parse.StructureFileParser.get_cont', dict(auto_calc=True), dict(auto_calc=False))
def _(ctx):
    pw = p01.base(ctx, 4)[0]
    pw.scf(True, True, 0, True)
    fn = p01.put(ctx, pw)
    def run(kw):
        c = parse.PwSCFOutputFile(fn).get_cont(**kw)
        return {k: norm(getattr(c, k, None)) for k in c.attr_lst}
    return run


@entry('io.read_pw_scf', dict(units=None, use_alat=True), dict(units={'energy': 2.0}, use_alat=False))
def _(ctx):
    pw = p01.base(ctx, 4)[0]
    pw.scf(True, True, 0, True)
    fn = p01.put(ctx, pw)
    return lambda kw: io.read_pw_scf(fn, **kw)


@entry('parse.CifFile', dict(block=None, units=None), dict(units={'length': 2.0}))
def _(ctx):
    s = st(ctx)
    def run(kw):
        io.write_cif('a.cif', s)
        r = parse.CifFile('a.cif', **kw).get_struct()
        os.unlink('a.cif')
        return r
    return run


@entry('parse.LammpsTextMDOutputFile', dict(filename='log.lammps', order=None), {})
def _(ctx):
    n, t = ctx.ri(1, 3), ctx.ri(1, 4)
    v = arr(ctx, t, 2)
    log = ['Step Temp PotEng '] + ['%8d %.8f %.8f' % (i, a, b) for i, (a, b) in enumerate(v)] + ['Loop time of 1']
    dump = []
    for i in range(t):
        dump += ['ITEM: TIMESTEP', str(i), 'ITEM: NUMBER OF ATOMS', str(n), 'ITEM: BOX BOUNDS pp pp pp', '0 5', '0 6', '0 7', 'ITEM: ATOMS id type x y z']
        dump += ['%d 1 %.6f %.6f %.6f' % ((k + 1,) + tuple(arr(ctx, 3))) for k in ctx.rng.permutation(n)]
    def run(kw):
        for fn, l in (('log.lammps', log), ('lmp.out.dump', dump), ('lmp.struct.symbols', ['Al'] * n)):
            common.file_write(fn, '\n'.join(l) + '\n')
        q = parse.LammpsTextMDOutputFile(**kw)
        return [q.get_temperature(), q.get_etot(), q.get_coords()]
    return run


@entry('base.FlexibleGetters', dict(attr_lst=None), dict(attr_lst=['a']))
def _(ctx):
    from pwtools.base import FlexibleGetters
    class T(FlexibleGetters):
        def get_a(self):
            return 1
        def get_b(self):
            return [self.a if self.check_set_attr('a') else None]
    which = ctx.choice(['init_attr_lst', 'set_all'])
    def run(kw):
        o = T()
        o.set_attr_lst(['b', 'a'])
        getattr(o, which)(**kw)
        return [o.attr_lst, {k: getattr(o, k, 'unset') for k in 'ab'}]
    return run


@entry('base.FlexibleGetters.dump', dict(mkdir=True), dict(mkdir=False))
def _(ctx):
    s = st(ctx)
    def run(kw):
        s.dump('sub/x.pk', **kw)
        r = crys.Structure()
        r.load('sub/x.pk')
        os.unlink('sub/x.pk')
        return r
    return run


@entry('calculators.Pwscf', dict(backup=False, calc_name='pwscf', charge=0.0, conv_thr=1e-10, diagonalization='david', ecutrho=None,
                                 ecutwfc=80.0, electron_maxstep=500, kpts=5.0, label='pw', mixing_beta=0.3, mixing_mode='plain',
                                 smearing=None, xc=None, directory='.'),
       dict(backup=True, calc_name='x', charge=1.0, conv_thr=1e-3, diagonalization='cg', ecutrho=33.0, ecutwfc=20.0, electron_maxstep=9,
            kpts=[1, 2, 3], label='lab', mixing_beta=0.1, mixing_mode='local-TF', directory='sub'))
def _(ctx):
    at, _k = a01.atoms(ctx, 4)
    def run(kw):
        c = calculators.Pwscf(pp='UPF', pseudo_dir='/p', outdir='/o', **kw)
        c.write_input(at.copy())
        common.file_write(c.outfile, 'x')
        c.write_input(at.copy())
        return [os.path.relpath(x, '.') for x in (c.infile, c.outfile)]
    return run


@entry('calculators.Pwscf, command', dict(command='pw.x -input PREFIX.in | tee PREFIX.out'), dict(command='echo x > PREFIX.out'))
def _(ctx):
    at, _k = a01.atoms(ctx, 4)
    b = os.path.join(ctx.tmp(), 'bin')
    os.makedirs(b)
    v01.put(os.path.join(b, 'pw.x'), '#!/bin/sh\necho "$@"\ncat "$2"\n')
    def run(kw):
        path = os.environ['PATH']
        os.environ['PATH'] = b + ':' + path
        try:
            c = calculators.Pwscf(pp='UPF', pseudo_dir='/p', outdir='/o', **kw)
            a = at.copy()
            try:
                c.calculate(a)
            except Exception as ex:
                return type(ex).__name__
        finally:
            os.environ['PATH'] = path
    return run


@entry('calculators.Lammps', dict(label='lmp', pair_coeff='* * ./AlN.tersoff Al N', pair_style='tersoff', backup=False, directory='.'),
       dict(label='x', pair_coeff='* *', pair_style='lj/cut 3', backup=True, directory='sub'))
def _(ctx):
    at, _k = a01.atoms(ctx, 4)
    def run(kw):
        c = calculators.Lammps(**kw)
        for i in range(2):
            c.write_input(at.copy())
            common.file_write(c.logfile, 'x')
        return [os.path.relpath(x, '.') for x in (c.infile, c.outfile, c.dumpfile, c.structfile, c.logfile)]
    return run


@entry('calculators.Lammps, command', dict(command='lmp < PREFIX.in > PREFIX.out'), dict(command='echo x > PREFIX.out'))
def _(ctx):
    at, _k = a01.atoms(ctx, 4)
    b = os.path.join(ctx.tmp(), 'bin')
    os.makedirs(b)
    v01.put(os.path.join(b, 'lmp'), '#!/bin/sh\necho called "$@"\ncat\n')
    def run(kw):
        path = os.environ['PATH']
        os.environ['PATH'] = b + ':' + path
        try:
            c = calculators.Lammps(**kw)
            a = at.copy()
            try:
                c.calculate(a)
            except Exception as ex:
                return type(ex).__name__
        finally:
            os.environ['PATH'] = path
    return run


NAMES = sorted(TABLE)


@reg.scenario(quick=4 * len(NAMES), thorough=60 * len(NAMES))
def omitted(ctx):
    """one function per case"""
    decide(ctx, ctx.pick(NAMES))
