"""C06: operations leave their arguments alone, repeat identically, copies are independent."""
import copy as cpy
import os
import numpy as np
from vf.core import Registry, differ, short
from vf import gen
from pwtools import (crys, num, signal, pydos, common, io, arrayio, thermo, eos, kpath, symmetry, batch, sql, pwscf, mpl, lammps, rbf)
from pwtools.rbf import hyperopt

reg = Registry('C06', 'A snapshot monitor wraps public operations of all modules: random arguments (arrays in C, Fortran, strided and '
               'reversed memory layout, also integer typed) are deep-copied, the operation runs twice, arguments are compared with '
               'the snapshots and results with each other; a second monitor writes into every mutable part of a copy and watches '
               'the original.')


def snap(x, depth=0):
    """deep, independent picture of a value"""
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True)
    if isinstance(x, dict):
        return {k: snap(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snap(v, depth + 1) for v in x]
    if hasattr(x, '__dict__') and not callable(x) and depth < 4:
        return {k: snap(v, depth + 1) for k, v in vars(x).items()
                if not k.startswith('__') and k not in ('np_array_t',)}
    return x if isinstance(x, (int, float, str, bool, complex, type(None), np.generic, bytes)) else None


def approx(a, b, path=''):
    """differences between two results, last-bit noise allowed"""
    if isinstance(a, (np.ndarray, np.generic)) or isinstance(b, (np.ndarray, np.generic)) or (
            isinstance(a, (float, complex)) and isinstance(b, (float, complex))):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return '%s: shape %s vs %s' % (path, a.shape, b.shape)
        if a.dtype.kind in 'fciub' and b.dtype.kind in 'fciub':
            if a.size == 0:
                return None
            with np.errstate(all='ignore'):
                sc = np.nanmax(np.abs(np.where(np.isfinite(b), b, 0)))
            ok = np.allclose(a, b, rtol=1e-7, atol=1e-9 * sc, equal_nan=True)
        else:
            ok = (a == b).all() if a.dtype != object else True
        return None if ok else '%s: %s vs %s' % (path, short(a), short(b))
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return path + ': keys differ'
        for k in a:
            d = approx(a[k], b[k], '%s[%r]' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return '%s: %s vs %s' % (path, short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = approx(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    return None if a == b else '%s: %s vs %s' % (path, short(a), short(b))


# --------------------------------------------------------------------------- argument makers
class Mk:
    def __init__(self, ctx):
        self.c, self.r = ctx, ctx.rng

    def L(self, a):
        lay, a = self.c.choice(gen.layouts(self.r, np.asarray(a)))
        self.lays.append(lay)
        return a
    lays = ()

    def arr(self, *sh, ints=False):
        a = self.r.normal(size=sh) * 3
        if ints and self.c.coin():
            a = np.rint(a).astype(int)
        return self.L(a)

    def mass(self, n=2):
        return self.L(self.r.choice([1., 2., 1.00794, 15.9994, 0.3, 1.75], n))

    def cell(self):
        return self.L(gen.rand_cell(self.r))

    def std(self):
        return gen.rand_cell(self.r, 'tricl')

    def struct(self, n=None, **kw):
        n = n or self.c.sz(2, 6, 40)
        d = dict(coords_frac=self.L(gen.fcc_like(self.r, n) + self.r.uniform(-1, 1)), cell=self.cell(),
                 symbols=gen.rand_symbols(self.r, n), forces=self.arr(n, 3), stress=self.arr(3, 3), etot=1.25)
        d.update(kw)
        return crys.Structure(**d)

    def traj(self, n=None, nt=None, fixed=None, **kw):
        n, nt = n or self.c.sz(2, 5, 30), nt or self.c.sz(3, 7, 40)
        fixed = self.c.coin() if fixed is None else fixed
        cell = self.cell() if fixed else self.L(gen.rand_cells(self.r, nt))
        d = dict(coords_frac=self.L(np.array([gen.fcc_like(self.r, n) for _ in range(nt)])), cell=cell,
                 symbols=gen.rand_symbols(self.r, n), forces=self.arr(nt, n, 3), stress=self.arr(nt, 3, 3),
                 etot=self.arr(nt), timestep=0.5)
        d.update(kw)
        return crys.Trajectory(**d)

    def xy(self, n=20):
        x = np.sort(self.r.uniform(0, 5, n)) + np.arange(n) * 0.1
        return self.L(x), self.L((x - 3.)**2 + 0.3 * np.sin(x))

    def dos(self, n=60):
        f = np.linspace(1, 400, n)
        return self.L(f), self.L(f**2 * np.exp(-((f - 200) / 90)**2))


C = {}


def op(area):
    def deco(f):
        C.setdefault(area, {})[f.__name__.lstrip('_')] = f
        return f
    return deco


def simple(area, name, f):
    C.setdefault(area, {})[name] = f


# crys ------------------------------------------------------------------------
A = 'crys'
simple(A, 'volume_cell', lambda m: (crys.volume_cell, [m.cell()], {}))
simple(A, 'volume_cell3d', lambda m: (crys.volume_cell3d, [m.L(np.array([m.std()] * 3))], {}))
simple(A, 'cell2cc', lambda m: (crys.cell2cc, [m.cell()], {}))
simple(A, 'cell2cc3d', lambda m: (crys.cell2cc3d, [m.L(np.array([m.std(), m.std()]))], {}))
simple(A, 'cc2cell', lambda m: (crys.cc2cell, [m.L(gen.cc_from_cell(m.std()))], {}))
simple(A, 'cc2cell3d', lambda m: (crys.cc2cell3d, [m.L(np.array([gen.cc_from_cell(m.std()) for _ in range(3)]))], {}))
simple(A, 'volume_cc', lambda m: (crys.volume_cc, [m.L(gen.cc_from_cell(m.std()))], {}))
simple(A, 'recip_cell', lambda m: (crys.recip_cell, [m.cell()], {}))
simple(A, 'grid_in_cell', lambda m: (crys.grid_in_cell, [m.cell()], dict(h=0.5, fullout=True)))
simple(A, 'grid_in_cell_size', lambda m: (crys.grid_in_cell, [m.cell()], dict(size=np.array([2, 3, 4]), fullout=True)))
simple(A, 'kgrid', lambda m: (crys.kgrid, [m.cell()], dict(h=0.5)))
simple(A, 'cc2celldm', lambda m: (crys.cc2celldm, [m.L(gen.cc_from_cell(m.std()))], dict(fac=1.9)))
simple(A, 'celldm2cc', lambda m: (crys.celldm2cc, [m.L(np.array([5.1, 1.2, 1.3, 0.1, 0.2, 0.05]))], dict(fac=0.5)))
simple(A, 'scell', lambda m: (crys.scell, [m.struct(), m.c.choice([(2, 1, 2), [1, 2, 1], np.array([2, 2, 1])])],
                              dict(method=m.c.choice([1, 2]))))
simple(A, 'scell_traj', lambda m: (crys.scell, [m.traj(), [2, 1, 2]], {}))
simple(A, 'velocity_traj', lambda m: (crys.velocity_traj, [m.arr(5, 2, 3, ints=True)], dict(dt=0.3)))
simple(A, 'rmsd', lambda m: (crys.rmsd, [m.traj()], dict(ref_idx=m.c.choice([0, 1, -1]))))
simple(A, 'pbc_wrap_coords', lambda m: (crys.pbc_wrap_coords, [m.arr(5, 3)], dict(mask=[True, False, True])))
simple(A, 'pbc_wrap', lambda m: (crys.pbc_wrap, [m.c.choice([m.struct, m.traj])()], {}))
simple(A, 'coord_trans', lambda m: (crys.coord_trans, [m.arr(4, 3, ints=True)], dict(old=m.cell(), new=m.cell())))
simple(A, 'coord_trans3d', lambda m: (crys.coord_trans3d, [m.arr(4, 2, 3)], dict(
    old=m.L(np.array([m.std() for _ in range(4)])), new=m.L(np.array([m.std() for _ in range(4)])))))
simple(A, 'min_image', lambda m: (crys.min_image_convention, [m.arr(4, 4, 3)], dict(copy=True)))
simple(A, 'rmax_smith', lambda m: (crys.rmax_smith, [m.cell()], {}))


@op(A)
def _rpdf(m):
    t = m.traj(fixed=True)
    n = t.natoms
    kind = m.c.choice(['one', 'two', 'list1', 'mask', 'names'])
    if kind == 'one':
        return crys.rpdf, [t], dict(dr=0.2, tmask=m.c.choice([None, slice(0, 2)]))
    if kind == 'two':
        return crys.rpdf, [[t, t.copy()]], dict(dr=0.2)
    if kind == 'list1':
        return crys.rpdf, [[t]], dict(dr=0.2)
    mk = np.ones(n, bool)
    mk[0] = False
    if kind == 'mask':
        return crys.rpdf, [[t]], dict(dr=0.2, amask=[mk])
    return crys.rpdf, [[t, t]], dict(dr=0.2, amask=[t.symbols[0], mk])


simple(A, 'distances', lambda m: (crys.distances, [m.struct()], dict(pbc=m.c.coin(), fullout=m.c.coin(), squared=m.c.coin())))
simple(A, 'distances_traj', lambda m: (crys.distances_traj, [m.traj()], dict(pbc=m.c.coin())))
simple(A, 'angles', lambda m: (crys.angles, [m.struct()], dict(pbc=m.c.coin(), deg=m.c.coin())))


@op(A)
def _nearest_neighbors(m):
    s = m.struct(6)
    return crys.nearest_neighbors, [s], dict(idx=1, cutoff=6.0, skip=m.c.choice([None, s.symbols[0], [s.symbols[0]]]),
                                             fullout=True, pbc=m.c.coin())


@op(A)
def _nearest_neighbors_from_dists(m):
    s = m.struct(6)
    d = crys.distances(s, pbc=True)
    return crys.nearest_neighbors_from_dists, [m.L(d), list(s.symbols)], dict(idx=0, num=3, fullout=True)


simple(A, 'nearest_neighbors_struct', lambda m: (crys.nearest_neighbors_struct, [m.struct(5)], dict(idx=2, cutoff=4.)))
simple(A, 'center_on_atom', lambda m: (crys.center_on_atom, [m.c.choice([m.struct, m.traj])()], dict(idx=1)))
simple(A, 'concatenate', lambda m: (lambda a, b: crys.concatenate([a, b, a]), [m.traj(2), m.struct(2)], {}))
simple(A, 'mean', lambda m: (crys.mean, [m.traj()], {}))
simple(A, 'smooth', lambda m: (crys.smooth, [m.traj(), m.L(np.array([1., 2., 1.]))], dict(method=m.c.choice([1, 2]))))


@op(A)
def _mix(m):
    a, b = m.struct(3), m.struct(3)
    b.symbols = list(a.symbols)
    return crys.mix, [a, b, m.L(np.linspace(0, 1, 4))], {}


@op(A)
def _align_cart(m):
    R = gen.rand_rot(m.r)
    return crys.align_cart, [m.c.choice([m.struct, m.traj])()], m.c.choice(
        [dict(cart=m.L(R)), dict(x=m.L(2 * R[0]), y=m.L(R[1])), dict(vecs=m.L(np.array([R[2], R[2] + R[0], R[2] + R[1]])))])


simple(A, 'tensor2voigt', lambda m: (crys.tensor2voigt, [m.arr(3, 3)], {}))
simple(A, 'voigt2tensor', lambda m: (crys.voigt2tensor, [m.arr(6)], {}))
simple(A, 'tensor2voigt3d', lambda m: (crys.tensor2voigt3d, [m.arr(4, 3, 3)], {}))
simple(A, 'voigt2tensor3d', lambda m: (crys.voigt2tensor3d, [m.arr(4, 6)], {}))
simple(A, 'Structure', lambda m: (crys.Structure, [], dict(coords=m.arr(3, 3), cell=m.cell(), symbols=['H', 'O', 'H'],
                                                           units=dict(length=0.5, forces=2.0), forces=m.arr(3, 3))))
simple(A, 'Trajectory', lambda m: (crys.Trajectory, [], dict(coords=m.arr(4, 3, 3), cell=m.cell(), symbols=['H', 'O', 'H'],
                                                             units=dict(length=0.5, time=2.0), timestep=1., etot=m.arr(4),
                                                             cryst_const=None) if 0 else dict(
    coords=m.arr(4, 3, 3), cell=m.cell(), symbols=['H', 'O', 'H'], units=dict(length=0.5, time=2.0), timestep=1.,
    etot=m.arr(4))))
simple(A, 'get_traj', lambda m: (crys.Structure.get_traj, [m.struct(), 3], {}))
simple(A, 'compress', lambda m: (crys.compress, [m.traj()], {}))
simple(A, 'struct2atoms', lambda m: (lambda s: crys.struct2atoms(s).get_positions(), [m.struct()], {}))
simple(A, 'slice', lambda m: (lambda t: t[1:3], [m.traj()], {}))
simple(A, 'index', lambda m: (lambda t: t[1], [m.traj()], {}))
simple(A, 'loop', lambda m: (lambda t: [s.coords.sum() for s in t], [m.traj()], {}))

# num -------------------------------------------------------------------------
A = 'num'
simple(A, 'normalize', lambda m: (num.normalize, [m.L(np.abs(m.r.normal(size=5)))], {}))
simple(A, 'vlinspace', lambda m: (num.vlinspace, [m.arr(3), m.arr(3), 5], {}))
simple(A, 'norm_int', lambda m: (num.norm_int, [*[a for a in m.xy()][::-1]], dict(area=2.0, scale=m.c.coin())))
simple(A, 'deriv_spl', lambda m: (lambda x, y: num.deriv_spl(y, x, fullout=True), list(m.xy()), {}))
simple(A, 'findmin', lambda m: (num.findmin, list(m.xy()), {}))
simple(A, 'Spline', lambda m: (lambda x, y, xx: num.Spline(x, y, s=0)(xx), [*m.xy(), m.L(np.linspace(1, 3, 7))], {}))
simple(A, 'slicetake', lambda m: (num.slicetake, [m.arr(5, 4), m.c.choice([[slice(1, 3), slice(0, 2)], (slice(1, 3), 1)])],
                                  dict(copy=True)))
simple(A, 'extend_array', lambda m: (num.extend_array, [m.arr(2, 3), 4], dict(axis=m.c.choice([0, 1, -1]))))
simple(A, 'sum', lambda m: (num.sum, [m.arr(3, 4, 5)], dict(axis=m.c.choice([0, 2, (0, 1)]), keepdims=m.c.coin())))
simple(A, 'distsq', lambda m: (num.distsq, [m.arr(4, 3), m.arr(5, 3)], {}))
simple(A, 'rms', lambda m: (num.rms, [m.arr(4, 3)], {}))
simple(A, 'rms3d', lambda m: (num.rms3d, [m.arr(4, 3, 2)], dict(axis=m.c.choice([0, 1, 2, -1]))))
simple(A, 'inner_points_mask', lambda m: (num.inner_points_mask, [m.L(m.r.uniform(0, 1, (20, 2)))], {}))
simple(A, 'polyfit', lambda m: (lambda p, v: num.polyval(num.polyfit(p, v, 2), p), [m.arr(20, 2), m.arr(20)], {}))
simple(A, 'PolyFit', lambda m: (lambda p, v, q: num.PolyFit(p, v, 2)(q), [m.arr(20, 2), m.arr(20), m.arr(3, 2)], {}))
simple(A, 'PolyFit1D', lambda m: (lambda p, v, q: num.PolyFit1D(p, v, 2)(q, der=1), [*m.xy(), m.L(np.linspace(0, 1, 4))], {}))
simple(A, 'vander', lambda m: (num.vander, [m.arr(6, 2), 2], {}))
simple(A, 'match_mask', lambda m: (num.match_mask, [m.L(m.r.integers(0, 9, 8)), m.L(m.r.integers(0, 9, 3))], dict(fullout=True)))
simple(A, 'match_mask_eps', lambda m: (num.match_mask, [m.arr(8), m.arr(3)], dict(fullout=True, eps=0.3)))
simple(A, 'order_similar', lambda m: (num.order_similar, [m.arr(8, 3)], dict(order=m.c.choice([0, 1, 2]), repeat=m.c.choice([1, 2]))
                                      if 0 else dict(order=2, repeat=m.c.choice([1, 2]))))
simple(A, 'meshgridt', lambda m: (num.meshgridt, [m.arr(4), m.arr(3)], {}))
simple(A, 'norm', lambda m: (num.norm, [m.arr(4)], {}))


@op(A)
def _DataND(m):
    x, y = np.arange(3.), np.arange(4.)
    a2 = np.array([[i, j, m.r.normal()] for i in x for j in y])
    return (lambda a: num.DataND(a2=a).an), [m.L(a2)], {}


@op(A)
def _Interpol2D(m):
    d = mpl.Data2D(x=np.linspace(0, 1, 6), y=np.linspace(0, 1, 7))
    what = m.c.choice(['rbf_multi', 'rbf_inv_multi', 'rbf_gauss', 'poly', 'ct', 'linear', 'nearest', 'bispl'])
    kw = {'poly': dict(deg=2)}.get(what, {})
    return (lambda xy, v, q: num.Interpol2D(points=xy, values=v, what=what, **kw)(q)), [
        m.L(d.XY), m.L(d.XY[:, 0]**2 + d.XY[:, 1]), m.L(np.array([[0.3, 0.4], [0.55, 0.2]]))], {}


# signal, pydos ----------------------------------------------------------------
A = 'signal'
simple(A, 'dft', lambda m: (signal.dft, [m.arr(9)], dict(method=m.c.choice(['loop', 'matmul']))))
simple(A, 'ezfft', lambda m: (signal.ezfft, [m.arr(9)], {}))
simple(A, 'fft_1d_loop', lambda m: (signal.fft_1d_loop, [m.arr(4, 3, 2)], dict(axis=m.c.choice([0, 1, 2, -1]))))
simple(A, 'pad_zeros', lambda m: (signal.pad_zeros, [m.arr(4, 3, ints=True)], dict(axis=m.c.choice([0, 1]), nadd=2)))
simple(A, 'mirror', lambda m: (signal.mirror, [m.arr(5)], {}))
simple(A, 'acorr', lambda m: (signal.acorr, [m.arr(12)], dict(method=m.c.ri(1, 7), norm=m.c.coin())))
simple(A, 'gauss', lambda m: (signal.gauss, [m.arr(12)], dict(std=2.0)))
simple(A, 'find_peaks', lambda m: (lambda x: signal.find_peaks(np.exp(-(x - 2)**2), x), [m.L(np.linspace(0, 5, 40))], {}))
simple(A, 'smooth', lambda m: (signal.smooth, [m.arr(12, ints=True), m.L(np.array([1., 2, 1]))], dict(edge=m.c.choice(['m', 'c']))))
simple(A, 'scale', lambda m: (signal.scale, [m.arr(12)], {}))
simple(A, 'pyvacf', lambda m: (pydos.pyvacf, [m.arr(6, 2, 3)], dict(m=m.mass(), method=m.c.ri(1, 3))))
simple(A, 'fvacf', lambda m: (pydos.fvacf, [m.arr(6, 2, 3)], dict(m=m.mass(), method=m.c.ri(1, 2), nthreads=1)))
simple(A, 'pdos', lambda m: (pydos.pdos, [m.arr(8, 2, 3)], dict(m=m.mass(), window=m.c.coin(),
                                                              full_out=m.c.coin(), npad=m.c.choice([None, 1]))))
simple(A, 'vacf_pdos', lambda m: (pydos.vacf_pdos, [m.arr(8, 2, 3)], dict(m=m.mass(), window=m.c.coin())))
simple(A, 'direct_pdos', lambda m: (pydos.direct_pdos, [m.arr(8, 2, 3)], dict(m=m.mass(), window=m.c.coin(),
                                                                          tonext=m.c.coin())))

# text, files -------------------------------------------------------------------
A = 'io'
simple(A, 'fix_eps', lambda m: (common.fix_eps, [m.arr(4, 3)], dict(eps=0.5)))
simple(A, 'str_arr', lambda m: (common.str_arr, [m.arr(4, 3)], dict(eps=m.c.choice([0.5, -1]))))
simple(A, 'flatten', lambda m: (common.flatten, [[1, [2, [3, 4]], (5,)]], {}))
simple(A, 'pop_from_list', lambda m: (common.pop_from_list, [[1, 2, 3, 2], [2, 3]], {}))
simple(A, 'template_replace', lambda m: (common.template_replace, ['x=XX y=YY', {'XX': 1, 'YY': 2}], dict(mode='txt', conv=True)))
simple(A, 'dict2str', lambda m: (common.dict2str, [{'a': 1, 'b': [1, 2]}], {}))
simple(A, 'seq2str', lambda m: (common.seq2str, [[1, 2, 3]], {}))


def fileop(name, f):
    """f(mk, path) -> function, args, kwargs"""
    C.setdefault('files', {})[name] = f


fileop('write_cif', lambda m, p: (io.write_cif, [p, m.struct()], {}))
fileop('write_xyz', lambda m, p: (io.write_xyz, [p, m.c.choice([m.struct, m.traj])()], {}))
fileop('write_axsf', lambda m, p: (io.write_axsf, [p, m.c.choice([m.struct, m.traj])()], {}))
fileop('write_lammps', lambda m, p: (io.write_lammps, [p, m.struct(cell=m.std())], {}))
fileop('wien_sgroup', lambda m, p: (io.wien_sgroup_input, [m.struct()], {}))
fileop('write_h5', lambda m, p: (io.write_h5, [p, {'/a': m.arr(3, 2, ints=True), '/b/c': m.arr(4), 'd': 1.5, 'e': 'text'}], dict(mode='w')))
fileop('writetxt', lambda m, p: (arrayio.writetxt, [p, m.arr(3, 2, 4)], dict(axis=m.c.choice([0, 1, 2, -1]))))
fileop('dump', lambda m, p: (lambda s: s.dump(p), [m.c.choice([m.struct, m.traj])()], {}))
fileop('lammps_str', lambda m, p: (lammps.struct_str, [m.struct(cell=m.std())], {}))
fileop('atpos_str', lambda m, p: (pwscf.atpos_str, [['H', 'O', 'H'], m.arr(3, 3)], {}))
fileop('atspec_str', lambda m, p: (pwscf.atspec_str, [['H', 'O'], [1.0, 16.0], ['a', 'b']], {}))
fileop('kpoints_str', lambda m, p: (pwscf.kpoints_str, [m.L(np.array([2, 2, 3]))], {}))


@lambda f: fileop('FileTemplate', f)
def _(m, p):
    os.makedirs(p + '.d/calc.templ')
    os.makedirs(p + '.d/calc')
    with open(p + '.d/calc.templ/x.in', 'w') as fh:
        fh.write('a = XXXA\nb = XXXB\n')
    t = batch.FileTemplate(basename='x.in', templ_dir=p + '.d/calc.templ', keys=['a', 'b'])
    d = {'a': 1.5, 'b': 'text'}
    return (lambda dd: (t.write(dd, p + '.d/calc'), open(p + '.d/calc/x.in').read())[1]), [d], {}


@lambda f: fileop('makedb', f)
def _(m, p):
    lists = [[1, 2.5, 'a'], [2, 3.5, 'b']]
    return (lambda ll: sql.makedb(p, ll, ['i', 'x', 's'], table='t', mode='w')), [lists], {}


@lambda f: fileop('Calculation', f)
def _(m, p):
    params = [sql.SQLEntry(key='a', sqlval=1.5), sql.SQLEntry(key='b', sqlval='q')]
    td = p + '.d/calc.templ'
    os.makedirs(td)
    for n in ('x.in', 'job'):
        with open(os.path.join(td, n), 'w') as fh:
            fh.write('a = XXXA\nb = XXXB\ns = XXXSCRATCH\n')
    t = batch.FileTemplate(basename='x.in', templ_dir=td)
    mach = batch.Machine(hostname='h', scratch='/scr', template=batch.FileTemplate(basename='job', templ_dir=td))

    def run(ps, tt):
        batch.Calculation(machine=mach, templates=tt, params=ps, calc_dir=p + '.d/calc').write_input()
        return [open(p + '.d/calc/' + n).read() for n in sorted(os.listdir(p + '.d/calc'))], len(tt)
    return run, [params, [t]], {}


@lambda f: fileop('ParameterStudy', f)
def _(m, p):
    params = [[sql.SQLEntry(key='a', sqlval=x)] for x in (1.5, 2.5)]
    td = p + '.d/calc.templ'
    os.makedirs(td)
    for n in ('x.in', 'job'):
        with open(os.path.join(td, n), 'w') as fh:
            fh.write('a = XXXA\nb = XXXIDX\ns = XXXSCRATCH\n')
    t = batch.FileTemplate(basename='x.in', templ_dir=td)
    machs = [batch.Machine(hostname=h, scratch='/scr', template=batch.FileTemplate(basename='job', templ_dir=td)) for h in 'ab']

    def run(ms, tt, pl):
        batch.ParameterStudy(machines=ms, templates=tt, params_lst=pl, calc_root=p + '.d').write_input(mode='w', backup=False)
        out = []
        for r, dd, ff in sorted(os.walk(p + '.d')):
            out += [(r[len(p):], f, open(os.path.join(r, f)).read()) for f in sorted(ff) if not f.endswith('.db')]
        return out
    return run, [machs, [t], params], {}


# physics fits ---------------------------------------------------------------------
A = 'fits'


@op(A)
def _EosFit(m):
    v = np.linspace(30, 60, 12)
    return (lambda V, E: (lambda f: [f.params['b0'], f.get_min(), f(V), f.pressure(V)])(eos.EosFit(V, E))), [
        m.L(v), m.L(-10. + .5 * 1.2 * 44. * (v / 44. - 1.) ** 2 * (1 - (v / 44. - 1.)))], {}


@op(A)
def _HarmonicThermo(m):
    return (lambda f, d, T: [getattr(thermo.HarmonicThermo(f, d, T=T, verbose=False, skipfreq=True, dosarea=m.c.choice([None, 6.0])
            if 0 else None), w)() for w in ('evib', 'cv', 'fvib', 'svib')]), [*m.dos(), m.L(np.array([10., 300, 800]))], {}


@op(A)
def _HarmonicThermo_area(m):
    f, d = m.dos()
    f = f.copy()
    f[0] = -1.0
    return (lambda f, d, T: thermo.HarmonicThermo(f, d, T=T, verbose=False, skipfreq=True, fixnan=True, dosarea=6.0).fvib()), [
        m.L(f), d, m.L(np.array([0.0, 10., 300]))], {}


@op(A)
def _Gibbs(m):
    n = 7
    ax = np.linspace(4.0, 4.6, n)
    et = 0.8 * (ax - 4.3)**2 - 5
    ph = [np.array([np.linspace(1, 300 - 20 * i, 40), np.linspace(0, 1, 40) * 0.02]).T for i in range(n)]
    return (lambda T, P, et, ph, ax: thermo.Gibbs(T=T, P=P, etot=et, phdos=ph, axes_flat=ax, volfunc_ax=lambda x: x[0]**3,
                                                  case='1d').calc_G(calc_all=True)), [
        m.L(np.linspace(10., 100., 8)), m.L(np.array([0., 1.0])), m.L(et), ph, m.L(ax)], {}


simple(A, 'debye', lambda m: (thermo.debye_func, [m.L(np.array([0.1, 1., 3.]))], {}))
simple(A, 'expansion', lambda m: (thermo.expansion, [m.L(np.linspace(1, 300, 7)), m.L(np.array([1e-5])), m.L(np.array([200.]))], {}))
simple(A, 'Rbf', lambda m: (lambda p, v, q: (lambda r: [r(q), r(q, der=1), r.fit_error(p, v)])(rbf.Rbf(p, v, r=1e-8)),
                            [m.arr(12, 2), m.arr(12), m.arr(3, 2)], {}))
simple(A, 'Rbf_lstsq', lambda m: (lambda p, v, q: rbf.Rbf(p, v, r=None, rbf='multi')(q), [m.arr(8, 2), m.arr(8), m.arr(3, 2)], {}))
simple(A, 'estimate_p', lambda m: (rbf.estimate_p, [m.arr(8, 2)], dict(method=m.c.choice(['mean', 'scipy']))))
simple(A, 'squared_dists', lambda m: (rbf.squared_dists, [m.arr(8, 2), m.arr(4, 2)], {}))
simple(A, 'fit_opt', lambda m: (lambda p, v, ok, rk, cv: hyperopt.fit_opt(p, v, method='brute', what='p', opt_kwds=ok, rbf_kwds=rk,
                                cv=cv).get_params(), [m.arr(10, 2), m.arr(10), dict(disp=False, ranges=[(0.5, 3.0)], Ns=3, finish=None),
                                dict(r=1e-6, rbf='gauss'), None], {}))
simple(A, 'fit_opt_fmin', lambda m: (lambda p, v, ok, rk: hyperopt.fit_opt(p, v, method='fmin', what='pr', opt_kwds=ok, rbf_kwds=rk,
                                     cv=dict(n_splits=2, n_repeats=1, random_state=1)).get_params(), [m.arr(10, 2), m.arr(10),
                                     dict(disp=False, x0=[2.0, 1e-4], maxiter=3), dict(rbf='inv_multi')], {}))
simple(A, 'kpath', lambda m: (kpath.kpath, [m.arr(3, 3)], dict(N=4)))
simple(A, 'path_norm', lambda m: (kpath.get_path_norm, [m.arr(5, 3)], {}))
simple(A, 'spacegroup', lambda m: (symmetry.spglib_get_spacegroup, [m.struct(2)], {}))
simple(A, 'primitive', lambda m: (symmetry.spglib_get_primitive, [m.struct(2)], {}))
simple(A, 'same_struct', lambda m: (symmetry.is_same_struct, [m.struct(2), m.struct(2)], {}))
simple(A, 'Data2D', lambda m: (lambda x, y, z: mpl.Data2D(x=x, y=y, zz=z).Z, [m.L(np.arange(3.)), m.L(np.arange(4.)), m.arr(12)], {}))


def _monitor(ctx, area):
    names = sorted(C[area])
    name = ctx.pick(names)
    m = Mk(ctx)
    m.lays = []
    if area == 'files':
        f, args, kw = C[area][name](m, os.path.join(ctx.tmp(), 'f'))
    else:
        f, args, kw = C[area][name](m)
    ctx.note(op=name, lays=','.join(m.lays), kw=str(sorted(kw)), k=ctx.idx // len(names))
    before = snap([args, kw])
    np.random.seed(7)
    r1 = f(*args, **kw)
    d = approx(snap([args, kw]), before) if area == '-' else differ(snap([args, kw]), before)
    ctx.check(d is None, '%s changed its arguments: %s' % (name, d), key='mutate:' + name)
    s1 = snap(r1)
    np.random.seed(7)
    r2 = f(*args, **kw)
    d = differ(snap([args, kw]), before)
    ctx.check(d is None, '%s changed its arguments in the second call: %s' % (name, d), key='mutate:' + name)
    d = approx(snap(r2), s1)
    ctx.check(d is None, '%s: the second call gives something else: %s' % (name, d), key='repeat:' + name)
    d = differ(snap(r1), s1)
    ctx.check(d is None, '%s: the second call changed the first result: %s' % (name, d), key='result:' + name)


@reg.scenario(quick=1500)
def crys_ops(ctx):
    _monitor(ctx, 'crys')


@reg.scenario(quick=660)
def num_ops(ctx):
    _monitor(ctx, 'num')


@reg.scenario(quick=450)
def signal_ops(ctx):
    _monitor(ctx, 'signal')


@reg.scenario(quick=140)
def text_ops(ctx):
    _monitor(ctx, 'io')


@reg.scenario(quick=300)
def file_ops(ctx):
    _monitor(ctx, 'files')


@reg.scenario(quick=260)
def fit_ops(ctx):
    _monitor(ctx, 'fits')


# ------------------------------------------------------------------ independence of copies
def _scramble(x):
    """write into everything mutable"""
    if isinstance(x, np.ndarray) and x.dtype.kind in 'fiu':
        x[...] = -12345 if x.dtype.kind != 'u' else 77
    elif isinstance(x, list):
        x[:] = ['Xx'] * (len(x) + 1)
    elif isinstance(x, dict):
        for k in list(x):
            del x[k]
        x['zz'] = 1


@reg.scenario(quick=600)
def copies(ctx):
    m = Mk(ctx)
    m.lays = []
    traj = ctx.coin()
    obj = m.traj() if traj else m.struct()
    how = ctx.choice(['copy', 'pbc_wrap', 'center', 'compress']) if traj else ctx.choice(['copy', 'pbc_wrap', 'center', 'get_traj'])
    if ctx.coin(0.3):
        for a in ctx.rng.permutation(['forces', 'stress', 'etot', 'symbols', 'mass'])[:2]:
            setattr(obj, str(a), None)
    ctx.note(traj=traj, how=how, lays=','.join(m.lays), n=obj.natoms)

    def dup(o):
        if how == 'copy':
            return o.copy()
        if how == 'pbc_wrap':
            return crys.pbc_wrap(o)
        if how == 'center':
            return crys.center_on_atom(o, idx=0)
        if how == 'get_traj':
            return o.get_traj(2)
        return crys.compress(o)
    s0 = snap(obj)
    new = dup(obj)
    d = differ(snap(obj), s0)
    ctx.check(d is None, 'making the copy changed the original: %s' % d, key='mutate')
    s1 = snap(new)
    # no shared memory
    for a in obj.attr_lst:
        v, w = getattr(obj, a), getattr(new, a, None)
        if isinstance(v, np.ndarray) and isinstance(w, np.ndarray):
            ctx.check(not np.shares_memory(v, w), 'copy shares memory of ' + a, key='alias')
        elif isinstance(v, (list, dict)) and w is not None:
            ctx.check(v is not w, 'copy shares the %s of %s' % (type(v).__name__, a), key='alias')
    for a in new.attr_lst:
        _scramble(getattr(new, a))
    _scramble(new.units)
    d = differ(snap(obj), s0)
    ctx.check(d is None, 'changing the copy changed the original: %s' % d, key='alias')
    new = dup(obj)
    s1 = snap(new)
    for a in obj.attr_lst:
        _scramble(getattr(obj, a))
    d = differ(snap(new), s1)
    ctx.check(d is None, 'changing the original changed the copy: %s' % d, key='alias')


@reg.scenario(quick=500)
def own_arrays(ctx):
    """objects built from others have coordinates and cells of their own, also when there is nothing to do"""
    m = Mk(ctx)
    m.lays = []
    traj = ctx.coin()
    obj = m.traj() if traj else m.struct()
    n = obj.natoms
    ops = {'scell1': lambda: crys.scell(obj, ctx.choice([(1, 1, 1), [1, 1, 1], np.array([1, 1, 1])])),
           'scell': lambda: crys.scell(obj, (1, 2, 1)),
           'align': lambda: crys.align_cart(obj, cart=ctx.choice([np.eye(3), gen.rand_rot(ctx.rng)])),
           'wrap': lambda: crys.pbc_wrap(obj, mask=ctx.choice([[True] * 3, [False] * 3])),
           'center': lambda: crys.center_on_atom(obj, idx=n - 1),
           'concat': lambda: crys.concatenate([obj])}
    if traj:
        ops['mean'] = lambda: crys.mean(obj)
        ops['mean1'] = lambda: crys.mean(obj[0:1])
        ops['smooth'] = lambda: crys.smooth(obj, np.array([1., 1, 1]), method=ctx.choice([1, 2]))
        ops['smooth1'] = lambda: crys.smooth(obj, np.array([1.]))
        ops['compress'] = lambda: crys.compress(obj)
    else:
        ops['get_traj'] = lambda: obj.get_traj(ctx.choice([1, 3]))
        ops['neighbors'] = lambda: crys.nearest_neighbors_struct(obj, idx=0, num=n - 1)
        ops['mix'] = lambda: crys.mix(obj, obj, np.array([0., 1.]))
    how = ctx.choice(sorted(ops))
    if ctx.coin(0.3):
        obj.set_all()
    ctx.note(traj=traj, how=how, n=n, lays=','.join(m.lays))
    new = ops[how]()
    ctx.check(new is not obj, '%s returned its argument' % how, key='own')
    for a in ('coords', 'coords_frac') + (('cell',) if how != 'neighbors' else ()):
        v, w = getattr(new, a), getattr(obj, a)
        if v is not None and w is not None:
            ctx.check(not np.shares_memory(v, w), '%s: %s of the new object is the memory of the old one' % (how, a), key='own')
    s0 = snap({a: getattr(obj, a) for a in obj.attr_lst})
    for a in ('coords', 'coords_frac', 'cell'):
        if how != 'neighbors' or a != 'cell':
            _scramble(getattr(new, a))
    d = differ(snap({a: getattr(obj, a) for a in obj.attr_lst}), s0)
    ctx.check(d is None, '%s: writing into the new object changed the old one: %s' % (how, d), key='own')
