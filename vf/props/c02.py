"""C02: coordinate transformations."""
import numpy as np
from numpy import linalg as la
from vf.core import Registry
from vf import storage, gen
from pwtools import crys, _flib

reg = Registry('C02', 'Random coordinate arrays (1-d..4-d, any xyz axis, C/Fortran/strided/reversed layouts, integer and '
               'float types) and random well-conditioned bases (2-d, 3-d, left-handed, rotated) go through the Python and the '
               'compiled transformations; the oracle compares physical positions sum_i c_i v_i.')


def _basis(ctx, m):
    if m == 3 and ctx.coin(0.7):
        return gen.rand_cell(ctx.rng)
    while True:
        b = ctx.rng.normal(size=(m, m))
        if la.cond(b) < 50:
            return b


@reg.scenario(quick=1500)
def single_cell(ctx):
    m = ctx.pick([3, 3, 3, 2, 4])
    ndim = ctx.choice([1, 2, 2, 3, 4])
    shape = [ctx.sz(1, 5, 40) for _ in range(ndim)]
    axis = ctx.ri(-ndim, ndim - 1)
    shape[axis] = m
    arr = ctx.rng.normal(size=shape) * ctx.choice([1, 1, 10, 1e-3])
    kind = ctx.choice(['float', 'float', 'float', 'int'])
    if kind == 'int':
        arr = np.rint(ctx.rng.uniform(-5, 5, shape)).astype(int)
    lname, arr = ctx.choice(gen.layouts(ctx.rng, arr))
    old, new = _basis(ctx, m), _basis(ctx, m)
    ctx.note(m=m, ndim=ndim, axis=axis, layout=lname, dtype=kind)
    keep = arr.copy()
    o2, n2 = old.copy(), new.copy()
    got = crys.coord_trans(arr, old=old, new=new, axis=axis)
    ctx.check(np.array_equal(arr, keep), 'input coordinates changed by a copying call', key='mutate')
    ctx.check(np.array_equal(old, o2) and np.array_equal(new, n2), 'input basis changed', key='mutate')
    ctx.check(got.shape == arr.shape, 'shape kept', got=got)
    pos_o = np.moveaxis(keep, axis, -1) @ old
    pos_n = np.moveaxis(got, axis, -1) @ new
    sc = np.abs(pos_o).max() + 1e-30
    ctx.close(pos_n, pos_o, 'physical position unchanged', rtol=1e-8, atol=1e-9 * sc)
    back = crys.coord_trans(got, old=new, new=old, axis=axis)
    ctx.close(back, keep.astype(float), 'reverse change restores the coordinates', rtol=1e-7, atol=1e-8 * (np.abs(keep).max() + 1e-30))
    # transitivity over a third basis
    mid = _basis(ctx, m)
    two = crys.coord_trans(crys.coord_trans(arr.astype(float), old=old, new=mid, axis=axis), old=mid, new=new, axis=axis)
    ctx.close(two, got.astype(float), 'two changes equal the direct one', rtol=1e-7, atol=1e-7 * (np.abs(got).max() + 1e-30))
    if kind == 'float':
        inpl = np.array(arr, order=ctx.choice(['C', 'F']))
        r = crys.coord_trans(inpl, old=old, new=new, axis=axis, copy=False)
        ctx.close(r, got, 'result with copy=False', rtol=1e-10, atol=1e-12 * np.abs(got).max())
        ctx.check(np.shares_memory(r, inpl) and np.array_equal(r, inpl), 'copy=False works in place')


@reg.scenario(quick=900)
def per_frame(ctx):
    m = 3
    n, nat = ctx.sz(1, 6, 150), ctx.sz(1, 6, 150)
    if ctx.coin(0.3):
        n = 3
    if ctx.coin(0.3):
        nat = 3
    timeaxis = ctx.choice([0, 0, 1, 2])
    axis = ctx.choice([-1, 1, 0])     # xyz axis of the 2d slices
    arr = ctx.rng.normal(size=(n, nat, m))
    old = np.array([_basis(ctx, m) for _ in range(n)])
    new = np.array([_basis(ctx, m) for _ in range(n)])
    sl = arr if axis in (-1, 1) else arr.transpose(0, 2, 1)
    a = np.moveaxis(sl, 0, timeaxis)
    o, w = np.moveaxis(old, 0, timeaxis), np.moveaxis(new, 0, timeaxis)
    if ctx.coin():
        a = np.asfortranarray(a)
    ctx.note(n=n, nat=nat, timeaxis=timeaxis, axis=axis)
    keep = a.copy()
    got = crys.coord_trans3d(a, old=o, new=w, axis=axis, timeaxis=timeaxis)
    ctx.check(np.array_equal(a, keep), 'input changed', key='mutate')
    ctx.check(got.shape == a.shape, 'shape', got=got, want=a)
    g = np.moveaxis(got, timeaxis, 0)
    g = g if axis in (-1, 1) else g.transpose(0, 2, 1)
    for i in range(n):
        p = arr[i] @ old[i]
        ctx.close(g[i] @ new[i], p, 'frame %d position' % i, rtol=1e-8, atol=1e-9 * np.abs(p).max())
    back = crys.coord_trans3d(got, old=w, new=o, axis=axis, timeaxis=timeaxis)
    ctx.close(back, keep, 'reverse', rtol=1e-7, atol=1e-7 * np.abs(keep).max())


@reg.scenario(quick=900)
def compiled(ctx):
    """f2py fast paths against the definition, all layouts"""
    nat, n = ctx.sz(1, 12, 200), ctx.sz(1, 6, 150)
    cells = gen.rand_cells(ctx.rng, n)
    cf = ctx.rng.uniform(-2, 3, (n, nat, 3))
    l1, acf = ctx.choice(gen.layouts(ctx.rng, cf))
    l2, acell = ctx.choice(gen.layouts(ctx.rng, cells))
    ctx.note(nat=nat, n=n, lay=l1 + '/' + l2)
    want = np.einsum('tai,tij->taj', cf, cells)
    k1, k2 = acf.copy(), acell.copy()
    got = _flib.frac2cart_traj(acf, acell)
    sc = np.abs(want).max()
    ctx.close(got, want, 'frac2cart_traj', rtol=1e-10, atol=1e-12 * sc)
    ctx.close(_flib.cart2frac_traj(got, acell), cf, 'cart2frac_traj', rtol=1e-8, atol=1e-9)
    i = ctx.ri(0, n - 1)
    ctx.close(_flib.frac2cart(acf[i], acell[i]), want[i], 'frac2cart', rtol=1e-10, atol=1e-12 * sc)
    ctx.close(_flib.cart2frac(want[i], acell[i]), cf[i], 'cart2frac', rtol=1e-8, atol=1e-9)
    ctx.check(np.array_equal(acf, k1) and np.array_equal(acell, k2), 'inputs changed', key='mutate')
    ctx.close(crys.coord_trans(acf[i], old=acell[i], new=np.eye(3)), want[i], 'coord_trans to Cartesian', rtol=1e-9, atol=1e-11 * sc)
    ctx.close(crys.coord_trans3d(acf, old=acell, new=np.repeat(np.eye(3)[None], n, 0)), want, 'coord_trans3d to Cartesian',
              rtol=1e-9, atol=1e-11 * sc)
    # linear solver used by the conversions
    m = ctx.sz(1, 7, 100)
    while True:
        A = ctx.rng.normal(size=(m, m))
        if la.cond(A) < 100:
            break
    b = ctx.rng.normal(size=m)
    A0, b0 = A.copy(), b.copy()
    x = _flib.solve(A, b)
    ctx.close(A0 @ x, b0, 'solve', rtol=1e-9, atol=1e-9)
    ctx.check(np.array_equal(A, A0) and np.array_equal(b, b0), 'solve changed its input', key='mutate')


@reg.scenario(quick=600)
def containers(ctx):
    """Structure and Trajectory convert with the same rules"""
    nat, n = ctx.sz(1, 8, 200), ctx.sz(1, 5, 150)
    varcell = ctx.coin()
    cells = gen.rand_cells(ctx.rng, n) if varcell else np.repeat(gen.rand_cell(ctx.rng)[None], n, 0)
    cf = ctx.rng.uniform(-2, 3, (n, nat, 3))
    lay, acf = ctx.choice(gen.layouts(ctx.rng, cf))
    ctx.note(nat=nat, n=n, varcell=varcell, lay=lay)
    want = np.einsum('tai,tij->taj', cf, cells)
    sc = np.abs(want).max()
    cell_in = cells if varcell else ctx.choice([cells, cells[0]])
    clay, cell_in = ctx.choice(gen.layouts(ctx.rng, cell_in))
    ckeep = cell_in.copy()
    ctx.note(celllay=clay)
    tr = crys.Trajectory(coords_frac=acf, cell=cell_in)
    ctx.close(tr.coords, want, 'Trajectory coords', rtol=1e-9, atol=1e-11 * sc)
    tr = crys.Trajectory(coords=want, cell=cell_in)
    ctx.close(tr.coords_frac, cf, 'Trajectory coords_frac', rtol=1e-8, atol=1e-9)
    ctx.check(np.array_equal(cell_in, ckeep), 'cell passed in was changed', key='mutate')
    ctx.close(tr.cell, cells, 'cell of the trajectory', rtol=1e-12)
    st = crys.Structure(coords_frac=acf[0], cell=cells[0])
    ctx.close(st.coords, want[0], 'Structure coords', rtol=1e-9, atol=1e-11 * sc)
    st = crys.Structure(coords=want[0], cell=cells[0])
    ctx.close(st.coords_frac, cf[0], 'Structure coords_frac', rtol=1e-8, atol=1e-9)


storage.add(reg, 160, 'crys.coord_trans', 'crys.coord_trans3d', 'crys.Structure', 'crys.Trajectory')
