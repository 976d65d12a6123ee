"""C03: periodic wrapping, distances, angles, neighbours."""
import numpy as np
from numpy import linalg as la
from vf.core import Registry
from vf import storage, gen
from pwtools import crys, num, _flib

reg = Registry('C03', 'Random structures and trajectories (all cell kinds incl. skewed and left-handed, atoms inside, on faces, '
               'several cells away) go through wrapping, distance, angle and neighbour functions; oracles: definition in numpy, '
               'brute-force search over 5x5x5 images, invariance under lattice translations and permutations.')


def _coords(ctx, n):
    k = ctx.choice(['in', 'wide', 'faces', 'far'])
    cf = ctx.rng.uniform(0, 1, (n, 3))
    if k == 'wide':
        cf = ctx.rng.uniform(-1.5, 2.5, (n, 3))
    elif k == 'far':
        cf += ctx.rng.integers(-20, 20, (n, 3))
    elif k == 'faces':
        m = ctx.rng.random((n, 3)) < 0.4
        cf[m] = ctx.rng.integers(-2, 3, m.sum())
    ctx.note(where=k)
    return cf


@reg.scenario(quick=1200)
def wrapping(ctx):
    ndim = ctx.pick([2, 3])
    ax = ctx.ri(-ndim, ndim - 1)
    n = ctx.sz(1, 9, 150)
    cf = _coords(ctx, n)
    if ndim == 3:
        cf = np.array([cf + ctx.rng.integers(-3, 4, cf.shape) * ctx.rng.random() for _ in range(ctx.sz(1, 4, 150))])
    arr = np.moveaxis(cf, -1, ax)
    lay, arr = ctx.choice(gen.layouts(ctx.rng, arr))
    mask = [bool(x) for x in ctx.rng.integers(0, 2, 3)] if ctx.coin() else [True] * 3
    ctx.note(ndim=ndim, axis=ax, mask=str(mask), lay=lay)
    keep = arr.copy()
    kw = dict(mask=mask) if mask != [True] * 3 else {}
    got = crys.pbc_wrap_coords(arr, xyz_axis=ax, **kw)
    ctx.check(np.array_equal(arr, keep), 'input changed', key='mutate')
    g, o = np.moveaxis(got, ax, -1), np.moveaxis(keep, ax, -1)
    for i in range(3):
        if mask[i]:
            ctx.check((g[..., i] >= 0).all() and (g[..., i] <= 1).all(), 'wrapped direction inside the cell', got=g[..., i])
            sh = g[..., i] - o[..., i]
            ctx.close(sh, np.rint(sh), 'shift is an integer', atol=1e-9)
        else:
            ctx.check(np.array_equal(g[..., i], o[..., i]), 'unselected direction untouched')
    r = crys.pbc_wrap_coords(arr, copy=False, xyz_axis=ax, **kw)
    ctx.check(np.array_equal(arr, got) and np.shares_memory(r, arr), 'copy=False is in place')


@reg.scenario(quick=600)
def wrap_objects(ctx):
    n, nt = ctx.sz(1, 7, 120), ctx.sz(1, 4, 150)
    traj = ctx.coin()
    mask = [bool(x) for x in ctx.rng.integers(0, 2, 3)] if ctx.coin() else [True] * 3
    cell = gen.rand_cell(ctx.rng)
    syms = gen.rand_symbols(ctx.rng, n)
    ctx.note(n=n, traj=traj, mask=str(mask))
    if traj:
        cf = np.array([_coords(ctx, n) for _ in range(nt)])
        cells = gen.rand_cells(ctx.rng, nt)
        obj = crys.Trajectory(coords_frac=cf.copy(), cell=cells, symbols=syms, forces=ctx.rng.normal(size=cf.shape))
    else:
        cf, cells = _coords(ctx, n), cell
        obj = crys.Structure(coords_frac=cf.copy(), cell=cells, symbols=syms, forces=ctx.rng.normal(size=cf.shape))
    if ctx.coin():   # given by Cartesian coordinates instead
        obj = (crys.Trajectory if traj else crys.Structure)(coords=obj.coords.copy(), cell=cells, symbols=syms, forces=obj.forces)
        cf = obj.coords_frac.copy()
    c0 = obj.coords.copy()
    new = crys.pbc_wrap(obj, mask=mask)
    ctx.close(obj.coords_frac, cf, 'original keeps its fractional coordinates', rtol=0, atol=0)
    ctx.close(obj.coords, c0, 'original keeps its Cartesian coordinates', rtol=0, atol=0)
    d = new.coords_frac - cf
    ctx.close(d, np.rint(d), 'integer shifts', atol=1e-8)
    for i in range(3):
        if mask[i]:
            ctx.check((new.coords_frac[..., i] >= 0).all() and (new.coords_frac[..., i] <= 1).all(), 'in cell')
        else:
            ctx.close(d[..., i], 0 * d[..., i], 'unselected direction', atol=0)
    want = np.matmul(new.coords_frac, cells)
    ctx.close(new.coords, want, 'coords follow coords_frac', rtol=1e-8, atol=1e-8 * np.abs(want).max())
    ctx.check(list(new.symbols) == syms and np.array_equal(new.forces, obj.forces), 'other data kept')
    if ctx.coin():
        r = crys.pbc_wrap(obj, copy=False, mask=mask)
        ctx.close(obj.coords_frac, new.coords_frac, 'in-place variant changes the object', atol=1e-12)
        ctx.close(r.coords, new.coords, 'in-place variant result', rtol=1e-9, atol=1e-9 * np.abs(want).max())


def _half(d):
    return d - np.floor(d + 0.5)


@reg.scenario(quick=1200)
def dist(ctx):
    n = ctx.sz(1, 13, 70)
    kind = ctx.choice(gen.CELL_KINDS)
    cell = gen.rand_cell(ctx.rng, kind)
    cf = _coords(ctx, n)
    pbc = ctx.coin(0.7)
    ctx.note(n=n, kind=kind, pbc=pbc)
    if pbc:
        # keep away from the exact tie at 1/2, where two images are equally near
        for _ in range(3):
            d = cf[:, None] - cf[None]
            f = np.abs(np.abs(_half(d)) - 0.5) < 1e-7
            if not f.any():
                break
            cf = cf + ctx.rng.uniform(-1e-3, 1e-3, cf.shape)
    st = crys.Structure(coords_frac=ctx.choice(gen.layouts(ctx.rng, cf))[1], cell=ctx.choice(gen.layouts(ctx.rng, cell))[1],
                        symbols=['H'] * n)
    d = cf[:, None] - cf[None]
    wf = _half(d) if pbc else d
    wv = wf @ cell
    wd = np.sqrt((wv**2).sum(-1))
    sc = np.abs(wd).max() + la.norm(cell) + np.abs(cf).max() * la.norm(cell)
    dists, vecs, fr = crys.distances(st, pbc=pbc, fullout=True)
    ctx.close(fr, wf, 'fractional difference vectors', rtol=1e-9, atol=1e-11 * (1 + np.abs(cf).max()))
    ctx.close(vecs, wv, 'difference vectors', rtol=1e-9, atol=1e-11 * sc)
    ctx.close(dists, wd, 'distances', rtol=1e-9, atol=1e-11 * sc)
    ctx.close(crys.distances(st, pbc=pbc, squared=True), wd**2, 'squared distances', rtol=1e-9, atol=1e-11 * sc**2)
    ctx.close(crys.distances(st, pbc=pbc), wd, 'plain output', rtol=1e-9, atol=1e-11 * sc)
    ctx.close(dists, dists.T, 'symmetric', rtol=1e-10, atol=1e-12 * sc)
    m = crys.min_image_convention(d, copy=True)
    ctx.close(m, _half(d), 'min_image_convention', rtol=1e-9, atol=1e-10 * (1 + np.abs(cf).max()))
    ctx.check((m >= -0.5).all() and (m <= 0.5).all(), 'min image range')
    rm = crys.rmax_smith(cell)
    ctx.close(rm, gen.inscribed_radius(cell), 'radius of the inscribed sphere', rtol=1e-9)
    if pbc:
        sh = ctx.rng.integers(-3, 4, (n, 3))
        st2 = crys.Structure(coords_frac=cf + sh, cell=cell, symbols=['H'] * n)
        ctx.close(crys.distances(st2, pbc=True), wd, 'invariant under lattice translations', rtol=1e-7, atol=1e-9 * sc)
        true = gen.true_min_dists(cf, cell)
        off = ~np.eye(n, dtype=bool)
        ins = ((wd < rm * (1 - 1e-9)) | (true < rm * (1 - 1e-9))) & off
        ctx.count('pairs_inside_sphere', int(ins.sum()))
        ctx.close(dists[ins], true[ins], 'true nearest image inside the inscribed sphere', rtol=1e-8, atol=1e-10 * sc)


@reg.scenario(quick=600)
def dist_traj(ctx):
    n, nt = ctx.sz(1, 9, 40), ctx.sz(1, 7, 120)
    varcell = ctx.coin()
    pbc = ctx.coin(0.7)
    cells = gen.rand_cells(ctx.rng, nt) if varcell else np.repeat(gen.rand_cell(ctx.rng)[None], nt, 0)
    cf = np.array([_coords(ctx, n) for _ in range(nt)]) + ctx.rng.uniform(-1e-3, 1e-3, (nt, n, 3))
    ctx.note(n=n, nt=nt, varcell=varcell, pbc=pbc)
    tr = crys.Trajectory(coords_frac=ctx.choice(gen.layouts(ctx.rng, cf))[1], cell=cells, symbols=['H'] * n)
    got = crys.distances_traj(tr, pbc=pbc)
    d = cf[:, :, None] - cf[:, None]
    w = _half(d) if pbc else d
    wd = np.sqrt((np.matmul(w.reshape(nt, n * n, 3), cells)**2).sum(-1)).reshape(nt, n, n)
    sc = np.abs(wd).max() + la.norm(cells[0]) * (1 + np.abs(cf).max())
    ctx.close(got, wd, 'trajectory distances', rtol=1e-9, atol=1e-10 * sc)
    i = ctx.ri(0, nt - 1)
    ctx.close(crys.distances(crys.Structure(coords_frac=cf[i], cell=cells[i], symbols=['H'] * n), pbc=pbc), got[i],
              'single structure equals the frame', rtol=1e-10, atol=1e-11 * sc)
    ref = ctx.choice([0, -1, nt // 2])
    want = np.sqrt(((tr.coords - tr.coords[ref][None])**2).sum((1, 2)) / n)
    ctx.close(crys.rmsd(tr, ref_idx=ref), want, 'rmsd', rtol=1e-10, atol=1e-12 * sc)
    nx, ny, nd = ctx.sz(1, 8, 120), ctx.sz(1, 8, 120), ctx.sz(1, 5, 30)
    a, b = ctx.rng.normal(size=(nx, nd)), ctx.rng.normal(size=(ny, nd))
    ctx.close(num.distsq(ctx.choice(gen.layouts(ctx.rng, a))[1], b), ((a[:, None] - b[None])**2).sum(-1), 'distsq', rtol=1e-10, atol=1e-12)


@reg.scenario(quick=600)
def angle(ctx):
    n = ctx.sz(1, 6, 25)
    cell = gen.rand_cell(ctx.rng)
    cf = _coords(ctx, n) + ctx.rng.uniform(-1e-2, 1e-2, (n, 3))
    pbc, deg = ctx.coin(), ctx.coin()
    mask_val = ctx.choice([999.0, -5.0, 200.0, 1e6, -1e4, 181.5, float('%.3g' % -ctx.rng.uniform(2, 900))] + ([-1.0, -0.5, 180.5] if deg else [1.5, -1.5, 90.0]))
    if n >= 3 and ctx.coin(0.3):
        # straight line: 0 and 180 degrees
        step = np.array(ctx.choice([[0.1, 0.05, -0.02], [0.125, 0, 0], [0, 0.0625, 0]]))
        cf[1] = cf[0] + step
        cf[2] = cf[0] + step * ctx.choice([2., -1., 3.])
        ctx.note(line=True)
    ctx.note(n=n, pbc=pbc, deg=deg, mask=mask_val)
    st = crys.Structure(coords_frac=cf, cell=cell, symbols=['H'] * n)
    got = crys.angles(st, pbc=pbc, deg=deg, mask_val=mask_val)
    d = cf[:, None] - cf[None]
    v = (_half(d) if pbc else d) @ cell
    ctx.check(got.shape == (n, n, n), 'shape', got=got)
    for i in range(n):
        for j in range(n):
            for k in range(n):
                if len({i, j, k}) < 3:
                    ctx.check(got[i, j, k] == mask_val, 'masked', i=i, j=j, k=k, got=got[i, j, k])
                else:
                    a, b = v[i, j], v[i, k]
                    c = a @ b / la.norm(a) / la.norm(b)
                    if deg:
                        w = np.degrees(np.arctan2(la.norm(np.cross(a, b)), a @ b))
                        ctx.close(got[i, j, k], w, 'angle j-i-k', rtol=1e-7, atol=1e-5)
                    else:
                        ctx.close(got[i, j, k], c, 'cosine j-i-k', rtol=1e-9, atol=1e-9)


@reg.scenario(quick=1800)
def neighbours(ctx):
    n = ctx.sz(2, 14, 150)
    cell = gen.rand_cell(ctx.rng)
    cf = _coords(ctx, n) + ctx.rng.uniform(-1e-2, 1e-2, (n, 3))
    syms = gen.rand_symbols(ctx.rng, n)
    pbc = ctx.coin()
    idx = ctx.ri(0, n - 1)
    twin = None
    if ctx.coin(0.1):
        # another atom at the same place
        twin = ctx.ri(0, n - 1)
        cf[twin] = cf[idx]
        if twin != idx and ctx.coin():
            cf[twin] += [2, -1, 1]     # ... in another cell
    arg_idx = idx - n if ctx.coin(0.2) else idx
    us = sorted(set(syms))
    skip = ctx.choice([None, None, us[0], syms[idx], us[:1], us[:2], [syms[idx]], list(us), ['Xx'], us[-1],
                       tuple(us[:2]), us[:2] + us[:1], [us[-1]] * 2, ['Xx', us[0]]])
    sort = ctx.coin(0.7)
    st = crys.Structure(coords_frac=cf, cell=cell, symbols=syms)
    d = cf[:, None] - cf[None]
    dist = np.sqrt((((_half(d) if pbc else d) @ cell)**2).sum(-1))[:, idx]
    sk = [] if skip is None else ([skip] if isinstance(skip, str) else skip)
    allowed = [i for i in np.argsort(dist) if i != idx and syms[i] not in sk]
    kw = {}
    pk = {} if pbc and ctx.coin() else {'pbc': pbc}
    if ctx.coin():
        num_ = ctx.ri(1, n + 2)
        kw['num'] = num_
        want = allowed[:num_]
    else:
        s = np.sort(dist)
        k = ctx.ri(0, n - 1)
        cut = float(s[k] + (s[k + 1] if k + 1 < n else s[k] * 1.5 + 1)) / 2
        if cut < 1e-3:
            cut = 1e-3
        kw['cutoff'] = cut
        want = [i for i in allowed if dist[i] < cut]
    if (dist < 1e-8).sum() > 1:
        # atoms on top of each other: the central atom is never its own neighbour; whether the other one counts is not specified
        tw = {int(i) for i in np.nonzero(dist < 1e-8)[0]}
        ctx.note(twin=True)
        for f in (lambda: crys.nearest_neighbors(st, idx=arg_idx, skip=skip, sort=sort, **pk, **kw),
                  lambda: crys.nearest_neighbors_from_dists(crys.distances(st, pbc=pbc), syms, idx=arg_idx, skip=skip, sort=sort, **kw)):
            ni = [int(i) for i in f()]
            ctx.check(idx not in ni, 'the central atom is its own neighbour', got=ni, idx=idx)
            if 'num' not in kw:
                ctx.same(sorted(set(ni) - tw), sorted(set(int(i) for i in want) - tw), 'other neighbours')
        return
    own = syms[idx] in sk
    ctx.note(n=n, pbc=pbc, skip=('none' if not sk else 'own' if own else 'other'), nskip=len(sk), sort=sort, mode=list(kw)[0])
    if not sort:
        want = sorted(want)
    ni, nd = crys.nearest_neighbors(st, idx=arg_idx, skip=skip, sort=sort, fullout=True, **pk, **kw)
    ctx.same([int(i) for i in ni], [int(i) for i in want], 'neighbour indices (idx %d, %s)' % (idx, kw))
    ctx.close(nd, dist[want] if want else np.zeros(0), 'neighbour distances', rtol=1e-8, atol=1e-10)
    ni2 = crys.nearest_neighbors(st, idx=arg_idx, skip=skip, **({} if sort and ctx.coin() else {'sort': sort}), **pk, **kw)
    ctx.same([int(i) for i in ni2], [int(i) for i in want], 'plain output')
    dm = crys.distances(st, pbc=pbc)
    ni3 = crys.nearest_neighbors_from_dists(dm, syms, idx=arg_idx, skip=skip, sort=sort, **kw)
    ctx.same([int(i) for i in ni3], [int(i) for i in want], 'from precomputed distances')
    ns = crys.nearest_neighbors_struct(st, idx=arg_idx, skip=skip, **pk, **kw)
    keep = sorted(set(int(i) for i in want) | {idx})
    ctx.same(list(ns.symbols), [syms[i] for i in keep], 'reduced structure: species')
    ctx.close(ns.coords_frac, cf[keep], 'reduced structure: positions', rtol=1e-9, atol=1e-12)
    ctx.close(ns.cell, cell, 'reduced structure: cell', rtol=1e-12, atol=1e-12)


@reg.scenario(quick=360)
def centering(ctx):
    n, nt = ctx.sz(1, 7, 120), ctx.sz(1, 4, 150)
    traj = ctx.coin()
    shape = (nt, n, 3) if traj else (n, 3)
    cf = ctx.rng.uniform(-1, 2, shape)
    cell = gen.rand_cell(ctx.rng)
    syms = gen.rand_symbols(ctx.rng, n)
    idx = ctx.ri(-n, n - 1)
    ctx.note(n=n, traj=traj, idx=idx)
    forces = ctx.rng.normal(size=shape)
    mk = crys.Trajectory if traj else crys.Structure
    obj = mk(coords_frac=cf.copy(), cell=cell, symbols=syms, forces=forces)
    c0 = obj.coords.copy()
    new = crys.center_on_atom(obj, idx=idx)
    ctx.close(new.coords_frac[..., idx, :], np.full(shape[:-2] + (3,), 0.5), 'centre atom at 1/2', atol=1e-12)
    want = cf - cf[..., idx, :][..., None, :] + 0.5
    ctx.close(new.coords_frac, want, 'all atoms shifted alike', rtol=1e-10, atol=1e-12)
    ctx.close(new.coords, want @ cell, 'Cartesian follow', rtol=1e-8, atol=1e-9 * np.abs(cell).max())
    ctx.check(list(new.symbols) == syms and np.array_equal(new.forces, forces), 'other data kept')
    ctx.close(obj.coords_frac, cf, 'original untouched', atol=0)
    ctx.close(obj.coords, c0, 'original untouched', atol=0)
    r = crys.center_on_atom(obj, idx=idx, copy=False)
    ctx.close(obj.coords_frac, want, 'in place on request', rtol=1e-10, atol=1e-12)
    ctx.close(obj.coords, want @ cell, 'in place on request', rtol=1e-8, atol=1e-9 * np.abs(cell).max())


storage.add(reg, 440, 'crys.pbc_wrap', 'crys.pbc_wrap_coords', 'crys.min_image', 'crys.rmax_smith', 'crys.distances', 'crys.distances_traj',
            'crys.angles', 'crys.nearest_neighbors', 'crys.nearest_neighbors_from_dists', 'crys.nearest_neighbors_struct',
            'crys.center_on_atom')
