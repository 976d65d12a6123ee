"""C09: supercells and rigid alignment."""
import itertools
import numpy as np
from numpy import linalg as la
from vf.core import Registry
from vf import storage, gen
from pwtools import crys, num

reg = Registry('C09', 'Random structures/trajectories of all cell kinds, repetition counts (also 1 and negative) and orders, and '
               'random rotations given in every supported form; oracle: the multiset of positions built by lattice translations, '
               'composition and density, brute-force shortest distances; Gram matrices and distances for rotations.')


def _make(ctx, traj, nmax=5):
    r = ctx.rng
    n = ctx.sz(1, nmax, 60 if nmax == 5 else nmax + 3)
    kind = ctx.choice(gen.CELL_KINDS)
    syms = gen.rand_symbols(r, n)
    if traj:
        nt = ctx.sz(1, 4, 40)
        cell = gen.rand_cells(r, nt, kind) if ctx.coin() else gen.rand_cell(r, kind)
        return crys.Trajectory(coords_frac=r.uniform(-0.5, 1.5, (nt, n, 3)), cell=cell, symbols=syms), kind
    return crys.Structure(coords_frac=r.uniform(-0.5, 1.5, (n, 3)), cell=gen.rand_cell(r, kind), symbols=syms), kind


@reg.scenario(quick=1500)
def supercell(ctx):
    traj = ctx.coin(0.4)
    obj, kind = _make(ctx, traj)
    dims = [ctx.sz(1, 3, 6, .02) for _ in range(3)]
    neg = ctx.coin(0.2)
    if neg:
        dims = [d * ctx.choice([1, -1]) for d in dims]
    d_arg = ctx.choice([tuple(dims), list(dims), np.array(dims)])
    method = 1 if traj else ctx.pick([1, 2])
    kw = {}
    if ctx.coin(0.4):
        kw['direc'] = ctx.choice([1, -1])
    if method == 2 or ctx.coin(0.3):
        kw['method'] = method
    ctx.note(traj=traj, kind=kind, dims=str(dims), method=method, direc=kw.get('direc', 0), n=obj.natoms)
    keep = (obj.coords_frac.copy(), obj.cell.copy(), list(obj.symbols))
    if traj and ctx.coin(0.3):
        kw.pop('method', None)
        sc = crys.scell3d(obj, d_arg, **kw)
    else:
        sc = crys.scell(obj, d_arg, **kw)
    ctx.check(np.array_equal(obj.coords_frac, keep[0]) and np.array_equal(obj.cell, keep[1]) and obj.symbols == keep[2],
              'input untouched', key='mutate')
    N = abs(int(np.prod(dims)))
    ctx.check(sc.is_traj == traj, 'container kind')
    ctx.same(sc.natoms, obj.natoms * N, 'atom count')
    w = np.array(dims, float)[:, None] * obj.cell
    ctx.close(sc.cell, w, 'cell vectors multiplied', rtol=1e-12, atol=1e-12 * np.abs(w).max())
    if obj.nspecies:
        ctx.same(sc.nspecies, {k: v * N for k, v in obj.nspecies.items()}, 'composition')
    ctx.close(np.abs(sc.volume), N * np.abs(obj.volume), 'volume (density kept)', rtol=1e-9)
    # every atom at all translations, once; species carried along
    rngs = [range(d) if d > 0 else range(0, d, -1) for d in dims]
    T = np.array(list(itertools.product(*rngs)), float)
    for f in range(obj.nstep if traj else 1):
        cf = obj.coords_frac[f] if traj else obj.coords_frac
        cell = obj.cell[f] if traj else obj.cell
        scf = sc.coords_frac[f] if traj else sc.coords_frac
        scc = sc.coords[f] if traj else sc.coords
        mine = scf * np.array(dims, float)          # in units of the small cell
        used = np.zeros(len(mine), bool)
        for i in range(obj.natoms):
            for t in T:
                d = np.abs(mine - (cf[i] + t)).max(1)
                hit = np.nonzero((d < 1e-8) & ~used & (np.array(sc.symbols) == obj.symbols[i]))[0]
                ctx.check(len(hit) >= 1, 'atom %d shifted by %s is in the supercell' % (i, t))
                used[hit[0]] = True
        ctx.check(used.all(), 'no other atoms')
        ctx.close(scc, mine @ cell, 'Cartesian positions', rtol=1e-9, atol=1e-9 * np.abs(scc).max())
        # documented order: all copies of atom 0 first, ..., each in the order of the mask
        if kw.get('direc', 1) == 1 and not neg:
            ctx.close(mine, (cf[:, None] + T).reshape(-1, 3), 'order of the copies', rtol=1e-9, atol=1e-9)
        msk = crys.scell_mask(*dims, direc=kw.get('direc', 1))
        ctx.close(mine, (cf[:, None] + msk).reshape(-1, 3), 'order of the copies is that of the mask', rtol=1e-9, atol=1e-9)
        ctx.same(list(sc.symbols), [s for s in obj.symbols for _ in range(N)], 'species order')


@reg.scenario(quick=300)
def methods_agree(ctx):
    st, kind = _make(ctx, False)
    dims = tuple(ctx.ri(1, 4) for _ in range(3))
    direc = ctx.pick([1, -1])
    ctx.note(kind=kind, dims=str(dims), direc=direc)
    a, b = crys.scell(st, dims, method=1, direc=direc), crys.scell(st, dims, method=2, direc=direc)
    ctx.close(a.coords_frac, b.coords_frac, 'both methods: positions', rtol=1e-12, atol=1e-13)
    ctx.same(a.symbols, b.symbols, 'both methods: symbols')
    ctx.close(a.cell, b.cell, 'both methods: cell', rtol=1e-13)
    t = crys.scell(st.get_traj(3), dims, direc=direc)
    for i in range(3):
        ctx.close(t.coords_frac[i], a.coords_frac, 'frame of the trajectory variant', rtol=1e-12, atol=1e-13)
    two = crys.scell(crys.scell(st, (dims[0], 1, dims[2])), (1, dims[1], 1))
    msk = crys.scell_mask(*dims, direc=direc)
    ctx.close(a.coords_frac * dims, (st.coords_frac[:, None] + msk).reshape(-1, 3), 'order of the copies', rtol=1e-10, atol=1e-10)
    key = lambda s: sorted((sy,) + tuple(np.round(x, 6) + 0.0) for sy, x in zip(s.symbols, s.coords_frac))
    ka, kt = key(a), key(two)
    ctx.same([k[0] for k in ka], [k[0] for k in kt], 'repeating in two stages: species')


@reg.scenario(quick=400)
def distances_kept(ctx):
    """shortest image distances per original atom do not change"""
    st, kind = _make(ctx, False, nmax=3)
    dims = tuple(ctx.ri(1, 3) for _ in range(3))
    if max(dims) == 1:
        dims = (2, 1, 1)
    sc = crys.scell(st, dims)
    ctx.note(kind=kind, dims=str(dims), n=st.natoms)

    def nearest(frac, cell, i):
        im = gen.images(2)
        d = (frac[None] - frac[i] + im[:, None]) @ cell
        r = np.sqrt((d**2).sum(-1)).ravel()
        return np.sort(r[r > 1e-9 * la.norm(cell)])[:4]
    N = int(np.prod(dims))
    f0 = st.coords_frac - np.floor(st.coords_frac)
    f1 = sc.coords_frac - np.floor(sc.coords_frac)
    if gen.quality(st.cell) < 0.4:      # the brute force search over 5x5x5 images must be exhaustive
        return
    for i in range(st.natoms):
        a = nearest(f0, st.cell, i)
        b = nearest(f1, sc.cell, i * N + ctx.ri(0, N - 1))
        ctx.close(b[:1], a[:1], 'nearest image distance', rtol=1e-7)


@reg.scenario(quick=300)
def mask(ctx):
    dims = [ctx.sz(1, 4, 14) * ctx.choice([1, 1, -1]) for _ in range(3)]
    direc = ctx.pick([1, -1])
    ctx.note(dims=str(dims), direc=direc)
    m = crys.scell_mask(*dims, direc=direc)
    r = [list(range(d)) if d > 0 else list(range(0, d, -1)) for d in dims]
    want = list(itertools.product(*[x if direc == 1 else x[::-1] for x in r]))
    ctx.same(m, np.array(want, float), 'mask rows in order')


@reg.scenario(quick=1200)
def align(ctx):
    traj = ctx.coin(0.4)
    obj, kind = _make(ctx, traj, nmax=6)
    while obj.natoms < 3:
        obj, kind = _make(ctx, traj, nmax=6)
    R = gen.rand_rot(ctx.rng)           # rows: new x, y, z
    form = ctx.pick(['cart', 'xy', 'vecs', 'indices'])
    s1, s2 = ctx.rng.uniform(0.3, 4, 2)
    if form == 'cart':
        kw = dict(cart=R.copy())
    elif form == 'xy':
        kw = dict(x=R[0] * s1, y=R[1] * s2)
    elif form == 'vecs':
        v0 = ctx.rng.normal(size=3)
        kw = dict(vecs=np.array([v0, v0 + s1 * R[0], v0 + s2 * R[1]]))
    else:
        i0, i1, i2 = [int(i) for i in ctx.rng.permutation(obj.natoms)[:3]]
        c = obj.coords.copy()
        k = ctx.ri(0, c.shape[0] - 1) if traj else 0
        fr = c[k] if traj else c
        fr[i1], fr[i2] = fr[i0] + s1 * R[0], fr[i0] + s2 * R[1]
        cls = crys.Trajectory if traj else crys.Structure
        obj = cls(coords=c, cell=obj.cell, symbols=obj.symbols)
        kw = dict(indices=([k] if traj else []) + [i0, i1, i2])
    ctx.note(traj=traj, kind=kind, form=form, n=obj.natoms)
    c0, cf0, cell0 = obj.coords.copy(), obj.coords_frac.copy(), obj.cell.copy()
    k0 = {a: np.array(b).copy() for a, b in kw.items()}
    new = crys.align_cart(obj, **kw)
    for a in kw:
        ctx.same(np.array(kw[a]), k0[a], 'argument ' + a, key='mutate')
    ctx.check(np.array_equal(obj.coords, c0) and np.array_equal(obj.cell, cell0), 'input untouched', key='mutate')
    sc, scc = np.abs(c0).max(), np.abs(cell0).max()
    ctx.close(new.coords, c0 @ R.T, 'positions rotated into the new axes', rtol=1e-7, atol=1e-7 * sc)
    ctx.close(new.cell, cell0 @ R.T, 'cell rotated', rtol=1e-7, atol=1e-8 * scc)
    ctx.close(new.coords_frac, cf0, 'fractional coordinates kept', rtol=1e-12, atol=1e-13)
    ctx.close(np.abs(new.volume), np.abs(obj.volume), 'volume', rtol=1e-8)
    ctx.close(new.cryst_const, obj.cryst_const, 'lengths and angles', rtol=1e-6)
    g0, g1 = np.matmul(cell0, np.swapaxes(cell0, -1, -2)), np.matmul(new.cell, np.swapaxes(new.cell, -1, -2))
    ctx.close(g1, g0, 'metric', rtol=1e-7, atol=1e-8 * scc**2)
    ctx.same(new.symbols, obj.symbols, 'symbols')
    if form == 'indices':
        x = new.coords[k] if traj else new.coords
        d1, d2 = x[i1] - x[i0], x[i2] - x[i0]
        ctx.close(d1, [s1, 0, 0], 'first vector along x', rtol=1e-6, atol=1e-7 * max(sc, 1))
        ctx.close(d2, [0, s2, 0], 'second vector along y', rtol=1e-6, atol=1e-7 * max(sc, 1))


@reg.scenario(quick=240)
def align_rejects(ctx):
    obj, kind = _make(ctx, ctx.coin(0.3), nmax=4)
    R = gen.rand_rot(ctx.rng)
    form = ctx.pick(['cart', 'xy'])
    how = ctx.choice(['tilted', 'tilted, normalised'] if form == 'xy' else ['tilted', 'tilted, normalised', 'one longer', 'all longer', 'third tilted'])
    t = ctx.choice([-1, 1]) * ctx.choice([0.01, 0.1, 0.5, 0.9])
    if how.startswith('tilted'):
        R[1] = R[1] + t * R[0]
        if how != 'tilted':
            R[1] /= la.norm(R[1])
    elif how == 'one longer':
        R[ctx.ri(0, 2)] *= 1 + t
    elif how == 'all longer':
        R *= 1 + t
    else:
        R[2] += t * R[ctx.ri(0, 1)]
        R[2] /= la.norm(R[2])
    ctx.note(form=form, kind=kind, how=how, t=t)
    if form == 'cart':
        ctx.raises(AssertionError, crys.align_cart, obj, cart=R, _msg='non-orthogonal axes')
    else:
        ctx.raises(AssertionError, crys.align_cart, obj, x=R[0] * ctx.rng.uniform(0.3, 4), y=R[1] * ctx.rng.uniform(0.3, 4), _msg='non-orthogonal axes')


@reg.scenario(quick=400)
def euler(ctx):
    deg = ctx.coin()
    a = ctx.rng.uniform(-1, 1, 3) * np.array([2 * np.pi, np.pi, 2 * np.pi])
    if ctx.coin(0.2):
        a[ctx.ri(0, 2)] = 0.0
    ctx.note(deg=deg, k=ctx.idx)
    M = num.euler_matrix(*(np.degrees(a) if deg else a), deg=deg)
    c, s = np.cos(a), np.sin(a)
    z1 = np.array([[c[0], s[0], 0], [-s[0], c[0], 0], [0, 0, 1]])
    x = np.array([[1, 0, 0], [0, c[1], s[1]], [0, -s[1], c[1]]])
    z2 = np.array([[c[2], s[2], 0], [-s[2], c[2], 0], [0, 0, 1]])
    ctx.close(M, z2 @ x @ z1, 'Euler matrix', rtol=0, atol=1e-12)
    ctx.close(M @ M.T, np.eye(3), 'orthogonal', atol=1e-12)
    ctx.close(la.det(M), 1.0, 'proper rotation', rtol=1e-10)


storage.add(reg, 120, 'crys.scell', 'crys.scell_traj', 'crys.align_cart')
