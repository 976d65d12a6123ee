"""C04: radial pair distribution functions."""
import numpy as np
from vf.core import Registry
from vf import storage, gen
from pwtools import crys

reg = Registry('C04', 'Random fixed-cell structures/trajectories of every cell kind with atom selections by name, bool mask or '
               'slice, distance masks and time masks; the oracle counts pairs by brute force and normalises by definition; '
               'further monitors: time additivity, translation invariance, order symmetry, untouched arguments.')


def _make(ctx, nmax=12, ntmax=5):
    n = ctx.sz(2, nmax, 4 * nmax + 20)
    nt = ctx.sz(1, ntmax, 30 * ntmax)
    kind = ctx.pick(gen.CELL_KINDS)
    cell = gen.rand_cell(ctx.rng, kind)
    cf = np.array([gen.fcc_like(ctx.rng, n) for _ in range(nt)]) + ctx.rng.uniform(-2, 2, 3)
    syms = gen.rand_symbols(ctx.rng, n, nspec=ctx.ri(1, min(3, n)))
    if n > 2 and ctx.coin(0.1):
        # atoms on top of each other in one frame
        t, (i, j) = ctx.ri(0, nt - 1), ctx.rng.permutation(n)[:2]
        cf[t, i] = cf[t, j]
        ctx.note(twins=True)
    ctx.note(n=n, nt=nt, kind=kind)
    return cell, cf, syms


def _half(d):
    return d - np.floor(d + 0.5)


def _pairs(cf0, cf1, cell, pbc):
    d = cf0[:, None] - cf1[None]
    if pbc:
        d = _half(d)
    return np.sqrt(((d @ cell)**2).sum(-1)).ravel()


def _ref(frames, n0, n1, cell, rmax, dr, nb, keepfun=None, vmd=False):
    """frames: list of flat distance arrays"""
    vol = abs(np.linalg.det(cell))
    k = np.arange(nb)
    shell = 4. / 3 * np.pi * (((k + 1) * dr)**3 - (k * dr)**3)
    g, I = np.zeros(nb), np.zeros(nb)
    for d in frames:
        dups = (d < 1e-15).sum() if vmd else 0
        dd = d[d < rmax]
        if keepfun is not None:
            dd = dd[keepfun(dd)]
        b = np.floor(dd / dr).astype(int)
        h = np.bincount(b[b < nb], minlength=nb).astype(float)
        h[0] = 0
        g += h * vol / shell / (n0 * n1 - dups)
        I += np.cumsum(h) / n0
    return (k + 0.5) * dr, g / len(frames), I / len(frames)


def _dr(ctx, rmax, frames):
    """bin width such that no distance sits on a bin edge"""
    allr = np.concatenate(frames)
    for _ in range(50):
        dr = float(rmax / ctx.rng.uniform(3, 60))
        r = allr / dr
        if (np.abs(r - np.rint(r))[r > 0.5] > 1e-7).all() and (np.abs(allr - rmax) > 1e-7 * rmax).all():
            return dr
    return None


def _check(ctx, got, ref, what):
    rad, g, I = ref
    ctx.check(got.ndim == 2 and got.shape[1] == 3, 'three columns', got=got)
    ctx.close(got[:, 0], rad, what + ': radii are bin centres', rtol=1e-9)
    ctx.close(got[:, 1], g, what + ': g(r)', rtol=1e-8, atol=1e-10 * (1 + g.max()))
    ctx.close(got[:, 2], I, what + ': number integral', rtol=1e-8, atol=1e-10)


@reg.scenario(quick=700)
def definition(ctx):
    cell, cf, syms = _make(ctx)
    nt, n = cf.shape[:2]
    pbc = ctx.coin(0.8)
    vmd = ctx.coin(0.2)
    us = sorted(set(syms))
    sy = np.array(syms)

    def sel():
        k = ctx.choice(['all', 'name', 'bool', 'slice'])
        if k == 'all':
            return k, slice(None), np.arange(n)
        if k == 'name':
            s = ctx.choice(us)
            return k, s, np.nonzero(sy == s)[0]
        if k == 'bool':
            m = ctx.rng.random(n) < 0.6
            m[ctx.ri(0, n - 1)] = True
            return k, m, np.nonzero(m)[0]
        a = ctx.ri(0, n - 1)
        s = slice(a, None, ctx.ri(1, 2))
        return k, s, np.arange(n)[s]
    nsel = ctx.choice([0, 1, 2, 2])
    sels = [sel() for _ in range(nsel)]
    idx = [s[2] for s in sels] or [np.arange(n)]
    if len(idx) == 1:
        idx = idx * 2
    amask = [s[1] for s in sels] if nsel else None
    tk = ctx.choice(['none', 'slice', 'int', 'stride'])
    tmask = {'none': None, 'slice': slice(ctx.ri(0, nt - 1), None), 'int': ctx.ri(-nt, nt - 1), 'stride': slice(None, None, 2)}[tk]
    fr_idx = np.atleast_1d(np.arange(nt)[slice(None) if tmask is None else tmask])
    rm = gen.inscribed_radius(cell)
    auto = ctx.coin(0.4)
    rmax = rm if auto else rm * float(ctx.rng.uniform(0.4, 1.6))
    frames = [_pairs(cf[t][idx[0]], cf[t][idx[1]], cell, pbc) for t in fr_idx]
    dr = _dr(ctx, rmax, frames)
    if dr is None:
        return
    if vmd and len(idx[0]) * len(idx[1]) == (frames[0] < 1e-15).sum():
        vmd = False
    dm = ctx.choice([None, None, '>', 'band', 'and'])
    c1, c2 = rmax * 0.4, rmax * 0.8
    dmask = {None: None, '>': '>= %r' % c1, 'band': '{d} < %r' % c2, 'and': '({d} > %r) & ({d} < %r)' % (c1, c2)}[dm]
    keep = {None: None, '>': lambda d: d >= c1, 'band': lambda d: d < c2, 'and': lambda d: (d > c1) & (d < c2)}[dm]
    ctx.note(pbc=pbc, vmd=vmd, sel='+'.join(s[0] for s in sels), tmask=tk, dmask=dm, auto=auto)
    form = ctx.choice(['obj', 'list1', 'list2'])
    isst = nt == 1 and ctx.coin()
    mk = (lambda: crys.Structure(coords_frac=cf[0], cell=cell, symbols=syms)) if isst else \
        (lambda: crys.Trajectory(coords_frac=cf, cell=cell, symbols=syms))
    obj = mk()
    trajs = {'obj': obj, 'list1': [obj], 'list2': [obj, mk()]}[form]
    ctx.note(form=form, struct=isst)
    kw = {}
    if not auto:
        kw['rmax'] = rmax
    a0 = None if amask is None else [x.copy() if isinstance(x, np.ndarray) else x for x in amask]
    got = crys.rpdf(trajs, dr=dr, amask=amask, tmask=tmask, dmask=dmask, pbc=pbc, norm_vmd=vmd, **kw)
    if form == 'list1':
        ctx.check(len(trajs) == 1 and trajs[0] is obj, 'list of trajectories changed', key='mutate')
    if amask is not None:
        ctx.check(len(amask) == nsel and all(type(x) is type(y) and np.all(x == y) for x, y in zip(amask, a0)),
                  'list of masks changed', key='mutate', before=a0, after=amask)
    ctx.close(obj.coords_frac, cf[0] if isst else cf, 'coordinates changed', atol=0, key='mutate')
    nb = len(got)
    ctx.check(nb in (int(np.ceil(rmax / dr)), int(np.ceil(rmax / dr)) + 1), 'number of bins', nb=nb, rmax_dr=rmax / dr)
    ref = _ref(frames, len(idx[0]), len(idx[1]), cell, rmax, dr, nb, keep, vmd)
    _check(ctx, got, ref, 'definition')
    ctx.count('pairs', int(sum(len(f) for f in frames)))


@reg.scenario(quick=300)
def relations(ctx):
    cell, cf, syms = _make(ctx, ntmax=6)
    nt, n = cf.shape[:2]
    us = sorted(set(syms))
    rm = gen.inscribed_radius(cell)
    frames = [_pairs(cf[t], cf[t], cell, True) for t in range(nt)]
    dr = _dr(ctx, rm, frames)
    if dr is None:
        return
    a, b = ctx.choice(us), ctx.choice(us)
    ctx.note(same=a == b)
    mk = lambda c: crys.Trajectory(coords_frac=c, cell=cell, symbols=syms)
    tr = mk(cf)
    g = crys.rpdf(tr, dr=dr, amask=[a, b])
    # names, masks
    sy = np.array(syms)
    ctx.close(crys.rpdf(tr, dr=dr, amask=[sy == a, sy == b]), g, 'masks equal names', rtol=1e-10, atol=1e-12)
    if a == b:
        ctx.close(crys.rpdf(tr, dr=dr, amask=[a]), g, 'one selection means both', rtol=1e-10, atol=1e-12)
    # symmetric g, number integrals weighted with atom counts
    h = crys.rpdf(tr, dr=dr, amask=[b, a])
    ctx.close(h[:, 1], g[:, 1], 'g_AB == g_BA', rtol=1e-9, atol=1e-10)
    ctx.close(h[:, 2] * (sy == b).sum(), g[:, 2] * (sy == a).sum(), 'pair counts A-B and B-A', rtol=1e-9, atol=1e-10)
    # rigid translation
    ctx.close(crys.rpdf(mk(cf + ctx.rng.uniform(-1, 1, 3)), dr=dr, amask=[a, b]), g, 'translation invariance', rtol=1e-7, atol=1e-9)
    # time additivity
    if nt > 1:
        k = ctx.ri(1, nt - 1)
        p = crys.rpdf(tr, dr=dr, amask=[a, b], tmask=slice(0, k))
        q = crys.rpdf(tr, dr=dr, amask=[a, b], tmask=slice(k, None))
        ctx.close((k * p[:, 1:] + (nt - k) * q[:, 1:]) / nt, g[:, 1:], 'time average of the parts', rtol=1e-9, atol=1e-10)
        p2 = crys.rpdf(mk(cf[:k]), dr=dr, amask=[a, b])
        ctx.close(p2, p, 'time mask equals cut trajectory', rtol=1e-10, atol=1e-12)
    ctx.close(crys.rpdf(tr, dr=dr, amask=[a, b]), g, 'repeated call', rtol=0, atol=0)
    # supercell: same crystal, same g below the original radius
    if n <= 6 and a == b and len(us) == 1:
        pass
    # all pairs are found eventually (no selection): sum over everything is N-1
    big = crys.rpdf(tr, dr=dr * 1.0, rmax=float(max(f.max() for f in frames) + 2 * dr))
    near0 = max((np.sum((f < dr) & (f > 1e-12)) for f in frames))
    if near0 == 0 and all((f < 1e-12).sum() == n for f in frames):
        ctx.close(big[-1, 2], n - 1., 'number integral converges to N-1', rtol=1e-9, atol=1e-9)


@reg.scenario(quick=60)
def separate_objects(ctx):
    """two trajectories with different coordinates: order matters"""
    cell, cf, syms = _make(ctx)
    nt, n = cf.shape[:2]
    cf2 = cf + ctx.rng.uniform(0.1, 0.2, cf.shape)
    rm = gen.inscribed_radius(cell)
    frames = [_pairs(cf[t], cf2[t], cell, True) for t in range(nt)]
    dr = _dr(ctx, rm, frames)
    if dr is None:
        return
    t1 = crys.Trajectory(coords_frac=cf, cell=cell, symbols=syms)
    t2 = crys.Trajectory(coords_frac=cf2, cell=cell, symbols=syms)
    got = crys.rpdf([t1, t2], dr=dr)
    _check(ctx, got, _ref(frames, n, n, cell, rm, dr, len(got)), 'two objects')
    ctx.raises(Exception, crys.rpdf, t1, dr=dr, maxmem=1e-12, _msg='memory limit must be honoured')


storage.add(reg, 100, 'crys.rpdf')
