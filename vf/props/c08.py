"""C08: velocities, averages, smoothing, mixing."""
import numpy as np
from scipy import ndimage
from vf.core import Registry
from vf import storage, gen
from pwtools import crys

reg = Registry('C08', 'Random trajectories (1 to many frames, any numeric type, random attribute sets) go through velocity_traj, '
               'mean, smooth and mix; oracles: the finite difference / average / mirrored convolution written out per element, '
               'exact motion laws, constant and linear trajectories, end points and linearity of mixing.')

ATTRS = dict(forces=lambda nt, n: (nt, n, 3), stress=lambda nt, n: (nt, 3, 3), etot=lambda nt, n: (nt,),
             velocity=lambda nt, n: (nt, n, 3), ekin=lambda nt, n: (nt,), temperature=lambda nt, n: (nt,),
             pressure=lambda nt, n: (nt,), volume=lambda nt, n: (nt,))
NST = ['coords', 'coords_frac', 'stress', 'forces', 'velocity', 'cell', 'cryst_const', 'pressure', 'volume', 'etot', 'ekin',
       'temperature', 'time']


@reg.scenario(quick=1500)
def velocity(ctx):
    nt = ctx.sz(3, 20, 150)
    sh = (nt,) + tuple(ctx.ri(1, 4) for _ in range(ctx.ri(0, 3)))
    dt = float(ctx.choice([1.0, 0.5, -0.3, 2, ctx.rng.uniform(0.01, 10)]))
    typ = ctx.pick(['float64', 'float32', 'int64', 'int32', 'int8'])
    law = ctx.choice(['any', 'uniform', 'quadratic'])
    tt = np.arange(nt).reshape((nt,) + (1,) * (len(sh) - 1)) * dt
    if law == 'any':
        x = ctx.rng.normal(size=sh) * 5
    else:
        a, b, c = (ctx.rng.normal(size=(1,) + sh[1:]) for _ in range(3))
        x = a + b * tt + (c * tt**2 if law == 'quadratic' else 0)
    if typ.startswith('int'):
        x = np.clip(np.rint(x * 3), -60, 60)
    x = x.astype(typ)
    lay, x = ctx.choice(gen.layouts(ctx.rng, x))
    endp = ctx.coin()
    ctx.note(nt=nt, ndim=len(sh), dt=dt, typ=typ, law=law, lay=lay, endp=endp)
    keep = x.copy()
    v = crys.velocity_traj(x, dt=dt, axis=0, endpoints=endp) if not endp or ctx.coin() else crys.velocity_traj(x, dt=dt)
    ctx.same(x, keep, 'input', key='mutate')
    xd = keep.astype(float)
    core = np.empty((nt - 2,) + sh[1:])
    for i in range(1, nt - 1):
        core[i - 1] = (xd[i + 1] - xd[i - 1]) / (2 * dt)
    want = np.concatenate([core[:1], core, core[-1:]]) if endp else core
    eps = 1e-5 if typ == 'float32' else 1e-12
    sc = np.abs(xd).max() / abs(dt)
    ctx.close(v, want, 'central differences', rtol=eps, atol=eps * sc)
    if not typ.startswith('int'):
        if law == 'uniform':
            ctx.close(v, np.broadcast_to(b, v.shape), 'uniform motion', rtol=0, atol=40 * eps * max(sc, np.abs(b).max()))
        if law == 'quadratic':
            w = b + 2 * c * tt
            g = v[1:-1] if endp else v
            ctx.close(g, w[1:-1], 'constant acceleration', rtol=0, atol=40 * eps * max(sc, np.abs(w).max()))


def make(ctx, nt, n=None, ints=False):
    r = ctx.rng
    n = n or ctx.sz(1, 5, 150)
    kw = dict(symbols=gen.rand_symbols(r, n))
    kw['cell'] = gen.rand_cells(r, nt, 'tricl') if ctx.coin() else gen.rand_cell(r)
    if kw['cell'].ndim == 3 and ctx.coin(0.3):
        kw['cell'] = kw['cell'][:1] + kw['cell'] * 10.0**ctx.ri(-7, -3)
    kw[ctx.choice(['coords', 'coords_frac'])] = r.normal(size=(nt, n, 3))
    for k, f in ATTRS.items():
        if ctx.coin():
            a = r.normal(size=f(nt, n)) * 10
            if ctx.coin(0.3):
                # small fluctuations around a constant
                a = a[:1] + a * 10.0**ctx.ri(-7, -3)
            kw[k] = np.rint(a).astype(int) if ints and ctx.coin() else a
    if ctx.coin(0.7):
        kw['timestep'] = float(r.uniform(0.1, 3))
    return crys.Trajectory(**kw)


def snap(tr):
    return {a: None if getattr(tr, a) is None else np.array(getattr(tr, a)) for a in NST}


@reg.scenario(quick=900)
def mean(ctx):
    nt = ctx.sz(1, 20, 250)
    tr = make(ctx, nt, ints=True)
    miss = []
    for a in ATTRS:
        # quantities that some frames do not have
        x = getattr(tr, a)
        if x is not None and x.dtype.kind == 'f' and ctx.coin(0.15):
            x = x.copy()
            x[ctx.rng.random(nt) < ctx.choice([0.1, 0.5])] = np.nan
            setattr(tr, a, x)
            miss.append(a)
    s0 = snap(tr)
    ctx.note(nt=nt, n=tr.natoms, attrs=','.join(a for a in NST if s0[a] is not None), miss=','.join(miss))
    part = ctx.coin(0.3)
    if part:
        tr.coords_frac = None
    st = crys.mean(tr)
    ctx.check(st.is_struct, 'mean is a structure')
    for a in NST:
        if a == 'time' or (part and a == 'coords_frac'):
            continue
        if s0[a] is None:
            ctx.check(getattr(st, a, None) is None, a + ' not invented')
        else:
            w = sum(s0[a][i].astype(float) for i in range(nt)) / nt
            ctx.close(getattr(st, a), w, 'mean ' + a, rtol=1e-10, atol=1e-10 * np.nanmax(np.abs(s0[a]), initial=0), nan_ok=True)
    ctx.same(st.symbols, tr.symbols, 'symbols')
    ctx.same(st.natoms, tr.natoms, 'natoms')
    for a in NST:
        if not (part and a == 'coords_frac'):
            ctx.check((getattr(tr, a) is None) == (s0[a] is None) and (s0[a] is None or np.array_equal(getattr(tr, a), s0[a], equal_nan=True)),
                      'trajectory untouched', key='mutate')
    if part:
        st.set_all()
        w = np.linalg.solve(st.cell.T, st.coords.T).T
        ctx.close(st.coords_frac, w, 'recalculated from the mean coords and cell', rtol=1e-7, atol=1e-7 * np.abs(w).max())
    else:
        whole = crys.mean(crys.concatenate([tr, tr]))
        ctx.close(whole.coords, st.coords, 'mean of the doubled trajectory', rtol=1e-10, atol=1e-10 * np.abs(s0['coords']).max())


@reg.scenario(quick=700)
def smooth(ctx):
    M = ctx.pick([1, 3, 5, 7, 9])
    nt = ctx.sz(max(2, (M - 1) // 2 + 1), 25, 150)
    tr = make(ctx, nt, n=ctx.ri(1, 3), ints=True)
    kern = ctx.rng.uniform(0.1, 1, M)
    if ctx.coin():
        kern = kern + kern[::-1]
    method = ctx.choice([1, 2])
    s0 = snap(tr)
    ctx.note(nt=nt, M=M, method=method, attrs=','.join(a for a in NST if s0[a] is not None))
    k0 = kern.copy()
    out = crys.smooth(tr, kern, method=method)
    ctx.same(kern, k0, 'kernel', key='mutate')
    ctx.same(out.nstep, nt, 'frame count')
    ctx.same(out.timestep, tr.timestep, 'time step')
    ctx.same(out.symbols, tr.symbols, 'symbols')
    for a in NST:
        if s0[a] is None:
            ctx.check(getattr(out, a) is None, a + ' not invented')
            continue
        x = s0[a].astype(float)
        k = (kern / kern.sum()).reshape((M,) + (1,) * (x.ndim - 1))
        w = ndimage.convolve(x, k, mode='mirror') if nt > 1 else x
        ctx.close(getattr(out, a), w, 'smoothed ' + a, rtol=1e-9, atol=1e-9 * max(1e-3, np.abs(x).max()))
        ctx.same(np.asarray(getattr(tr, a)), s0[a], 'original ' + a, key='mutate')


@reg.scenario(quick=400)
def smooth_laws(ctx):
    """constants stay (any kernel, also even or longer than the trajectory's half), values stay in range, methods agree"""
    nt = ctx.sz(4, 30, 200)
    M = ctx.ri(1, min(2 * nt - 2, 12))
    n = ctx.ri(1, 3)
    kern = ctx.rng.uniform(0, 1, M) + 1e-3
    ctx.note(nt=nt, M=M)
    cell = gen.rand_cell(ctx.rng)
    x = np.repeat(ctx.rng.normal(size=(1, n, 3)) * 5, nt, 0)
    tr = crys.Trajectory(coords=x, cell=cell, symbols=['H'] * n, etot=np.full(nt, 3.25), timestep=1.0)
    for method in (1, 2):
        o = crys.smooth(tr, kern, method=method)
        ctx.close(o.coords, x, 'constant coords', rtol=1e-9, atol=1e-11)
        ctx.close(o.cell, tr.cell, 'constant cell', rtol=1e-9, atol=1e-11)
        ctx.close(o.etot, tr.etot, 'constant etot', rtol=1e-9)
    tr = make(ctx, nt, n=n)
    a, b = crys.smooth(tr, kern), crys.smooth(tr, kern, method=2)
    for nm in NST:
        v = getattr(tr, nm)
        if v is None:
            continue
        ctx.close(getattr(a, nm), getattr(b, nm), 'methods agree: ' + nm, rtol=1e-9, atol=1e-9 * np.abs(v).max())
        g = getattr(a, nm)
        tol = 1e-9 * np.abs(v).max()
        ctx.check((g >= v.min(0) - tol).all() and (g <= v.max(0) + tol).all(), 'stays within the data: ' + nm)


@reg.scenario(quick=900)
def mix(ctx):
    n = ctx.sz(1, 6, 120)
    syms = gen.rand_symbols(ctx.rng, n)
    def st(f):
        kw = dict(forces=ctx.rng.normal(size=(n, 3))) if f else {}
        return crys.Structure(coords_frac=ctx.rng.uniform(-1, 2, (n, 3)), cell=gen.rand_cell(ctx.rng), symbols=list(syms), **kw)
    f1, f2 = ctx.coin(0.7), ctx.coin(0.7)
    a, b = st(f1), st(f2)
    al = np.sort(ctx.rng.uniform(0, 1, ctx.ri(0, 6)))
    al = np.concatenate([[0.0], al, [1.0]])
    if ctx.coin(0.3):
        al = np.concatenate([al, ctx.rng.uniform(-1, 2, 2)])
    form = ctx.choice(['array', 'list', 'tuple'])
    arg = al.copy() if form == 'array' else (list(al) if form == 'list' else tuple(al))
    c1, c2 = a.coords.copy(), b.coords.copy()
    ctx.note(n=n, f1=f1, f2=f2, na=len(al), form=form)
    tr = crys.mix(a, b, arg)
    ctx.same(tr.nstep, len(al), 'nstep == len(alpha)')
    ctx.same(tr.symbols, syms, 'symbols')
    for nm in ('coords', 'cell') + (('forces',) if f1 and f2 else ()):
        x, y = getattr(a, nm), getattr(b, nm)
        w = np.array([(1 - t) * x + t * y for t in al])
        ctx.close(getattr(tr, nm), w, 'mixed ' + nm, rtol=1e-11, atol=1e-11 * np.abs(w).max())
        ctx.close(getattr(tr, nm)[0], x, 'alpha=0 is the first structure', rtol=1e-12, atol=1e-13)
        ctx.close(getattr(tr, nm)[len(al) - 1 if len(al) < 3 or al[-1] == 1.0 else len(al) - 3], y,
                  'alpha=1 is the second structure', rtol=1e-12, atol=1e-12)
    if not (f1 and f2):
        ctx.check(tr.forces is None, 'no forces to mix')
    frac = np.array([np.linalg.solve(c.T, x.T).T for c, x in zip(tr.cell, tr.coords)
                     if gen.quality(c) > 1e-3])
    if len(frac) == len(al):
        ctx.close(tr.coords_frac, frac, 'fractional coordinates follow', rtol=1e-6, atol=1e-6 * max(1, np.abs(frac).max()))
    ctx.check(np.array_equal(a.coords, c1) and np.array_equal(b.coords, c2), 'inputs untouched', key='mutate')


storage.add(reg, 200, 'crys.velocity_traj', 'crys.mean', 'crys.smooth', 'crys.mix', 'crys.rmsd')
