"""C07: trajectory containers against a model: one list of frames per attribute."""
import numpy as np
from vf.core import Registry
from vf import storage, gen
from pwtools import crys

reg = Registry('C07', 'Random histories of slice / integer index / iterate (nested, interrupted) / concatenate / copy / compress / '
               'expand run on real trajectories with random attribute sets and on a model that keeps every attribute as a plain '
               'list of frames; after each operation all attributes are compared.')

NSTEP = ['coords', 'coords_frac', 'stress', 'forces', 'velocity', 'cell', 'cryst_const', 'pressure', 'volume', 'etot', 'ekin',
         'temperature', 'time']
ONLYTRAJ = ['ekin', 'velocity', 'temperature', 'time']
GLOBAL = ['symbols', 'mass', 'natoms', 'nspecies', 'ntypat', 'order', 'symbols_unique', 'typat', 'znucl', 'znucl_unique', 'mass_unique']


def make(ctx, n=None, syms=None, ntmax=12):
    r = ctx.rng
    n = n or ctx.sz(1, 5, 60)
    nt = ctx.sz(1, ntmax, 10 * ntmax + 10, p=0.02)
    syms = syms or gen.rand_symbols(r, n)
    kw = dict(symbols=list(syms))
    if ctx.coin(0.9):
        kw['cell'] = gen.rand_cells(r, nt, 'tricl') if ctx.coin() else gen.rand_cell(r)
    kw[ctx.choice(['coords', 'coords_frac']) if 'cell' in kw else 'coords'] = r.normal(size=(nt, n, 3))
    for k, sh in (('forces', (nt, n, 3)), ('stress', (nt, 3, 3)), ('etot', (nt,)), ('velocity', (nt, n, 3)),
                  ('ekin', (nt,)), ('temperature', (nt,)), ('pressure', (nt,)), ('volume', (nt,))):
        if ctx.coin(0.5):
            kw[k] = r.normal(size=sh)
    if ctx.coin(0.7):
        kw['timestep'] = float(r.uniform(0.1, 3))
    return crys.Trajectory(**kw)


def make_struct(ctx, n, syms):
    r = ctx.rng
    kw = dict(symbols=list(syms), coords_frac=r.normal(size=(n, 3)), cell=gen.rand_cell(r))
    for k, sh in (('forces', (n, 3)), ('stress', (3, 3))):
        if ctx.coin(0.5):
            kw[k] = r.normal(size=sh)
    if ctx.coin():
        kw['etot'] = float(r.normal())
    return crys.Structure(**kw)


class Model:
    """attribute -> list of per frame values; plus the global ones"""
    def __init__(self, tr):
        self.f = {a: [np.array(x) for x in getattr(tr, a)] for a in NSTEP if getattr(tr, a) is not None}
        self.g = {a: getattr(tr, a) for a in GLOBAL if getattr(tr, a) is not None}
        self.n = tr.nstep
        self.timestep = tr.timestep

    def take(self, idx):
        m = Model.__new__(Model)
        m.f = {a: [v[i] for i in idx] for a, v in self.f.items()}
        m.g, m.n, m.timestep = dict(self.g), len(idx), self.timestep
        return m


def same_traj(ctx, tr, m, what, exact=True):
    ctx.check(tr.is_traj and not tr.is_struct, what + ': is a trajectory')
    ctx.same(tr.nstep, m.n, what + ': nstep')
    for a in NSTEP:
        got = getattr(tr, a)
        if a not in m.f:
            ctx.check(got is None, '%s: %s is set' % (what, a), got=got)
            continue
        ctx.check(got is not None, '%s: %s got lost' % (what, a))
        ctx.same(len(got), m.n, '%s: length of %s' % (what, a))
        if m.n:
            if exact:
                ctx.same(np.asarray(got), np.array(m.f[a]), '%s: %s' % (what, a))
            else:
                w = np.array(m.f[a])
                ctx.close(np.asarray(got), w, '%s: %s' % (what, a), rtol=1e-9, atol=1e-9 * max(1, np.abs(w).max()))
    for a in GLOBAL:
        if a in m.g:
            ctx.same(getattr(tr, a), m.g[a], '%s: %s' % (what, a))
    if m.timestep is None:
        ctx.check(tr.timestep is None, what + ': timestep')
    else:
        ctx.close(tr.timestep, m.timestep, what + ': timestep', rtol=1e-12)


def same_frame(ctx, st, m, i, what):
    ctx.check(st.is_struct and not st.is_traj, what + ': is a structure')
    for a in NSTEP:
        if a in ONLYTRAJ:
            continue
        if a in m.f:
            ctx.same(np.asarray(getattr(st, a)), m.f[a][i], '%s: %s of frame %d' % (what, a, i))
        else:
            ctx.check(getattr(st, a) is None, '%s: %s is set' % (what, a))
    for a in GLOBAL:
        if a in m.g:
            ctx.same(getattr(st, a), m.g[a], '%s: %s' % (what, a))


def rand_slice(ctx, n):
    def b():
        return None if ctx.coin(0.3) else ctx.ri(-n - 2, n + 2)
    step = ctx.choice([None, None, 1, 1, 2, 3, -1, -2])
    return slice(b(), b(), step)


@reg.scenario(quick=2500)
def history(ctx):
    tr = make(ctx)
    m = Model(tr)
    n0, syms = tr.natoms, list(tr.symbols)
    live = [(tr, m)]
    ops = []
    for _ in range(ctx.ri(2, 9)):
        tr, m = ctx.choice(live)
        op = ctx.choice(['slice', 'slice', 'index', 'iter', 'nested', 'break', 'copy', 'cutjoin', 'concat', 'concat', 'framesjoin',
                         'listcomp'])
        ops.append(op)
        if op == 'slice':
            sl = rand_slice(ctx, m.n)
            new = tr[sl]
            mm = m.take(list(range(m.n))[sl])
            if mm.timestep is not None:
                mm.timestep = mm.timestep * (sl.step or 1)
            same_traj(ctx, new, mm, 'slice %s' % sl)
            if mm.n:
                live.append((new, mm))
        elif op == 'index':
            i = ctx.ri(-m.n, m.n - 1)
            i_ = np.int64(i) if ctx.coin() else i
            same_frame(ctx, tr[i_], m, i % m.n, 'index %d' % i)
            if ctx.coin(0.3):
                out = ctx.choice([m.n, m.n + 3, -m.n - 1, -m.n - 4])
                ctx.raises(IndexError, lambda: tr[out], _msg='no such frame')
        elif op in ('iter', 'listcomp'):
            k = 0
            for st in (tr if op == 'iter' else [x for x in tr]):
                same_frame(ctx, st, m, k, 'iteration')
                k += 1
            ctx.same(k, m.n, 'number of frames visited')
        elif op == 'nested':
            seen = []
            for i, a in enumerate(tr):
                for j, b in enumerate(tr):
                    seen.append((i, j))
                    same_frame(ctx, b, m, j, 'inner loop')
                same_frame(ctx, a, m, i, 'outer loop')
            ctx.same(len(seen), m.n**2, 'pairs visited by the nested loop')
        elif op == 'break':
            stop = ctx.ri(0, m.n - 1)
            for k, st in enumerate(tr):
                same_frame(ctx, st, m, k, 'interrupted loop')
                if k == stop:
                    break
            for k, st in enumerate(tr):
                same_frame(ctx, st, m, k, 'loop after an interrupted loop')
            ctx.same(k, m.n - 1, 'frames after an interrupted loop')
        elif op == 'copy':
            new = tr.copy()
            same_traj(ctx, new, m, 'copy')
            live.append((new, m))
        elif op == 'cutjoin':
            cuts = sorted(set([0, m.n] + [ctx.ri(0, m.n) for _ in range(3)]))
            parts = [tr[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
            new = crys.concatenate(parts)
            mm = m.take(range(m.n))
            mm.timestep = None
            mm.f.pop('time', None)
            same_traj(ctx, new, mm, 'cut and join')
            if ctx.coin():
                live.append((new, mm))
        elif op == 'framesjoin':
            new = crys.concatenate([st for st in tr])
            mm = m.take(range(m.n))
            mm.timestep = None
            for a in ONLYTRAJ:
                mm.f.pop(a, None)
            same_traj(ctx, new, mm, 'join frames', exact=False)
        elif op == 'concat':
            items, models = [tr], [m]
            for _ in range(ctx.ri(1, 3)):
                k = ctx.choice(['live', 'new', 'struct'])
                if k == 'live':
                    a, b = ctx.choice(live)
                elif k == 'new':
                    a = make(ctx, n=n0, syms=syms, ntmax=4)
                    b = Model(a)
                else:
                    a = make_struct(ctx, n0, syms)
                    b = Model(a.get_traj(1))
                items.append(a)
                models.append(b)
            if ctx.coin():
                p = ctx.rng.permutation(len(items))
                items, models = [items[i] for i in p], [models[i] for i in p]
            new = crys.concatenate(items)
            mm = Model.__new__(Model)
            com = set.intersection(*[set(x.f) for x in models]) - {'time'}
            mm.f = {a: sum([x.f[a] for x in models], []) for a in com}
            mm.g, mm.n, mm.timestep = m.g, sum(x.n for x in models), None
            same_traj(ctx, new, mm, 'concatenate')
            if mm.n < 40:
                live.append((new, mm))
        for tr_, m_ in live:     # nothing disturbs the others
            ctx.same(tr_.nstep, m_.n, 'nstep of an uninvolved trajectory')
    for tr_, m_ in live[:4]:
        same_traj(ctx, tr_, m_, 'at the end')
    ctx.note(ops=','.join(ops), n=n0, nt=m.n, attrs=','.join(sorted(live[0][1].f)))


@reg.scenario(quick=300)
def interleaved(ctx):
    """several iterators over the same trajectory advance independently; next() of the trajectory itself
    runs through all frames, ends and starts over"""
    tr = make(ctx, ntmax=6)
    m = Model(tr)
    its = [[iter(tr), 0] for _ in range(3)]
    sched = []
    pos = 0
    for _ in range(60):
        k = ctx.ri(0, 3)
        sched.append(k)
        if k == 3:
            try:
                st = next(tr)
            except StopIteration:
                ctx.same(pos, m.n, 'next() ended after all frames')
                pos = 0
                continue
            ctx.check(pos < m.n, 'next() ends after the last frame', pos=pos, n=m.n)
            same_frame(ctx, st, m, pos, 'next()')
            pos += 1
            continue
        it = its[k]
        if it[0] is None:
            continue
        try:
            st = next(it[0])
        except StopIteration:
            ctx.same(it[1], m.n, 'iterator ended after all frames')
            it[0] = None
            continue
        same_frame(ctx, st, m, it[1], 'iterator %d' % k)
        it[1] += 1
    ctx.note(nt=m.n, sched=''.join(map(str, sched)))


@reg.scenario(quick=600)
def expand(ctx):
    n = ctx.ri(1, 5)
    st = make_struct(ctx, n, gen.rand_symbols(ctx.rng, n))
    nt = ctx.pick([1, 2, 3, 5])
    ctx.note(n=n, nt=nt)
    c0 = st.coords.copy()
    tr = crys.struct2traj(st) if nt == 1 and ctx.coin() else st.get_traj(nt)
    ctx.same(tr.nstep, nt, 'nstep')
    for a in NSTEP:
        if a in ONLYTRAJ:
            continue
        v = getattr(st, a)
        if v is None:
            ctx.check(getattr(tr, a) is None, a + ' not invented')
        else:
            ctx.close(getattr(tr, a), np.array([v] * nt), 'repeated ' + a, rtol=1e-12)
    for a in GLOBAL:
        ctx.same(getattr(tr, a), getattr(st, a), a)
    for a in ('ekin', 'velocity', 'temperature', 'time', 'timestep'):
        ctx.check(getattr(tr, a) is None, a)
    tr.coords[...] = -1
    ctx.same(st.coords, c0, 'original not touched through the repeated one')
    back = tr[0]
    ctx.close(back.coords_frac, st.coords_frac, 'frame 0', rtol=1e-12)
    ctx.check(crys.struct2traj(tr) is tr or crys.struct2traj(tr).nstep == nt, 'trajectory stays')


@reg.scenario(quick=600)
def compress(ctx):
    tr = make(ctx)
    m = Model(tr)
    kw = {}
    forget = ['forces', 'stress', 'coords', 'cryst_const']
    if ctx.coin():
        forget = [str(x) for x in ctx.rng.permutation(NSTEP)[:ctx.ri(0, 4)]]
        kw['forget'] = list(forget)
    dt = ctx.choice([np.float32, np.float32, np.float64])
    if dt != np.float32 or ctx.coin():
        kw['dtype'] = dt
    copy = ctx.coin(0.7)
    ctx.note(forget=','.join(forget), dtype=dt.__name__, copy=copy, nt=m.n, attrs=','.join(sorted(m.f)))
    new = crys.compress(tr, copy=copy, **kw)
    if copy:
        same_traj(ctx, tr, m, 'original')
    else:
        ctx.check(new is tr, 'in place')
    for a in NSTEP:
        if a in forget or a not in m.f:
            ctx.check(getattr(new, a) is None, a + ' forgotten')
        else:
            v = getattr(new, a)
            ctx.check(v.dtype == dt, a + ' dtype', got=v.dtype)
            ctx.same(v, np.array(m.f[a]).astype(dt), a)
    ctx.same(new.symbols, m.g['symbols'], 'symbols')
    ctx.same(new.nstep, m.n, 'nstep')
    if copy:
        new.set_all()
        if 'coords' not in m.f or 'coords_frac' in forget or 'cell' in forget:
            return
        if 'coords' in m.f and 'cell' in m.f and 'coords_frac' in m.f:
            w = np.array(m.f['coords'])
            eps = float(np.finfo(dt).eps)
            sc = np.abs(w).max() + 3 * np.abs(np.array(m.f['coords_frac'])).max() * np.abs(np.array(m.f['cell'])).max()
            ctx.close(new.coords, w, 'coords recomputed', rtol=0, atol=20 * eps * sc)


storage.add(reg, 200, 'crys.concatenate', 'crys.slice', 'crys.index', 'crys.compress', 'crys.loop')
