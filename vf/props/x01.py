import itertools

import numpy as np

from pwtools import atomic_data, crys
from pwtools import random as prandom
from vf.core import Registry

reg = Registry('X01', 'Random structures for random compositions, volume/length/angle windows (including windows with impossible '
               'angles), closeness limits and attempt limits, and for skewed cells handed in by the workload; the oracle computes '
               'cell constants, volume and the distances over all periodic images itself')
HEAVY = ['H', 'C', 'N', 'O', 'F', 'Al', 'Si', 'P', 'S', 'Cl', 'Fe', 'Cu', 'Ga', 'As', 'Br', 'Ag', 'I', 'Cs', 'Au', 'Pb', 'U']


def radius(s):
    return atomic_data.pt[s]['cov_rad']


def cc_of(cell):
    a, b, c = (np.sqrt((v * v).sum()) for v in cell)
    ang = lambda u, v: np.degrees(np.arccos(np.clip((u * v).sum() / np.sqrt((u * u).sum() * (v * v).sum()), -1, 1)))
    return np.array([a, b, c, ang(cell[1], cell[2]), ang(cell[0], cell[2]), ang(cell[0], cell[1])])


def true_dist(frac, cell, rmax):
    """shortest distances over all periodic images (exact below rmax)"""
    h = 1.0 / np.sqrt((np.linalg.inv(cell)**2).sum(0))
    n = np.ceil(rmax / h).astype(int) + 1
    sh = np.array(list(itertools.product(*[range(-i, i + 1) for i in n])))
    d = frac[:, None] - frac[None]
    d = d - np.floor(d)
    r = np.empty(d.shape[:2])
    for i in range(len(frac)):
        r[i] = np.sqrt((((d[i][:, None] + sh) @ cell)**2).sum(-1)).min(1)
    return r


def settings(ctx, n=None):
    n = ctx.choice([1, 2, 2, 3, 5, 8, 14]) if n is None else n
    k = ctx.choice(['same', 'mixed', 'binary'])
    sy = [ctx.choice(HEAVY)] * n if k == 'same' else [ctx.choice(HEAVY) for _ in range(n)]
    if k == 'binary':
        two = [ctx.choice(HEAVY), ctx.choice(HEAVY)]
        sy = [two[i % 2] for i in range(n)]
    kw = {}
    if ctx.coin():
        kw['vol_scale'] = ctx.rng.uniform(1.5, 10)
    if ctx.coin():
        lo = ctx.rng.uniform(0.5, 1.0)
        kw['vol_range_scale'] = [lo, lo + ctx.choice([ctx.rng.uniform(0.1, 1), 0.02])]
    if ctx.coin():
        lo = ctx.rng.uniform(0.5, 1.0)
        # narrow ranges too, down to a single length
        w = ctx.choice([ctx.rng.uniform(0.2, 1)] * 3 + [0.05, 0.01, 0.0])
        if w < 0.1:
            lo = ctx.rng.uniform(0.9, 1.15)
        kw['length_range_scale'] = [lo, lo + w]
    if ctx.coin(0.6):
        kw['angle_range'] = ctx.choice([[60.0, 120.0], [90.0, 90.0], [80.0, 100.0], [40.0, 150.0], [20.0, 60.0], [100.0, 140.0], [50.0, 70.0]])
    if ctx.coin(0.7):
        kw['close_scale'] = ctx.choice([0.05, 0.5, 0.8, 1.0, 1.15])
    if ctx.coin():
        kw['cell_maxtry'] = ctx.choice([1, 5, 1000])
    if ctx.coin():
        kw['atom_maxtry'] = ctx.choice([1, 20, 300])
    return sy, kw


def limits(sy, kw):
    r = np.array([radius(s) for s in sy])
    vm = 4 / 3. * np.pi * (r**3).sum() * kw.get('vol_scale', 4)
    vr = [vm * x for x in kw.get('vol_range_scale', [0.7, 1.3])]
    lr = [vm**(1 / 3.) * x for x in kw.get('length_range_scale', [0.7, 1.3])]
    return r, vr, lr, kw.get('angle_range', [60.0, 120.0]), (r[:, None] + r) * kw.get('close_scale', 1)


def judge(ctx, st, sy, kw, cell_free=True):
    r, vr, lr, ar, dmin = limits(sy, kw)
    ctx.check(isinstance(st, crys.Structure), 'a structure is returned', got=type(st))
    ctx.check(list(st.symbols) == list(sy), 'species', got=st.symbols, want=sy)
    ctx.check(st.coords_frac.shape == (len(sy), 3) and np.isfinite(st.coords_frac).all(), 'coordinates', got=st.coords_frac)
    ctx.check((st.coords_frac >= 0).all() and (st.coords_frac < 1).all(), 'atoms inside the cell', got=st.coords_frac)
    ctx.close(st.coords, st.coords_frac @ st.cell, 'Cartesian coordinates', rtol=1e-12, atol=1e-9)
    cc = cc_of(st.cell)
    ctx.close(st.cryst_const, cc, 'cell constants', rtol=1e-7, atol=1e-5)
    if cell_free:
        e = 1e-7
        ctx.check((cc[:3] >= lr[0] * (1 - e)).all() and (cc[:3] <= lr[1] * (1 + e)).all(), 'cell lengths in their range', got=cc[:3], want=lr)
        ctx.check((cc[3:] >= ar[0] - 1e-5).all() and (cc[3:] <= ar[1] + 1e-5).all(), 'cell angles in their range', got=cc[3:], want=ar)
        v = abs(np.linalg.det(st.cell))
        ctx.check(vr[0] * (1 - e) <= v <= vr[1] * (1 + e), 'cell volume in its range', got=v, want=vr)
    if len(sy) > 1:
        d = true_dist(st.coords_frac, st.cell, dmin.max())
        iu = np.triu_indices(len(sy), 1)
        bad = d[iu] < dmin[iu] * (1 - 1e-9)
        ctx.check(not bad.any(), 'atoms closer than allowed', got=d[iu][bad], want=dmin[iu][bad])
        ctx.count('pairs checked', len(iu[0]))


def counters(ctx, rs, n, kw, failed=None):
    c = rs.counters
    cm, am = kw.get('cell_maxtry', 100), kw.get('atom_maxtry', 1000)
    if failed is None:
        ctx.check(1 <= c['cryst_const'] <= cm, 'attempts for the cell', got=c['cryst_const'], want=cm)
        ctx.check(len(c['coords']) == n and all(1 <= x <= am for x in c['coords']), 'attempts per atom', got=c['coords'], want=am)
        ctx.check(c['coords'][0] == 1, 'first atom is placed at once', got=c['coords'])


@reg.scenario(quick=500, thorough=8000)
def structures(ctx):
    """constraints on every generated structure; failures"""
    sy, kw = settings(ctx)
    ctx.note(n=len(sy), close=kw.get('close_scale', 'default'), angles=str(kw.get('angle_range', 'default')),
             tries='%s/%s' % (kw.get('cell_maxtry', '-'), kw.get('atom_maxtry', '-')))
    np.random.seed(ctx.ri(0, 2**31 - 1))
    state = np.random.get_state()
    given = (list(sy), {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()})
    rs = prandom.RandomStructure(sy, **kw)
    r, vr, lr, ar, dmin = limits(sy, kw)
    ctx.close(rs.dij_min, dmin, 'minimal distances', rtol=1e-10)
    ctx.close(rs.vol_range, vr, 'volume range', rtol=1e-10)
    ctx.close(rs.length_range, lr, 'length range', rtol=1e-10)
    ok = []
    for i in range(ctx.ri(1, 4)):
        try:
            st = rs.get_random_struct(fail=True) if ctx.coin() else rs.get_random_struct()
        except prandom.RandomStructureFail as ex:
            ctx.check(str(ex) != '', 'failure has a message')
            ctx.count('reported failures')
            continue
        judge(ctx, st, sy, kw)
        counters(ctx, rs, len(sy), kw)
        ok.append((st, st.coords_frac.copy(), st.cell.copy()))
        ctx.count('structures')
    ctx.same((list(sy), {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}), given, "caller's settings changed")
    for st, f, c in ok:
        ctx.same((st.coords_frac, st.cell), (f, c), 'earlier structure changed by a later one')
    # same random state, same structure
    np.random.set_state(state)
    try:
        st = prandom.random_struct(sy, **kw)
        judge(ctx, st, sy, kw)
        np.random.set_state(state)
        s2 = prandom.RandomStructure(sy, **kw).get_random_struct()
        ctx.same((s2.coords_frac, s2.cell), (st.coords_frac, st.cell), 'same random state, other structure')
    except prandom.RandomStructureFail:
        ctx.count('reported failures')


class Given(prandom.RandomStructure):
    cc = None

    def get_random_cryst_const(self):
        self.counters['cryst_const'] = 1
        return np.array(self.cc)


@reg.scenario(quick=300, thorough=5000)
def skewed(ctx):
    """given skewed or flat cells: closeness over periodic images"""
    n = ctx.ri(2, 6)
    sy, kw = settings(ctx, n)
    kw.pop('angle_range', None)
    kw['atom_maxtry'] = ctx.choice([50, 300])
    rs = Given(sy, **kw)
    L = rs.dij_min.max()
    for _ in range(100):
        cc = np.concatenate([L * ctx.rng.uniform(0.6, 2.5, 3), ctx.rng.uniform(*ctx.choice([(35, 145), (45, 60), (115, 119.9), (80, 100)]), 3)])
        try:
            cell = crys.cc2cell(cc)
        except ValueError:
            continue
        if np.isfinite(cell).all() and abs(np.linalg.det(cell)) > 0.1 * np.prod(cc[:3]):
            break
    else:
        cc = np.array([2 * L] * 3 + [90.] * 3)
    rs.cc = cc
    ctx.note(n=n, close=kw.get('close_scale', 'default'), angles='%d' % (cc[3:].sum() // 30 * 30))
    np.random.seed(ctx.ri(0, 2**31 - 1))
    for _ in range(4):
        try:
            st = rs.get_random_struct()
        except prandom.RandomStructureFail:
            ctx.count('reported failures')
            ctx.check(rs.counters['coords'][-1] > kw['atom_maxtry'], 'failure after the allowed attempts', got=rs.counters['coords'])
            continue
        ctx.close(cc_of(st.cell), cc, 'given cell used', rtol=1e-6, atol=1e-5)
        judge(ctx, st, sy, kw, cell_free=False)
        counters(ctx, rs, n, kw)
        ctx.count('structures')


@reg.scenario(quick=80, thorough=800)
def failing(ctx):
    """impossible settings are reported, fail=False goes on until it works"""
    case = ctx.choice(['volume', 'dense', 'angles', 'nofail'])
    n = ctx.ri(2, 5)
    sy = ['Si'] * n
    ctx.note(case=case, n=n)
    np.random.seed(ctx.ri(0, 2**31 - 1))
    if case == 'volume':
        kw = dict(vol_range_scale=[5, 6], length_range_scale=[0.5, 1.0], cell_maxtry=ctx.ri(1, 50))
    elif case == 'dense':
        kw = dict(close_scale=30, atom_maxtry=ctx.ri(1, 30))
    elif case == 'angles':
        kw = dict(angle_range=ctx.choice([[121., 140.], [150., 170.]]), cell_maxtry=ctx.ri(1, 200))
    else:
        kw = dict(cell_maxtry=3, atom_maxtry=4, vol_range_scale=[0.9, 1.1])
    rs = prandom.RandomStructure(sy, **kw)
    if case == 'nofail':
        for _ in range(3):
            st = rs.get_random_struct(fail=False)
            judge(ctx, st, sy, kw)
            counters(ctx, rs, n, kw)
        return
    ctx.raises(prandom.RandomStructureFail, rs.get_random_struct, _msg='impossible settings')
    ctx.raises(prandom.RandomStructureFail, prandom.random_struct, sy, _msg='impossible settings', **kw)
    ctx.raises(Exception, prandom.RandomStructure, ['Si', 'Qq'], _msg='unknown element')
    if case == 'dense':
        ctx.same(rs.counters['coords'], [1, kw['atom_maxtry'] + 1], 'attempts counted')
        ctx.check(1 <= rs.counters['cryst_const'] <= 100, 'cell attempts', got=rs.counters)
