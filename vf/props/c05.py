"""C05: derived data of Structure / Trajectory, units, access order."""
import numpy as np
import ase.data
from vf.core import Registry
from vf import storage, gen
from pwtools import crys, atomic_data, constants

reg = Registry('C05', 'Structures and trajectories are built from every sufficient subset of equivalent inputs, with and without unit '
               'factors, read in random access/update orders; the oracle recomputes every derived attribute from the ground truth '
               'with plain numpy and CODATA constants; monitors also watch that user values stay and units apply once.')

KB = 1.380649e-23
EV = 1.602176634e-19
AMU = 1.66053906660e-27


def close_vol(ctx, got, cells, msg):
    ctx.close(got, np.abs(np.linalg.det(cells)), msg, rtol=1e-8)


class Truth:
    def __init__(self, ctx, traj, std_cell):
        r = ctx.rng
        self.traj = traj
        self.n = ctx.sz(1, 8, 150)
        self.nt = ctx.sz(1, 7, 150) if traj else 1
        kinds = ['cubic', 'ortho', 'hex', 'tricl', 'small', 'big'] if std_cell else gen.CELL_KINDS
        kind = ctx.choice(kinds)
        self.varcell = traj and ctx.coin()
        base = gen.rand_cell(r, kind)
        if self.varcell:
            self.cell = gen.rand_cells(r, self.nt, ctx.choice(kinds))
            if std_cell:
                self.cell = np.array([gen.cell_from_cc(*gen.cc_from_cell(c)) for c in self.cell])
        else:
            self.cell = np.repeat(base[None], self.nt, 0)
        self.cf = r.uniform(-1.5, 2.5, (self.nt, self.n, 3))
        self.symbols = gen.rand_symbols(r, self.n)
        self.coords = np.matmul(self.cf, self.cell)
        self.cc = np.array([gen.cc_from_cell(c) for c in self.cell])
        self.vol = np.abs(np.linalg.det(self.cell))
        self.forces = r.normal(size=(self.nt, self.n, 3))
        self.stress = r.normal(size=(self.nt, 3, 3))
        self.etot = r.normal(size=self.nt) * 100
        self.timestep = float(r.uniform(0.1, 3))
        self.velocity = r.normal(size=(self.nt, self.n, 3)) * 0.01
        self.kind = kind

    def masses(self):
        return np.array([ase.data.atomic_masses[ase.data.atomic_numbers[s]] for s in self.symbols])


LEN, EN, ST, FO, TE, VE, TI = 'length energy stress forces temperature velocity time'.split()


def _vel(x, dt):
    v = np.empty_like(x)
    v[1:-1] = (x[2:] - x[:-2]) / (2 * dt)
    v[0], v[-1] = v[1], v[-2]
    return v


def _ekin(v, m):
    # velocity A/fs = 1e5 m/s
    return 0.5 * ((v * 1e5)**2 * (m * AMU)[None, :, None]).sum((1, 2)) / EV


def build(ctx):
    """random object and what every attribute has to be (None: missing)"""
    traj = ctx.coin()
    have_pos = ctx.coin(0.9)
    pos = ctx.pick(['frac', 'cart', 'both']) if have_pos else 'none'
    lat = ctx.choice(['cell', 'cell', 'cc', 'both', 'none'])
    std = lat == 'cc'
    t = Truth(ctx, traj, std)
    opt = {k: ctx.coin() for k in ('symbols', 'forces', 'stress', 'etot', 'timestep', 'velocity', 'ekin', 'temperature',
                                   'pressure', 'volume')}
    if ctx.coin(0.3):
        opt = {k: False for k in opt}
        opt['symbols'] = opt['timestep'] = True
    use_units = ctx.coin(0.6)
    u = {k: float(ctx.rng.uniform(0.2, 5)) for k in (LEN, EN, ST, FO, TE, VE, TI)} if use_units else {}
    if use_units and ctx.coin(0.4):
        for k in list(u):
            if ctx.coin():
                del u[k]
    f = lambda k: u.get(k, 1.0)
    S = (lambda a: a) if traj else (lambda a: a[0])
    kw, want = {}, {}
    if lat in ('cell', 'both'):
        c = t.cell / f(LEN)
        if traj and not t.varcell and ctx.coin(0.6):
            c = c[0] if ctx.coin() else c[:1]
            ctx.note(cellform='short')
        else:
            c = S(c)
        kw['cell'] = c.copy()
    if lat in ('cc', 'both'):
        c = t.cc.copy()
        c[:, :3] /= f(LEN)
        if traj and not t.varcell and ctx.coin(0.6):
            c = c[0] if ctx.coin() else c[:1]
        else:
            c = S(c)
        kw['cryst_const'] = c.copy()
    if pos in ('cart', 'both'):
        kw['coords'] = S(t.coords / f(LEN)).copy()
    if pos in ('frac', 'both'):
        kw['coords_frac'] = S(t.cf).copy()
    if not have_pos and traj:
        # frame count unknown: only full-length per frame arrays
        for k in ('cell', 'cryst_const'):
            if k in kw:
                kw[k] = (t.cell / f(LEN) if k == 'cell' else np.concatenate([t.cc[:, :3] / f(LEN), t.cc[:, 3:]], 1))
    if opt['symbols']:
        kw['symbols'] = list(t.symbols)
    if opt['forces']:
        kw['forces'] = S(t.forces / f(FO)).copy()
    if opt['stress']:
        kw['stress'] = S(t.stress / f(ST)).copy()
    if opt['etot']:
        kw['etot'] = (t.etot / f(EN)).copy() if traj else float(t.etot[0] / f(EN))
    if traj:
        if opt['timestep']:
            kw['timestep'] = t.timestep / f(TI)
        if opt['velocity']:
            kw['velocity'] = (t.velocity / f(VE)).copy()
        if opt['ekin']:
            t.ekin = ctx.rng.uniform(0, 1, t.nt)
            kw['ekin'] = t.ekin / f(EN)
        if opt['temperature']:
            t.temperature = ctx.rng.uniform(0, 900, t.nt)
            kw['temperature'] = t.temperature / f(TE)
    if not use_units:
        if opt['pressure']:
            kw['pressure'] = ctx.rng.normal(size=t.nt) if traj else float(ctx.rng.normal())
        if opt['volume']:
            kw['volume'] = ctx.rng.uniform(1, 9, t.nt) if traj else float(ctx.rng.uniform(1, 9))
    ctx.note(traj=traj, n=t.n, nt=t.nt, pos=pos, lat=lat, units=','.join(sorted(u)), kind=t.kind, varcell=t.varcell,
             opt=','.join(sorted(k for k in kw)))
    haslat = lat != 'none'
    want['cell'] = S(t.cell) if haslat else None
    want['cryst_const'] = S(t.cc) if haslat else None
    want['volume'] = kw['volume'] if 'volume' in kw else (S(t.vol) if haslat else None)
    want['coords'] = S(t.coords) if pos in ('cart', 'both') or (pos == 'frac' and haslat) else None
    want['coords_frac'] = S(t.cf) if pos in ('frac', 'both') or (pos == 'cart' and haslat) else None
    want['forces'] = S(t.forces) if 'forces' in kw else None
    want['stress'] = S(t.stress) if 'stress' in kw else None
    want['etot'] = (t.etot if traj else t.etot[0]) if 'etot' in kw else None
    tr3 = np.trace(t.stress, axis1=1, axis2=2) / 3
    want['pressure'] = kw['pressure'] if 'pressure' in kw else (S(tr3) if 'stress' in kw else None)
    sy = t.symbols if 'symbols' in kw else None
    want['symbols'] = sy
    if not sy:
        for k in 'symbols_unique order typat znucl znucl_unique ntypat nspecies mass mass_unique'.split():
            want[k] = None
        want['natoms'] = t.n if have_pos else None
    else:
        su = sorted(set(sy))
        want['natoms'] = t.n
        want['symbols_unique'] = su
        want['order'] = {s: i + 1 for i, s in enumerate(su)}
        want['typat'] = [su.index(s) + 1 for s in sy]
        want['znucl'] = [int(ase.data.atomic_numbers[s]) for s in sy]
        want['znucl_unique'] = [int(ase.data.atomic_numbers[s]) for s in su]
        want['ntypat'] = len(su)
        want['nspecies'] = {s: sy.count(s) for s in su}
        want['mass'] = t.masses()
        want['mass_unique'] = np.array([ase.data.atomic_masses[ase.data.atomic_numbers[s]] for s in su])
    if traj:
        ts = t.timestep if 'timestep' in kw else None
        want['timestep'] = ts
        want['nstep'] = t.nt if have_pos else None
        want['time'] = np.arange(t.nt) * ts if ts is not None and have_pos else None
        if 'velocity' in kw:
            want['velocity'] = t.velocity
        elif ts is not None and want['coords'] is not None and t.nt > 2:
            want['velocity'] = _vel(t.coords, ts)
        else:
            want['velocity'] = None
        if 'ekin' in kw:
            want['ekin'] = t.ekin
        elif want['velocity'] is not None and sy:
            want['ekin'] = _ekin(want['velocity'], want['mass'])
        else:
            want['ekin'] = None
        if 'temperature' in kw:
            want['temperature'] = t.temperature
        elif want['ekin'] is not None and want['natoms'] is not None:
            want['temperature'] = want['ekin'] * EV / (1.5 * want['natoms'] * KB)
        else:
            want['temperature'] = None
    return t, kw, u, want


TOL = dict(mass=2e-3, mass_unique=2e-3, ekin=3e-3, temperature=3e-3)


def compare(ctx, name, got, want, t, given):
    if want is None:
        ctx.check(got is None, 'attribute %s cannot be derived but is set' % name, key='extra', got=got)
        return
    ctx.check(got is not None, 'attribute %s is missing' % name, key='missing')
    if name in ('symbols', 'symbols_unique', 'order', 'typat', 'znucl', 'znucl_unique', 'ntypat', 'nspecies', 'natoms', 'nstep'):
        if isinstance(want, list):
            got = list(got)
        ctx.same(got, want, name)
        return
    w = np.asarray(want)
    sc = np.abs(w).max() if w.size else 0
    rtol = 1e-12 if name in given else TOL.get(name, 1e-8)
    atol = rtol * sc
    if name == 'cryst_const':
        rtol, atol = (1e-12, 0) if name in given else (1e-8, 0)
    if name == 'velocity' and name not in given:
        atol = 1e-10 * (np.abs(t.coords).max() / t.timestep)
    if name == 'coords_frac' and name not in given:
        atol = 1e-8 * max(1, sc)
    ctx.close(got, want, 'attribute ' + name, rtol=rtol, atol=atol)


def names(traj):
    a = ['cell', 'coords', 'coords_frac', 'cryst_const', 'etot', 'forces', 'pressure', 'stress', 'symbols', 'volume', 'mass',
         'mass_unique', 'natoms', 'nspecies', 'ntypat', 'order', 'symbols_unique', 'typat', 'znucl', 'znucl_unique']
    return a + ['ekin', 'temperature', 'timestep', 'velocity', 'nstep', 'time'] if traj else a


@reg.scenario(quick=2500)
def construct(ctx):
    t, kw, u, want = build(ctx)
    cls = crys.Trajectory if t.traj else crys.Structure
    if u:
        kw = dict(kw, units=u)
    keep = {k: np.array(v).copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
    uk = dict(u)
    obj = cls(**kw)
    for rep in range(2):
        for nm in ctx.rng.permutation(names(t.traj)):
            compare(ctx, nm, getattr(obj, nm), want[nm], t, kw)
        obj.set_all()      # a second time: nothing changes
        if rep == 0 and ctx.coin():
            obj.apply_units()
    for k, v in keep.items():
        ctx.same(kw[k], v, 'input array %s' % k, key='mutate')
    ctx.same(u, uk, 'units dictionary', key='mutate')
    c = obj.copy()
    c.set_all()
    for nm in names(t.traj):
        compare(ctx, nm, getattr(c, nm), want[nm], t, kw)


@reg.scenario(quick=2500)
def lazy(ctx):
    """no automatic evaluation: attributes are asked for one by one, in any order, by any access method"""
    t, kw, u, want = build(ctx)
    if t.traj:
        # short cells are only extended by set_all
        for k in ('cell', 'cryst_const'):
            if k in kw and kw[k].shape[0] != t.nt or k in kw and kw[k].ndim == (2 if k == 'cell' else 1):
                full = t.cell.copy() if k == 'cell' else t.cc.copy()
                full = full / u.get(LEN, 1.) if k == 'cell' else np.concatenate(
                    [full[:, :3] / u.get(LEN, 1.), full[:, 3:]], 1)
                kw[k] = full
    cls = crys.Trajectory if t.traj else crys.Structure
    obj = cls(set_all_auto=False, units=u or None, **kw)
    if ctx.coin() and u:
        obj = obj.copy()
    if u:
        obj.apply_units()
    nms = list(ctx.rng.permutation(names(t.traj)))
    hist = []
    for nm in nms[:ctx.ri(3, len(nms))]:
        how = ctx.choice(['get', 'try', 'check', 'ret', 'checklst', 'apply'])
        hist.append('%s:%s' % (how, nm))
        if how == 'get':
            got = getattr(obj, 'get_' + nm)()
        elif how == 'try':
            obj.try_set_attr(nm)
            got = getattr(obj, nm)
        elif how == 'check':
            r = obj.check_set_attr(nm)
            got = getattr(obj, nm)
            ctx.check(r == (want[nm] is not None), 'check_set_attr tells whether %s is available' % nm)
        elif how == 'ret':
            got = obj.get_return_attr(nm)
        elif how == 'checklst':
            r = obj.check_set_attr_lst([nm, nms[0]])
            got = getattr(obj, nm)
            ctx.check(r == (want[nm] is not None and want[nms[0]] is not None), 'check_set_attr_lst')
        else:
            obj.apply_units()
            got = obj.get_return_attr(nm)
        compare(ctx, nm, got, want[nm], t, kw)
    ctx.note(first=','.join(hist[:2]), k=len(hist))
    obj.set_all()
    for nm in names(t.traj):
        compare(ctx, nm, getattr(obj, nm), want[nm], t, kw)


@reg.scenario(quick=800)
def update(ctx):
    """documented recalculation: set an attribute, clear the dependent ones, set_all()"""
    traj = ctx.coin()
    t = Truth(ctx, traj, False)
    S = (lambda a: a) if traj else (lambda a: a[0])
    cls = crys.Trajectory if traj else crys.Structure
    obj = cls(coords_frac=S(t.cf).copy(), cell=S(t.cell).copy(), symbols=list(t.symbols))
    cell, cf = t.cell.copy(), t.cf.copy()
    ops = []
    for _ in range(ctx.ri(1, 5)):
        op = ctx.choice(['frac', 'cart', 'cell', 'cellfrac', 'copy', 'symbols', 'redo'])
        ops.append(op)
        if op == 'frac':
            cf = ctx.rng.uniform(-1, 2, cf.shape)
            obj.coords_frac, obj.coords = S(cf).copy(), None
        elif op == 'cart':
            cf = ctx.rng.uniform(-1, 2, cf.shape)
            obj.coords, obj.coords_frac = S(np.matmul(cf, cell)), None
        elif op in ('cell', 'cellfrac'):
            new = gen.rand_cells(ctx.rng, len(cell))
            if op == 'cell':     # keeps fractional positions
                obj.coords = None
            else:                # keeps Cartesian positions
                cf = np.matmul(np.matmul(cf, cell), np.linalg.inv(new))
                obj.coords_frac = None
            cell = new
            obj.cell, obj.cryst_const, obj.volume = S(cell).copy(), None, None
        elif op == 'copy':
            obj = obj.copy()
        elif op == 'symbols':
            t.symbols = gen.rand_symbols(ctx.rng, t.n)
            obj.symbols = list(t.symbols)
            for nm in 'symbols_unique order typat znucl znucl_unique ntypat nspecies mass mass_unique'.split():
                setattr(obj, nm, None)
        obj.set_all()
    ctx.note(traj=traj, n=t.n, ops=','.join(ops))
    sc = np.abs(np.matmul(cf, cell)).max()
    ctx.close(obj.cell, S(cell), 'cell', rtol=1e-12)
    ctx.close(obj.coords_frac, S(cf), 'coords_frac', rtol=0, atol=1e-7 * max(1, np.abs(cf).max()))
    ctx.close(obj.coords, S(np.matmul(cf, cell)), 'coords', rtol=0, atol=1e-7 * sc)
    close_vol(ctx, obj.volume, S(cell), 'volume')
    ctx.close(obj.cryst_const, S(np.array([gen.cc_from_cell(c) for c in cell])), 'cryst_const', rtol=1e-8)
    ctx.same(obj.nspecies, {s: t.symbols.count(s) for s in set(t.symbols)}, 'nspecies')
    ctx.same([obj.symbols_unique[i - 1] for i in obj.typat], list(t.symbols), 'type numbers name the species')


@reg.scenario(quick=119)
def elements(ctx):
    """every element table agrees with every other"""
    z = ctx.idx % 103 + 1
    s = ase.data.chemical_symbols[z]
    ctx.note(z=z)
    ctx.same(atomic_data.numbers[s], z, 'atomic number')
    ctx.same(atomic_data.symbols[z], s, 'symbol')
    ctx.close(atomic_data.masses[z], atomic_data.pt[s]['mass'], 'mass tables agree', rtol=1e-12)
    ctx.same(atomic_data.pt[s]['number'], z, 'table number')
    ctx.close(atomic_data.masses[z], ase.data.atomic_masses[z], 'mass', rtol=0.02)
    st = crys.Structure(symbols=[s, 'H', s])
    ctx.same(st.znucl, [z, 1, z], 'znucl')
    ctx.close(st.mass, [atomic_data.masses[z], atomic_data.masses[1], atomic_data.masses[z]], 'mass')


@reg.scenario(quick=300)
def external(ctx):
    """hand-over to ASE / spglib and back"""
    t = Truth(ctx, False, False)
    st = crys.Structure(coords_frac=t.cf[0].copy(), cell=t.cell[0].copy(), symbols=list(t.symbols))
    pbc = ctx.coin()
    ctx.note(n=t.n, kind=t.kind, pbc=pbc)
    at = st.get_ase_atoms(pbc=pbc) if ctx.coin() else crys.struct2atoms(st, pbc=pbc)
    ctx.same(at.get_chemical_symbols(), t.symbols, 'symbols')
    sc = np.abs(t.coords).max()
    ctx.close(at.get_positions(), t.coords[0], 'positions', rtol=0, atol=1e-9 * sc)
    ctx.close(np.array(at.get_cell()), t.cell[0], 'cell', rtol=1e-12)
    ctx.check(bool(np.all(at.pbc == pbc)), 'pbc flag')
    ctx.same(list(at.get_atomic_numbers()), st.znucl, 'numbers')
    back = crys.atoms2struct(st.get_ase_atoms())
    ctx.same(back.symbols, t.symbols, 'symbols')
    ctx.close(back.coords, t.coords[0], 'coords back', rtol=0, atol=1e-8 * sc)
    ctx.close(back.cell, t.cell[0], 'cell back', rtol=1e-12)
    c, cf, z = st.get_spglib()
    ctx.close(c, t.cell[0], 'spglib cell')
    ctx.close(cf, t.cf[0], 'spglib frac')
    ctx.same(list(z), st.znucl, 'spglib numbers')
    fa = st.get_fake_ase_atoms()
    ctx.close(fa.get_scaled_positions(), t.cf[0], 'scaled')
    ctx.close(fa.get_positions(), t.coords[0], 'pos', rtol=0, atol=1e-9 * sc)
    ctx.same(list(fa.get_atomic_numbers()), st.znucl, 'numbers')
    ctx.same(fa.get_number_of_atoms(), t.n, 'natoms')


@reg.scenario(quick=60)
def rejects(ctx):
    ctx.note(k=ctx.idx % 3)
    k = ctx.idx % 3
    if k == 0:
        ctx.raises(Exception, crys.Structure, coords=np.zeros((2, 3)), units={'lenght': 2.0}, _msg='unknown unit name')
    elif k == 1:
        ctx.raises(Exception, crys.Structure, coord=np.zeros((2, 3)), _msg='unknown attribute')
    else:
        ctx.raises(Exception, crys.Trajectory, coords=np.zeros((2, 3)), _msg='trajectory needs 3d coordinates')


storage.add(reg, 280, 'crys.Structure', 'crys.Trajectory', 'crys.tensor2voigt', 'crys.voigt2tensor', 'crys.tensor2voigt3d',
            'crys.voigt2tensor3d', 'crys.struct2atoms')
