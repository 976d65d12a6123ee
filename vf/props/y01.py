import warnings

import numpy as np

from pwtools import atomic_data, crys, symmetry
from vf.core import Inconclusive, Registry
from vf import storage

reg = Registry('Y01', 'Crystals generated from all 230 space groups (general positions) and known prototypes, described by random cells: '
               'translated, re-ordered, rotated, other lattice bases, supercells; the oracle knows the space group each crystal '
               'was generated from and compares crystals by species-resolved neighbour distances')

PROTO = dict(
    fcc=(225, [4.05] * 3 + [90] * 3, [('Al', 0, 0, 0)]), bcc=(229, [2.87] * 3 + [90] * 3, [('Fe', 0, 0, 0)]),
    sc=(221, [3.35] * 3 + [90] * 3, [('Po', 0, 0, 0)]), diamond=(227, [5.43] * 3 + [90] * 3, [('Si', 0, 0, 0)]),
    nacl=(225, [5.64] * 3 + [90] * 3, [('Na', 0, 0, 0), ('Cl', .5, .5, .5)]), cscl=(221, [4.12] * 3 + [90] * 3, [('Cs', 0, 0, 0), ('Cl', .5, .5, .5)]),
    zns=(216, [5.41] * 3 + [90] * 3, [('Zn', 0, 0, 0), ('S', .25, .25, .25)]), caf2=(225, [5.46] * 3 + [90] * 3, [('Ca', 0, 0, 0), ('F', .25, .25, .25)]),
    perov=(221, [3.9] * 3 + [90] * 3, [('Sr', 0, 0, 0), ('Ti', .5, .5, .5), ('O', .5, .5, 0)]),
    rutile=(136, [4.59, 4.59, 2.96, 90, 90, 90], [('Ti', 0, 0, 0), ('O', .305, .305, 0)]),
    hcp=(194, [3.21, 3.21, 5.21, 90, 90, 120], [('Mg', 1 / 3., 2 / 3., .25)]),
    wurtzite=(186, [3.11, 3.11, 4.98, 90, 90, 120], [('Al', 1 / 3., 2 / 3., 0), ('N', 1 / 3., 2 / 3., .382)]),
    anatase=(141, [3.78, 3.78, 9.51, 90, 90, 90], [('Ti', 0, 0, 0), ('O', 0, 0, .208)]),
    corundum=(167, [4.76, 4.76, 12.99, 90, 90, 120], [('Al', 0, 0, .352), ('O', .306, 0, .25)]))


def cellpar(ctx, n):
    a, b, c = ctx.rng.uniform(5, 7), ctx.rng.uniform(7.5, 9), ctx.rng.uniform(9.5, 12)
    al, be, ga = ctx.rng.uniform(75, 84), ctx.rng.uniform(96, 110), ctx.rng.uniform(93, 100)
    if n <= 2:
        return [a, b, c, al, be, ga]
    if n <= 15:
        return [a, b, c, 90, be, 90]
    if n <= 74:
        return [a, b, c, 90, 90, 90]
    if n <= 142:
        return [a, a, c, 90, 90, 90]
    if n <= 194:
        return [a, a, c, 90, 90, 120]
    return [b, b, b, 90, 90, 90]


def prototype(ctx):
    from ase.spacegroup import crystal
    name = ctx.choice(sorted(PROTO))
    n, cp, at = PROTO[name]
    A = crystal([a[0] for a in at], [a[1:] for a in at], spacegroup=n, cellpar=cp)
    return n, name, np.array(A.get_cell()), A.get_scaled_positions(), A.get_chemical_symbols()


def general(ctx, n=None):
    from ase.spacegroup import Spacegroup, crystal
    n = ctx.ri(1, 230) if n is None else n
    order = len(Spacegroup(n).get_symop())
    for _ in range(100):
        sy = [ctx.choice(['Si', 'O', 'Fe', 'H']), 'C']
        ba = ctx.rng.uniform(0.03, 0.47, (2, 3))
        A = crystal(sy, ba, spacegroup=n, cellpar=cellpar(ctx, n))
        fr, cell = A.get_scaled_positions(), np.array(A.get_cell())
        d = fr[:, None] - fr[None]
        d -= np.rint(d)
        r = np.sqrt(((d @ cell)**2).sum(-1)) + 9 * np.eye(len(fr))
        if r.min() > 0.15 and len(fr) == 2 * order:
            break
    else:
        raise Inconclusive('no general positions')
    return n, 'general', cell, fr, A.get_chemical_symbols()


def rotation(ctx):
    q, r = np.linalg.qr(ctx.rng.standard_normal((3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[0] *= -1
    return q


def unimodular(ctx):
    M = np.eye(3, dtype=int)
    for _ in range(ctx.ri(1, 2)):
        i, j = ctx.rng.choice(3, 2, replace=False)
        E = np.eye(3, dtype=int)
        E[i, j] = ctx.choice([-1, 1])
        M = E @ M
    return M


def variant(ctx, cell, fr, sy, how):
    sy = np.array(sy)
    if how == 'translated':
        fr = fr + ctx.rng.uniform(-1, 1, 3)
    elif how == 'ordered':
        i = ctx.rng.permutation(len(sy))
        fr, sy = fr[i], sy[i]
    elif how == 'rotated':
        cell = cell @ rotation(ctx)
    elif how == 'basis':
        M = unimodular(ctx)
        cell, fr = M @ cell, fr @ np.linalg.inv(M)
    elif how == 'supercell':
        dims = ctx.choice([(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 1, 3)]) if len(sy) < 60 else (1, 1, 2)
        st = crys.scell(crys.Structure(cell=cell, coords_frac=fr, symbols=list(sy)), dims)
        return st.cell, st.coords_frac, list(st.symbols)
    elif how == 'wrapped':
        fr = fr - np.floor(fr) + ctx.rng.integers(-2, 3, fr.shape)
    return cell, fr, list(sy)


VARS = ['translated', 'ordered', 'rotated', 'basis', 'supercell', 'wrapped']


def mk(cell, fr, sy):
    return crys.Structure(cell=np.array(cell), coords_frac=np.array(fr), symbols=list(sy))


def shells(cell, fr, sy, rmax):
    """sorted neighbour distances per (species, species), one row per atom, rows sorted"""
    h = 1 / np.sqrt((np.linalg.inv(cell)**2).sum(0))
    n = np.ceil(rmax / h).astype(int) + 1
    sh = np.array(np.meshgrid(*[np.arange(-i, i + 1) for i in n])).reshape(3, -1).T
    out = {}
    sy = np.array(sy)
    for i in range(len(sy)):
        d = fr - fr[i]
        d = d - np.rint(d)
        r = np.sqrt((((d[:, None] + sh) @ cell)**2).sum(-1))
        row = tuple((s, tuple(np.round(np.sort(r[sy == s][(r[sy == s] > 1e-6) & (r[sy == s] < rmax)]), 3))) for s in sorted(set(sy)))
        out.setdefault(sy[i], []).append(row)
    return out


def same_shells(a, b):
    """each environment of one crystal occurs in the other"""
    def close(u, v):
        for (s, x), (t, y) in zip(u, v):
            if s != t or abs(len(x) - len(y)) > 3:
                return False
            m = min(len(x), len(y))
            if m and np.abs(np.array(x[:m - 2]) - np.array(y[:m - 2])).max(initial=0) > 5e-3:
                return False
        return True
    for x, y in ((a, b), (b, a)):
        if sorted(x) != sorted(y):
            return 'species'
        for s in x:
            for u in set(x[s]):
                if not any(close(u, v) for v in set(y[s])):
                    return 'environment of a %s atom' % s
    return None


@reg.scenario(quick=60, thorough=800)
def spacegroups(ctx):
    """space group of every equivalent description"""
    n, name, cell, fr, sy = prototype(ctx) if ctx.coin(0.3) else general(ctx, n=1 + (ctx.idx * 37) % 230 if ctx.coin(0.7) else None)
    ctx.note(group=n, kind=name, natoms=len(sy))
    st = mk(cell, fr, sy)
    num, sym = symmetry.spglib_get_spacegroup(st)
    ctx.check(isinstance(num, (int, np.integer)) and isinstance(sym, str) and sym, 'types', got=(num, sym))
    ctx.same(num, n, 'space group of the crystal')
    c, f, s = cell, fr, sy
    for how in ctx.rng.permutation(VARS)[:3]:
        c, f, s = variant(ctx, c, f, s, how)
        v = mk(c, f, s)
        ctx.same(symmetry.spglib_get_spacegroup(v, symprec=1e-4), (num, sym), 'space group of the %s crystal' % how)
        ctx.same((v.cell, v.coords_frac, v.symbols), (c, f, list(s)), 'structure changed')
        ctx.count('descriptions')


@reg.scenario(quick=60, thorough=800)
def tolerance(ctx):
    """distorted crystals: the tolerance decides, and is passed on"""
    n, name, cell, fr, sy = prototype(ctx)
    amp = ctx.choice([5e-4, 1e-3, 2e-3])
    d = ctx.rng.uniform(-1, 1, fr.shape)
    cell = cell @ rotation(ctx)
    ctx.note(group=n, natoms=len(sy))
    st = mk(cell, fr, sy)
    # strained in a generic way and every atom displaced
    e = ctx.rng.uniform(0.5, 1, (3, 3)) * ctx.rng.choice([-1, 1], (3, 3)) * amp / np.abs(cell).max()
    dist = mk(cell @ (np.eye(3) + e), fr + d @ np.linalg.inv(cell) * amp, sy)
    got = symmetry.spglib_get_spacegroup(dist)
    ctx.check(got[0] <= 2, 'distorted crystal has no symmetry', got=got, group=n)
    ctx.same(symmetry.spglib_get_spacegroup(dist, symprec=0.12), symmetry.spglib_get_spacegroup(st), 'loose tolerance')
    ctx.check(not symmetry.is_same_struct(st, dist), 'distorted crystal is another structure')
    big = crys.scell(st, (2, 1, 1))
    p = symmetry.spglib_get_primitive(big)
    ctx.check(p is not None and p.natoms <= len(sy), 'doubled cell reduced', got=p and p.natoms)
    if not big.natoms % 2:
        f = big.coords_frac + ctx.rng.uniform(-1, 1, (big.natoms, 3)) @ np.linalg.inv(big.cell) * amp
        bd = mk(big.cell, f, big.symbols)
        q = symmetry.spglib_get_primitive(bd)
        ctx.check(q is None or q.natoms == big.natoms, 'distorted cell is not reduced', got=q and q.natoms, want=big.natoms)
        q = symmetry.spglib_get_primitive(bd, symprec=0.12)
        ctx.check(q is not None and q.natoms == p.natoms, 'loose tolerance reduces', got=q and q.natoms, want=p.natoms)


@reg.scenario(quick=60, thorough=800)
def primitive(ctx):
    """primitive cell of every description"""
    n, name, cell, fr, sy = prototype(ctx) if ctx.coin() else general(ctx, n=ctx.choice([1, 2, 5, 8, 12, 20, 22, 23, 35, 38, 42, 44, 63, 64, 69, 70, 79, 97, 121, 146, 148, 160, 166, 196]))
    c, f, s = cell, fr, sy
    hows = list(ctx.rng.permutation(VARS)[:ctx.ri(0, 3)])
    for how in hows:
        c, f, s = variant(ctx, c, f, s, how)
    ctx.note(group=n, kind=name, natoms=len(s), how='+'.join(sorted(hows)))
    st = mk(c, f, s)
    p = symmetry.spglib_get_primitive(st, **(dict(symprec=1e-4) if ctx.coin() else {}))
    ctx.same((st.cell, st.coords_frac, st.symbols), (c, f, list(s)), 'structure changed')
    # lattice letter tells the number of lattice points of the conventional cell
    sym = symmetry.spglib_get_spacegroup(st)[1]
    k = dict(P=1, I=2, A=2, B=2, C=2, F=4, R=3)[sym[0]]
    want = len(sy) // k if name != 'general' or sym[0] != 'R' or abs(np.linalg.norm(cell[0]) - np.linalg.norm(cell[2])) > 1e-3 else None
    if p is None:
        ctx.check(want is None or len(s) == want, 'reducible cell called irreducible', natoms=len(s), want=want)
        ctx.count('irreducible')
        return
    ctx.check(isinstance(p, crys.Structure), 'a structure', got=type(p))
    if want is not None:
        ctx.same(p.natoms, want, 'number of atoms in the primitive cell')
    f0 = {x: list(s).count(x) / len(s) for x in set(s)}
    f1 = {x: list(p.symbols).count(x) / p.natoms for x in set(p.symbols)}
    ctx.check(sorted(f0) == sorted(f1) and all(abs(f0[x] - f1[x]) < 1e-12 for x in f0), 'composition', got=f1, want=f0)
    ctx.close(p.volume / p.natoms, abs(np.linalg.det(c)) / len(s), 'volume per atom', rtol=1e-5)
    ctx.same(symmetry.spglib_get_spacegroup(p), symmetry.spglib_get_spacegroup(st), 'space group of the primitive cell')
    if len(s) <= 100:
        rmax = 1.6 * (p.volume / p.natoms * 8)**(1 / 3.)
        e = same_shells(shells(c, f, s, rmax), shells(p.cell, p.coords_frac, p.symbols, rmax))
        ctx.check(e is None, 'primitive cell generates another crystal', what=e)
        ctx.count('crystals compared')
    q = symmetry.spglib_get_primitive(p)
    ctx.check(q is None or q.natoms == p.natoms, 'primitive cell of the primitive cell', got=q and q.natoms, want=p.natoms)


@reg.scenario(quick=150, thorough=2000)
def conversion(ctx):
    """to spglib, ASE and back"""
    import ase
    nat = ctx.sz(1, 12, 60)
    cell = crys.cc2cell(np.concatenate([ctx.rng.uniform(3, 9, 3), ctx.rng.uniform(65, 115, 3)])) @ rotation(ctx)
    fr = ctx.rng.uniform(-0.5, 1.5, (nat, 3)) if ctx.coin() else ctx.rng.uniform(0, 1, (nat, 3))
    el = [x for x in atomic_data.symbols[1:104]]
    sy = [ctx.choice(el) for _ in range(nat)]
    st = mk(cell, fr, sy)
    inside = bool((fr >= 0).all() and (fr < 1).all())
    ctx.note(natoms=nat, inside=inside)
    t = ctx.choice([symmetry.struct2spglib, lambda s: s.get_spglib()])(st)
    ctx.check(isinstance(t, tuple) and len(t) == 3, 'spglib tuple', got=t)
    ctx.same(np.array(t[0]), cell, 'cell for spglib')
    ctx.same(np.array(t[1]), fr, 'positions for spglib')
    ctx.same([int(i) for i in t[2]], [ase.data.atomic_numbers[x] for x in sy], 'atomic numbers for spglib')
    b = symmetry.spglib2struct(t)
    ctx.same((b.cell, b.coords_frac, list(b.symbols)), (cell, fr, sy), 'back from spglib')
    ctx.close(b.coords, st.coords, 'Cartesian coordinates back from spglib', rtol=1e-12, atol=1e-12)
    ctx.raises(Exception, symmetry.spglib2struct, t[:2], _msg='incomplete tuple')
    pbc = ctx.choice([None, False, True, [True, False, True]])
    kw = {} if pbc is None else dict(pbc=pbc)
    A = ctx.choice([crys.struct2atoms, lambda s, **k: s.get_ase_atoms(**k)])(st, **kw)
    ctx.same(A.get_chemical_symbols(), sy, 'species in ASE')
    ctx.close(np.array(A.get_cell()), cell, 'cell in ASE', rtol=1e-13, atol=1e-13)
    ctx.close(A.get_positions(), fr @ cell, 'positions in ASE', rtol=1e-11, atol=1e-11)
    ctx.same(list(A.get_pbc()), [False] * 3 if pbc is None else list(np.broadcast_to(pbc, 3)), 'periodicity passed on')
    b = crys.atoms2struct(A)
    ctx.same(list(b.symbols), sy, 'species back from ASE')
    ctx.close(b.cell, cell, 'cell back from ASE', rtol=1e-13, atol=1e-13)
    d = b.coords_frac - fr
    if pbc:
        d = d - np.rint(d)
    ctx.close(d, np.zeros_like(d), 'positions back from ASE', atol=1e-9)
    F = st.get_fake_ase_atoms()
    ctx.close(F.get_scaled_positions(), fr, 'fake ASE positions', rtol=1e-14)
    ctx.close(F.get_positions(), st.coords, 'fake ASE positions', rtol=1e-12, atol=1e-12)
    ctx.same([int(i) for i in F.get_atomic_numbers()], [int(i) for i in t[2]], 'fake ASE numbers')
    ctx.same((st.cell, st.coords_frac, list(st.symbols)), (cell, fr, sy), 'structure changed')
    tr = st.get_traj(2)
    for m in (tr.get_spglib, tr.get_ase_atoms, tr.get_fake_ase_atoms):
        ctx.raises(NotImplementedError, m, _msg='only for structures')


@reg.scenario(quick=350, thorough=4000)
def equality(ctx):
    """is_same_struct decides cell, species and positions"""
    n, name, cell, fr, sy = prototype(ctx) if ctx.coin() else general(ctx, n=ctx.ri(1, 20))
    k = ctx.choice(['same', 'copy', 'rotated', 'noise', 'species', 'moved', 'scaled', 'sheared', 'order', 'fewer', 'more', 'angle', 'swapped',
                    'exchanged', 'exchanged', 'shifted', 'shifted'])
    ctx.note(change=k, group=n, natoms=len(sy))
    a = mk(cell, fr, sy)
    c, f, s = cell.copy(), fr.copy(), list(sy)
    want = False
    i = ctx.ri(0, len(s) - 1)
    if k in ('same', 'copy'):
        want = True
    elif k == 'rotated':
        c, want = c @ rotation(ctx), True
    elif k == 'noise':
        c, f, want = c * (1 + 1e-9 * ctx.rng.uniform(-1, 1, (3, 3))), f + 1e-10 * ctx.rng.uniform(-1, 1, f.shape), True
    elif k == 'species':
        s[i] = 'Xe' if s[i] != 'Xe' else 'Kr'
    elif k == 'moved':
        f[i, ctx.ri(0, 2)] += ctx.choice([-1, 1]) * ctx.choice([1e-4, 5e-4, 1e-3, 0.01, 0.3])
    elif k == 'shifted':
        # all atoms: the same space group
        f = f + ctx.choice([-1, 1]) * np.eye(3)[ctx.ri(0, 2)] * ctx.choice([1e-4, 5e-4, 0.01, 0.5])
    elif k == 'scaled':
        c = c * ctx.choice([0.99, 0.9999, 1.0001, 1.001, 1.5])
    elif k == 'sheared':
        c = c.copy()
        c[2] += 0.01 * c[0] if abs(c[0] @ c[2]) < 1e-6 or True else 0
        want = None
        m1, m2 = crys.cell2cc(cell), crys.cell2cc(c)
        want = bool(np.allclose(m1, m2, rtol=1e-6))
    elif k == 'angle':
        cc = crys.cell2cc(c)
        j = ctx.ri(3, 5)
        cc[j] += ctx.choice([0.5, -0.02])
        c = crys.cc2cell(cc)
    elif k == 'order':
        p = ctx.rng.permutation(len(s))
        f, s = f[p], [s[q] for q in p]
        want = bool((p == np.arange(len(s))).all())
    elif k == 'fewer':
        if len(s) == 1:
            k, want = 'same', True
        else:
            f, s = np.delete(f, i, 0), s[:i] + s[i + 1:]
    elif k == 'more':
        f, s = np.vstack([f, [[0.123, 0.377, 0.651]]]), s + ['Xe']
    elif k == 'swapped':
        # same composition, two species exchange their places
        j = [q for q in range(len(s)) if s[q] != s[i]]
        if j:
            s[i], s[j[0]] = s[j[0]], s[i]
        else:
            want = True
    elif k == 'exchanged':
        # two elements exchange all their places: often the same space group and composition
        q = [x for x in sorted(set(s)) if x != s[i]]
        if q:
            q = sorted(q, key=lambda x: abs(s.count(x) - s.count(s[i])))[0]
            o = s[i]
            s = [o if x == q else q if x == o else x for x in s]
        else:
            want = True
    b = a if k == 'same' else a.copy() if k == 'copy' else mk(c, f, s)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.check(bool(symmetry.is_same_struct(a, b)) == want, 'equality', got=symmetry.is_same_struct(a, b), want=want, change=k)
        ctx.check(bool(symmetry.is_same_struct(b, a)) == want, 'equality (exchanged arguments)', want=want, change=k)
    ctx.same((a.cell, a.coords_frac, list(a.symbols)), (cell, fr, list(sy)), 'structure changed')


storage.add(reg, 60, 'fits.spacegroup', 'fits.primitive', 'fits.same_struct')
