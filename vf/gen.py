"""Random crystals and independent reference formulas shared by the checks."""
import numpy as np
from numpy import linalg as la

SYMS = ['H', 'He', 'Li', 'Be', 'B', 'C', 'N', 'O', 'F', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl',
        'K', 'Ca', 'Ti', 'V', 'Cr', 'Fe', 'Ni', 'Cu', 'Zn', 'Ga', 'As', 'Br', 'Sr', 'Zr', 'Ag', 'Cd',
        'In', 'Sn', 'I', 'Cs', 'Ba', 'Pt', 'Au', 'Pb', 'Bi']

CELL_KINDS = ['cubic', 'ortho', 'hex', 'tricl', 'tricl', 'rotated', 'left', 'skew', 'fcc', 'small', 'big',
              'upper', 'perm', 'shear']


def rand_rot(rng, proper=True):
    q, r = la.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if proper and la.det(q) < 0:
        q[:, 0] *= -1
    return q


def quality(cell):
    """volume / product of lengths: 1 orthogonal, 0 degenerate"""
    return abs(la.det(cell)) / np.prod(la.norm(cell, axis=1))


def cell_from_cc(a, b, c, al, be, ga):
    """independent reference: a along x, b in xy, c upwards (angles in deg)"""
    ca, cb, cg = np.cos(np.radians([al, be, ga]))
    sg = np.sin(np.radians(ga))
    cx, cy = cb, (ca - cb * cg) / sg
    cz = np.sqrt(1.0 - cx**2 - cy**2)
    return np.array([[a, 0, 0], [b * cg, b * sg, 0], [c * cx, c * cy, c * cz]])


def cc_from_cell(cell):
    l = np.sqrt((cell**2).sum(axis=1))
    def ang(u, v):
        # atan2 form: independent of arccos
        return np.degrees(np.arctan2(la.norm(np.cross(u, v)), np.dot(u, v)))
    return np.array([l[0], l[1], l[2], ang(cell[1], cell[2]), ang(cell[0], cell[2]), ang(cell[0], cell[1])])


def rand_cell(rng, kind=None, lo=2.5, hi=9.0):
    if kind is None:
        kind = CELL_KINDS[int(rng.integers(len(CELL_KINDS)))]
    a, b, c = rng.uniform(lo, hi, 3)
    if kind == 'cubic':
        cell = np.eye(3) * a
    elif kind == 'ortho':
        cell = np.diag([a, b, c])
    elif kind == 'hex':
        cell = cell_from_cc(a, a, c, 90, 90, 120)
    elif kind == 'perm':            # orthorhombic box, vectors along other (also negative) axes
        p = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1]][int(rng.integers(5))]
        s = np.array([[1, -1, -1], [-1, 1, -1], [-1, -1, 1], [1, 1, 1]][int(rng.integers(4))], float)
        cell = np.diag([a, b, c])[:, p] * s
        if la.det(cell) < 0:
            cell = -cell
    elif kind == 'shear':           # one vector leans towards one axis
        cell = np.diag([a, b, c])
        i = int(rng.integers(3))
        j = (i + 1 + int(rng.integers(2))) % 3
        cell[i, j] = rng.uniform(-0.6, 0.6) * cell[j, j]
    elif kind == 'fcc':
        cell = a * 0.5 * np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.]])
    else:
        minq = 0.15 if kind == 'skew' else 0.4
        maxq = 0.4 if kind == 'skew' else 1.1
        while True:
            ang = rng.uniform(40 if kind == 'skew' else 55, 140 if kind == 'skew' else 125, 3)
            ca = np.cos(np.radians(ang))
            d = 1 + 2 * ca.prod() - (ca**2).sum()
            if d <= 0 or not (minq <= np.sqrt(d) <= maxq):
                continue
            cell = cell_from_cc(a, b, c, *ang)
            break
        if kind == 'upper':
            cell = cell[::-1, ::-1]
        elif kind in ('rotated', 'skew'):
            cell = cell @ rand_rot(rng).T
        elif kind == 'left':
            cell = (cell @ rand_rot(rng).T)
            if la.det(cell) > 0:
                cell = cell[[1, 0, 2]].copy()
        elif kind == 'small':
            cell = cell * 1e-2
        elif kind == 'big':
            cell = cell * 30.
    return np.ascontiguousarray(cell)


def rand_cells(rng, nt, kind=None):
    """cells of the frames of a trajectory: independent, or sharing what a short cut might test for"""
    one = lambda: rand_cell(rng, kind)
    how = ['free', 'free', 'same', 'volume', 'lengths', 'last', 'ends', 'strain'][int(rng.integers(8))]
    c = np.array([one() for _ in range(nt)])
    if how == 'same':
        c[:] = c[0]
    elif how == 'volume':           # shape changes, volume does not
        c *= (abs(la.det(c[0])) / np.abs(la.det(c)))[:, None, None]**(1 / 3.)
    elif how == 'lengths':          # angles change, lengths do not
        c *= (la.norm(c[0], axis=1) / la.norm(c, axis=2))[..., None]
    elif how == 'last':             # all but the last the same
        c[:-1] = c[0]
    elif how == 'ends':             # first and last the same
        c[-1] = c[0]
    elif how == 'strain':           # small deformations
        c = np.array([c[0] @ (np.eye(3) + 1e-3 * rng.normal(size=(3, 3))) for _ in range(nt)])
    return np.ascontiguousarray(c)


def rand_symbols(rng, natoms, nspec=None, grouped=False):
    nspec = int(rng.integers(1, min(natoms, 4) + 1)) if nspec is None else min(nspec, natoms)
    pool = list(rng.choice(SYMS, nspec, replace=False))
    s = pool + [pool[int(i)] for i in rng.integers(nspec, size=natoms - nspec)]
    s = [str(x) for x in s]
    if grouped:
        s.sort()
    else:
        s = [s[int(i)] for i in rng.permutation(natoms)]
    return s


def images(n=1):
    r = np.arange(-n, n + 1)
    return np.array([[i, j, k] for i in r for j in r for k in r], dtype=float)


def true_min_dists(frac, cell, n=2):
    """brute force shortest image distances, (natoms,natoms)"""
    d = frac[:, None, :] - frac[None, :, :]
    d = d - np.floor(d)
    im = images(n)
    out = np.full(d.shape[:2], np.inf)
    for t in im:
        v = (d + t) @ cell
        out = np.minimum(out, np.sqrt((v**2).sum(-1)))
    return out


def wrap_half(d):
    """fractional differences to the image nearest zero in fractional coordinates"""
    return d - np.rint(d)


def inscribed_radius(cell):
    """radius of the largest sphere around the cell centre inside the cell"""
    v = abs(la.det(cell))
    h = [v / la.norm(np.cross(cell[(i + 1) % 3], cell[(i + 2) % 3])) for i in range(3)]
    return min(h) / 2.0


def layouts(rng, a):
    """the same array in different memory layouts"""
    out = [('C', np.ascontiguousarray(a)), ('F', np.asfortranarray(a))]
    big = np.empty(tuple(2 * s for s in a.shape), dtype=a.dtype)
    big[...] = 777
    v = big[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    out.append(('strided', v))
    neg = np.ascontiguousarray(a[::-1])[::-1]
    out.append(('neg', neg))
    return out


def fcc_like(rng, n):
    """n fractional positions that are not too close to each other"""
    m = int(np.ceil(n ** (1 / 3.)))
    g = np.array([[i, j, k] for i in range(m) for j in range(m) for k in range(m)], float) / m
    g = g[rng.permutation(len(g))[:n]]
    return g + rng.uniform(-0.2, 0.2, g.shape) / m
