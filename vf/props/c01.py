"""C01: unit cell representations."""
import warnings
import numpy as np
from numpy import linalg as la
from vf.core import Registry
from vf import storage, gen
from pwtools import crys, pwscf

reg = Registry('C01', 'Random and special cells (cubic, hexagonal, triclinic, rotated, left-handed, strongly skewed, '
               'scaled by 1e-2..30) go through every conversion of the real code; results are compared with '
               'independent formulas (metric tensor, atan2 angles, determinants).')


def _cell(ctx):
    kind = ctx.pick(gen.CELL_KINDS)
    cell = gen.rand_cell(ctx.rng, kind)
    ctx.note(kind=kind, q=round(gen.quality(cell), 1))
    return cell


@reg.scenario(quick=1100)
def conversions(ctx):
    cell = _cell(ctx)
    inp = ctx.pick(['array', 'list', 'F'])
    arg = dict(array=cell, list=cell.tolist(), F=np.asfortranarray(cell))[inp]
    ctx.note(inp=inp)
    ref = gen.cc_from_cell(cell)
    cc = crys.cell2cc(arg)
    ctx.close(cc, ref, 'cell2cc: lengths and angles', rtol=1e-9)
    # orientation does not matter
    ctx.close(crys.cell2cc(cell @ gen.rand_rot(ctx.rng).T), ref, 'cell2cc of the rotated cell', rtol=1e-9)
    back = crys.cc2cell(cc)
    ctx.close(back, gen.cell_from_cc(*ref), 'cc2cell', rtol=1e-7, atol=1e-8 * ref[:3].max())
    ctx.check(np.all(back[0, 1:] == 0) and back[1, 2] == 0 and back[0, 0] > 0 and back[1, 1] > 0 and back[2, 2] > 0,
              'cc2cell: a along +x, b in the xy plane, right-handed', back=back)
    ctx.close(back @ back.T, cell @ cell.T, 'metric tensor after cell->cc->cell', rtol=1e-8, atol=1e-9 * (cell**2).sum())
    ctx.close(crys.cell2cc(back), cc, 'cell->cc->cell->cc', rtol=1e-9)
    vol = abs(la.det(cell))
    ctx.close(crys.volume_cell(cell), vol, 'volume_cell', rtol=1e-10)
    ctx.close(crys.volume_cell(cell.T.copy()), vol, 'volume_cell of the transposed cell', rtol=1e-10)
    ctx.close(crys.volume_cc(cc), vol, 'volume_cc', rtol=1e-7)
    fac = float(ctx.rng.uniform(0.3, 3))
    cdm = crys.cc2celldm(cc, fac=fac)
    ca = np.cos(np.radians(ref[3:]))
    ctx.close(cdm, [ref[0] * fac, ref[1] / ref[0], ref[2] / ref[0], *ca], 'cc2celldm', rtol=1e-8, atol=1e-9)
    ctx.close(crys.celldm2cc(cdm, fac=1. / fac), ref, 'celldm2cc inverts cc2celldm', rtol=1e-8)
    ctx.close(crys.angle(cell[0], cell[2]), ref[4], 'angle between two vectors', rtol=1e-9)


@reg.scenario(quick=600)
def reciprocal(ctx):
    cell = _cell(ctx)
    if ctx.idx % 7 == 3:
        cell = np.diag(ctx.rng.integers(1, 9, 3)) + (0 if ctx.coin() else np.triu(ctx.rng.integers(0, 3, (3, 3)), 1))
        ctx.note(kind='int')
    rc = crys.recip_cell(cell if ctx.coin() else cell.tolist())
    ctx.close(cell @ rc.T, 2 * np.pi * np.eye(3), 'a_i.b_j == 2 pi delta_ij', rtol=1e-9, atol=1e-9)
    ctx.close(crys.recip_cell(rc), cell, 'reciprocal of the reciprocal cell', rtol=1e-9,
              atol=1e-9 * np.abs(cell).max())
    ctx.close(crys.volume_cell(rc), (2 * np.pi)**3 / abs(la.det(cell)), 'reciprocal volume', rtol=1e-9)


@reg.scenario(quick=800)
def grids(ctx):
    cell = _cell(ctx)
    recip = ctx.coin()
    even = ctx.coin()
    minpoints = ctx.choice([0, 1, 1, 2, 3, 4])
    ctx.note(recip=recip, even=even, minpoints=minpoints)
    if recip:
        fun = crys.kgrid
        norms = 2 * np.pi * la.norm(la.inv(cell).T, axis=1)
    else:
        fun = crys.grid_in_cell
        norms = la.norm(cell, axis=1)
    h = float(norms.mean() / ctx.rng.uniform(0.2, 9))
    r = norms / h
    if (np.abs(r - np.floor(r) - 0.5) < 1e-6).any():
        h *= 1.001
        r = norms / h
    want = np.floor(r + 0.5).astype(int)
    if even:
        want = want + want % 2
    ctx.note(h=round(float(r.mean())))
    small = want < minpoints
    want[small] = minpoints
    if (want == 0).any():
        ctx.raises(Exception, fun, cell, h=h, even=even, minpoints=minpoints, _msg='zero grid points must be refused')
        return
    size = fun(cell, h=h, even=even, minpoints=minpoints)
    ctx.check(np.asarray(size).dtype.kind in 'iu', 'grid sizes are integers', size=size)
    # an odd minimum together with even=True may be rounded up or not: both satisfy the text
    ok = np.asarray(size) == want
    if even:
        ok |= small & (np.asarray(size) == want + want % 2)
    ctx.check(np.shape(size) == (3,) and ok.all(), 'grid size', size=size, want=want, r=r)
    if recip and ctx.coin(0.3):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ctx.same(np.asarray(fun(cell, dk=h, even=even, minpoints=minpoints)), np.asarray(size), 'size with the older name dk')
    s2, sp = fun(cell, h=h, even=even, minpoints=minpoints, fullout=True)
    ctx.same(np.asarray(s2), np.asarray(size), 'size with fullout')
    ctx.close(sp, norms / np.asarray(size), 'spacing with fullout', rtol=1e-9)
    ctx.close(fun(cell, size=list(size)), norms / np.asarray(size), 'spacing for a given size', rtol=1e-9)
    ctx.check(np.all(np.asarray(size) >= minpoints), 'minimum of points', size=size)
    if minpoints <= 1:
        ctx.same(np.asarray(fun(cell, h=h, even=even)) if minpoints == 1 else np.asarray(size), np.asarray(size), 'default minimum is 1')


@reg.scenario(quick=400)
def per_frame(ctx):
    n = ctx.pick([1, 2, 3, 3, 5, 6]) if ctx.coin(0.95) else ctx.ri(7, 150)
    cells = gen.rand_cells(ctx.rng, n)
    axis = ctx.choice([0, 2, -1]) if n != 3 else ctx.choice([0, 1, 2, -1, -3])
    if axis == 1 or n == 3:
        pass
    ctx.note(n=n, axis=axis)
    arr = np.moveaxis(cells, 0, axis)
    if ctx.coin():
        arr = np.ascontiguousarray(arr)
    one = np.array([crys.cell2cc(c) for c in cells])
    ctx.close(crys.cell2cc3d(arr, axis=axis), one, 'cell2cc3d per frame', rtol=1e-12)
    ctx.close(crys.volume_cell3d(arr, axis=axis), np.array([crys.volume_cell(c) for c in cells]), 'volume_cell3d per frame', rtol=1e-12, atol=1e-12)
    ccaxis = ctx.choice([0, 1, -1])
    ccs = np.moveaxis(one, 0, ccaxis)
    ctx.note(ccaxis=ccaxis)
    ctx.close(crys.cc2cell3d(ccs, axis=ccaxis), np.array([crys.cc2cell(c) for c in one]), 'cc2cell3d per frame', rtol=1e-12, atol=1e-12)
    ctx.close(crys.volume_cc3d(ccs, axis=ccaxis), np.array([crys.volume_cc(c) for c in one]), 'volume_cc3d per frame', rtol=1e-12, atol=1e-12)
    ctx.close(crys.volume_cc3d(ccs, axis=ccaxis), np.abs(la.det(cells)), 'volumes', rtol=1e-7)


# conventional cell and centring translations for each Bravais type
def _ref_ibrav(ib, a, b, c, al, be, ga):
    ca, cb, cg, sg = np.cos(al), np.cos(be), np.cos(ga), np.sin(ga)
    if ib in (1, 2, 3):
        conv = np.eye(3) * a
    elif ib == 4:
        conv = np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, c]])
    elif ib in (6, 7):
        conv = np.diag([a, a, c])
    elif ib in (8, 9, 10, 11):
        conv = np.diag([a, b, c])
    elif ib in (12, 13):
        conv = np.array([[a, 0, 0], [b * cg, b * sg, 0], [0, 0, c]])
    elif ib == 14:
        conv = gen.cell_from_cc(a, b, c, *np.degrees([al, be, ga]))
    elif ib == 5:
        conv = None
    cent = {1: [], 2: [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], 3: [[.5, .5, .5]], 4: [], 5: [], 6: [],
            7: [[.5, .5, .5]], 8: [], 9: [[.5, .5, 0]], 10: [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]],
            11: [[.5, .5, .5]], 12: [], 13: [[.5, 0, .5]], 14: []}[ib]
    return conv, cent


# the primitive vectors PWscf documents, in units of (a, b, c)
_DOC = {2: [[-.5, 0, .5], [0, .5, .5], [-.5, .5, 0]], 3: [[.5, .5, .5], [-.5, .5, .5], [-.5, -.5, .5]],
        7: [[.5, -.5, .5], [.5, .5, .5], [-.5, -.5, .5]], 9: [[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]],
        10: [[.5, 0, .5], [.5, .5, 0], [0, .5, .5]], 11: [[.5, .5, .5], [-.5, .5, .5], [-.5, -.5, .5]],
        13: [[.5, 0, -.5], [0, 1, 0], [.5, 0, .5]]}


@reg.scenario(quick=560)
def bravais(ctx):
    ib = 1 + ctx.idx % 14
    a, b, c = ctx.rng.uniform(2, 12, 3)
    al = np.radians(ctx.rng.uniform(40, 115) if ib == 5 else ctx.rng.uniform(70, 110))
    be, ga = np.radians(ctx.rng.uniform(70, 110, 2))
    celldm = [a, b / a, c / a, np.cos(al), np.cos(be), np.cos(ga)]
    need = {1: [], 2: [], 3: [], 4: [2], 5: [3], 6: [2], 7: [2], 8: [1, 2], 9: [1, 2], 10: [1, 2], 11: [1, 2],
            12: [1, 2, 5], 13: [1, 2, 5], 14: [1, 2, 3, 4, 5]}[ib]
    unused = ctx.choice(['None', 'given'])
    if unused == 'None':
        celldm = [x if i in [0] + need else None for i, x in enumerate(celldm)]
    ctx.note(ibrav=ib, unused=unused)
    cell = pwscf.ibrav2cell(ib, celldm)
    ctx.check(np.shape(cell) == (3, 3), 'shape', cell=cell)
    if ib == 5:
        cc = gen.cc_from_cell(cell)
        ctx.close(cc, [a] * 3 + [np.degrees(al)] * 3, 'trigonal cell: equal lengths and angles', rtol=1e-8)
        ctx.check(abs(cell[0].sum() * 0 + cell[:, 0].sum()) < 1e-8 * a and abs(cell[:, 1].sum()) < 1e-8 * a,
                  'trigonal axis along z', cell=cell)
        ctx.close(cell[1, 0], 0., 'second vector in yz plane', atol=1e-10)
        return
    conv, cent = _ref_ibrav(ib, a, b, c, al, be, ga)
    doc = np.array(_DOC.get(ib, np.eye(3)))
    ctx.close(cell, doc @ conv, 'primitive vectors', rtol=1e-8, atol=1e-9 * max(a, b, c))
    ctx.close(abs(la.det(cell)) * (len(cent) + 1), abs(la.det(conv)), 'volume of the primitive cell', rtol=1e-8)
    for t in list(np.eye(3)) + [np.array(x) for x in cent]:
        f = (t @ conv) @ la.inv(cell)
        ctx.close(f, np.rint(f), 'lattice translations are integer combinations', atol=1e-7)
    if ib == 14:
        ctx.close(cell, crys.cc2cell(crys.celldm2cc(celldm)), 'ibrav 14 equals the general conversion', rtol=1e-7, atol=1e-7)
    if ctx.idx < 14:
        ctx.raises(Exception, pwscf.ibrav2cell, 15 + ctx.idx, celldm, _msg='unknown lattice number must be refused')


storage.add(reg, 500, 'crys.volume_cell', 'crys.volume_cell3d', 'crys.cell2cc', 'crys.cell2cc3d', 'crys.cc2cell', 'crys.cc2cell3d',
            'crys.volume_cc', 'crys.recip_cell', 'crys.grid_in_cell', 'crys.grid_in_cell_size', 'crys.kgrid', 'crys.cc2celldm',
            'crys.celldm2cc')
