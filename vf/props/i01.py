"""I01: structures and trajectories written to files describe the same crystal."""
import os
import re
import warnings
import numpy as np
from numpy import linalg as la
from vf.core import Registry
from vf import storage, gen
from pwtools import crys, io, parse, atomic_data, lammps
from pwtools.constants import Ha, eV

reg = Registry('I01', 'Random structures/trajectories of all cell kinds (atoms far outside the cell, tiny and exactly zero coordinates, '
               'one to many species and frames, partial attributes) are written; oracle: readers of the formats written in the check '
               '(and ASE as a second opinion) applied to the text, plus the library\'s own readers, compared with the object.')


def _struct(ctx, kind=None, n=None, forces=None):
    r = ctx.rng
    n = n or ctx.sz(1, 9, 130)
    kind = kind or ctx.choice(gen.CELL_KINDS)
    cell = gen.rand_cell(r, kind)
    cf = r.uniform(-2, 2, (n, 3)) if ctx.coin() else r.uniform(0, 1, (n, 3))
    cf[r.random((n, 3)) < 0.15] = 0.0
    cf[r.random((n, 3)) < 0.05] *= 1e-7
    kw = {}
    if ctx.coin() if forces is None else forces:
        kw['forces'] = r.normal(size=(n, 3)) * 10.0**ctx.ri(-4, 2)
    if ctx.coin(0.3):
        return crys.Structure(coords=cf @ cell, cell=cell, symbols=gen.rand_symbols(r, n), **kw), kind
    if ctx.coin(0.3):
        return crys.Structure(coords_frac=cf, cryst_const=gen.cc_from_cell(cell), symbols=gen.rand_symbols(r, n), **kw), kind
    return crys.Structure(coords_frac=cf, cell=cell, symbols=gen.rand_symbols(r, n), **kw), kind


def _traj(ctx, n=None, forces=None):
    r = ctx.rng
    n, nt = n or ctx.sz(1, 6, 120), ctx.sz(1, 6, 120)
    kind = ctx.choice(gen.CELL_KINDS)
    cell = gen.rand_cell(r, kind) if ctx.coin() else gen.rand_cells(r, nt, kind)
    kw = {}
    if ctx.coin() if forces is None else forces:
        kw['forces'] = r.normal(size=(nt, n, 3)) * 10.0**ctx.ri(-4, 2)
    cf = r.uniform(-2, 2, (nt, n, 3))
    cf[r.random(cf.shape) < 0.1] = 0.0
    return crys.Trajectory(coords_frac=cf, cell=cell, symbols=gen.rand_symbols(r, n), **kw), kind


def _text(fn):
    with open(fn) as fh:
        return fh.read()


def _cc_close(ctx, got, want, msg):
    ctx.close(np.asarray(got)[..., :3], np.asarray(want)[..., :3], msg + ' lengths', rtol=1e-10)
    # arccos amplifies rounding near 0/180 deg
    ctx.close(np.asarray(got)[..., 3:], np.asarray(want)[..., 3:], msg + ' angles', atol=1e-6)


@reg.scenario(quick=260)
def cif(ctx):
    st, kind = _struct(ctx)
    fn = os.path.join(ctx.tmp(), ctx.choice(['a.cif', 'b', 'c.d.cif']))
    ctx.note(kind=kind, n=st.natoms, nsp=len(set(st.symbols)))
    io.write_cif(fn, st)
    txt = _text(fn)
    val = {}
    for k in ('length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma'):
        m = re.findall(r'^_cell_%s\s+(\S+)' % k, txt, re.M)
        ctx.check(len(m) == 1, 'one _cell_%s' % k, got=m)
        val[k] = float(m[0])
    cc = np.array([val[k] for k in ('length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma')])
    _cc_close(ctx, cc, gen.cc_from_cell(st.cell), 'cell in the file')
    ctx.check(re.search(r"x\s*,\s*y\s*,\s*z", txt) and not re.search(r"-\s*x", txt), 'only the identity symmetry operation')
    # the atom loop
    i = txt.index('_atom_site_label')
    lines = [l.split() for l in txt[i:].splitlines() if l.strip()]
    names = [l[0] for l in lines if l[0].startswith('_atom_site')]
    rows = [l for l in lines if not l[0].startswith('_') and l[0] != 'loop_' and len(l) == len(names)]
    ctx.same(len(rows), st.natoms, 'atom rows')
    col = {k: [r[j] for r in rows] for j, k in enumerate(names)}
    ctx.same(col['_atom_site_type_symbol'], list(st.symbols), 'species in order')
    ctx.same([re.sub(r'[0-9+-]', '', x) for x in col['_atom_site_label']], list(st.symbols), 'labels in order')
    got = np.array([[float(x) for x in col['_atom_site_fract_' + a]] for a in 'xyz']).T
    ctx.close(got, st.coords_frac, 'fractional coordinates in the file', rtol=1e-14, atol=1e-300)
    for how, rd in (('parse', parse.CifFile(fn).get_struct()), ('io', io.read_cif(fn))):
        ctx.same(list(rd.symbols), list(st.symbols), how + ': species')
        ctx.close(rd.coords_frac, st.coords_frac, how + ': fractional coordinates', rtol=1e-14, atol=1e-300)
        _cc_close(ctx, rd.cryst_const, gen.cc_from_cell(st.cell), how)
        G, G0 = rd.cell @ rd.cell.T, st.cell @ st.cell.T
        ctx.close(G, G0, how + ': metric tensor', atol=1e-9 * np.abs(G0).max())
    if ctx.idx % 4 == 0:
        import ase.io
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            at = ase.io.read(fn, format='cif')
        if len(at) == st.natoms:        # ASE merges atoms closer than 1e-3
            _cc_close(ctx, at.cell.cellpar(), gen.cc_from_cell(st.cell), 'ASE')
            ctx.same(list(at.get_chemical_symbols()), list(st.symbols), 'ASE: species')
            d = at.get_scaled_positions(wrap=False) - st.coords_frac
            ctx.close(d - np.rint(d), np.zeros_like(d), 'ASE: positions', atol=1e-6)


@reg.scenario(quick=220)
def cif_reader(ctx):
    """hand-written CIF texts: uncertainties, decorated labels, Cartesian columns, several blocks, column order"""
    r = ctx.rng
    nb = ctx.ri(1, 3)
    names = ['foo', 'bar', 'b_1'][:nb]
    blocks, txt = {}, ''
    for b in names:
        n = ctx.sz(1, 6, 120)
        syms = gen.rand_symbols(r, n)
        cell = gen.rand_cell(r, 'tricl')
        cc = np.round(gen.cc_from_cell(cell), 4)
        frac = np.round(r.uniform(-1, 1, (n, 3)), 5)
        unc = ctx.coin()
        f = (lambda x, d: ('%.*f(%d)' % (d, x, ctx.ri(1, 99))) if unc and ctx.coin() else ctx.choice(['%.*f', '%+.*f', '%.*f0']) % (d, x))
        cart = ctx.coin(0.25)
        nm = 'Cartn' if cart else 'fract'
        cols = ['label'] + [nm + '_' + x for x in 'xyz']
        if ctx.coin():
            cols.append('type_symbol')
        if ctx.coin(0.3):
            cols.append('occupancy')
        cols = [cols[int(i)] for i in r.permutation(len(cols))]
        free = ctx.coin(0.3)        # site names which are no element symbols
        txt += 'data_%s\n' % b
        items = [('_cell_length_' + k, f(v, 4)) for k, v in zip('abc', cc)] + \
                [('_cell_angle_' + k, f(v, 4)) for k, v in zip(('alpha', 'beta', 'gamma'), cc[3:])]
        for i in r.permutation(6):
            txt += '%s   %s\n' % items[int(i)]
        txt += 'loop_\n' + ''.join('_atom_site_%s\n' % c for c in cols)
        for i in range(n):
            lab = syms[i] + ctx.choice(['', '%d' % (i + 1), '2+', '1-'])
            if 'type_symbol' in cols and free:
                lab = ctx.choice(['OW%d', 'Me%da', 'X%d', 'C%dB', 'c%d', 'H%d']) % (i + 1)
            row = {'label': lab, 'type_symbol': syms[i] + ctx.choice(['', '2+', '3-']),
                   'occupancy': '1.0'}
            for j, x in enumerate('xyz'):
                row[nm + '_' + x] = f(frac[i, j], 5)
            txt += ' '.join(row[c] for c in cols) + '\n'
        txt += '\n'
        blocks[b] = (cc, syms, frac, cart)
    fn = os.path.join(ctx.tmp(), 'x.cif')
    with open(fn, 'w') as fh:
        fh.write(txt)
    b = ctx.choice([None] + names)
    ctx.note(nb=nb, block=str(b), k=ctx.idx)
    want = blocks[names[0] if b is None else b]
    st = ctx.choice([lambda: parse.CifFile(fn, block=b).get_struct(), lambda: io.read_cif(fn, block=b)])()
    ctx.close(st.cryst_const, want[0], 'cell constants', rtol=1e-12)
    ctx.same(list(st.symbols), want[1], 'species')
    got = st.coords if want[3] else st.coords_frac
    ctx.close(got, want[2], 'coordinates', rtol=1e-12, atol=1e-300)
    c = gen.cell_from_cc(*want[0])
    if want[3]:
        ctx.close(st.coords_frac @ c, want[2], 'fractional from Cartesian', atol=1e-8)
    else:
        ctx.close(st.coords, want[2] @ c, 'Cartesian from fractional', atol=1e-7)


def _frames_xyz(ctx, txt):
    lines = txt.splitlines()
    out, i = [], 0
    while i < len(lines) and lines[i].strip():
        n = int(lines[i])
        rows = [l.split() for l in lines[i + 2:i + 2 + n]]
        ctx.check(len(rows) == n and all(len(x) == 4 for x in rows), 'XYZ block has %d rows of 4 columns' % n)
        out.append(([x[0] for x in rows], np.array([[float(y) for y in x[1:]] for x in rows]), lines[i + 1]))
        i += 2 + n
    return out


@reg.scenario(quick=260)
def xyz(ctx):
    traj = ctx.coin()
    obj, kind = _traj(ctx) if traj else _struct(ctx)
    fn = os.path.join(ctx.tmp(), 'a.xyz')
    kw = dict(name='mol') if ctx.coin() else {}
    ctx.note(traj=traj, kind=kind, n=obj.natoms, nt=obj.nstep if traj else 0, kw=bool(kw))
    io.write_xyz(fn, obj, **kw)
    fr = _frames_xyz(ctx, _text(fn))
    co = obj.coords if traj else obj.coords[None]
    ctx.same(len(fr), len(co), 'number of frames')
    for i, (s, c, name) in enumerate(fr):
        ctx.same(s, list(obj.symbols), 'species')
        ctx.close(c, co[i], 'coordinates', rtol=1e-15, atol=1e-300)
        if kw:
            ctx.same(name, 'mol.%d' % (i + 1), 'frame title')
    if ctx.idx % 3 == 0:
        import ase.io
        at = ase.io.read(fn, index=':', format='xyz')
        ctx.same(len(at), len(co), 'ASE: number of frames')
        ctx.close([a.get_positions() for a in at], co, 'ASE: coordinates', rtol=1e-12, atol=1e-12)


@reg.scenario(quick=260)
def axsf(ctx):
    traj = ctx.coin()
    obj, kind = _traj(ctx) if traj else _struct(ctx)
    fn = os.path.join(ctx.tmp(), 'a.axsf')
    ctx.note(traj=traj, kind=kind, n=obj.natoms, nt=obj.nstep if traj else 0, forces=obj.forces is not None)
    io.write_axsf(fn, obj)
    tok = _text(fn).split()
    ctx.check(tok[0] == 'ANIMSTEPS', 'starts with ANIMSTEPS')
    nt = int(tok[1])
    co = obj.coords if traj else obj.coords[None]
    ce = np.broadcast_to(obj.cell, (len(co), 3, 3)) if not traj else obj.cell
    fo = None if obj.forces is None else (obj.forces if traj else obj.forces[None])
    ctx.same(nt, len(co), 'number of frames')
    ctx.check(tok[2] == 'CRYSTAL', 'CRYSTAL keyword')
    i = 3
    nc = 4 if fo is None else 7
    for f in range(nt):
        ctx.check(tok[i] == 'PRIMVEC' and int(tok[i + 1]) == f + 1, 'PRIMVEC %d' % (f + 1), got=tok[i:i + 2])
        ctx.close(np.array(tok[i + 2:i + 11], float).reshape(3, 3), ce[f], 'cell of frame %d' % f, rtol=1e-14, atol=1e-15)
        i += 11
        ctx.check(tok[i] == 'PRIMCOORD' and int(tok[i + 1]) == f + 1, 'PRIMCOORD %d' % (f + 1), got=tok[i:i + 2])
        ctx.check(int(tok[i + 2]) == obj.natoms and tok[i + 3] == '1', 'atom count line', got=tok[i:i + 4])
        i += 4
        rows = np.array(tok[i:i + nc * obj.natoms]).reshape(obj.natoms, nc)
        ctx.same([str(x) for x in rows[:, 0]], list(obj.symbols), 'species')
        ctx.close(rows[:, 1:4].astype(float), co[f], 'coordinates', rtol=1e-15, atol=1e-300)
        if fo is not None:
            ctx.close(rows[:, 4:].astype(float), fo[f] / 27.211386, 'forces in Ha/Ang', rtol=1e-6, atol=1e-300)
            ctx.close(rows[:, 4:].astype(float) * Ha / eV, fo[f], 'forces in Ha/Ang', rtol=1e-12, atol=1e-300)
        i += nc * obj.natoms
    ctx.same(len(tok), i, 'nothing else in the file')
    if ctx.idx % 3 == 0:
        import ase.io
        at = ase.io.read(fn, index=':', format='xsf')
        ctx.same(len(at), len(co), 'ASE: number of frames')
        ctx.close([a.get_positions() for a in at], co, 'ASE: coordinates', rtol=1e-10, atol=1e-10)


@reg.scenario(quick=200)
def sgroup(ctx):
    st, kind = _struct(ctx)
    kw = dict(lat_symbol=ctx.choice('PFICA')) if ctx.coin() else {}
    ctx.note(kind=kind, n=st.natoms, kw=str(kw))
    if ctx.coin():
        fn = os.path.join(ctx.tmp(), 'a.sgroup')
        io.write_wien_sgroup(fn, st, **kw)
        txt = _text(fn)
    else:
        txt = io.wien_sgroup_input(st, **kw)
    tok = ' '.join(l.split('/')[0] for l in txt.splitlines()).split()
    ctx.same(tok[0], kw.get('lat_symbol', 'P'), 'lattice type')
    _cc_close(ctx, np.array(tok[1:7], float), gen.cc_from_cell(st.cell), 'cell')
    ctx.same(int(tok[7]), st.natoms, 'number of atoms')
    rows = np.array(tok[8:]).reshape(st.natoms, 4)
    ctx.same([str(x) for x in rows[:, 3]], list(st.symbols), 'species')
    ctx.close(rows[:, :3].astype(float), st.coords_frac, 'fractional coordinates', rtol=1e-14, atol=1e-300)


def _read_lammps(ctx, txt):
    lines = [l.split('#')[0] for l in txt.splitlines()[1:]]
    d = dict(xlo=None)
    sec, out = None, {'Atoms': [], 'Masses': []}
    for l in lines:
        w = l.split()
        if not w:
            continue
        if w[0] in out:
            sec = w[0]
        elif sec:
            out[sec].append(w)
        elif w[1:] == ['atoms']:
            d['natoms'] = int(w[0])
        elif w[1:] == ['atom', 'types']:
            d['ntypes'] = int(w[0])
        elif len(w) == 4 and w[2][1:] == 'lo':
            d[w[2][0]] = (float(w[0]), float(w[1]))
        elif w[3:] == ['xy', 'xz', 'yz']:
            d['tilt'] = [float(x) for x in w[:3]]
        else:
            ctx.fail('unknown line in LAMMPS data: %r' % l)
    return d, out


@reg.scenario(quick=260)
def lammps_data(ctx):
    st, kind = _struct(ctx)
    ctx.note(kind=kind, n=st.natoms, nsp=len(set(st.symbols)))
    fn = os.path.join(ctx.tmp(), 'lmp.struct')
    kw = dict(symbolsbasename='syms') if ctx.coin(0.3) else {}
    io.write_lammps(fn, st, **kw)
    txt = _text(fn)
    ctx.same(_text(os.path.join(ctx.tmp(), kw.get('symbolsbasename', 'lmp.struct.symbols'))).split(), list(st.symbols), 'symbols file')
    d, out = _read_lammps(ctx, txt)
    ctx.same(d['natoms'], st.natoms, 'atom count')
    ctx.same(d['ntypes'], len(set(st.symbols)), 'type count')
    for a in 'xyz':
        ctx.check(d[a][0] == 0.0, 'box starts at zero')
    xy, xz, yz = d['tilt']
    cell = np.array([[d['x'][1], 0, 0], [xy, d['y'][1], 0], [xz, yz, d['z'][1]]])
    G, G0 = cell @ cell.T, st.cell @ st.cell.T
    ctx.close(G, G0, 'metric tensor of the cell', atol=1e-11 * np.abs(G0).max() + 1e-11 * np.sqrt(np.abs(G0).max()))
    ctx.check(cell[0, 0] > 0 and cell[1, 1] > 0 and cell[2, 2] > 0, 'box is right handed')
    rows = sorted(out['Atoms'], key=lambda w: int(w[0]))
    ctx.same([int(w[0]) for w in rows], list(range(1, st.natoms + 1)), 'atom ids 1..N')
    mass = {int(w[0]): float(w[1]) for w in out['Masses']}
    ctx.same(sorted(mass), list(range(1, d['ntypes'] + 1)), 'types 1..M have masses')
    typ = [int(w[1]) for w in rows]
    t2s = {}
    for t, s in zip(typ, st.symbols):
        ctx.check(t2s.setdefault(t, s) == s, 'one species per type')
    ctx.same(len(set(t2s.values())), d['ntypes'], 'one type per species')
    for t, s in t2s.items():
        ctx.close(mass[t], atomic_data.pt[s]['mass'], 'mass of type %d' % t, rtol=1e-5)
    pos = np.array([[float(x) for x in w[2:5]] for w in rows])
    sc = np.abs(st.coords_frac).max() * np.abs(cell).max() + np.abs(cell).max()
    ctx.close(pos, st.coords_frac @ cell, 'positions', atol=1e-11 * sc + 2e-13)
    if ctx.idx % 3 == 0:
        import ase.io
        at = ase.io.read(fn, format='lammps-data', atom_style='atomic', style=None) if 0 else \
            ase.io.read(fn, format='lammps-data', atom_style='atomic')
        ctx.close(np.array(at.cell) @ np.array(at.cell).T, G0, 'ASE: metric tensor', atol=1e-9 * np.abs(G0).max() + 1e-10)
        dd = (at.get_positions() - st.coords_frac @ cell) @ la.inv(cell)
        ctx.close(dd - np.rint(dd), np.zeros_like(dd), 'ASE: positions', atol=1e-7)


@reg.scenario(quick=200)
def pdb(ctx):
    r = ctx.rng
    n = ctx.sz(1, 12, 130)
    syms = gen.rand_symbols(r, n)
    co = np.round(r.uniform(-50, 150, (n, 3)), 3)
    cc = np.round(gen.cc_from_cell(gen.rand_cell(r, 'tricl')), 2)
    have = ctx.coin(0.8)
    up = ctx.coin()
    ctx.note(n=n, cryst1=have, upper=up, k=ctx.idx)
    # the records a PDB file may carry besides CRYST1 and the atoms (any, none)
    recs = ['HEADER    test', 'REMARK   1 something 1.0 2.0 3.0', 'TITLE     NONE', 'AUTHOR    J DOE',
            'COMPND    MOLECULE: X 1.5', 'EXPDTA    X-RAY DIFFRACTION', 'REVDAT   1   01-JAN-00 1ABC    0',
            'KEYWDS    A B C', 'JRNL        REF    J CHEM PHYS  V. 12   345 1999', 'SEQRES   1 A    2  ALA GLY', '']
    rest = ['ORIGX1      1.000000  0.000000  0.000000        0.00000',
            'SCALE1      0.019231  0.000000  0.000000        0.00000', 'MODEL        1']
    txt = ''.join(ctx.choice(recs) + '\n' for _ in range(ctx.ri(0, 5)))
    if have:
        txt += 'CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 1           1\n' % tuple(cc)
    txt += ''.join(ctx.choice(rest) + '\n' for _ in range(ctx.ri(0, 2)))
    for i in range(n):
        nm = syms[i].upper() if up else syms[i]
        txt += '%-6s%5d %4s MOL A%4d    %8.3f%8.3f%8.3f  1.00  0.00          %2s\n' % (
            ctx.choice(['ATOM', 'HETATM']), i + 1, nm.center(4), 1, co[i, 0], co[i, 1], co[i, 2], nm.rjust(2))
        if ctx.coin(0.1):
            txt += 'TER\n'
    txt += 'END\n'
    fn = os.path.join(ctx.tmp(), 'a.pdb')
    with open(fn, 'w') as fh:
        fh.write(txt)
    st = ctx.choice([lambda: io.read_pdb(fn), lambda: parse.PDBFile(fn).get_struct()])()
    ctx.same(list(st.symbols), syms, 'species')
    ctx.close(st.coords, co, 'coordinates', rtol=1e-12, atol=1e-300)
    if have:
        ctx.close(st.cryst_const, cc, 'cell constants', rtol=1e-12)
        ctx.close(st.coords_frac @ gen.cell_from_cc(*cc), co, 'fractional coordinates', atol=1e-8)
    else:
        ctx.check(st.cryst_const is None and st.cell is None, 'no cell without CRYST1')


@reg.scenario(quick=200)
def pickled(ctx):
    traj = ctx.coin()
    obj, kind = _traj(ctx) if traj else _struct(ctx)
    ctx.note(traj=traj, kind=kind, n=obj.natoms)
    sub = ctx.choice(['', 'sub', 'a/b/c'])
    fn = os.path.join(ctx.tmp(), sub, 'x.pk')
    cwd = os.getcwd()
    if ctx.coin(0.3):
        os.makedirs(os.path.join(ctx.tmp(), sub), exist_ok=True)
        os.chdir(os.path.join(ctx.tmp(), sub))
        obj.dump('x.pk')
        os.chdir(cwd)
    else:
        obj.dump(fn)
    want = {a: getattr(obj, a) for a in obj.attr_lst}
    got = [io.read_pickle(fn)]
    new = (crys.Trajectory if traj else crys.Structure)(set_all_auto=False)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        new.load(fn)
    got.append(new)
    for g in got:
        ctx.check(type(g) is type(obj) and g.is_traj == traj, 'same class')
        ctx.same({a: getattr(g, a) for a in obj.attr_lst}, want, 'attributes')
        ctx.same(g.units, obj.units, 'units')
        g.set_all()
        ctx.same({a: getattr(g, a) for a in obj.attr_lst}, want, 'attributes after set_all')


storage.add(reg, 200, 'files.write_cif', 'files.write_xyz', 'files.write_axsf', 'files.write_lammps', 'files.wien_sgroup')
