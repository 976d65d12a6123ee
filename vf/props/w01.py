"""W01: text blocks for simulation inputs."""
import os
import re
import shutil
import subprocess
import warnings
import numpy as np
from vf.core import Registry, Inconclusive
from vf import storage, gen
from pwtools import pwscf, lammps, common, crys, atomic_data, num

warnings.simplefilter('ignore')

reg = Registry('W01', 'Input blocks are generated from random symbols, numbers of all magnitudes, formats, delimiters and thresholds, split '
               'back into tokens by an independent reader and compared with the data; the LAMMPS structure block is also given to the '
               'real LAMMPS and its view of box, positions, types and masses compared with the structure.')


def numbers(ctx, shape):
    r = ctx.rng
    kind = ctx.choice(['normal', 'wide', 'tiny', 'int', 'huge', 'neg', 'mixed'])
    a = r.normal(size=shape)
    if kind == 'wide':
        a = a * 10.0 ** r.uniform(-20, 20, size=shape)
    elif kind == 'tiny':
        a = a * num.EPS * r.choice([0.01, 0.5, 0.99, 1.01, 3, 100], size=shape)
    elif kind == 'int':
        a = r.integers(-5, 5, size=shape)
    elif kind == 'huge':
        a = a * 1e200
    elif kind == 'neg':
        a = -abs(a)
    elif kind == 'mixed':
        a = np.where(r.random(shape) < .5, a, a * 1e-17)
    return kind, gen.layouts(r, a)[0][1] if a.dtype == float and ctx.coin() else a


FMTS = ['%.16e', '%.16g', '%12.8f', '%g', '%23.16e', '%.3f', '%.17g']


@reg.scenario(quick=500)
def strarr(ctx):
    r = ctx.rng
    shape = ctx.pick([(1,), (7,), (1, 3), (5, 3), (20, 4), (3, 1), (2, 9)])
    kind, a = numbers(ctx, shape)
    fmt = ctx.choice(FMTS)
    delim = ctx.choice(['    ', ' ', ', ', '\t', ' ; '])
    eps = ctx.choice([None, -1.0, 1e-13, 1e-3, 0.5, 10.0])
    ctx.note(shape=str(shape), kind=kind, fmt=fmt, delim=delim, eps=eps)
    before = np.array(a)
    kw = {} if eps is None else dict(eps=eps)
    if ctx.coin(.2):
        a = a.tolist()
    txt = common.str_arr(a, fmt=fmt, delim=delim, **kw)
    ctx.same(np.asarray(a), before, 'input unchanged')
    e = num.EPS if eps is None else eps
    lines = txt.split('\n')
    want2 = np.atleast_2d(before)
    ctx.check(len(lines) == want2.shape[0], 'number of rows', got=len(lines), want=want2.shape)
    for line, row in zip(lines, want2):
        tok = line.split(delim.strip() or None)
        ctx.check(len(tok) == len(row), 'number of columns', line=line, want=row)
        for t, x in zip(tok, row):
            got = float(t)
            if e > 0 and abs(x) < e:
                ctx.check(got == 0.0, 'below the threshold printed as zero', got=t, value=x, eps=e)
            elif e > 0 and abs(x) == e:
                pass
            else:
                ctx.check(got == float(fmt % x), 'value', token=t, value=x, fmt=fmt, eps=e)
    if eps is not None and eps > 0:
        arr = np.array(before, dtype=float)
        for copy in (True, False):
            x = arr.copy()
            y = common.fix_eps(x, eps=eps, copy=copy)
            ctx.check((y is x) or copy, 'in place result')
            ctx.check(not (copy and np.shares_memory(x, y)), 'copy')
            if copy:
                ctx.same(x, arr, 'copying call leaves input alone')
            big = abs(arr) > eps
            ctx.same(y[big], arr[big], 'values above the threshold')
            ctx.check((y[abs(arr) < eps] == 0).all(), 'values below are zero')


@reg.scenario(quick=400)
def atpos(ctx):
    r = ctx.rng
    n = ctx.choice([1, 2, 3, 10, 50])
    nc = ctx.choice([3, 3, 3, 6, 4])
    sym = [str(s) for s in gen.rand_symbols(r, n)]
    if ctx.coin(.2):
        sym = [s + ctx.choice(['', '1', '_x', '2a']) for s in sym]
    kind, a = numbers(ctx, (n, nc))
    fmt = ctx.choice(FMTS)
    eps = ctx.choice([None, -1.0, 1e-3])
    delim = ctx.choice(['    ', ' ', '\t'])
    ctx.note(n=n, cols=nc, kind=kind, fmt=fmt, eps=eps)
    kw = {} if eps is None else dict(eps=eps)
    txt = pwscf.atpos_str(sym, a, fmt=fmt, delim=delim, **kw)
    e = num.EPS if eps is None else eps
    lines = txt.rstrip('\n').split('\n')
    ctx.check(len(lines) == n, 'one line per atom', got=len(lines), n=n)
    for l, s, row in zip(lines, sym, np.asarray(a)):
        t = l.split()
        ctx.check(t[0] == s and len(t) == nc + 1, 'line', line=l, want=(s, row))
        for x, y in zip(t[1:], row):
            ctx.check(float(x) == float(fmt % y) if (e < 0 or abs(y) > e) else float(x) == 0.0, 'number', got=x, want=y)
    fast = pwscf.atpos_str_fast(sym, a).rstrip('\n').split('\n')
    ctx.check(len(fast) == n, 'fast version: one line per atom')
    for l, s, row in zip(fast, sym, np.asarray(a)):
        t = l.split()
        ctx.check(t[0] == s and len(t) == nc + 1, 'fast version: line', line=l, want=(s, row))
        ctx.check([float(x) for x in t[1:]] == [float(y) for y in row], 'fast version: exact numbers', got=l, want=row.tolist())
    ctx.raises(AssertionError, pwscf.atpos_str, sym + ['H'], a, _msg='more symbols than rows')


@reg.scenario(quick=300)
def cards(ctx):
    r = ctx.rng
    n = ctx.sz(1, 8, 130)
    sym = [str(x) for x in r.choice([s for s in atomic_data.pt if s.isalpha()], n)]
    mass = r.uniform(1, 250, n) if ctx.coin() else [str(round(x, 4)) for x in r.uniform(1, 250, n)]
    pp = ['%s.%s' % (s, ctx.choice(['UPF', 'pbe-n.rrkj', 'x_y-1.0.UPF', 'pz%d.upf'])) for s in sym]
    lines = pwscf.atspec_str(sym, mass, pp).split('\n')
    ctx.check(len(lines) == n, 'one line per species')
    for l, s, m, p in zip(lines, sym, mass, pp):
        t = l.split()
        ctx.check(t[0] == s and t[2] == p and len(t) == 3 and float(t[1]) == float(m), 'species line', got=l, want=(s, m, p))
    for bad in ((sym[1:], mass, pp), (sym, mass[1:], pp), (sym, mass, pp[1:])):
        ctx.raises(AssertionError, pwscf.atspec_str, *bad)
    ks = [int(x) for x in r.integers(1, 200, 3)]
    if ctx.coin(.2):
        ks = [1, 1, 1]
    sh = [int(x) for x in r.integers(0, 2, 3)]
    form = ctx.choice([list, tuple, np.array])
    base = ctx.choice(['nk', 'nq', 'nr'])
    ctx.note(n=n, ks=str(ks), form=form.__name__)
    txt = pwscf.kpoints_str(form(ks), base=base)
    ctx.same(re.findall(r'(\w+?)(\d)=(\d+)', txt), [(base, str(i + 1), str(k)) for i, k in enumerate(ks)], 'kpoints_str')
    ctx.check(txt.count(',') == 2 and len(re.sub(r'[^=]', '', txt)) == 3, 'kpoints_str form', got=txt)
    ctx.same([int(x) for x in pwscf.kpoints_str_pwin(form(ks), shift=form(sh)).split()], ks + sh, 'pwin')
    ctx.same([int(x) for x in pwscf.kpoints_str_pwin(form(ks)).split()], ks + [0, 0, 0], 'pwin, no shift')
    for gamma in (True, False):
        t = pwscf.kpoints_str_pwin_full(form(ks), shift=form(sh), gamma=gamma).split('\n')
        if gamma and ks == [1, 1, 1]:
            ctx.same(t, ['K_POINTS gamma'], 'gamma')
        else:
            ctx.check(t[0].split() == ['K_POINTS', 'automatic'] and len(t) == 2, 'card', got=t)
            ctx.same([int(x) for x in t[1].split()], ks + sh, 'card numbers')
    ctx.same(pwscf.kpoints_str_pwin_full('gamma').split(), ['K_POINTS', 'gamma'], 'gamma text')
    for x in (True, False, 1, 0, np.bool_(True), np.bool_(False)):
        ctx.same(pwscf.bool2str(x), '.true.' if x else '.false.', 'bool2str')


def structure(ctx, n):
    r = ctx.rng
    kind = ctx.pick(gen.CELL_KINDS)
    cell = gen.rand_cell(r, kind)
    sym = [str(s) for s in gen.rand_symbols(r, n)]
    ctx.note(kind=kind, n=n, species=len(set(sym)))
    fr = r.random((n, 3)) if ctx.coin(.7) else r.normal(size=(n, 3)) * 2
    return crys.Structure(cell=cell, coords_frac=fr, symbols=sym), fr, sym, cell


def read_data(txt):
    """independent reader of a LAMMPS data file: cell, types, coords, masses"""
    ls = [l.split('#')[0].strip() for l in txt.split('\n')][1:]
    n = nt = None
    box = {}
    tilt = [0, 0, 0]
    sec = None
    types, xyz, masses = {}, {}, {}
    for l in ls:
        if not l:
            continue
        t = l.split()
        if l in ('Atoms', 'Masses'):
            sec = l
        elif l.endswith('atoms'):
            n = int(t[0])
        elif l.endswith('atom types'):
            nt = int(t[0])
        elif len(t) == 4 and t[3].endswith('hi'):
            box[t[2][0]] = (float(t[0]), float(t[1]))
        elif l.endswith('xy xz yz'):
            tilt = [float(x) for x in t[:3]]
        elif sec == 'Atoms':
            i = int(t[0])
            if i in xyz or len(t) != 5:
                raise ValueError('bad atom line %r' % l)
            types[i], xyz[i] = int(t[1]), [float(x) for x in t[2:]]
        elif sec == 'Masses':
            masses[int(t[0])] = float(t[1])
        else:
            raise ValueError('unexpected line %r' % l)
    lo = [box[k][0] for k in 'xyz']
    hi = [box[k][1] for k in 'xyz']
    cell = np.diag(np.array(hi) - np.array(lo))
    cell[1, 0], cell[2, 0], cell[2, 1] = tilt
    ids = sorted(xyz)
    return n, nt, cell, [types[i] for i in ids], np.array([xyz[i] for i in ids]) - lo, masses, ids


@reg.scenario(quick=300)
def lammps_block(ctx):
    n = ctx.choice([1, 2, 3, 8, 30])
    st, fr, sym, cell = structure(ctx, n)
    before = st.copy()
    txt = lammps.struct_str(st)
    for k in ('coords', 'coords_frac', 'cell', 'cryst_const'):
        ctx.same(getattr(st, k), getattr(before, k), 'structure unchanged: ' + k)
    nn, nt, c, types, xyz, masses, ids = read_data(txt)
    uniq = sorted(set(sym))
    ctx.check(nn == n and ids == list(range(1, n + 1)) and nt == len(uniq) and sorted(masses) == list(range(1, nt + 1)),
              'counts', text=txt)
    scale = abs(cell).max()
    ctx.close(c @ c.T, cell @ cell.T, 'metric of the box', rtol=1e-9, atol=1e-9 * scale ** 2)
    ctx.check(c[0, 1] == 0 and c[0, 2] == 0 and c[1, 2] == 0 and (np.diag(c) > 0).all(), 'LAMMPS orientation')
    ctx.close(xyz @ np.linalg.inv(c), fr, 'fractional coordinates', rtol=1e-8, atol=1e-8)
    t2s = {}
    for t, s in zip(types, sym):
        ctx.check(t2s.setdefault(t, s) == s, 'one type per species', types=types, symbols=sym)
    ctx.check(len(t2s) == len(uniq), 'one species per type', types=types, symbols=sym)
    for t, s in t2s.items():
        ctx.close(masses[t], atomic_data.pt[s]['mass'], 'mass of ' + s, rtol=2e-5)


@reg.scenario(quick=24)
def real_lammps(ctx):
    exe = shutil.which('lmp')
    if exe is None:
        raise Inconclusive('no lmp')
    n = ctx.choice([1, 2, 5, 12])
    st, fr, sym, cell = structure(ctx, n)
    d = ctx.tmp()
    with open(os.path.join(d, 'lmp.struct'), 'w') as f:
        f.write(lammps.struct_str(st))
    with open(os.path.join(d, 'in'), 'w') as f:
        f.write('units metal\natom_style atomic\nboundary p p p\nbox tilt large\nread_data lmp.struct\n'
                'pair_style none\n'
                'write_dump all custom out.dump id type mass xs ys zs modify sort id format float %20.15g\n'
                'print "BOX $(xlo:%20.15g) $(xhi:%20.15g) $(ylo:%20.15g) $(yhi:%20.15g) $(zlo:%20.15g) $(zhi:%20.15g) '
                '$(xy:%20.15g) $(xz:%20.15g) $(yz:%20.15g)"\n')
    try:
        p = subprocess.run([exe, '-in', 'in', '-log', 'none'], cwd=d, capture_output=True, text=True, timeout=60,
                           env=dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMP_NUM_THREADS='1',
                                    OMPI_MCA_ess_singleton_isolated='1', OMPI_MCA_btl='self'))
    except subprocess.TimeoutExpired:
        raise Inconclusive('lmp did not finish')
    m = re.search(r'^BOX (.*)$', p.stdout, re.M)
    if m is None:
        if 'LAMMPS' not in p.stdout:
            raise Inconclusive('lmp does not run here')
        ctx.fail('LAMMPS refuses the structure block', output=p.stdout[-600:])
    b = [float(x) for x in m.group(1).split()]
    c = np.diag([b[1] - b[0], b[3] - b[2], b[5] - b[4]])
    c[1, 0], c[2, 0], c[2, 1] = b[6:]
    ctx.close(c @ c.T, cell @ cell.T, 'metric of the box LAMMPS has', rtol=1e-8, atol=1e-8 * abs(cell).max() ** 2)
    rows = open(os.path.join(d, 'out.dump')).read().split('ITEM: ATOMS')[1].strip().split('\n')[1:]
    ctx.check(len(rows) == n, 'LAMMPS lost atoms', rows=rows)
    uniq = {}
    for i, row in enumerate(rows):
        t = row.split()
        ctx.check(int(t[0]) == i + 1, 'ids')
        ctx.check(uniq.setdefault(t[1], sym[i]) == sym[i], 'types follow species', rows=rows, symbols=sym)
        ctx.close(float(t[2]), atomic_data.pt[sym[i]]['mass'], 'mass', rtol=2e-5)
        dd = np.array([float(x) for x in t[3:6]]) - fr[i]
        ctx.close(dd - np.round(dd), np.zeros(3), 'scaled position (mod 1) in LAMMPS', atol=1e-7)
    ctx.count('lmp runs')


storage.add(reg, 240, 'io.str_arr', 'io.fix_eps', 'files.atpos_str', 'files.atspec_str', 'files.kpoints_str', 'files.lammps_str')
