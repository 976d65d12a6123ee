import json, os, re, shutil, subprocess, sys, tempfile

import numpy as np

from pwtools import atomic_data, crys
from vf import gen
from vf.core import Registry

reg = Registry('Z01', 'The scripts in bin/ run as separate processes on generated files (crystals, PDB files, phonon data, MD output '
               'folders with arbitrary print intervals, continued and broken-off runs); an own reader takes their output apart and a '
               'model of each folder says what must be left')

SRC = os.path.dirname(os.path.dirname(os.path.abspath(crys.__file__)))
BIN = os.path.join(os.environ.get('VF_REPO', '/repo'), 'bin')
BOHR = 0.5291772108


def run(cmd, cwd, env=None, ok=True, ctx=None):
    e = dict(os.environ, PYTHONPATH=SRC, MPLBACKEND='agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             LC_ALL='C', HOME=cwd)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    out, err = p.stdout.decode(), p.stderr.decode()
    if ok:
        ctx.check(p.returncode == 0, 'script ended with an error', cmd=' '.join(cmd[1:]), got=err[-800:])
    return out, err, p.returncode


def py(name):
    return [sys.executable, os.path.join(BIN, name)]


def numbers(s):
    return np.array([float(x) for x in s.split()])


def rand_crystal(ctx):
    n = ctx.ri(1, 9)
    cc = np.round(gen.cc_from_cell(gen.rand_cell(ctx.rng, ctx.choice(['cubic', 'ortho', 'hex', 'tricl', 'tricl']))), 4)
    sym = [str(s) for s in gen.rand_symbols(ctx.rng, n)]
    return cc, sym, np.round(ctx.rng.uniform(-0.2, 1.2, (n, 3)), 6)


def cif_text(cc, sym, x):
    t = "data_test\n_symmetry_space_group_name_H-M 'P 1'\n_symmetry_Int_Tables_number 1\n"
    for k, v in zip(['length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma'], cc):
        t += '_cell_%s %.4f\n' % (k, v)
    t += "loop_\n_symmetry_equiv_pos_as_xyz\n'x,y,z'\nloop_\n_atom_site_label\n_atom_site_type_symbol\n_atom_site_fract_x\n_atom_site_fract_y\n_atom_site_fract_z\n"
    for i, (s, r) in enumerate(zip(sym, x)):
        t += '%s%d %s %.6f %.6f %.6f\n' % ((s, i + 1, s) + tuple(r))
    return t


def block(lines, start, n):
    """n lines after the line equal to start"""
    i = [k for k, l in enumerate(lines) if l.strip() == start]
    assert len(i) == 1, (start, i)
    return lines[i[0] + 1:i[0] + 1 + n]


@reg.scenario(quick=24, thorough=400)
def cif2any(ctx):
    """every number printed for every program is that of the crystal, in that program's units"""
    cc, sym, x = rand_crystal(ctx)
    n = len(sym)
    us = sorted(set(sym))
    ctx.note(n=n, species=len(us))
    d = ctx.tmp()
    with open(os.path.join(d, 'a.cif'), 'w') as f:
        f.write(cif_text(cc, sym, x))
    out, err, _ = run(py('cif2any.py') + ['a.cif'], d, ctx=ctx)
    parts = re.split(r'-{70,}\n(PWSCF|ABINIT|CPMD|CP2K|general crystal information)\n-{70,}\n', out)
    sec = dict(zip(parts[1::2], [p.split('\n') for p in parts[2::2]]))
    ctx.check(sorted(sec) == ['ABINIT', 'CP2K', 'CPMD', 'PWSCF', 'general crystal information'], 'sections', got=sorted(sec))
    ang = gen.cell_from_cc(*cc)
    lb = cc[:3] / BOHR
    T = dict(rtol=1e-7, atol=1e-7)

    def cell_ok(c, scale, what):
        ctx.close(c @ c.T * scale**2, ang @ ang.T, what, rtol=1e-6, atol=1e-5)
        ctx.check(np.linalg.det(c) * np.linalg.det(ang) > 0, what + ': handedness')

    def atoms_ok(rows, what):
        w = [r.split() for r in rows]
        ctx.check([r[0] for r in w] == sym, what + ': species', got=[r[0] for r in w], want=sym)
        ctx.close([[float(v) for v in r[1:4]] for r in w], x, what + ': positions', rtol=1e-9, atol=1e-9)

    # pw.x
    s = sec['PWSCF']
    cd = [float(re.search(r'celldm\(%d\) = (\S+)' % (i + 1), '\n'.join(s)).group(1)) for i in range(6)]
    cs = np.cos(np.radians(cc[3:]))
    ctx.close(cd, [lb[0], cc[1] / cc[0], cc[2] / cc[0], cs[0], cs[1], cs[2]], 'celldm', **T)
    txt = '\n'.join(s)
    ctx.check(re.findall(r'nat = (\d+)', txt) == [str(n)] * 2 and re.findall(r'ntyp = (\d+)', txt) == [str(len(us))] * 2, 'nat, ntyp')
    cell_ok(np.array([numbers(l) for l in block(s, 'CELL_PARAMETERS alat', 3)]), cc[0], 'cell in alat')
    cell_ok(np.array([numbers(l) for l in block(s, 'CELL_PARAMETERS angstrom', 3)]), 1, 'cell in angstrom')
    bohr = np.array([numbers(l) for l in block(s, 'CELL_PARAMETERS bohr', 3)])
    cell_ok(bohr, BOHR, 'cell in bohr')
    sp = [l.split() for l in block(s, 'ATOMIC_SPECIES', len(us))]
    ctx.check(sorted(r[0] for r in sp) == us and all(r[2].startswith(r[0]) for r in sp), 'species', got=sp)
    ctx.close([float(r[1]) for r in sp], [atomic_data.pt[r[0]]['mass'] for r in sp], 'masses', rtol=1e-7)
    atoms_ok(block(s, 'ATOMIC_POSITIONS crystal', n), 'pw.x')
    # ABINIT
    s = sec['ABINIT']
    kv = dict((l.split()[0], l.split()[1:]) for l in s if re.match(r'(natom|ntypat|typat|znucl|acell|angdeg) ', l))
    ctx.check(kv['natom'] == [str(n)] and kv['ntypat'] == [str(len(us))], 'natom, ntypat', got=kv)
    zn = [int(float(z)) for z in kv['znucl']]
    ctx.check(len(zn) == len(us) and len(kv['typat']) == n, 'one charge per type, one type per atom', got=kv)
    ctx.check([zn[int(t) - 1] for t in kv['typat']] == [atomic_data.pt[q]['number'] for q in sym], 'nuclear charge of each atom', got=kv)
    ctx.close([float(v) for v in kv['acell']], lb, 'acell', **T)
    ctx.close([float(v) for v in kv['angdeg']], cc[3:], 'angdeg', **T)
    ctx.close([numbers(l) for l in block(s, 'xred', n)], x, 'xred', rtol=1e-9, atol=1e-9)
    pp = [l.split() for l in block(s, 'pseudopotential order:', len(us))]
    ctx.check([int(p[1]) for p in pp] == zn and all(atomic_data.pt[p[0]]['number'] == int(p[1]) for p in pp), 'pseudopotential order follows znucl', got=pp, want=zn)
    # CPMD
    s = sec['CPMD']
    ctx.close([float(l) for l in block(s, 'CELL ABSOLUTE DEGREE', 6)], list(lb) + list(cc[3:]), 'CPMD cell', **T)
    got = []
    i = 0
    while i < len(s):
        m = re.match(r'\*(\w+)\.psp', s[i])
        if m:
            k = int(s[i + 2])
            got.append((m.group(1), np.array([numbers(l) for l in s[i + 3:i + 3 + k]])))
            ctx.check(('LMAX=XXXLMAX_%s ' % m.group(1).upper()) in s[i + 1] + ' ', 'CPMD type line', got=s[i + 1])
            i += 2 + k
        i += 1
    ctx.check(sorted(g[0] for g in got) == us, 'CPMD types', got=[g[0] for g in got])
    for q, v in got:
        ctx.close(v, x[[k for k in range(n) if sym[k] == q]], 'CPMD positions of %s' % q, rtol=1e-9, atol=1e-9)
    # CP2K
    s = [l.strip() for l in sec['CP2K']]
    ctx.close(numbers([l for l in s if l.startswith('abc ')][0][4:]), cc[:3], 'CP2K abc', **T)
    ctx.close(numbers([l for l in s if l.startswith('alpha_beta_gamma ')][0][17:]), cc[3:], 'CP2K angles', **T)
    ctx.check('scaled t' in s, 'CP2K: fractional')
    atoms_ok(block(s, 'scaled t', n), 'CP2K')
    ctx.same(sorted(l.split()[1] for l in s if l.startswith('&kind')), us, 'CP2K kinds')
    # general
    s = sec['general crystal information']
    rb = np.array([numbers(l) for l in block(s, 'reciprocal cell [1/Bohr]:', 3)])
    ra = np.array([numbers(l) for l in block(s, 'reciprocal cell [1/Ang]:', 3)])
    ctx.close(rb @ bohr.T, 2 * np.pi * np.eye(3), 'reciprocal cell in 1/Bohr', atol=1e-7)
    ctx.close(ra * BOHR, rb, 'reciprocal cell in 1/Ang', rtol=1e-7, atol=1e-9)
    nr = np.sqrt((ra**2).sum(1))
    ctx.close(numbers(block(s, 'relation of recip. vector lengths (a:b:c)', 1)[0]), nr / nr.min(), 'relation of lengths', rtol=1e-7)
    ks = re.findall(r'h = (\S+)\s+size = (\d+)\s+(\d+)\s+(\d+)', '\n'.join(s))
    ctx.close([float(k[0]) for k in ks], np.arange(0.2, 0.95, 0.1), 'k-spacings', rtol=1e-9)
    for k in ks:
        q = nr / float(k[0])
        for g, w in zip(k[1:], q):
            if abs(w % 1 - 0.5) > 1e-6:
                ctx.check(int(g) == max(1, int(np.floor(w + 0.5))), 'k-grid of this spacing', got=k, want=list(q))


@reg.scenario(quick=24, thorough=300)
def converters(ctx):
    """cif2sgroup.py, pdb2cif.py: same crystal on the other side"""
    cc, sym, x = rand_crystal(ctx)
    n = len(sym)
    kind = ctx.pick(['sgroup', 'pdb', 'pdb-name', 'usage'])
    ctx.note(kind=kind, n=n)
    d = ctx.tmp()
    if kind == 'sgroup':
        with open(os.path.join(d, 'a.cif'), 'w') as f:
            f.write(cif_text(cc, sym, x))
        out, _, _ = run(py('cif2sgroup.py') + ['a.cif'], d, ctx=ctx)
        w = [t for l in out.split('\n') for t in l.split('/')[0].split()]
        ctx.same(w[0], 'P', 'lattice type')
        ctx.close([float(v) for v in w[1:7]], cc, 'cell constants', rtol=1e-9)
        ctx.same(int(w[7]), n, 'number of atoms')
        at = [w[8 + 4 * i:12 + 4 * i] for i in range(n)]
        ctx.check([a[3] for a in at] == sym and len(w) == 8 + 4 * n, 'species', got=at)
        ctx.close([[float(v) for v in a[:3]] for a in at], x, 'positions', rtol=1e-9, atol=1e-9)
    elif kind == 'usage':
        for args in ([], ['-h'], ['--help'], ['a', 'b', 'c']):
            out, _, _ = run(py('pdb2cif.py') + args, d, ctx=ctx)
            ctx.check('usage' in out and os.listdir(d) == [], 'usage printed, nothing written', got=out)
    else:
        cc = np.round(cc, 2)
        cell = gen.cell_from_cc(*cc)
        co = np.round(x @ cell, 3)
        txt = 'REMARK    THIS IS A SIMULATION BOX\nCRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 1           1\n' % tuple(cc)
        for i in range(n):
            # no element column, as written by Gromacs
            txt += '%-6s%5d %2s           1    %8.3f%8.3f%8.3f  1.00  0.00\n' % (('HETATM', i + 1, sym[i]) + tuple(co[i]))
        name = ctx.choice(['a.pdb', 'b.x.pdb', 'noext'])
        with open(os.path.join(d, name), 'w') as f:
            f.write(txt)
        o = 'out.cif' if kind == 'pdb-name' else name + '.cif'
        run(py('pdb2cif.py') + [name] + ([o] if kind == 'pdb-name' else []), d, ctx=ctx)
        ctx.same(sorted(os.listdir(d)), sorted([name, o]), 'files')
        from vf.vmdref import read_cif
        c2, s2, x2 = read_cif(open(os.path.join(d, o)).read())
        ctx.close(c2, cc, 'cell', rtol=1e-7, atol=1e-6)
        ctx.check(s2 == sym, 'species', got=s2, want=sym)
        ctx.close(x2 @ cell, co, 'positions', atol=1e-6)
        ctx.same(open(os.path.join(d, name)).read(), txt, 'input unchanged')


HOOK = '''
import sys, json, os
if os.environ.get('VF_PLOT_OUT'):
    import matplotlib
    matplotlib.use('agg')
    from matplotlib import pyplot as plt
    def show(*a, **k):
        json.dump([[[l.get_xdata().tolist(), l.get_ydata().tolist()] for l in ax.get_lines()] for f in plt.get_fignums() for ax in plt.figure(f).axes],
                  open(os.environ['VF_PLOT_OUT'], 'w'))
    plt.show = show
'''


@reg.scenario(quick=20, thorough=300)
def phonons(ctx):
    """matdyn2fqha.py header and data; plot_dispersion.py draws every band over the path length"""
    kind = ctx.pick(['fqha', 'disp'])
    ctx.note(kind=kind)
    d = ctx.tmp()
    if kind == 'fqha':
        nat = ctx.ri(1, 20)
        m = 2 * ctx.ri(20, 300) + ctx.ri(0, 1)
        de = ctx.choice([0.5, 1.0, 2.25])
        f = np.arange(m) * de + ctx.choice([0, 0, 1.5, -20.0])
        dos = np.exp(-(f - f.mean())**2 / (0.1 * np.ptp(f))**2) * ctx.rng.uniform(0.9, 1.1) + np.exp(-(f - f[0] - 0.3 * np.ptp(f))**2 / (0.08 * np.ptp(f))**2)
        dos[0] = dos[-1] = 0
        dos *= (3 * nat + ctx.rng.uniform(-0.3, 0.3)) / (dos.sum() * de)
        txt = ''.join('  %.6E  %.8E\n' % (a, b) for a, b in zip(f, dos))
        with open(os.path.join(d, 'phdos'), 'w') as fh:
            fh.write(txt)
        out, err, _ = run(py('matdyn2fqha.py') + ['phdos'], d, ctx=ctx)
        l = out.split('\n')
        ctx.same(l[0].split(), [str(nat)], 'number of atoms')
        w = l[1].split()
        ctx.check(w[:2] == [str(nat), str(m)], 'natom nstep', got=w, want=(nat, m))
        ctx.close([float(v) for v in w[2:]], [f[-1], de], 'emax de', rtol=1e-4, atol=1e-5)
        got = np.array([[float(v) for v in r.split()] for r in l[2:] if r.strip()])
        ctx.close(got, np.array([[float(v) for v in r.split()] for r in txt.split('\n') if r]), 'data unchanged', rtol=0)
    else:
        nk, nb = ctx.ri(2, 40), 3 * ctx.ri(1, 4)
        ks = np.round(np.cumsum(ctx.rng.normal(size=(nk, 3)) * 0.1, 0), 6)
        fr = np.round(np.sort(ctx.rng.uniform(-50, 900, (nk, nb)), 1), 4)
        txt = ' &plot nbnd=%4d, nks=%4d /\n' % (nb, nk)
        for k, r in zip(ks, fr):
            txt += '          %10.6f%10.6f%10.6f\n' % tuple(k)
            for i in range(0, nb, 6):
                txt += ''.join('%10.4f' % v for v in r[i:i + 6]) + '\n'
        with open(os.path.join(d, 'matdyn.freq'), 'w') as fh:
            fh.write(txt)
        h = os.path.join(d, 'hook')
        os.makedirs(h)
        with open(os.path.join(h, 'sitecustomize.py'), 'w') as fh:
            fh.write(HOOK)
        o = os.path.join(d, 'plot.json')
        run(py('plot_dispersion.py') + ['matdyn.freq'] + (['old'] if ctx.coin(0.2) else []), d, dict(VF_PLOT_OUT=o, PYTHONPATH=h + ':' + SRC), ctx=ctx)
        ctx.check(os.path.exists(o), 'figure shown')
        axs = json.load(open(o))
        ctx.check(len(axs) == 1 and len(axs[0]) == nb, 'one line per band', got=[len(a) for a in axs], want=nb)
        path = np.linalg.norm(ks[0]) + np.concatenate([[0], np.cumsum(np.sqrt((np.diff(ks, axis=0)**2).sum(1)))])
        for j, (a, b) in enumerate(axs[0]):
            ctx.close(a, path, 'path length', rtol=1e-9, atol=1e-9)
            ctx.close(b, fr[:, j], 'band', rtol=1e-9)


# ---------------------------------------------------------------------------
# cutting output of interrupted runs
# ---------------------------------------------------------------------------
def md_folder(ctx, code):
    """{file: [(step or None, text), ...]} in file order"""
    nat = ctx.ri(1, 4)
    last = ctx.choice([ctx.ri(3, 30), ctx.ri(90, 130), ctx.ri(1, 1300)])
    start = ctx.choice([1, 1, max(1, last - 40)]) if code == 'cpmd' else ctx.choice([0, 0, max(0, last - 40)])
    f = {}
    R = ctx.rng
    num = lambda k: '  '.join('%16.10f' % v for v in R.normal(size=k) * 30)
    sym = [ctx.choice(['Al', ' N', ' O', 'Sr']) for _ in range(nat)]
    every = lambda: ctx.choice([1, 1, 2, 3, 5, 10])

    def steps():
        e = every()
        return [s for s in range(start, last + 1) if (s - (1 if code == 'cpmd' else 0)) % e == 0]
    if code == 'cpmd':
        f['CELL'] = [(s, '   CELL PARAMETERS at Step:%12d\n' % s + ''.join('  %s\n' % num(6) for _ in range(3))) for s in steps()]
        f['ENERGIES'] = [(s, '%10d  %s\n' % (s, num(7))) for s in steps()]
        f['STRESS'] = [(s, '   TOTAL STRESS TENSOR (kB): Step:%12d\n' % s + ''.join('  %s\n' % num(3) for _ in range(3))) for s in steps()]
        f['TRAJECTORY'] = [(s, ''.join('%7d  %s\n' % (s, num(6)) for _ in range(nat))) for s in steps()]
        f['FTRAJECTORY'] = [(s, ''.join('%7d  %s\n' % (s, num(9)) for _ in range(nat))) for s in steps()]
        f['TRAJEC.xyz'] = [(s, '%12d\n STEP:%12d\n' % (nat, s) + ''.join('%2s  %s\n' % (q, num(3)) for q in sym)) for s in steps()]
    else:
        hdr = (None, '#   Step   Time [fs]      Something [a.u.]     1    2   3\n')
        for nm, k in (('cell', 10), ('ener', 5), ('stress', 9)):
            f['PROJECT-1.' + nm] = [hdr] + [(s, '%8d  %10.3f  %s\n' % (s, s * 0.5, num(k))) for s in steps()]
        opt = ctx.coin(0.2)
        for nm in ('frc', 'pos', 'vel'):
            f['PROJECT-%s-1.xyz' % nm] = [(s, '%8d\n i = %8d, %sE = %20.10f\n' % (nat, s, '' if opt else 'time = %12.3f, ' % (s * 0.5), R.normal())
                                          + ''.join(' %s  %s\n' % (q, num(3)) for q in sym)) for s in steps()]
    for k in list(f):
        if ctx.coin(0.15):
            del f[k]
        elif code == 'cpmd' and f[k] and k != 'TRAJEC.xyz' and k != 'CELL' and k != 'STRESS' and ctx.coin(0.2):
            j = ctx.ri(0, len(f[k]))
            f[k].insert(j, (None, '<<<<<<  NEW DATA  >>>>>>\n'))
        if k in f and f[k] and f[k][-1][0] is not None and ctx.coin(0.2):
            # broken off in the middle of the last step
            s, t = f[k][-1]
            ls = t.splitlines(True)
            if len(ls) > 2:
                f[k][-1] = (s, ''.join(ls[:ctx.ri(2, len(ls))]))
    allsteps = sorted(set(s for v in f.values() for s, _ in v if s is not None)) or [1]
    cut = ctx.choice([allsteps[0], allsteps[-1], last + 1, ctx.ri(max(start, 1), last + 1), ctx.ri(max(start, 1), last + 1), last // 2 + 1])
    return f, cut, last


def left_of(frames, cut):
    out = []
    for s, t in frames:
        if s is not None and s >= cut:
            break
        out.append(t)
    return ''.join(out)


@reg.scenario(quick=400, thorough=6000)
def cut(ctx):
    """cut-cpmd.sh, cut-cp2k.sh: exactly the steps before the given one remain; backups; simulation changes nothing"""
    code = ctx.pick(['cpmd', 'cp2k'])
    f, step, last = md_folder(ctx, code)
    base = tempfile.mkdtemp(dir=ctx.tmp())
    d = os.path.join(base, ctx.choice(['run', 'run', 'my run', 'a-1.x']))
    os.makedirs(d)
    orig = {}
    for k, fr in f.items():
        orig[k] = ''.join(t for _, t in fr)
    other = {'notes.txt': '  %d  keep\n' % step, 'GEOMETRY.xyz': ' STEP: %d\n' % step}
    if code == 'cp2k':
        rs = ctx.coin() and step > 0
        other['PROJECT-1.restart'] = ' &MOTION\n   &MD\n     STEPS  1000\n     STEP_START_VAL  %d\n     TIME_START_VAL   1.0E+02\n   &END MD\n &END MOTION\n' % (step - 1)
        if not rs and ctx.coin():
            del other['PROJECT-1.restart']
    else:
        rs = False
    for k, t in list(orig.items()) + list(other.items()):
        with open(os.path.join(d, k), 'w') as fh:
            fh.write(t)
    mode = ctx.choice(['do', 'do', 'do', 'simulate', 'print' if code == 'cpmd' else 'do'])
    ctx.note(code=code, mode=mode, nfiles=len(f), hit=sum(any(s == step for s, _ in v) for v in f.values()))
    opt = {'do': [], 'simulate': ['-s'], 'print': ['--not-inplace']}[mode]
    rel = ctx.coin()
    arg = os.path.basename(d) if rel else d
    if ctx.coin(0.2):
        arg += '/'
    cmd = ['bash', os.path.join(BIN, 'cut-%s.sh' % code)] + opt + [arg] + ([] if rs else [str(step)])
    out, err, _ = run(cmd, base, ctx=ctx)
    now = dict((k, open(os.path.join(d, k)).read()) for k in os.listdir(d))
    for k, t in other.items():
        ctx.same(now.get(k), t, 'other files unchanged')
    if mode != 'do':
        ctx.check(now == dict(orig, **other), 'nothing changed', mode=mode, got=sorted(now))
        if mode == 'print':
            for k in orig:
                w = left_of(f[k], step)
                ctx.check(w in out, 'cut file printed', file=k, step=step)
                rest = orig[k][len(w):].splitlines()
                lines = set(out.splitlines())
                lone = [l for l in rest if l not in w.splitlines() and len(l) > 20]
                ctx.check(not any(l in lines for l in lone), 'later steps not printed', file=k)
        return
    for k in orig:
        w = left_of(f[k], step)
        ctx.check(now[k] == w, 'steps before the cut remain, later ones are gone', file=k, step=step,
                  got_steps=len(now[k].splitlines()), want_steps=len(w.splitlines()), steps=str([s for s, _ in f[k]][:60]))
        ctx.check(now.get(k + '.bak') == orig[k], 'backup holds the complete file', file=k)
    extra = set(now) - set(orig) - set(other) - set(k + '.bak' for k in orig)
    ctx.check(all(e.startswith(tuple(orig)) for e in extra), 'no other files appear', got=sorted(extra))


@reg.scenario(quick=16, thorough=100)
def cut_refused(ctx):
    """wrong arguments end with an error and change nothing"""
    code = ctx.pick(['cpmd', 'cp2k'])
    f, step, last = md_folder(ctx, code)
    d = tempfile.mkdtemp(dir=ctx.tmp())
    for k, fr in f.items():
        with open(os.path.join(d, k), 'w') as fh:
            fh.write(''.join(t for _, t in fr))
    args = ctx.choice([[], [d], [d, '1', '2'], [d + '-nothing', '3'], ['--nonsense', d, '3']])
    ctx.note(code=code, nargs=len(args))
    if '--nonsense' in args:
        _, err, rc = run(['bash', os.path.join(BIN, 'cut-%s.sh' % code), '-h'], d, ctx=ctx)
        args = ['-h']
        out, _, _ = run(['bash', os.path.join(BIN, 'cut-%s.sh' % code)] + args, d, ctx=ctx)
        ctx.check('usage' in out, 'help', got=out)
    else:
        _, err, rc = run(['bash', os.path.join(BIN, 'cut-%s.sh' % code)] + args, d, ok=False)
        ctx.check(rc != 0, 'error status', got=rc, args=args)
    ctx.check(dict((k, open(os.path.join(d, k)).read()) for k in os.listdir(d)) == dict((k, ''.join(t for _, t in fr)) for k, fr in f.items()), 'nothing changed')


GMX = r'''#!/bin/sh
# stand-in for: gmx insert-molecules [options] -ci INSERT -f START -o OUT
printf '%s\n' "$@" > gmx.args
while [ $# -gt 0 ]; do
    case "$1" in -f) f=$2; shift;; -o) o=$2; shift;; -ci) ci=$2; shift;; esac
    shift
done
cp "$ci" gmx.ci
echo "Added 1 molecules (out of 1 requested)"
(grep -v '^TER\|^END' "$f"; grep '^ATOM\|^HETATM' "$ci") > "$o"
'''


@reg.scenario(quick=6, thorough=40)
def solvate(ctx):
    """solvate.sh: options reach the program, result in all three formats"""
    d = os.path.join(ctx.tmp(), 'w')
    b = os.path.join(ctx.tmp(), 'b')
    os.makedirs(d); os.makedirs(b)
    with open(os.path.join(b, 'gmx'), 'w') as f:
        f.write(GMX)
    for n in ('pdb2cif.py', 'cif2any.py'):
        with open(os.path.join(b, n), 'w') as f:
            f.write('#!/bin/sh\nexec "%s" "%s" "$@"\n' % (sys.executable, os.path.join(BIN, n)))
    for n in os.listdir(b):
        os.chmod(os.path.join(b, n), 0o755)
    cc, sym, x = rand_crystal(ctx)
    cc = np.round(cc, 2)
    co = np.round(x @ gen.cell_from_cc(*cc), 3)
    at = lambda i, s, c: '%-6s%5d %2s           1    %8.3f%8.3f%8.3f  1.00  0.00\n' % (('HETATM', i, s) + tuple(c))
    txt = 'CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 1           1\n' % tuple(cc) + ''.join(at(i, s, c) for i, (s, c) in enumerate(zip(sym, co))) + 'TER\n'
    name = ctx.choice(['foo', 'my-mol'])
    with open(os.path.join(d, name + '.pdb'), 'w') as f:
        f.write(txt)
    opts = ctx.choice([[], ['-nmol', '3', '-seed', '7']])
    ins = ['O', 'H', 'H']
    own = ctx.coin()
    if own:
        ins = ['N', 'C']
        ico = np.round(ctx.rng.uniform(-3, 3, (2, 3)), 3)
        with open(os.path.join(d, 'ins.pdb'), 'w') as f:
            f.write(''.join(at(i, s, c) for i, (s, c) in enumerate(zip(ins, ico))))
        opts = opts + ['-ci', 'ins.pdb']
    ctx.note(own=own, opts=len(opts))
    run(['bash', os.path.join(BIN, 'solvate.sh'), name + '.pdb'] + opts, d, dict(PATH=b + ':/usr/bin:/bin'), ok=False)
    got = open(os.path.join(d, 'gmx.args')).read().split('\n')[:-1]
    ctx.check(got[0] == 'insert-molecules' and got[1:1 + len(opts)] == opts, 'options passed on', got=got, want=opts)
    ctx.check(got[-4:] == ['-f', name + '.pdb', '-o', name + '_gmx.pdb'], 'files passed on', got=got)
    ctx.same(open(os.path.join(d, name + '.pdb')).read(), txt, 'input unchanged')
    from vf.vmdref import read_cif
    c2, s2, x2 = read_cif(open(os.path.join(d, name + '_gmx.cif')).read())
    ctx.close(c2, cc, 'cell', rtol=1e-7, atol=1e-6)
    ctx.check(s2[:len(sym)] == sym and len(s2) == len(sym) + len(ins), 'atoms of the solvated cell', got=s2, want=sym + ins)
    ctx.close((x2 @ gen.cell_from_cc(*cc))[:len(sym)], co, 'positions', atol=1e-6)
    if own:
        ctx.check(s2[len(sym):] == ins, 'inserted species', got=s2)
        ctx.close((x2 @ gen.cell_from_cc(*cc))[len(sym):], ico, 'positions', atol=1e-6)
    t = open(os.path.join(d, name + '_gmx.cif.txt')).read()
    ctx.check('natom %d\n' % len(s2) in t, 'cif2any output of the result')
