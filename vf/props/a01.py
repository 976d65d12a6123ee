import copy
import os
import re
import shutil

import numpy as np

from pwtools import atomic_data, calculators, crys
from pwtools.calculators import Lammps, Pwscf
from vf import qe
from vf.core import Inconclusive, Registry

reg = Registry('A01', 'Random atoms objects in any cell orientation, with species whose names start like each other, several calculators '
               'with different settings alive at once; written pw.x input is read by an own parser and by ASE, pw.x is played by a '
               'command that hands out prepared output; LAMMPS is the installed binary, its results compared with an own pair sum')

ENV = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMP_NUM_THREADS='1', OMPI_MCA_ess_singleton_isolated='1',
           OMPI_MCA_btl='self')
os.environ.update(ENV)
DEFAULTS = dict((c, copy.deepcopy(c.default_parameters)) for c in (Pwscf, Lammps))
FAMILIES = ['N Na Ne Nb Ni', 'C Cl Cs Ca Co Cu', 'S Si Sn Sr', 'H He Hf Hg', 'B Br Ba Be Bi', 'O Os', 'P Pb Pt Pd', 'I In Ir', 'F Fe', 'K Kr',
            'Al N', 'U', 'V', 'W', 'Y Yb']
RY, BOHR = 13.605693, 0.52917721
GPA = 160.21766


def atoms(ctx, nmax=6, fam=None, n=None):
    import ase
    pool = (fam or ctx.choice(FAMILIES)).split()
    if ctx.coin(0.3):
        pool = sum([f.split() for f in FAMILIES], [])
    n = n or ctx.ri(1, nmax)
    sy = [ctx.choice(pool) for _ in range(n)]
    cell = crys.cc2cell(np.concatenate([ctx.rng.uniform(3, 9, 3), ctx.rng.uniform(65, 115, 3)]))
    kind = ctx.choice(['aligned', 'rotated', 'fcc', 'left'])
    if kind == 'rotated':
        cell = cell @ np.linalg.qr(ctx.rng.standard_normal((3, 3)))[0]
    elif kind == 'fcc':
        cell = ctx.rng.uniform(5, 8) / 2 * (1 - np.eye(3)) * ctx.choice([1, -1])
    elif kind == 'left':
        cell = cell[[1, 0, 2]]
    fr = ctx.rng.uniform(-0.5, 1.5, (n, 3)) if ctx.coin(0.3) else ctx.rng.uniform(0, 1, (n, 3))
    return ase.Atoms(sy, cell=cell, scaled_positions=fr, pbc=True), kind


def namelist(txt):
    """pw.x input: {namelist: {key: text}}, cards"""
    nl, cards, cur = {}, {}, None
    for line in txt.split('\n'):
        s = line.strip()
        if s.startswith('&'):
            cur = nl.setdefault(s[1:].lower(), {})
        elif s == '/':
            cur = None
        elif isinstance(cur, dict):
            if s:
                k, v = s.rstrip(',').split('=', 1)
                cur[k.strip()] = v.strip().strip(',').strip()
        elif s and s.split()[0] in ('ATOMIC_SPECIES', 'CELL_PARAMETERS', 'ATOMIC_POSITIONS', 'K_POINTS'):
            cur = cards.setdefault(s.split()[0], [s])
        elif s and isinstance(cur, list):
            cur.append(s)
    return nl, cards


def num(s):
    return float(s.lower().replace('d', 'e'))


def settings(ctx, A, d):
    kw = dict(label=ctx.choice(['pw', 'scf', 'run-1']), directory=d, pseudo_dir='/pseudo/' + ctx.choice('abc'), outdir='/scr/' + ctx.choice('abc'))
    if ctx.coin(0.2):
        del kw['label']
    us = sorted(set(A.get_chemical_symbols()))
    if ctx.coin():
        kw['pp'] = ctx.choice(['pbe.UPF', 'pz-n-kjpaw_psl.0.1.UPF'])
        pps = dict((s, '%s.%s' % (s, kw['pp'])) for s in us)
    else:
        sep = ctx.choice(['.', '_', '-'])
        pps = dict((s, s + sep + ctx.choice(['pbe.UPF', 'x-sp.upf'])) for s in us)
        kw['pp'] = list(pps[us[i]] for i in ctx.rng.permutation(len(us)))
        if ctx.coin(0.3):
            kw['pp'] = tuple(kw['pp'])
    opt = dict(calc_name=lambda: ctx.choice(['my', 'x_1']), charge=lambda: ctx.choice([-1, 0, 0.5, 2]), conv_thr=lambda: ctx.choice([1e-3, 3e-9]),
               diagonalization=lambda: 'cg', ecutrho=lambda: float(ctx.ri(100, 900)), ecutwfc=lambda: ctx.choice([10, 33.5, 120.0]),
               electron_maxstep=lambda: ctx.ri(1, 900), kpts=lambda: ctx.choice([[ctx.ri(1, 9) for _ in range(3)], float(ctx.rng.uniform(0.3, 6)), 4]),
               mixing_beta=lambda: 0.7, mixing_mode=lambda: 'local-TF', backup=lambda: True)
    for k in sorted(opt):
        if ctx.coin(0.4):
            kw[k] = opt[k]()
    return kw, pps


def full(cls, kw):
    p = copy.deepcopy(DEFAULTS[cls])
    p.update(kw)
    return p


def check_pw(ctx, txt, A, kw, pps):
    p = full(Pwscf, kw)
    nl, cards = namelist(txt)
    ctx.check(sorted(nl) == ['control', 'electrons', 'system'], 'namelists', got=sorted(nl))
    nl = dict((k, v) for n in nl.values() for k, v in n.items())
    for k, v in dict(calculation='scf', prefix=p['calc_name'], pseudo_dir=p['pseudo_dir'], outdir=p['outdir'], diagonalization=p['diagonalization'],
                     mixing_mode=p['mixing_mode']).items():
        ctx.check(nl[k].strip('\'"') == v and nl[k][0] in '\'"', k, got=nl[k], want=v)
    rho = 4.0 * p['ecutwfc'] if p['ecutrho'] is None else p['ecutrho']
    sy = A.get_chemical_symbols()
    us = sorted(set(sy))
    for k, v in dict(ecutwfc=p['ecutwfc'], ecutrho=rho, electron_maxstep=p['electron_maxstep'], mixing_beta=p['mixing_beta'], conv_thr=p['conv_thr'],
                     nat=len(A), ntyp=len(us), ibrav=0).items():
        ctx.close(num(nl[k]), v, k, rtol=1e-12)
    ctx.close(num(nl.get('tot_charge', '0')), p['charge'], 'charge of the system', rtol=1e-12)
    ctx.check(nl['tstress'] == '.true.' and nl['tprnfor'] == '.true.', 'forces and stress requested')
    cell = np.array(A.get_cell())
    ctx.check('angstrom' in cards['CELL_PARAMETERS'][0].lower() and 'crystal' in cards['ATOMIC_POSITIONS'][0].lower(), 'units of the cards')
    ctx.close([[num(x) for x in l.split()] for l in cards['CELL_PARAMETERS'][1:]], cell, 'cell', rtol=1e-12, atol=1e-12)
    rows = [l.split() for l in cards['ATOMIC_POSITIONS'][1:]]
    ctx.same([r[0] for r in rows], sy, 'species in order')
    d = np.array([[num(x) for x in r[1:4]] for r in rows]) - A.get_positions() @ np.linalg.inv(cell)
    ctx.close(d - np.rint(d), np.zeros_like(d), 'positions (modulo the cell)', atol=1e-11)
    rows = [l.split() for l in cards['ATOMIC_SPECIES'][1:]]
    ctx.same(sorted(r[0] for r in rows), us, 'types')
    for s, m, pp in rows:
        ctx.close(num(m), atomic_data.pt[s]['mass'], 'mass of ' + s, rtol=1e-10)
        ctx.same(pp, pps[s], 'pseudopotential of ' + s)
    k = [int(x) for x in cards['K_POINTS'][1].split()]
    ctx.check(cards['K_POINTS'][0].split()[1] == 'automatic' and not any(k[3:]), 'grid without shift', got=cards['K_POINTS'])
    if isinstance(p['kpts'], (int, float)):
        x = 2 * np.pi * np.sqrt((np.linalg.inv(cell)**2).sum(0)) * p['kpts']
        for i in range(3):
            ctx.check(k[i] >= 1 and abs(k[i] - x[i]) < 1 + 1e-9 or k[i] == 1 and x[i] < 1, 'k-points per axis follow the density', got=k[:3], want=x)
    else:
        ctx.same(k[:3], list(p['kpts']), 'k-points')


def prepared(ctx, A, dn):
    """pw.x output with random numbers"""
    n = len(A)
    o = qe.Pw(ctx.rng, n, A.get_chemical_symbols(), ctx.ri(1, 9), 10.0, np.array(A.get_cell()) / 10.0 / BOHR, ctx.rng.uniform(0, 1, (n, 3)), old=ctx.coin())
    o.scf()
    r = o.ref
    with open(dn, 'w') as f:
        f.write(o.text())
    return r['etot'][-1] * RY, r['forces'][-1] * RY / BOHR, -np.array(r['stress'][-1]) / 10.0 / GPA


@reg.scenario(quick=200, thorough=3000)
def pwscf_input(ctx):
    """input files of calculators which live at the same time"""
    import ase.io
    top = ctx.tmp()
    job = []
    for i in range(ctx.ri(1, 3)):
        A, kind = atoms(ctx)
        d = os.path.join(top, 'calc-%d' % i)
        kw, pps = settings(ctx, A, d)
        kw0 = copy.deepcopy(kw)
        c = Pwscf(**kw)
        ctx.same(kw, kw0, 'keywords changed')
        job.append((A, kw, pps, c))
        ctx.count('calculators')
    ctx.note(calculators=len(job), given=sorted(set(sum([list(j[1]) for j in job], []))))
    ctx.same(Pwscf.default_parameters, DEFAULTS[Pwscf], 'default parameters changed')
    for i in ctx.rng.permutation(len(job)):
        A, kw, pps, c = job[i]
        a0 = A.copy()
        if ctx.coin(0.3):
            new = dict(ecutwfc=55.5, mixing_beta=0.1, conv_thr=2e-7)
            new = dict((k, new[k]) for k in sorted(new) if ctx.coin(0.7))
            c.set(**new)
            kw.update(new)
        for again in range(ctx.ri(1, 2)):
            c.write_input(A)
            ctx.same((A.get_positions(), np.array(A.get_cell()), A.get_chemical_symbols()), (a0.get_positions(), np.array(a0.get_cell()), a0.get_chemical_symbols()), 'atoms changed')
            fn = os.path.join(kw['directory'], kw.get('label', 'pw') + '.in')
            ctx.check(os.path.exists(fn), 'input file', want=fn, got=os.listdir(kw['directory']))
            txt = open(fn).read()
            check_pw(ctx, txt, A, kw, pps)
        # second opinion
        B = ase.io.read(fn, format='espresso-in')
        ctx.same(B.get_chemical_symbols(), A.get_chemical_symbols(), 'species as ASE reads them')
        ctx.close(np.array(B.get_cell()), np.array(A.get_cell()), 'cell as ASE reads it', rtol=1e-9, atol=1e-9)
        d = (B.get_positions() - A.get_positions()) @ np.linalg.inv(np.array(A.get_cell()))
        ctx.close(d - np.rint(d), np.zeros_like(d), 'positions as ASE reads them', atol=1e-8)
    ctx.same(Pwscf.default_parameters, DEFAULTS[Pwscf], 'default parameters changed')


@reg.scenario(quick=60, thorough=600)
def pwscf_run(ctx):
    """results of runs: units, sign, one run per geometry, backups"""
    top = ctx.tmp()
    job = []
    for i in range(ctx.ri(1, 2)):
        A, kind = atoms(ctx)
        d = os.path.join(top, 'calc-%d' % i)
        kw, pps = settings(ctx, A, d)
        lab = kw.get('label', 'pw')
        if ctx.coin(0.3):
            # relative directory
            d = os.path.relpath(d)
            kw['directory'] = d
        src = os.path.join(top, 'src-%d' % i)
        kw['command'] = 'echo run >> ran; cat %s > %s.out' % (src, ctx.choice([lab, 'PREFIX']))
        A.calc = Pwscf(**kw)
        job.append([A, kw, pps, src, lab, 0, None])
    ctx.note(calculators=len(job), backup=[j[1].get('backup', False) for j in job])
    import ase.units
    nb = 0
    for step in range(ctx.sz(1, 5, 14)):
        j = ctx.choice(job)
        A, kw, pps, src, lab, n, last = j
        what = ctx.choice(['moved', 'same', 'cell', 'reset', 'set', 'moved'])
        if what == 'moved':
            A.set_positions(A.get_positions() + ctx.rng.uniform(-0.1, 0.1, (len(A), 3)))
        elif what == 'cell':
            A.set_cell(np.array(A.get_cell()) * 1.01, scale_atoms=True)
        elif what == 'reset':
            A.calc.reset()
        elif what == 'set':
            v = float(ctx.ri(20, 99)) + 0.25 * step
            A.calc.set(ecutwfc=v)
            kw['ecutwfc'] = v
        if what != 'same' or last is None:
            last = prepared(ctx, A, src)
            n += 1
        q = ctx.rng.permutation(4)
        for i in q:
            if i == 0:
                ctx.close(A.get_potential_energy(), last[0], 'energy in eV', rtol=1e-6)
            elif i == 1:
                ctx.close(A.get_forces(), last[1], 'forces in eV/Ang', rtol=1e-6, atol=1e-12)
            elif i == 2:
                ctx.close(A.get_stress(voigt=False), last[2], 'stress in eV/Ang^3', rtol=1e-6, atol=1e-12)
            else:
                s = last[2]
                ctx.close(A.get_stress(), [s[0, 0], s[1, 1], s[2, 2], s[1, 2], s[0, 2], s[0, 1]], 'stress, Voigt order', rtol=1e-6, atol=1e-12)
        ran = len(open(os.path.join(kw['directory'], 'ran')).read().split())
        ctx.same(ran, n, 'one run per geometry')
        check_pw(ctx, open(os.path.join(kw['directory'], lab + '.in')).read(), A, kw, pps)
        names = os.listdir(kw['directory'])
        for ext in ('in', 'out'):
            b = [x for x in names if re.match(re.escape(lab) + r'\.%s\.\d+$' % ext, x)]
            ctx.same(len(b), n - 1 if kw.get('backup') else 0, 'backups of the ' + ext + 'put file')
        j[5], j[6] = n, last
        ctx.count('runs')


@reg.scenario(quick=60, thorough=400)
def refused(ctx):
    """incomplete and unknown settings, defaults"""
    d = ctx.tmp()
    ok = dict(pp='x.UPF', pseudo_dir='/p', outdir='/o', directory=d)
    k = ctx.choice(['unknown', 'pp', 'pseudo_dir', 'outdir', 'kpts', 'smearing', 'xc', 'npp', 'badpp', 'defaults', 'lunknown'])
    ctx.note(case=k)
    if k in ('unknown', 'lunknown'):
        cls = Pwscf if k == 'unknown' else Lammps
        ctx.raises(Exception, cls, _msg='unknown keyword', **dict(ok if cls is Pwscf else {}, **{ctx.choice(['ecut', 'PP', 'kpoints', 'pairstyle']): 1}))
    elif k in ('pp', 'pseudo_dir', 'outdir', 'kpts'):
        ok[k] = None
        ctx.raises(Exception, Pwscf, _msg='missing ' + k, **ok)
    elif k == 'smearing':
        ctx.raises(NotImplementedError, Pwscf, smearing='mv', _msg='smearing', **ok)
    elif k == 'xc':
        ctx.raises(Exception, Pwscf, xc='PBE', _msg='xc', **ok)
    elif k in ('npp', 'badpp'):
        A, _ = atoms(ctx)
        us = sorted(set(A.get_chemical_symbols()))
        pp = [s + '.UPF' for s in us]
        if k == 'npp':
            pp = pp + ['Xe.UPF'] if ctx.coin() else pp[:-1]
        else:
            pp[ctx.ri(0, len(pp) - 1)] = 'zz.UPF'
        c = Pwscf(**dict(ok, pp=pp))
        ctx.raises(Exception, c.write_input, A, _msg='pseudopotentials do not match the species')
        ctx.check(not os.path.exists(os.path.join(d, 'pw.in')), 'input written nevertheless')
    else:
        c = Pwscf(**ok)
        ctx.same((c.label, c.prefix, c.directory), (os.path.join(d, 'pw'), 'pw', d), 'defaults')
        ctx.check('pw.x' in c.command, 'default command', got=c.command)
        c = Lammps(directory=d)
        ctx.same((c.label, c.prefix, c.directory), (os.path.join(d, 'lmp'), 'lmp', d), 'defaults')
        ctx.check('lmp' in c.command, 'default command', got=c.command)
    for c in DEFAULTS:
        ctx.same(c.default_parameters, DEFAULTS[c], 'default parameters changed')
    # executables
    names = ['exe%d' % i for i in range(4)]
    have = [n for n in names if ctx.coin()]
    for n in have:
        with open(os.path.join(d, n), 'w') as f:
            f.write('#!/bin/sh\n')
        os.chmod(os.path.join(d, n), 0o755 if ctx.coin(0.8) else 0o644)
    have = [n for n in have if os.stat(os.path.join(d, n)).st_mode & 0o111]
    ask = [names[i] for i in ctx.rng.permutation(4)[:ctx.ri(1, 4)]]
    old = os.environ['PATH']
    try:
        os.environ['PATH'] = d
        got = calculators.find_exe(ask if len(ask) > 1 or ctx.coin() else ask[0])
    finally:
        os.environ['PATH'] = old
    want = [os.path.join(d, n) for n in ask if n in have][:1]
    ctx.check(got == (want[0] if want else None), 'first executable found', got=got, want=want)


def pairsum(A, eps, sig, rc):
    """Lennard-Jones energy, forces, stress (virial/volume, ASE sign)"""
    cell, x = np.array(A.get_cell()), A.get_positions()
    us = sorted(set(A.get_chemical_symbols()))
    t = [us.index(s) for s in A.get_chemical_symbols()]
    n = np.ceil(rc * np.sqrt((np.linalg.inv(cell)**2).sum(0))).astype(int) + 1
    fr = x @ np.linalg.inv(cell)
    x = (fr - np.floor(fr)) @ cell
    sh = np.array(np.meshgrid(*[np.arange(-i, i + 1) for i in n])).reshape(3, -1).T @ cell
    E, F, S = 0.0, np.zeros_like(x), np.zeros((3, 3))
    for i in range(len(x)):
        for j in range(len(x)):
            d = x[j] + sh - x[i]
            r = np.sqrt((d**2).sum(1))
            ok = (r > 1e-8) & (r < rc)
            d, r = d[ok], r[ok]
            e, s = eps[t[i]][t[j]], sig[t[i]][t[j]]
            q = (s / r)**6
            E += 0.5 * (4 * e * (q * q - q)).sum()
            dv = 4 * e * (-12 * q * q + 6 * q) / r
            F[i] += (dv / r) @ d
            S += 0.5 * (d.T * (dv / r)) @ d
    return E, F, S / abs(np.linalg.det(cell))


@reg.scenario(quick=40, thorough=400)
def lammps_run(ctx):
    """the installed binary computes what an own sum computes, in the frame of the atoms"""
    exe = shutil.which('lmp')
    if exe is None:
        raise Inconclusive('no lmp')
    top = ctx.tmp()
    rc = 5.0
    job = []
    # MPI_Init may fail when many processes start at the same time, then again
    once = '%(l)s < PREFIX.in > PREFIX.out 2>&1'
    run = once + ' || { grep -q MPI_INIT PREFIX.out && sleep 1 && ' + once + '; } || { grep -q MPI_INIT PREFIX.out && sleep 2 && ' + once + '; }'
    for i in range(ctx.ri(1, 2)):
        for _ in range(200):
            A, kind = atoms(ctx, nmax=5, fam=ctx.choice(['Al N', 'N Na Ne', 'Ar Kr', 'O', 'H He Li']))
            fr = A.get_scaled_positions()
            d = fr[:, None] - fr[None]
            d = (d - np.rint(d)) @ np.array(A.get_cell())
            if len(A) == 1 or np.sqrt((d**2).sum(-1))[~np.eye(len(A), dtype=bool)].min() > 1.6:
                break
        else:
            raise Inconclusive('no structure')
        us = sorted(set(A.get_chemical_symbols()))
        m = len(us)
        eps, sig = ctx.rng.uniform(0.01, 0.2, (m, m)).round(4), ctx.rng.uniform(1.2, 2.2, (m, m)).round(4)
        eps, sig = np.triu(eps) + np.triu(eps, 1).T, np.triu(sig) + np.triu(sig, 1).T
        co = '\npair_coeff '.join('%d %d %.4f %.4f' % (a + 1, b + 1, eps[a, b], sig[a, b]) for a in range(m) for b in range(a, m))
        d = os.path.join(top, 'calc-%d' % i)
        if ctx.coin(0.4):
            d = os.path.relpath(d)
        lab = ctx.choice(['lmp', 'lmp', 'al', 'run-1'])
        kw = dict(label=lab, directory=d, pair_style='lj/cut %g' % rc, pair_coeff=co, command='echo run >> ran; ' + run % {'l': exe})
        if ctx.coin(0.3):
            kw['backup'] = True
        A.calc = Lammps(**kw)
        job.append([A, kw, eps, sig, 0, kind])
    ctx.note(cells=[j[-1] for j in job], natoms=[len(j[0]) for j in job], labels=[j[1]['label'] for j in job])
    ctx.same(Lammps.default_parameters, DEFAULTS[Lammps], 'default parameters changed')
    for step in range(ctx.ri(1, 3)):
        j = ctx.choice(job)
        A, kw, eps, sig, n, kind = j
        if n:
            what = ctx.choice(['moved', 'same', 'cell'])
            if what == 'moved':
                A.set_positions(A.get_positions() + ctx.rng.uniform(-0.05, 0.05, (len(A), 3)))
            elif what == 'cell':
                A.set_cell(np.array(A.get_cell()) @ (np.eye(3) * 1.02 + 0.01), scale_atoms=True)
        else:
            what = 'first'
        n += what != 'same'
        try:
            E = A.get_potential_energy()
        except Exception as e:
            out = os.path.join(kw['directory'], kw['label'] + '.out')
            txt = open(out).read() if os.path.exists(out) else ''
            if 'ERROR: ' not in txt and 'CalculationFailed' in type(e).__name__:
                raise Inconclusive('lmp does not run here')
            ctx.fail('no results: %s' % e, output=txt[-400:])
        e, F, S = pairsum(A, eps, sig, rc)
        # printed with 6 to 8 digits, bar
        fs = np.abs(F).max() + np.abs(e)
        ctx.close(E, e, 'energy', rtol=1e-5, atol=1e-6)
        ctx.close(A.get_forces(), F, 'forces in the frame of the atoms', rtol=1e-4, atol=2e-5 * fs + 1e-9)
        ctx.close(A.get_stress(voigt=False), S, 'stress in the frame of the atoms', rtol=1e-4, atol=1e-5 * np.abs(S).max() + 1e-9)
        s = A.get_stress(voigt=False)
        ctx.same(A.get_stress(), s[[0, 1, 2, 1, 0, 0], [0, 1, 2, 2, 2, 1]], 'Voigt order')
        names = os.listdir(kw['directory'])
        ran = len(open(os.path.join(kw['directory'], 'ran')).read().split())
        ctx.same(ran, n, 'one run per geometry')
        for ext in ('in', 'out', 'struct', 'out.dump', 'log.lammps'):
            fn = ext if ext == 'log.lammps' else '%s.%s' % (kw['label'], ext)
            ctx.check(fn in names, 'file written', got=names, want=fn)
            b = [x for x in names if re.match(re.escape(fn) + r'\.\d+$', x)]
            ctx.same(len(b), n - 1 if kw.get('backup') else 0, 'backups of ' + ext)
        j[4] = n
        ctx.count('lmp runs')
