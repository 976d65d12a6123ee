"""P01: Quantum ESPRESSO outputs are parsed into the numbers they contain."""
import os
import warnings
import numpy as np
from vf.core import Registry
from vf import gen, qe
from pwtools import parse, constants, io

warnings.simplefilter('ignore', DeprecationWarning)

reg = Registry('P01', 'pw.x outputs (scf, md, relax, vc-relax, vc-md; old and new layouts, every unit of the coordinate and cell '
               'blocks, fixed atoms, several force blocks, restarts with another alat) are written from random numbers through '
               'Fortran formats; every getter, the Structure/Trajectory and its slices are compared with the printed numbers.')

RY = constants.Ry / constants.eV
BO = constants.Bohr / constants.Ang


def base(ctx, nmax=12):
    r = ctx.rng
    n = ctx.sz(1, nmax, 120, .03) if nmax > 1 else 1
    sym = gen.rand_symbols(r, n)
    cell = gen.rand_cell(r)
    alat = float(np.linalg.norm(cell[0])) * r.uniform(0.5, 2)
    old = ctx.coin()
    co = r.normal(size=(n, 3)) * 2
    if ctx.coin(0.3):
        co[:, ctx.ri(0, 2)] = 0.0
    pw = qe.Pw(r, n, sym, ctx.choice([1, 8, 99, 1736]), alat, cell / alat, co, old)
    return pw, n, sym, cell, alat


def put(ctx, pw):
    fn = os.path.join(ctx.tmp(), ctx.choice(['pw.out', 'a.b.c', 'sub/pw.out']))
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, 'w') as f:
        f.write(pw.text())
    return fn


def com(ctx, pp, ref):
    ctx.same(pp.get_natoms(), ref['natoms'], 'natoms')
    ctx.same(pp.get_symbols(), ref['symbols'], 'symbols')
    ctx.same(pp.get_nkpoints(), ref['nkpoints'], 'nkpoints')
    ctx.same(pp.get_alat(True), ref['alat'], 'alat')
    ctx.same(pp.get_alat(False), 1.0, 'alat switched off')


@reg.scenario(quick=160)
def scf(ctx):
    pw, n, sym, cell, alat = base(ctx, ctx.choice([3, 12, 120]))
    hf, hs, conv = ctx.coin(0.8), ctx.coin(0.8), ctx.coin(0.8)
    extra = ctx.choice([0, 0, 1, 6, 7])
    use = ctx.coin(0.7)
    ctx.note(n=n, forces=hf, stress=hs, conv=conv, extra=extra, old=pw.old, use_alat=use)
    pw.scf(hf, hs, extra, conv)
    fn = put(ctx, pw)
    ref = pw.ref
    pp = parse.PwSCFOutputFile(fn, use_alat=use)
    al = ref['alat'] if use else 1.0
    com(ctx, pp, ref)
    ctx.close(pp.get_coords(), ref['coords2d'] * al, 'coords', rtol=1e-14)
    ctx.close(pp.get_cell(), ref['cell2d'] * al, 'cell', rtol=1e-14)
    ctx.close(pp.get_etot(), ref['etot'][0], 'etot', rtol=0)
    ctx.check(np.ndim(pp.get_etot()) == 0, 'etot is a number')
    ctx.same(bool(pp.get_scf_converged()), conv, 'convergence flag')
    if conv:
        ctx.same(int(pp.get_nstep_scf()), ref['nstep_scf'][0], 'iterations')
    else:
        ctx.check(pp.get_nstep_scf() is None, 'no iteration count without convergence')
    for nm, have in (('forces', hf), ('stress', hs)):
        got = getattr(pp, 'get_' + nm)()
        if have:
            ctx.close(got, ref[nm][0], nm, rtol=0)
        else:
            ctx.check(got is None, nm + ' absent')
    if hf and hasattr(pp, '_get_forces_raw'):
        ctx.close(pp._get_forces_raw(), np.array(ref['forces_all']), 'all force blocks', rtol=0)
    st = parse.PwSCFOutputFile(fn, use_alat=use).get_struct() if ctx.coin() else io.read_pw_scf(fn, use_alat=use)
    ctx.close(st.coords, ref['coords2d'] * al * BO, 'structure: coords [Ang]', rtol=1e-12)
    ctx.close(st.cell, ref['cell2d'] * al * BO, 'structure: cell [Ang]', rtol=1e-12)
    ctx.close(st.etot, ref['etot'][0] * RY, 'structure: etot [eV]', rtol=1e-12)
    ctx.same(list(st.symbols), ref['symbols'], 'structure: symbols')
    if hf:
        ctx.close(st.forces, ref['forces'][0] * RY / BO, 'structure: forces [eV/Ang]', rtol=1e-12)
    else:
        ctx.check(st.forces is None, 'structure: no forces')
    if hs:
        ctx.close(st.stress, ref['stress'][0] * 0.1, 'structure: stress [GPa]', rtol=1e-12)
        ctx.close(st.pressure, np.trace(ref['stress'][0]) / 30., 'structure: pressure [GPa]', rtol=1e-9, atol=1e-9 * np.abs(ref['stress'][0]).max())
    else:
        ctx.check(st.stress is None, 'structure: no stress')
    if use:
        w = np.linalg.solve(ref['cell2d'].T, ref['coords2d'].T).T
        ctx.close(st.coords_frac, w, 'structure: fractional coords', rtol=1e-7, atol=1e-7 * max(1, np.abs(w).max()))
    # high precision alat given by the user, as documented
    s2 = parse.PwSCFOutputFile(fn, use_alat=False, units={'length': alat * BO}).get_struct()
    ctx.close(s2.coords, ref['coords2d'] * alat * BO, 'own alat: coords', rtol=1e-12)
    ctx.close(s2.cell, ref['cell2d'] * alat * BO, 'own alat: cell', rtol=1e-12)


UNITS = ['(crystal)', '(bohr)', '(angstrom)', '(alat)', '{crystal}', 'bohr', 'angstrom', 'alat', '']
CUNITS = ['(alat)', '(alat= %s)', '(alat=%s)', '(bohr)', '(angstrom)', 'alat', '', None]


def _hd(u):
    return '' if u == '' else ' ' + u


@reg.scenario(quick=220)
def md(ctx):
    r = ctx.rng
    cu, ccu = ctx.pick(UNITS), ctx.choice(CUNITS)
    pw, n, sym, cell, alat = base(ctx, ctx.choice([1, 5, 12]))
    nt = ctx.choice([1, 1, 2, 3, 7]) if ctx.coin(.96) else ctx.ri(8, 120)
    hf, hs, kin = ctx.coin(0.85), ctx.coin(0.85), ctx.coin(0.7)
    extra = ctx.choice([0, 0, 1, 7])
    dt = float(r.uniform(1, 200)) if kin else None
    first, final, restart = ctx.choice([0, 1, 1, 1, 1, 1, 2, 3]), ctx.coin(0.3), ctx.coin(0.3)
    fixed = [None if ctx.coin() else [ctx.ri(0, 1) for _ in range(3)] for _ in range(n)] if ctx.coin(0.3) else None
    ctx.note(n=n, nt=nt, coords=cu, cell=ccu, forces=hf, stress=hs, kin=kin, extra=extra, first=first, final=final, fixed=fixed is not None)
    for _ in range(first):
        pw.scf(hf, hs, extra)
    pw.start_md(dt, kin, 'Molecular Dynamics Calculation' if kin else 'BFGS Geometry Optimization')
    facs = []
    al = pw.alat
    for it in range(nt):
        if it == nt - 1 and final and nt > 1:
            # the final block repeats the last geometry
            pw.l.append('Begin final coordinates')
        if ccu is not None:
            if ccu.startswith('(alat=') and restart and it == nt // 2:
                al = al * 1.07
            s, v = qe.one(al, 13, 8)
            facs.append(v)
            pw.cell(cell / alat + 0.01 * r.normal(size=(3, 3)), _hd(ccu % s if '%s' in ccu else ccu))
        pw.pos(r.normal(size=(n, 3)) * (1 if 'crystal' in cu else 5), _hd(cu), fixed)
        if it == nt - 1 and final and nt > 1:
            pw.l.append('End final coordinates')
            pw.l.append('')
        if kin:
            pw.kin()
        pw.scf(hf, hs, extra)
    fn = put(ctx, pw)
    ref = pw.ref
    vcls = ctx.coin(0.2) and not kin
    pp = (parse.PwVCMDOutputFile if vcls else parse.PwMDOutputFile)(fn)
    com(ctx, pp, ref)
    R = {k: np.array(ref[k]) for k in ('coords', 'etot', 'ekin', 'temperature', 'forces', 'stress', 'cell')}
    cb = {'bohr': 1.0, 'alat': ref['alat'], 'angstrom': 1 / BO, '': 1.0}
    cun = cu.strip('(){}')
    if cun == 'crystal':
        ctx.close(pp.get_coords_frac(), R['coords'], 'coords_frac', rtol=0)
        ctx.check(pp.get_coords() is None, 'no Cartesian coords printed')
    else:
        ctx.close(pp.get_coords(), R['coords'] * cb[cun], 'coords [Bohr]', rtol=1e-12)
        ctx.check(pp.get_coords_frac() is None, 'no fractional coords printed')
    if ccu is None:
        wc = np.array([ref['cell2d'] * ref['alat']] * nt)
        ctx.close(pp.get_cell(), wc[0], 'start cell', rtol=1e-12)
    else:
        f = np.array(facs)[:, None, None] if '%s' in ccu else cb[{'': 'alat'}.get(ccu, ccu.strip('()'))]
        wc = R['cell'] * f
        ctx.close(pp.get_cell(), wc, 'cell [Bohr]', rtol=1e-12)
    ns = len(ref['etot'])
    ctx.same(ns, nt + first, 'writer')
    ctx.same(list(pp.get_nstep_scf()), ref['nstep_scf'], 'iterations of every SCF run')
    for k, have in (('etot', True), ('forces', hf), ('stress', hs), ('ekin', kin), ('temperature', kin)):
        got = getattr(pp, 'get_' + k)()
        if have:
            ctx.close(got, R[k][-nt:], k, rtol=0)
        else:
            ctx.check(got is None, k + ' absent')
    if hf and hasattr(pp, '_get_forces_raw'):
        ctx.close(pp._get_forces_raw(), np.array(ref['forces_all']), 'all force blocks', rtol=0)
    if kin:
        ctx.close(pp.get_timestep(), ref['timestep'], 'timestep', rtol=0)
    else:
        ctx.check(pp.get_timestep() is None, 'no timestep')
    tr = (type(pp)(fn)).get_traj() if vcls or ctx.coin() else io.read_pw_md(fn)
    traj(ctx, tr, nt, ref, R, cun, cb, wc, hf, hs, kin)


def traj(ctx, tr, nt, ref, R, cun, cb, wc, hf, hs, kin):
    ctx.same([int(tr.nstep), int(tr.natoms)], [nt, ref['natoms']], 'trajectory: sizes')
    ctx.same(list(tr.symbols), ref['symbols'], 'trajectory: symbols')
    want = {'cell': wc * BO, 'etot': R['etot'][-nt:] * RY, 'forces': R['forces'][-nt:] * RY / BO if hf else None,
            'stress': R['stress'][-nt:] * 0.1 if hs else None, 'ekin': R['ekin'] * RY if kin else None,
            'temperature': R['temperature'] if kin else None}
    if cun == 'crystal':
        want['coords_frac'] = R['coords']
        want['coords'] = np.array([c @ m for c, m in zip(R['coords'], want['cell'])])
    else:
        want['coords'] = R['coords'] * cb[cun] * BO
        want['coords_frac'] = np.array([np.linalg.solve(m.T, c.T).T for c, m in zip(want['coords'], want['cell'])])
    for k, w in want.items():
        got = getattr(tr, k)
        if w is None:
            if k not in ('ekin', 'temperature'):
                ctx.check(got is None, 'trajectory: %s not invented' % k)
            continue
        ctx.close(got, w, 'trajectory: ' + k, rtol=1e-7 if k == 'coords_frac' else 1e-10, atol=1e-8 * np.abs(w).max() + 1e-300)
        ctx.check(got.shape[0] == nt, 'trajectory: frames of %s' % k)
    if kin:
        dt = ref['timestep'] * constants.tryd / constants.fs
        ctx.close(tr.timestep, dt, 'trajectory: timestep [fs]', rtol=1e-12)
        ctx.close(tr.time, np.arange(nt) * dt, 'trajectory: time', rtol=1e-12)
    i = ctx.ri(0, nt - 1)
    st = tr[i]
    for k, w in want.items():
        if w is not None and k not in ('ekin', 'temperature'):
            ctx.close(getattr(st, k), w[i], 'frame %d: %s' % (i, k), rtol=1e-7, atol=1e-8 * np.abs(w).max() + 1e-300)
    sl = tr[i:]
    for k, w in want.items():
        if w is not None:
            g = getattr(sl, k)
            ctx.check(g is not None, 'slice has ' + k)
            ctx.close(g, w[i:], 'slice: ' + k, rtol=1e-7, atol=1e-8 * np.abs(w).max() + 1e-300)


@reg.scenario(quick=60)
def vcmd(ctx):
    """calculation='vc-md'"""
    r = ctx.rng
    pw, n, sym, cell, alat = base(ctx)
    nt = ctx.sz(1, 5, 120)
    cu = ctx.choice(['(crystal)', '(angstrom)', '(alat)'])
    dt = float(r.uniform(1, 200))
    ctx.note(n=n, nt=nt, cu=cu, old=pw.old)
    pw.scf()
    pw.start_md(dt, False, 'Wentzcovitch Damped Cell-Dynamics Minimization')
    for it in range(nt):
        pw.vcmd()
        pw.cell(cell / alat + 0.01 * r.normal(size=(3, 3)), ' (alat)')
        pw.pos(r.normal(size=(n, 3)), ' ' + cu)
        pw.scf()
    fn = put(ctx, pw)
    ref = pw.ref
    R = {k: np.array(ref[k]) for k in ('coords', 'etot', 'ekin', 'temperature', 'forces', 'stress', 'cell', 'econst')}
    pp = parse.PwVCMDOutputFile(fn)
    pp.parse()
    for k in ('ekin', 'temperature', 'econst'):
        ctx.close(getattr(pp, k), R[k], k, rtol=0)
    for k in ('etot', 'forces', 'stress'):
        ctx.close(getattr(pp, k), R[k][-nt:], k, rtol=0)
    wc = R['cell'] * ref['alat']
    cb = {'alat': ref['alat'], 'angstrom': 1 / BO}
    tr = io.read_pw_vcmd(fn)
    traj(ctx, tr, nt, ref, R, cu.strip('()'), cb, wc, True, True, True)


@reg.scenario(quick=40)
def scfmd(ctx):
    """the SCF reader on an MD output returns the start configuration (documented use)"""
    pw, n, sym, cell, alat = base(ctx)
    r = ctx.rng
    nt = ctx.sz(1, 5, 120)
    ctx.note(n=n, nt=nt)
    pw.scf()
    pw.start_md(20.0)
    for it in range(nt):
        pw.pos(r.normal(size=(n, 3)), ' (angstrom)')
        pw.kin()
        pw.scf()
    fn = put(ctx, pw)
    ref = pw.ref
    st = io.read_pw_scf(fn)
    ctx.close(st.coords, ref['coords2d'] * ref['alat'] * BO, 'start coords', rtol=1e-12)
    for k, f in (('etot', RY), ('forces', RY / BO), ('stress', 0.1)):
        ctx.close(getattr(st, k), np.array(ref[k][0]) * f, 'start ' + k, rtol=1e-12)
    tr = io.read_pw_md(fn)
    from pwtools import crys
    al = crys.concatenate((st, tr))
    ctx.same(int(al.nstep), nt + 1, 'whole run')
    ctx.close(al.etot, np.array(ref['etot']) * RY, 'whole run: etot', rtol=1e-12)
    ctx.close(al.coords, np.array([ref['coords2d'] * ref['alat'] * BO] + list(ref['coords'])), 'whole run: coords', rtol=1e-10, atol=1e-12)
    ctx.close(al.forces, np.array(ref['forces']) * RY / BO, 'whole run: forces', rtol=1e-12)
