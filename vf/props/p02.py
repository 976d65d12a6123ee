"""P02: CP2K, CPMD and LAMMPS outputs are parsed into the numbers they contain."""
import os
import subprocess
import warnings
import numpy as np
from vf.core import Registry
from vf import gen
from vf.mdw import num, Out
from vf import mdw
from pwtools import parse, constants as C, io, atomic_data

warnings.simplefilter('ignore', DeprecationWarning)

reg = Registry('P02', 'Output directories of CP2K (MD text/dcd, SCF, cell optimisation), CPMD (SCF, BO/CP-MD, NVE/NPT) and LAMMPS '
               '(old/new log layout, triclinic/orthogonal boxes, sorted/permuted dumps, several runs, dcd) are written from random '
               'numbers in the codes\' formats and every getter and the resulting Structure/Trajectory is compared with the printed '
               'numbers; the installed lmp binary writes further runs.')

HA = C.Ha / C.eV
BO = C.Bohr / C.Ang
FO = C.Ha / C.eV * C.Ang / C.Bohr
VE = C.Bohr / C.thart / C.Ang * C.fs
SUB = ['', 'run1', 'a/b.c']


def rt(ctx, tr, want, nt, msg=''):
    """compare the trajectory attributes with the printed values"""
    ctx.same(int(tr.nstep), nt, msg + 'nstep')
    for k, w in want.items():
        g = getattr(tr, k)
        if w is None:
            ctx.check(g is None, msg + '%s not invented' % k, got=g)
        else:
            w = np.asarray(w)
            ctx.close(g, w, msg + k, rtol=1e-9, atol=1e-11 * np.abs(w).max())
            if k not in ('timestep',):
                ctx.check(g.shape[0] == nt, msg + 'frames of ' + k)
    i = ctx.ri(0, nt - 1)
    st = tr[i]
    for k, w in want.items():
        if w is not None and k not in ('timestep', 'velocity', 'ekin', 'temperature'):
            ctx.close(getattr(st, k), np.asarray(w)[i], msg + 'frame %d: %s' % (i, k), rtol=1e-9, atol=1e-11 * np.abs(w).max())


def cellsteps(ctx, cell, nt):
    return np.array([cell + (0.02 * ctx.rng.normal(size=(3, 3)) if ctx.varying else 0) for _ in range(nt)])


def frac_of(co, ce):
    return np.array([np.linalg.solve(m.T, c.T).T for c, m in zip(co, ce)])


# -- CP2K --------------------------------------------------------------------
def cp2k_dir(ctx, kind):
    r = ctx.rng
    n = ctx.ri(1, ctx.choice([3, 12, 40] * 8 + [130]))
    nt = ctx.choice([1, 1, 2, 3, 8]) if ctx.coin(.96) else ctx.ri(9, 120)
    ctx.varying = ctx.coin()
    sym = gen.rand_symbols(r, n)
    o = Out(os.path.join(ctx.tmp(), ctx.choice(SUB)))
    have = {k: ctx.coin(0.85) for k in ('cell', 'ener', 'stress', 'pos', 'frc', 'vel', 'outfrc')}
    if kind == 'opt':
        have.update(pos=True, frc=False, vel=False, ener=False)
    dts, dt = ('%.2f' % r.uniform(0.1, 20),) * 2
    dt = float(dts)
    steps = np.arange(nt) + ctx.choice([0, 1, 5])
    times = steps * dt
    ref = dict(n=n, nt=nt, sym=sym, dt=dt, have=have)
    out = mdw.cp2k_head({'md': 'MD', 'opt': 'CELL_OPT', 'geo': 'GEO_OPT'}[kind], n, dts if kind == 'md' else None)
    est, ref['e'] = num('%20.10f', r.normal(size=nt) * 300)
    # cell file
    cell = gen.rand_cell(r)
    ncell = nt - 1 if kind == 'opt' else nt
    st, ref['cell'] = num('%20.10f', cellsteps(ctx, cell, max(ncell, 0)))
    if have['cell'] and ncell:
        o.write('PROJECT-1.cell', mdw.cp2k_table(['Ax [Angstrom]'] * 9 + ['Volume'], steps, times, st,
                                                ['%24.10f' % abs(np.linalg.det(c)) for c in ref['cell']]))
    else:
        have['cell'] = False
    st, ref['stress'] = num('%20.10f', r.normal(size=(nt, 3, 3)) * 1e5)
    if have['stress']:
        o.write('PROJECT-1.stress', mdw.cp2k_table(['xx [bar]'] * 9, steps, times, st))
    en, ref['ener'] = num('%20.9f', r.normal(size=(nt, 4)) * [1, 500, 30, 30])
    if have['ener']:
        o.write('PROJECT-1.ener', ['#     Step Nr.          Time[fs]        Kin.[a.u.]          Temp[K]            Pot.[a.u.]'
                                   '        Cons Qty[a.u.]        UsedTime[s]'] +
                ['%10d%20.6f%s%20.9f' % (steps[i], times[i], ''.join(en[i]), r.uniform(0, 1e3)) for i in range(nt)])
    for k, sc in (('pos', 9), ('frc', 0.1), ('vel', 1e-3)):
        st, ref[k] = num('%20.10f', r.normal(size=(nt, n, 3)) * sc)
        if have[k]:
            o.write('PROJECT-%s-1.xyz' % k, mdw.cp2k_xyz(sym, steps, times, est, st, kind in ('opt', 'geo')))
    st, ref['outfrc'] = num('%15.8f', r.normal(size=(nt, n, 3)) * 0.1)
    for i in range(nt):
        out += [' ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.):              %s' % est[i], '']
        if have['outfrc']:
            out += [''] + mdw.cp2k_forces_block(sym, st[i])
        out += ['', ' *' * 20, ' STEP NUMBER = %d' % steps[i], '']
    fn = os.path.join(o.dn, 'cp2k.out')
    o.write('cp2k.out', out)
    ctx.note(n=n, nt=nt, varying=ctx.varying, **{'have_' + k: v for k, v in have.items()})
    return o, fn, ref


def md_wants(ref):
    h = ref['have']
    frc = ref['frc'] if h['frc'] else (ref['outfrc'] if h['outfrc'] else None)
    raw = dict(coords=ref['pos'] if h['pos'] else None, forces=frc, velocity=ref['vel'] if h['vel'] else None,
               stress=ref['stress'] if h['stress'] else None, cell=ref['cell'] if h['cell'] else None,
               ekin=ref['ener'][:, 0] if h['ener'] else None, temperature=ref['ener'][:, 1] if h['ener'] else None,
               etot=ref['ener'][:, 2] if h['ener'] else None, econst=ref['ener'][:, 3] if h['ener'] else None)
    return raw


CP2K_U = dict(forces=FO, velocity=VE, stress=1e-4, ekin=HA, etot=HA)


def to_units(raw, units, skip=()):
    return {k: None if v is None else v * units.get(k, 1.0) for k, v in raw.items() if k not in skip}


@reg.scenario(quick=60*4)
def cp2k_md(ctx):
    o, fn, ref = cp2k_dir(ctx, 'md')
    h, n, nt = ref['have'], ref['n'], ref['nt']
    raw = md_wants(ref)
    pp = parse.Cp2kMDOutputFile(fn)
    ctx.same(pp.get_natoms(), n, 'natoms')
    ctx.same(pp.get_timestep(), ref['dt'], 'timestep [fs]')
    anyxyz = h['pos'] or h['frc'] or h['vel']
    ctx.same(pp.get_symbols(), list(ref['sym']) if anyxyz else None, 'symbols')
    for k, w in raw.items():
        g = getattr(pp, 'get_' + k)()
        if w is None:
            ctx.check(g is None, k + ' absent', got=g)
        else:
            ctx.close(g, w, k, rtol=0)
    want = to_units(raw, CP2K_U, ('econst',))
    if not (h['pos'] and h['cell']):
        # derived from what is there; only the parser values are compared
        return
    tr = parse.Cp2kMDOutputFile(fn).get_traj() if ctx.coin() else io.read_cp2k_md(fn)
    if not h['vel'] and nt >= 3:
        want.pop('velocity')
    if not h['vel']:
        want.pop('velocity', None)
    for k in ('ekin', 'temperature'):
        if want[k] is None:
            want.pop(k)
    want['timestep'] = ref['dt']
    want['coords_frac'] = frac_of(raw['coords'], raw['cell'])
    want['volume'] = np.abs([np.linalg.det(c) for c in raw['cell']])
    if raw['stress'] is not None:
        want['pressure'] = np.trace(raw['stress'] * 1e-4, axis1=1, axis2=2) / 3
    want['coords_frac'], cf = None, want.pop('coords_frac')
    want.pop('coords_frac')
    ctx.close(tr.coords_frac, cf, 'fractional coords', rtol=1e-7, atol=1e-7 * np.abs(cf).max())
    if 'pressure' in want:
        p = want.pop('pressure')
        ctx.close(tr.pressure, p, 'pressure', rtol=1e-9, atol=1e-9 * np.abs(raw['stress'] * 1e-4).max())
    rt(ctx, tr, want, nt, 'trajectory: ')
    ctx.same(list(tr.symbols), list(ref['sym']), 'trajectory: symbols')
    ctx.close(tr.time, np.arange(nt) * ref['dt'], 'time', rtol=1e-12)


@reg.scenario(quick=25*4)
def cp2k_dcd(ctx):
    o, fn, ref = cp2k_dir(ctx, 'md')
    h, n, nt = ref['have'], ref['n'], ref['nt']
    r = ctx.rng
    raw = md_wants(ref)
    co = (r.normal(size=(nt, n, 3)) * 9).astype('f4')
    cc = np.array([gen.cc_from_cell(c) for c in gen.rand_cells(r, nt)])
    mdw.dcd(os.path.join(o.dn, 'PROJECT-pos-1.dcd'), cc, co, 1.0, cosines=False)
    pp = parse.Cp2kDcdMDOutputFile(fn)
    ctx.close(pp.get_coords(), co, 'coords from dcd', rtol=0)
    ctx.close(pp.get_cryst_const(), cc, 'cell constants from dcd', rtol=1e-14)
    ctx.same([pp.get_natoms(), pp.get_nstep()], [n, nt], 'sizes from dcd')
    raw['coords'] = co.astype(float)
    raw.pop('cell')
    for k, w in raw.items():
        g = getattr(pp, 'get_' + k)()
        if w is None:
            ctx.check(g is None, k + ' absent', got=g)
        else:
            ctx.close(g, w, k, rtol=0)
    if not (h['pos'] or h['frc'] or h['vel']):
        return
    tr = parse.Cp2kDcdMDOutputFile(fn).get_traj() if ctx.coin() else io.read_cp2k_md_dcd(fn)
    want = to_units(raw, CP2K_U, ('econst', 'ekin', 'temperature', 'velocity'))
    want['cryst_const'] = cc
    want['cell'] = np.array([gen.cell_from_cc(*c) for c in cc])
    want['timestep'] = ref['dt']
    rt(ctx, tr, want, nt, 'dcd trajectory: ')


@reg.scenario(quick=25*4)
def cp2k_relax(ctx):
    o, fn, ref = cp2k_dir(ctx, 'opt')
    h, n, nt = ref['have'], ref['n'], ref['nt']
    pp = parse.Cp2kRelaxOutputFile(fn)
    ctx.same(pp.get_natoms(), n, 'natoms')
    ctx.close(pp.get_etot(), ref['e'], 'etot', rtol=0)
    ctx.close(pp.get_coords(), ref['pos'], 'coords', rtol=0)
    if h['outfrc']:
        ctx.close(pp.get_forces(), ref['outfrc'], 'forces', rtol=0)
    else:
        ctx.check(pp.get_forces() is None, 'no forces')
    if not h['cell']:
        return
    wc = np.concatenate((ref['cell'], ref['cell'][-1:]))
    ctx.close(pp.get_cell(), wc, 'cell with the last one repeated', rtol=0)
    tr = parse.Cp2kRelaxOutputFile(fn).get_traj() if ctx.coin() else io.read_cp2k_relax(fn)
    want = dict(cell=wc, coords=ref['pos'], etot=ref['e'] * HA, forces=ref['outfrc'] * FO if h['outfrc'] else None,
                stress=ref['stress'] * 1e-4 if h['stress'] else None)
    rt(ctx, tr, want, nt, 'relax trajectory: ')
    ctx.same(list(tr.symbols), list(ref['sym']), 'symbols')


def cp2k_scf_dir(ctx):
    r = ctx.rng
    n = ctx.ri(1, ctx.choice([3, 60] * 12 + [130]))
    sym = gen.rand_symbols(r, n)
    hf, hs, he = ctx.coin(0.8), ctx.coin(0.8), ctx.coin(0.9)
    ctx.note(n=n, forces=hf, stress=hs, etot=he)
    out = mdw.cp2k_head('ENERGY_FORCE', n)
    es, e = num('%25.15f', r.normal() * 300)
    fs, f = num('%15.8f', r.normal(size=(n, 3)) * 0.1)
    ss, s = num('%20.8f', r.normal(size=(3, 3)) * 20)
    if he:
        out += [' ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.):  %s' % es.item(), '']
    if hf:
        out += [''] + mdw.cp2k_forces_block(sym, fs)
    if hs:
        out += [' STRESS TENSOR [GPa]', '', '            X               Y               Z'] + \
               ['  %s %s' % (x, ''.join(l)) for x, l in zip('XYZ', ss)] + ['', ' 1/3 Trace(stress tensor): %16.8E' % 1.5, '']
    o = Out(os.path.join(ctx.tmp(), ctx.choice(SUB)))
    o.write('cp2k.out', out)
    fn = os.path.join(o.dn, 'cp2k.out')
    return fn, n, sym, hf, hs, he, e, f, s


@reg.scenario(quick=30*4)
def cp2k_scf(ctx):
    fn, n, sym, hf, hs, he, e, f, s = cp2k_scf_dir(ctx)
    pp = parse.Cp2kSCFOutputFile(fn)
    ctx.same(pp.get_natoms(), n if hf else None, 'natoms')
    ctx.same(pp.get_symbols(), list(sym) if hf else None, 'symbols')
    for k, h, w, u in (('forces', hf, f, FO), ('stress', hs, s, 1.0), ('etot', he, e, HA)):
        g = getattr(pp, 'get_' + k)()
        st = parse.Cp2kSCFOutputFile(fn).get_struct() if ctx.coin() else io.read_cp2k_scf(fn)
        if h:
            ctx.close(g, w, k, rtol=0)
            ctx.close(getattr(st, k), w * u, 'structure: ' + k, rtol=1e-12)
        else:
            ctx.check(g is None and getattr(st, k) is None, k + ' absent')


# -- CPMD --------------------------------------------------------------------
def cpmd_common(ctx, o, n, sym):
    r = ctx.rng
    cell = gen.rand_cell(r) / BO
    cs, cv = num('%20.12f', cell)
    fs, fv = num('%20.12f', r.normal(size=(n, 3)))
    o.write('GEOMETRY', mdw.cpmd_geometry(r, n, ctx.coin(0.3)))
    o.write('GEOMETRY.scale', mdw.cpmd_scale(cs, cv, fs, sym))
    return cv, fv


def cpmd_scf_dir(ctx):
    r = ctx.rng
    n = ctx.ri(1, ctx.choice([3, 60] * 12 + [130]))
    sym = gen.rand_symbols(r, n)
    o = Out(os.path.join(ctx.tmp(), ctx.choice(SUB)))
    cell, frac = cpmd_common(ctx, o, n, sym)
    hf, hs, conv = ctx.coin(0.8), ctx.coin(0.8), ctx.coin(0.8)
    nkp = ctx.choice([1, 2, 36, 108])
    ctx.note(n=n, forces=hf, stress=hs, conv=conv, nkp=nkp)
    out = ['', ' PROGRAM CPMD STARTED AT: Tue Mar  1', '', ' NUMBER OF SPECIAL K POINTS (IN CARTESIAN COORDINATES):%10d' % nkp,
           '    NKP      KX             KY             KZ            WEIGHT', '     1       0.250000       0.433013       0.000000      0.500000', '']

    def block():
        fst, f = num('%12.3E', r.normal(size=(n, 3)))
        if hf:
            out.extend(['   ATOM          COORDINATES            GRADIENTS (-FORCES)'] +
                       ['%4d %2s%s%s' % (i + 1, sym[i], ''.join('%8.4f' % x for x in r.uniform(-9, 9, 3)), ''.join(fst[i])) for i in range(n)] +
                       ['', ' ' + '*' * 60, ''])
        es, e = num('%20.8f', r.normal() * 300)
        out.extend([' (K+E1+L+N+X)           TOTAL ENERGY = %s A.U.' % es.item(), ' (K)                  KINETIC ENERGY =            8.7 A.U.', ''])
        return f, float(e)

    block()
    nst = ctx.choice([1, 9, 26, 1234])
    if not conv:
        out.append(' !!! DENSITY NOT CONVERGED, BUT NO CONVERGENCE !!!')
    out += ['%4d  1.254E-07   1.393E-09    -192.769552   -8.242E-13      2.14' % (nst - 1),
            '%4d  8.537E-08   8.887E-10    -192.769552   -1.023E-12      2.12' % nst, '',
            ' RESTART INFORMATION WRITTEN ON FILE /tmp/RESTART.1', '']
    f, e = block()
    ss, s = num('%20.8E', r.normal(size=(3, 3)) * 50)
    if hs:
        out += [' TOTAL STRESS TENSOR (kBar):'] + [''.join(x) for x in ss] + ['']
    o.write('cpmd.out', out)
    fn = os.path.join(o.dn, 'cpmd.out')
    return fn, n, sym, cell, frac, hf, hs, conv, nkp, nst, f, e, s


@reg.scenario(quick=40*4)
def cpmd_scf(ctx):
    fn, n, sym, cell, frac, hf, hs, conv, nkp, nst, f, e, s = cpmd_scf_dir(ctx)
    pp = parse.CpmdSCFOutputFile(fn)
    pp.parse()
    ctx.same([pp.natoms, pp.nkpoints, pp.nstep_scf, pp.scf_converged], [n, nkp, nst, conv], 'counts and flag')
    ctx.same(list(pp.symbols), list(sym), 'symbols')
    st = pp.get_struct() if ctx.coin() else io.read_cpmd_scf(fn)
    W = dict(cell=(cell, BO), coords_frac=(frac, 1.0), etot=(e, HA), forces=(f if hf else None, FO), stress=(s if hs else None, 0.1))
    for k, (w, u) in W.items():
        g = getattr(pp, k)
        if w is None:
            ctx.check(g is None and getattr(st, k) is None, k + ' absent')
        else:
            ctx.close(g, w, k, rtol=0)
            ctx.close(getattr(st, k), w * u, 'structure: ' + k, rtol=1e-12)
    ctx.close(st.coords, frac @ (cell * BO), 'structure: coords', rtol=1e-9, atol=1e-9 * np.abs(cell).max())
    ctx.same(list(st.symbols), list(sym), 'structure: symbols')


def cpmd_md_dir(ctx):
    r = ctx.rng
    n = ctx.ri(1, ctx.choice([3, 12, 40] * 8 + [130]))
    nt = ctx.choice([1, 1, 2, 3, 8]) if ctx.coin(.96) else ctx.ri(9, 120)
    ncol = ctx.pick([6, 8, 9])
    sym = gen.rand_symbols(r, n)
    o = Out(os.path.join(ctx.tmp(), ctx.choice(SUB)))
    cell2, frac0 = cpmd_common(ctx, o, n, sym)
    hfrc, hcell, hstr, hen = ctx.coin(0.6), ctx.coin(), ctx.coin(), ctx.coin(0.85)
    restart = ctx.coin(0.4)
    s0 = ctx.choice([1, 4135])
    ctx.note(n=n, nt=nt, ncol=ncol, ftraj=hfrc, cell=hcell, stress=hstr, energies=hen, restart=restart)
    dts = '%.4f' % r.uniform(0.5, 90)
    o.write('cpmd.out', ['', ' MAXIMUM NUMBER OF STEPS: %20d STEPS' % 100, ' TIME STEP FOR ELECTRONS: %38s' % '5.0000', ' TIME STEP FOR IONS: %43s' % dts, ''])
    fn = os.path.join(o.dn, 'cpmd.out')
    st, co = num('%22.14f', r.normal(size=(nt, n, 3)) * 9)
    sv, ve = num('%22.14f', r.normal(size=(nt, n, 3)) * 1e-3)
    sf, fo = num('%22.14f', r.normal(size=(nt, n, 3)) * 0.1)
    for name, wf in (('TRAJECTORY', False), ('FTRAJECTORY', True)):
        if wf and not hfrc:
            continue
        l = []
        for i in range(nt):
            if restart and i == nt // 2:
                l.append('  <<<<<<  NEW DATA  >>>>>>')
            for j in range(n):
                l.append('%7d' % (s0 + i) + ''.join(st[i, j]) + ''.join(sv[i, j]) + (''.join(sf[i, j]) if wf else ''))
        o.write(name, l)
    wc = cell2
    if hcell:
        ctx.varying = True
        cs, wc = num('%15.6f', cellsteps(ctx, cell2, nt))
        l = []
        for i in range(nt):
            l.append('   CELL PARAMETERS at Step: %11d' % (s0 + i))
            l += [''.join(x) + '      ' + ''.join('%13.6f' % y for y in r.normal(size=3)) for x in cs[i]]
        o.write('CELL', l)
    ss, sr = num('%20.8f', r.normal(size=(nt, 3, 3)) * 50)
    if hstr:
        l = []
        for i in range(nt):
            l.append('   TOTAL STRESS TENSOR (kB): Step: %12d' % (s0 + i))
            l += [''.join(x) for x in ss[i]]
        o.write('STRESS', l)
    mass = np.array([atomic_data.pt[s]['mass'] for s in sym]) * C.amu / C.m0
    ekin = 0.5 * (mass[None, :, None] * ve**2).sum((1, 2))
    names = {9: 'ekinc ekinh tempp eks eclassic eham dis', 8: 'ekinc tempp eks eclassic eham dis', 6: 'tempp eks eclassic dis'}[ncol].split()
    E = dict(ekinc=r.uniform(0, 1, nt), ekinh=r.uniform(0, 1e-3, nt), tempp=r.uniform(0, 900, nt), eks=-r.uniform(10, 900, nt))
    E['eclassic'] = E['eks'] + ekin
    E['eham'] = E['eclassic'] + E['ekinc']
    E['dis'] = r.uniform(0, 1, nt)
    fm = dict(ekinc='%12.8f', ekinh='%12.8f', tempp='%10.3f', dis='%15.6E')
    P = {k: num(fm.get(k, '%18.10f'), E[k]) for k in names}
    if hen:
        o.write('ENERGIES', ['%10d' % (s0 + i) + ''.join(P[k][0][i] for k in names) + '%9.2f' % r.uniform(0, 99) for i in range(nt)])
    return fn, n, nt, ncol, sym, hfrc, hcell, hstr, hen, dts, co, ve, fo, wc, sr, P, E, ekin


@reg.scenario(quick=60*4)
def cpmd_md(ctx):
    fn, n, nt, ncol, sym, hfrc, hcell, hstr, hen, dts, co, ve, fo, wc, sr, P, E, ekin = cpmd_md_dir(ctx)
    pp = parse.CpmdMDOutputFile(fn)
    pp.parse()
    g = lambda k: P[k][1] if hen and k in P else None
    W = dict(coords=co, velocity=ve, forces=fo if hfrc else None, cell=wc, stress=sr if hstr else None, etot=g('eks'), temperature=g('tempp'),
             ekin_elec=g('ekinc'), ekin_cell=g('ekinh'), econst=(g('eham') if ncol != 6 else g('eks')),
             temperature_cell=None if g('ekinh') is None else g('ekinh') * C.Ha * 2 / 9 / C.kb)
    for k, w in W.items():
        got = getattr(pp, k)
        if w is None:
            ctx.check(got is None, k + ' absent', got=got)
        else:
            ctx.close(got, w, k, rtol=1e-14 if k == 'temperature_cell' else 0)
    ctx.same([pp.natoms, pp.timestep], [n, float(dts)], 'natoms, timestep')
    ctx.same(list(pp.symbols), list(sym), 'symbols')
    tr = pp.get_traj() if ctx.coin() else io.read_cpmd_md(fn)
    wc3 = (wc if hcell else np.array([wc] * nt)) * BO
    want = dict(coords=co * BO, velocity=ve * VE, cell=wc3, forces=fo * FO if hfrc else None, stress=sr * 0.1 if hstr else None,
                etot=None if not hen else g('eks') * HA)
    if hen:
        want['temperature'] = g('tempp')
    want['timestep'] = float(dts) * C.thart / C.fs
    rt(ctx, tr, want, nt, 'trajectory: ')
    wf = frac_of(want['coords'], wc3)
    ctx.close(tr.coords_frac, wf, 'trajectory: coords_frac', rtol=1e-7, atol=1e-7 * np.abs(wf).max())
    ctx.same(list(tr.symbols), list(sym), 'trajectory: symbols')
    wk = ekin * HA
    tol = 1e-8 * np.abs(E['eks']).max() + 1e-6 * wk.max()
    if tr.ekin is None or np.abs(tr.ekin - wk).max() > tol:
        ctx.softfail('ekin is not the kinetic energy of the printed velocities', 'cpmd-ekin-is-eclassic' if hen and
                     np.allclose(tr.ekin, g('eclassic') * HA, rtol=1e-10, atol=0) else None, got=tr.ekin, want=wk, ENERGIES=hen)


# -- LAMMPS ------------------------------------------------------------------
TH = 'Step Temp Volume Cella Cellb Cellc CellAlpha CellBeta CellGamma KinEng PotEng TotEng Press Pxx Pyy Pzz Pxy Pxz Pyz CPU'.split()


def low_cell(r, ortho):
    c = np.tril(r.uniform(-2, 2, size=(3, 3)))
    c[np.arange(3), np.arange(3)] = r.uniform(3, 9, 3)
    return np.diag(np.diag(c)) if ortho else c


def lammps_dir(ctx):
    r = ctx.rng
    n = ctx.ri(1, ctx.choice([3, 12, 40] * 8 + [130]))
    nt = ctx.choice([1, 1, 2, 3, 8]) if ctx.coin(.96) else ctx.ri(9, 120)
    ortho, varying, new = ctx.coin(0.3), ctx.coin(), ctx.coin()
    permuted = ctx.coin()
    symsrc = ctx.choice(['file', 'modify', 'order'])
    spec = list(dict.fromkeys(gen.rand_symbols(r, n)))
    types = np.array([ctx.ri(1, len(spec)) for _ in range(n)])
    sym = [spec[t - 1] for t in types]
    o = Out(os.path.join(ctx.tmp(), ctx.choice(SUB)))
    cols = ['id', 'type']
    quant = ['xu yu zu', 'fx fy fz', 'vx vy vz', 'xsu ysu zsu', 'x y z', 'q']
    r.shuffle(quant)
    have = [q for q in quant if ctx.coin(0.8)]
    if not ({'xu yu zu', 'xsu ysu zsu'} & set(have)):
        have.append('xu yu zu')
    if ctx.coin(0.2):
        cols = ['id'] + cols[1:] if ctx.coin() else ['type', 'id']
    cols = cols + ' '.join(have).split()
    lo = r.normal(size=3) * (0 if ctx.coin() else 3)
    base = low_cell(r, ortho)
    every = ctx.choice([1, 10])
    l, ref = [], dict(cell=[], n=n, nt=nt, sym=sym, have=have)
    data = {k: [] for k in cols}
    for i in range(nt):
        c = base * (1 + 0.01 * i) if varying else base
        (xy, xz, yz) = c[1, 0], c[2, 0], c[2, 1]
        bl = np.array([[lo[0] + min(0, xy, xz, xy + xz), lo[0] + c[0, 0] + max(0, xy, xz, xy + xz), xy],
                       [lo[1] + min(0, yz), lo[1] + c[1, 1] + max(0, yz), xz], [lo[2], lo[2] + c[2, 2], yz]])
        bs, bv = num('%.16e', bl)
        l += ['ITEM: TIMESTEP', '%d' % (i * every), 'ITEM: NUMBER OF ATOMS', '%d' % n]
        l += ['ITEM: BOX BOUNDS ' + ('pp pp pp' if ortho else 'xy xz yz pp pp pp')]
        l += [' '.join(b[:2] if ortho else b) for b in bs]
        ref['cell'].append(c)
        l.append('ITEM: ATOMS ' + ' '.join(cols) + (' ' if not new else ''))
        D = {}
        for q in cols:
            if q == 'id':
                D[q] = (np.array(['%d' % (j + 1) for j in range(n)]), np.arange(1., n + 1))
            elif q == 'type':
                D[q] = (np.array(['%d' % t for t in types]), types.astype(float))
            else:
                D[q] = num(ctx.choice(['%g', '%.8g', '%g']), r.normal(size=n) * 10.0**ctx.ri(-6, 3) * (r.random(n) < 0.9))
        for q in cols:
            data[q].append(D[q][1])
        order = r.permutation(n) if permuted else np.arange(n)
        l += [' '.join(D[q][0][j] for q in cols) + (' ' if not new else '') for j in order]
    o.write('lmp.out.dump', l)
    ref['data'] = {k: np.array(v) for k, v in data.items()}
    # log
    runs = 1
    hd = [h for h in TH if h == 'Step' or ctx.coin(0.97)]
    r.shuffle(hd[1:])
    th = {h: np.empty(nt) for h in hd}
    rows = []
    for i in range(nt):
        c = ref['cell'][i]
        cc = gen.cc_from_cell(c)
        vals = dict(zip('Cella Cellb Cellc CellAlpha CellBeta CellGamma'.split(), cc), Volume=abs(np.linalg.det(c)))
        row = []
        for h in hd:
            v = i * every if h == 'Step' else vals.get(h, r.normal() * (1e5 if h.startswith('P') and h not in ('PotEng',) else 500))
            s = '%8d' % v if h == 'Step' else ('%-14.8g' if new else '%12.8g') % v
            th[h][i] = float(s)
            row.append(s)
        rows.append(' '.join(row))
    dts = ctx.choice(['2.5e-3', '0.001', '1', '0.5e-3'])
    log = ['LAMMPS (11 Nov 2013)' if not new else 'LAMMPS (29 Aug 2024)', 'units metal', 'read_data lmp.struct',
           '  triclinic box = (0 0 0) to (5.7 4.93634 4.65403) with tilt (2.85 2.85 1.64545)', '  %d atoms' % n,
           'dump_modify dump_txt sort id', 'dump dump_xyz all xyz 1 lmp.out.xyz']
    if symsrc == 'modify':
        log.append('dump_modify dump_xyz element ' + ' '.join(spec))
    log += ['thermo_style custom step temp vol', 'thermo 1', 'timestep ' + dts, 'run %d' % nt, 'Memory usage per processor = 1.7 Mbytes']
    log += [('   ' if new else '') + ' '.join(hd) + ' '] + rows + ['Loop time of 0.175041 on 1 procs (1 MPI x 1 OpenMP) for %d steps with %d atoms' % (nt, n), '',
            'Pair  time (%) = 0.123985 (70.8319)', 'Nlocal:    16 ave 16 max 16 min', 'Histogram: 1 0 0 0 0 0 0 0 0 0']
    o.write('log.lammps', log)
    if symsrc == 'file':
        o.write('lmp.struct.symbols', sym)
    order = {s: i + 1 for i, s in enumerate(spec)} if symsrc == 'order' else None
    ref.update(th=th, dt=float(dts), order=order, cell=np.array(ref['cell']))
    ctx.note(n=n, nt=nt, ortho=ortho, varying=varying, new=new, permuted=permuted, symsrc=symsrc, cols=' '.join(cols))
    return o, os.path.join(o.dn, 'log.lammps'), ref


def thermo(th):
    W = dict(etot=th.get('PotEng'), ekin=th.get('KinEng'), temperature=th.get('Temp'), volume=th.get('Volume'))
    ks = ['Pxx', 'Pyy', 'Pzz', 'Pxy', 'Pxz', 'Pyz']
    if all(k in th for k in ks):
        xx, yy, zz, xy, xz, yz = (th[k] for k in ks)
        W['stress'] = np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]]).transpose(2, 0, 1)
    else:
        W['stress'] = None
    return W


@reg.scenario(quick=80*4)
def lammps_txt(ctx):
    o, fn, ref = lammps_dir(ctx)
    n, nt, d = ref['n'], ref['nt'], ref['data']
    pp = parse.LammpsTextMDOutputFile(fn, order=ref['order'])
    ctx.same(pp.get_natoms(), n, 'natoms')
    ctx.same(list(pp.get_symbols()), ref['sym'], 'symbols')
    ctx.same(pp.get_timestep(), ref['dt'], 'timestep [ps]')
    ctx.close(pp.get_cell(), ref['cell'], 'cell from the box bounds', rtol=1e-12, atol=1e-13)
    vec = lambda q: np.stack([d[k] for k in q.split()], axis=-1) if q in ref['have'] else None
    W = dict(coords=vec('xu yu zu'), coords_frac=vec('xsu ysu zsu'), forces=vec('fx fy fz'), velocity=vec('vx vy vz'))
    W.update(thermo(ref['th']))
    ks = 'Cella Cellb Cellc CellAlpha CellBeta CellGamma'.split()
    W['cryst_const'] = np.array([ref['th'][k] for k in ks]).T if all(k in ref['th'] for k in ks) else None
    for k, w in W.items():
        g = getattr(pp, 'get_' + k)()
        if w is None:
            ctx.check(g is None, k + ' absent', got=g)
        else:
            ctx.close(g, w, k, rtol=0)
    kw = dict(order=ref['order'])
    tr = parse.LammpsTextMDOutputFile(fn, **kw).get_traj() if ctx.coin() else io.read_lammps_md_txt(fn, **kw)
    want = {k: w for k, w in W.items() if w is not None}
    for k, u in (('stress', 1e-4), ('velocity', C.fs / C.ps)):
        if k in want:
            want[k] = want[k] * u
    want.update(cell=ref['cell'], timestep=ref['dt'] * 1e3)
    if 'forces' not in want:
        want['forces'] = None
    if 'stress' not in want:
        want['stress'] = None
    rt(ctx, tr, want, nt, 'trajectory: ')
    ctx.same(list(tr.symbols), ref['sym'], 'trajectory: symbols')


@reg.scenario(quick=30*4)
def lammps_dcd(ctx):
    o, fn, ref = lammps_dir(ctx)
    r = ctx.rng
    n, nt = ref['n'], ref['nt']
    co = (r.normal(size=(nt, n, 3)) * 9).astype('f4')
    cc = np.array([gen.cc_from_cell(c) for c in ref['cell']])
    mdw.dcd(os.path.join(o.dn, 'lmp.out.dcd'), cc, co, 1.0)
    kw = dict(order=ref['order'])
    pp = parse.LammpsDcdMDOutputFile(fn, **kw)
    ctx.close(pp.get_coords(), co, 'coords', rtol=0)
    ctx.close(pp.get_cryst_const(), cc, 'cell constants', rtol=1e-12)
    tr = parse.LammpsDcdMDOutputFile(fn, **kw).get_traj() if ctx.coin() else io.read_lammps_md_dcd(fn, **kw)
    want = {k: w for k, w in thermo(ref['th']).items() if w is not None and k != 'volume'}
    if 'stress' in want:
        want['stress'] = want['stress'] * 1e-4
    want.update(coords=co.astype(float), cryst_const=cc, timestep=ref['dt'] * 1e3)
    # documented: same orientation of the cell as in the text output
    want['volume'] = np.abs([np.linalg.det(c) for c in ref['cell']])
    rt(ctx, tr, want, nt, 'dcd trajectory: ')
    ctx.close(tr.cell, ref['cell'], 'cell of the dcd run = cell of the text run', rtol=1e-7, atol=1e-7)
    ctx.same(list(tr.symbols), ref['sym'], 'symbols')


@reg.scenario(quick=12*4)
def lammps_runs(ctx):
    """several run commands in one log: the thermo values of all of them, in order"""
    r = ctx.rng
    hd = TH[:]
    nr = ctx.ri(2, 4)
    new = ctx.coin()
    log = ['LAMMPS (29 Aug 2024)', 'units metal']
    rows = []
    for ir in range(nr):
        log += ['run %d' % 5 if ctx.coin() else 'minimize 1e-6 1e-6 100 100', ('   ' if new else '') + ' '.join(hd)]
        for i in range(ctx.ri(1, 4)):
            st, va = num('%.8g', r.normal(size=len(hd) - 1) * 100)
            log.append('%8d ' % len(rows) + ' '.join(st))
            rows.append(va)
        log += ['Loop time of 0.1 on 1 procs for %d steps with 4 atoms' % 5, '', 'Minimization stats:', '  Energy initial, next-to-last, final =',
                '     -77.237909   -77.5   -77.6', 'Histogram: 1 0 0']
    ctx.note(runs=nr, new=new, rows=len(rows))
    o = Out(ctx.tmp())
    o.write('log.lammps', log)
    pp = parse.LammpsTextMDOutputFile(os.path.join(o.dn, 'log.lammps'))
    A = np.array(rows)
    for k, h in (('temperature', 'Temp'), ('etot', 'PotEng'), ('ekin', 'KinEng'), ('volume', 'Volume')):
        ctx.close(getattr(pp, 'get_' + k)(), A[:, hd.index(h) - 1], k, rtol=0)
    ctx.close(pp.get_stress(), thermo(dict(zip(hd[1:], A.T)))['stress'], 'stress', rtol=0)


IN = """units metal
boundary p p p
atom_style atomic
atom_modify map array sort 1 3.0
lattice fcc 4.05
region box %s
create_box 2 box
create_atoms 1 box basis 4 2
mass 1 27.0
mass 2 58.7
pair_style lj/cut 6.0
pair_coeff * * 0.3 2.6
pair_coeff 1 2 0.2 2.4
displace_atoms all random 0.1 0.1 0.1 %d
velocity all create 600.0 %d rot yes dist gaussian
dump dump_txt all custom %d lmp.out.dump id type xsu ysu zsu xu yu zu fx fy fz vx vy vz
dump_modify dump_txt format float %%.15g
%s
thermo_style custom step temp vol cella cellb cellc cellalpha cellbeta cellgamma ke pe etotal press pxx pyy pzz pxy pxz pyz cpu
thermo_modify flush yes format float %%.15g
thermo %d
fix 1 all %s
timestep 1.0e-3
run %d
"""


@reg.scenario(quick=6, thorough=40)
def lammps_real(ctx):
    """the installed lmp writes the files; forces, energies and kinematics are recomputed from the returned trajectory"""
    if not os.path.exists('/usr/bin/lmp'):
        ctx.check(True, 'no lmp')
        return
    r = ctx.rng
    tri = ctx.coin(0.6)
    reg_ = 'block 0 2 0 2 0 2' if not tri else 'prism 0 2 0 2 0 2 0.3 0.2 -0.4'
    npt = ctx.coin()
    ev, ns = ctx.choice([(1, 12), (5, 40)])
    fix = ('npt temp 600 600 0.1 tri 0 0 1.0' if tri else 'npt temp 600 600 0.1 aniso 0 0 1.0') if npt else 'nve'
    srt = ctx.coin()
    ctx.note(tri=tri, npt=npt, every=ev, sorted=srt)
    dn = ctx.tmp()
    with open(os.path.join(dn, 'in'), 'w') as f:
        f.write(IN % (reg_, ctx.ri(1, 10**6), ctx.ri(1, 10**6), ev, 'dump_modify dump_txt sort id' if srt else '', ev, fix, ns))
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_ess_singleton_isolated='1',
               OMPI_MCA_btl='self', OMP_NUM_THREADS='1', TMPDIR=dn)
    p = subprocess.run(['/usr/bin/lmp', '-in', 'in'], cwd=dn, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if p.returncode != 0 or not os.path.exists(os.path.join(dn, 'lmp.out.dump')):
        ctx.count('lmp-not-usable')
        return
    ctx.count('lmp-runs')
    nt = ns // ev + 1
    tr = io.read_lammps_md_txt(os.path.join(dn, 'log.lammps'), order={'Al': 1, 'Ni': 2})
    n = tr.natoms
    ctx.same(int(tr.nstep), nt, 'frames')
    sg = {('Al', 'Al'): (0.3, 2.6), ('Ni', 'Ni'): (0.3, 2.6), ('Al', 'Ni'): (0.2, 2.4), ('Ni', 'Al'): (0.2, 2.4)}
    ep = np.array([[sg[a, b][0] for b in tr.symbols] for a in tr.symbols])
    si = np.array([[sg[a, b][1] for b in tr.symbols] for a in tr.symbols])
    for it in sorted({0, nt - 1, ctx.ri(0, nt - 1)}):
        co, ce = tr.coords[it], tr.cell[it]
        org = co - tr.coords_frac[it] @ ce           # origin of the box, moves with a barostat
        ctx.close(org, np.array([org.mean(0)] * n), 'coords = fractional coords x cell + origin of the box', rtol=0, atol=1e-8)
        cc = gen.cc_from_cell(ce)
        ctx.close(tr.cryst_const[it], cc, 'cell constants of the log = those of the dumped box', rtol=1e-9)
        ctx.close(tr.volume[it], abs(np.linalg.det(ce)), 'volume', rtol=1e-9)
        im = gen.images(2) @ ce
        dv = (co[None, :, None] - co[:, None, None]) + im[None, None]      # i->j
        d = np.sqrt((dv**2).sum(-1))
        m = (d > 1e-6) & (d < 6.0)
        with np.errstate(all='ignore'):
            s6 = np.where(m, (si[..., None] / d)**6, 0)
            e = 4 * ep[..., None] * (s6**2 - s6)
            g = np.where(m, 24 * ep[..., None] * (2 * s6**2 - s6) / d**2, 0)
        ctx.close(tr.etot[it], 0.5 * e.sum(), 'energy of the configuration', rtol=1e-8)
        w = -(g[..., None] * dv).sum((1, 2))
        ctx.close(tr.forces[it], w, 'forces of the configuration', rtol=1e-6, atol=1e-7 * max(1, np.abs(w).max()))
        ms = np.where(np.array(tr.symbols) == 'Al', 27.0, 58.7)
        ek = 0.5 * (ms[:, None] * tr.velocity[it]**2).sum() * C.amu * (C.Ang / C.fs)**2 / C.eV
        ctx.close(tr.ekin[it], ek, 'kinetic energy of the velocities', rtol=1e-5)
        ctx.close(tr.temperature[it], 2 * ek * C.eV / C.kb / (3 * n - 3), 'temperature of the velocities', rtol=1e-5)
        kt = (ms[:, None, None] * tr.velocity[it][:, :, None] * tr.velocity[it][:, None, :]).sum(0) * C.amu * (C.Ang / C.fs)**2 / C.eV
        vt = 0.5 * (g[..., None, None] * dv[..., :, None] * dv[..., None, :]).sum((0, 1, 2))
        wp = (kt + vt) / abs(np.linalg.det(ce)) * C.eV_by_Ang3_to_GPa
        ctx.close(tr.stress[it], wp, 'stress of the configuration [GPa]', rtol=1e-4, atol=1e-5 * np.abs(wp).max())
    ctx.close(tr.timestep, 1.0, 'timestep [fs]', rtol=1e-12)
