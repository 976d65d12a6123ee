"""P03: Reading one file never influences reading another."""
import copy
import os
import pickle
import shutil
import warnings
import numpy as np
from vf.core import Registry, differ, short
from vf import gen, qe, mdw
from vf.fresh import fresh
from vf.props import p02
from pwtools import parse, io, crys

warnings.simplefilter('ignore')

reg = Registry('P03', 'Random histories over readers of all codes in one process (create, query in any order, parse, build structure or '
               'trajectory, modify what was returned, pickle, use io functions, user units) are compared with what a process that '
               'did nothing else returns for the same file; outputs with sections or side files removed are read and every '
               'quantity must be missing or unchanged; runs which replace one another under one file name give their own data.')


class Sub:
    """a Ctx with its own directory"""
    def __init__(self, ctx, name):
        self._c, self._d = ctx, os.path.join(ctx.tmp(), name)
        os.makedirs(self._d, exist_ok=True)

    def tmp(self):
        return self._d

    def note(self, **kw):
        pass

    def __getattr__(self, k):
        return getattr(self._c, k)


def _pw(ctx, md):
    r = ctx.rng
    n = ctx.sz(1, 6, 120)
    sym = gen.rand_symbols(r, n)
    cell = gen.rand_cell(r)
    alat = float(np.linalg.norm(cell[0]))
    pw = qe.Pw(r, n, sym, 8, alat, cell / alat, r.normal(size=(n, 3)), ctx.coin())
    pw.scf()
    if md:
        pw.start_md(20.0 if md == 1 else None, md == 1)
        for it in range(ctx.ri(1, 4)):
            if md == 2:
                pw.vcmd()
            pw.cell(cell / alat + 0.01 * r.normal(size=(3, 3)), ' (alat)')
            pw.pos(r.normal(size=(n, 3)), ' ' + ctx.choice(['(crystal)', '(angstrom)', '(bohr)', '(alat)']))
            if md == 1:
                pw.kin()
            pw.scf()
    fn = os.path.join(ctx.tmp(), 'pw.out')
    with open(fn, 'w') as f:
        f.write(pw.text())
    return fn


def _cif(ctx):
    r = ctx.rng
    n = ctx.sz(1, 5, 120)
    cc = gen.cc_from_cell(gen.rand_cell(r))
    l = ['data_x']
    for k, v in zip(('length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma'), cc):
        l.append('_cell_%s  %.6f' % (k, v))
    l += ['loop_', '_atom_site_type_symbol', '_atom_site_fract_x', '_atom_site_fract_y', '_atom_site_fract_z']
    l += ['%s %.8f %.8f %.8f' % ((s,) + tuple(r.normal(size=3))) for s in gen.rand_symbols(r, n)]
    fn = os.path.join(ctx.tmp(), 'a.cif')
    with open(fn, 'w') as f:
        f.write('\n'.join(l) + '\n')
    return fn


def _pdb(ctx):
    r = ctx.rng
    n = ctx.sz(1, 5, 120)
    cc = gen.cc_from_cell(gen.rand_cell(r))
    l = ['CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 1           1' % tuple(cc)]
    l += ['ATOM  %5d  %-2s  MOL     1    %8.3f%8.3f%8.3f  1.00  0.00' % ((i + 1, s.upper()) + tuple(r.uniform(-9, 9, 3)))
          for i, s in enumerate(gen.rand_symbols(r, n))]
    fn = os.path.join(ctx.tmp(), 'a.pdb')
    with open(fn, 'w') as f:
        f.write('\n'.join(l) + '\n')
    return fn


def _lmp(ctx, dcd):
    o, fn, ref = p02.lammps_dir(ctx)
    if dcd:
        cc = np.array([gen.cc_from_cell(c) for c in ref['cell']])
        mdw.dcd(os.path.join(o.dn, 'lmp.out.dcd'), cc, ctx.rng.normal(size=(ref['nt'], ref['n'], 3)).astype('f4'), 1.0)
    return fn, dict(order=ref['order'])


def _c2(ctx, kind, dcd=False):
    while True:
        sub = Sub(ctx, 'd%d' % ctx.ri(0, 10**9))
        o, fn, ref = p02.cp2k_dir(sub, kind)
        h = ref['have']
        if h['cell'] and (h['pos'] or dcd and h['frc']):
            break
    if dcd:
        cc = np.array([gen.cc_from_cell(gen.rand_cell(ctx.rng)) for _ in range(ref['nt'])])
        mdw.dcd(os.path.join(o.dn, 'PROJECT-pos-1.dcd'), cc, ctx.rng.normal(size=(ref['nt'], ref['n'], 3)).astype('f4'), 1.0, cosines=False)
    return fn


SOURCES = {
    'PwSCFOutputFile': (lambda c: (_pw(c, 0), {}), 'read_pw_scf'),
    'PwMDOutputFile': (lambda c: (_pw(c, 1), {}), 'read_pw_md'),
    'PwVCMDOutputFile': (lambda c: (_pw(c, 2), {}), 'read_pw_vcmd'),
    'CifFile': (lambda c: (_cif(c), {}), 'read_cif'),
    'PDBFile': (lambda c: (_pdb(c), {}), 'read_pdb'),
    'CpmdSCFOutputFile': (lambda c: (p02.cpmd_scf_dir(c)[0], {}), 'read_cpmd_scf'),
    'CpmdMDOutputFile': (lambda c: (p02.cpmd_md_dir(c)[0], {}), 'read_cpmd_md'),
    'Cp2kSCFOutputFile': (lambda c: (p02.cp2k_scf_dir(c)[0], {}), 'read_cp2k_scf'),
    'Cp2kMDOutputFile': (lambda c: (_c2(c, 'md'), {}), 'read_cp2k_md'),
    'Cp2kDcdMDOutputFile': (lambda c: (_c2(c, 'md', True), {}), 'read_cp2k_md_dcd'),
    'Cp2kRelaxOutputFile': (lambda c: (_c2(c, 'opt'), {}), 'read_cp2k_relax'),
    'LammpsTextMDOutputFile': (lambda c: _lmp(c, False), 'read_lammps_md_txt'),
    'LammpsDcdMDOutputFile': (lambda c: _lmp(c, True), 'read_lammps_md_dcd'),
}


def snap(obj):
    out = {}
    for k in obj.attr_lst:
        v = getattr(obj, k)
        if isinstance(v, (np.ndarray, list, dict, str, int, float, tuple, type(None), np.generic)):
            out[k] = copy.deepcopy(v)
    return out


def digest(cls, fn, kw):
    warnings.simplefilter('ignore')
    pp = getattr(parse, cls)(fn, **kw)
    pp.parse()
    a = snap(pp)
    c = pp.get_cont()
    return dict(attrs=a, cont=snap(c), type=type(c).__name__, units=dict(pp.units))


def spoil(r, obj):
    """change everything in a returned object in place"""
    for k in obj.attr_lst:
        v = getattr(obj, k)
        if isinstance(v, np.ndarray) and v.ndim and v.dtype.kind == 'f':
            v[...] = r.normal()
        elif isinstance(v, list):
            v[:] = v[:0]
        elif isinstance(v, dict):
            v.clear()
    obj.units['length'] = -17.0
    obj.units['energy'] = 1e9


def cmp(ctx, got, want, msg):
    d = differ(got, want)
    ctx.check(d is None, '%s: %s' % (msg, d))


@reg.scenario(quick=120)
def histories(ctx):
    r = ctx.rng
    fr = fresh()
    k = ctx.ri(2, 5)
    src, names = [], []
    pool = list(SOURCES)
    for i in range(k):
        nm = ctx.choice(names) if names and ctx.coin(0.3) else (ctx.pick(pool) if i == 0 else ctx.choice(pool))
        names.append(nm)
        fn, kw = SOURCES[nm][0](Sub(ctx, 's%d' % i))
        if ctx.coin(0.25):
            kw = dict(kw, units={ctx.choice(['length', 'energy', 'stress', 'forces', 'time', 'velocity']): float(r.uniform(0.1, 10))})
        ok, ref = fr(digest, nm, fn, copy.deepcopy(kw))
        ctx.check(ok, '%s fails on a complete output' % nm, info=ref)
        src.append((nm, fn, kw, ref, copy.deepcopy(kw)))
    live, ret = [], []
    ops = []
    for _ in range(ctx.ri(8, 24)):
        op = ctx.choice(['new', 'attr', 'attr', 'getter', 'parse', 'cont', 'cont', 'io', 'spoil', 'pickle', 'check'])
        if op in ('attr', 'getter', 'parse', 'cont', 'pickle') and not live:
            op = 'new'
        if op in ('spoil', 'check') and not ret:
            op = 'io'
        ops.append(op)
        if op in ('new', 'io'):
            i = ctx.ri(0, k - 1)
            nm, fn, kw, ref, kw0 = src[i]
            if op == 'new':
                live.append((i, getattr(parse, nm)(fn, **kw)))
            else:
                o = getattr(io, SOURCES[nm][1])(fn, **kw)
                cmp(ctx, snap(o), ref['cont'], 'io.%s after %s' % (SOURCES[nm][1], ops))
                ret.append((i, o))
            cmp(ctx, kw, kw0, 'options given by the user')
            continue
        if op in ('attr', 'getter', 'parse', 'cont', 'pickle'):
            j = ctx.ri(0, len(live) - 1)
            i, pp = live[j]
            nm, fn, kw, ref, kw0 = src[i]
            msg = '%s of source %d (%s) after %s' % (op, i, nm, ops)
            if op in ('attr', 'getter'):
                a = ctx.choice(sorted(ref['attrs']))
                if op == 'attr':
                    pp.try_set_attr(a)
                    g = getattr(pp, a)
                else:
                    g = getattr(pp, 'get_' + a)()
                cmp(ctx, {a: g}, {a: ref['attrs'][a]}, msg)
            elif op == 'parse':
                pp.parse()
                cmp(ctx, snap(pp), ref['attrs'], msg)
            elif op == 'pickle':
                p2 = pickle.loads(pickle.dumps(pp))
                p2.parse()
                cmp(ctx, snap(p2), ref['attrs'], msg)
                live.append((i, p2))
            else:
                f = pp.get_traj if isinstance(pp, parse.TrajectoryFileParser) else pp.get_struct
                o = f()
                cmp(ctx, snap(o), ref['cont'], msg)
                ctx.same(type(o).__name__, ref['type'], 'kind of object')
                ret.append((i, o))
            cmp(ctx, dict(pp.units), ref['units'], 'unit factors, ' + msg)
            continue
        j = ctx.ri(0, len(ret) - 1)
        i, o = ret[j]
        if op == 'spoil':
            spoil(r, o)
            ret.pop(j)
        else:
            cmp(ctx, snap(o), src[i][3]['cont'], 'object returned earlier (source %d %s) after %s' % (i, src[i][0], ops))
    for i, o in ret:
        cmp(ctx, snap(o), src[i][3]['cont'], 'at the end: object returned earlier (source %d %s), history %s' % (i, src[i][0], ops))
    for i, pp in live:
        pp.parse()
        cmp(ctx, snap(pp), src[i][3]['attrs'], 'at the end: reader of source %d (%s), history %s' % (i, src[i][0], ops))
    ctx.note(sources=' '.join(names), ops=' '.join(ops))


@reg.scenario(quick=60)
def samename(ctx):
    """outputs of different runs which replace one another under one name"""
    fr = fresh()
    nm = ctx.pick(sorted(SOURCES))
    cur = os.path.join(ctx.tmp(), 'cur')
    src = []
    for i in range(ctx.ri(2, 3)):
        fn, kw = SOURCES[nm][0](Sub(ctx, 's%d' % i))
        ok, ref = fr(digest, nm, fn, copy.deepcopy(kw))
        ctx.check(ok, '%s fails on a complete output' % nm, info=ref)
        src.append((fn, kw, ref))
    order = [ctx.ri(0, len(src) - 1) for _ in range(ctx.ri(3, 6))]
    ctx.note(kind=nm, order=order)
    for i in order:
        fn, kw, ref = src[i]
        if os.path.exists(cur):
            shutil.rmtree(cur)
        shutil.copytree(os.path.dirname(fn), cur)
        f2 = os.path.join(cur, 'run.out')
        os.rename(os.path.join(cur, os.path.basename(fn)), f2)
        how = ctx.choice(['parser', 'io'])
        if how == 'io':
            cmp(ctx, snap(getattr(io, SOURCES[nm][1])(f2, **kw)), ref['cont'], 'io.%s of run %d of %s' % (SOURCES[nm][1], i, order))
        else:
            got = digest(nm, f2, kw)
            cmp(ctx, got['attrs'], ref['attrs'], '%s of run %d of %s' % (nm, i, order))
            cmp(ctx, got['cont'], ref['cont'], '%s of run %d of %s, container' % (nm, i, order))


def block(first, last, incl=True):
    """drop the lines from each `first` to the following `last`"""
    def f(lines):
        out, skip = [], False
        for l in lines:
            if not skip and first in l:
                skip = True
                n = 0
                continue
            if skip:
                n += 1
                if (isinstance(last, int) and n > last) or (not isinstance(last, int) and last in l):
                    skip = False
                    if not isinstance(last, int) and incl:
                        continue
                else:
                    continue
            out.append(l)
        return out
    return f


def drop(*what):
    return lambda lines: [l for l in lines if not any(w in l for w in what)]


# what is cut out -> (function on the lines or None for a file, quantities which must be missing, which may change)
PW = [('etot', drop('!    total energy'), ['etot'], []),
      ('forces', block('Forces acting on', 'Total force'), ['forces'], []),
      ('stress', block('total   stress', 3), ['stress'], []),
      ('nkpoints', drop('number of k points'), ['nkpoints'], []),
      ('iterations', drop('convergence has been achieved'), ['nstep_scf'], ['scf_converged']),
      ('alat', drop('lattice parameter'), ['alat'], ['coords', 'cell'])]
PWSCF = PW + [('axes', block('crystal axes', 3), ['cell'], []), ('sites', drop('site n.', 'tau('), ['coords', 'symbols'], []),
              ('natoms', drop('number of atoms/cell'), ['natoms', 'coords', 'symbols', 'forces'], [])]
PWMD = PW[:-1] + [('ekin', drop('kinetic energy (Ekin)', 'Ekin ='), ['ekin'], ['econst', 'temperature']),
                  ('temp', drop('     temperature           =', 'Ekin ='), ['temperature'], ['econst', 'ekin']),
                  ('timestep', drop('Time step'), ['timestep'], []),
                  ('cell', block('CELL_PARAMETERS', 4), [], ['cell', 'coords', '_cell_2d'])]
REMOVE = {
    'PwSCFOutputFile': PWSCF, 'PwMDOutputFile': PWMD, 'PwVCMDOutputFile': PWMD,
    'CpmdSCFOutputFile': [('forces', block('GRADIENTS', '****'), ['forces'], []), ('stress', block('TOTAL STRESS', 3), ['stress'], []),
                          ('etot', drop('TOTAL ENERGY ='), ['etot'], []), ('kp', drop('NUMBER OF SPECIAL K'), ['nkpoints'], []),
                          ('restart', drop('RESTART INFO'), ['nstep_scf'], []),
                          ('GEOMETRY.scale', None, ['cell', 'coords_frac', 'symbols'], []),
                          ('GEOMETRY', None, ['natoms'], ['cell', 'coords_frac', 'symbols', 'forces'])],
    'CpmdMDOutputFile': [('timestep', drop('TIME STEP FOR IONS'), ['timestep'], []),
                         ('ENERGIES', None, ['etot', 'temperature', 'ekin', 'ekin_cell', 'ekin_elec', 'econst', 'temperature_cell'], []),
                         ('STRESS', None, ['stress'], []), ('CELL', None, [], ['cell']), ('FTRAJECTORY', None, ['forces'], []),
                         ('GEOMETRY.scale', None, ['symbols'], ['cell'])],
    'Cp2kSCFOutputFile': [('forces', block('ATOMIC FORCES in', 'SUM OF'), ['forces', 'natoms', 'symbols'], []),
                          ('stress', block('STRESS TENSOR', 5), ['stress'], []), ('etot', drop('ENERGY|'), ['etot'], [])],
    'Cp2kMDOutputFile': [('PROJECT-1.cell', None, ['cell'], []), ('PROJECT-1.stress', None, ['stress'], []),
                         ('PROJECT-1.ener', None, ['etot', 'ekin', 'temperature', 'econst'], []), ('PROJECT-vel-1.xyz', None, ['velocity'], ['symbols']),
                         ('PROJECT-frc-1.xyz', None, [], ['forces', 'symbols']), ('PROJECT-pos-1.xyz', None, ['coords'], ['symbols']),
                         ('timestep', drop('Time Step [fs]'), ['timestep'], []), ('natoms', drop('Number of atoms:'), ['natoms'], ['symbols', 'forces'])],
    'LammpsTextMDOutputFile': [('lmp.out.dump', None, ['coords', 'coords_frac', 'forces', 'velocity', 'cell', 'natoms'], ['symbols']),
                               ('thermo', block('Step', 'Loop'), ['etot', 'ekin', 'temperature', 'stress', 'volume', 'cryst_const'], []),
                               ('timestep', drop('timestep'), ['timestep'], [])],
    'PDBFile': [('CRYST1', drop('CRYST1'), ['cryst_const'], [])],
}
REMOVE['Cp2kRelaxOutputFile'] = [('PROJECT-1.cell', None, ['cell'], []), ('PROJECT-1.stress', None, ['stress'], []),
                                 ('forces', block('ATOMIC FORCES in', 'SUM OF'), ['forces'], []),
                                 ('PROJECT-pos-1.xyz', None, ['coords', 'etot', 'natoms'], ['symbols', 'cell', 'forces'])]
REMOVE['Cp2kDcdMDOutputFile'] = [x for x in REMOVE['Cp2kMDOutputFile'] if x[0] not in ('PROJECT-1.cell', 'PROJECT-pos-1.xyz', 'natoms')] + \
    [('PROJECT-pos-1.dcd', None, ['coords', 'cryst_const', 'natoms'], ['symbols', 'forces'])]
REMOVE['LammpsDcdMDOutputFile'] = [('lmp.out.dcd', None, ['coords', 'cryst_const', 'natoms'], ['symbols']), ('thermo', block('Step', 'Loop'), ['etot', 'ekin', 'temperature', 'stress'], []),
                                   REMOVE['LammpsTextMDOutputFile'][2], ('lmp.out.dump', None, [], ['symbols'])]


@reg.scenario(quick=300)
def missing(ctx):
    nm = ctx.pick(sorted(REMOVE))
    cls = getattr(parse, nm)
    fn, kw = SOURCES[nm][0](Sub(ctx, 's'))
    pp = cls(fn, **kw)
    pp.parse()
    full = snap(pp)
    rules = REMOVE[nm]
    k = ctx.ri(1, min(len(rules), 4))
    sel = [rules[i] for i in sorted(ctx.rng.permutation(len(rules))[:k])]
    gone, free = set(), set()
    dn = os.path.dirname(fn)
    for name, func, g, f in sel:
        if func is None:
            p = os.path.join(dn, name)
            if not os.path.exists(p):
                continue
            os.remove(p)
        else:
            with open(fn) as fh:
                lines = fh.read().split('\n')
            with open(fn, 'w') as fh:
                fh.write('\n'.join(func(lines)))
        gone |= set(g)
        free |= set(f)
    ctx.note(reader=nm, removed=' '.join(x[0] for x in sel))
    p2 = cls(fn, **kw)
    order = [str(a) for a in ctx.rng.permutation(p2.attr_lst)]
    for a in order:
        p2.try_set_attr(a)
    p2.parse()
    got = snap(p2)
    for a in full:
        if a in gone:
            ctx.check(got.get(a) is None, '%s: %s was removed with %s but is reported' % (nm, a, ctx.notes['removed']), got=got.get(a))
        elif a in free:
            ctx.check(True, '')
        else:
            d = differ({a: got.get(a)}, {a: full[a]})
            ctx.check(d is None, '%s: %s changed without %s: %s' % (nm, a, ctx.notes['removed'], d))
    # the container with what is there
    o = cls(fn, **kw).get_cont()
    for a in ('etot', 'stress', 'forces', 'symbols', 'temperature', 'coords'):
        if a in full and a in o.attr_lst and a not in gone | free and full[a] is not None and a != 'coords':
            ctx.check(getattr(o, a) is not None, '%s: %s is in the file but not in the object' % (nm, a))


@reg.scenario(quick=44)
def nothing(ctx):
    """files without any of the quantities"""
    nm = ctx.pick(sorted(set(SOURCES) - {'CifFile', 'PDBFile'}))
    txt = ctx.choice(['', '\n', 'hello world\n', ' PROGRAM STOPPED\n' * 5])
    ctx.note(reader=nm, text=txt)
    fn = os.path.join(ctx.tmp(), 'out')
    with open(fn, 'w') as f:
        f.write(txt)
    pp = getattr(parse, nm)(fn)
    pp.parse()
    for a in pp.attr_lst:
        if a not in ('scf_converged',):
            v = getattr(pp, a)
            ctx.check(v is None or (isinstance(v, np.ndarray) and v.size == 0), '%s: %s from a file without it' % (nm, a), got=v)
    o = pp.get_cont()
    for a in ('coords', 'cell', 'etot', 'forces', 'symbols', 'stress', 'volume', 'natoms'):
        ctx.check(getattr(o, a) is None, '%s: object with %s from nothing' % (nm, a), got=getattr(o, a))
