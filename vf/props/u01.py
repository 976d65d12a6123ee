import contextlib
import io as sio
import time

import numpy as np

from pwtools import atomic_data, base, constants, crys, mttk, timer
from pwtools.decorators import lazyprop
from vf.core import Registry

reg = Registry('U01', 'Random tensors and trajectories of them, every element of the tables (against ASE), every published relation between the '
               'constants (against CODATA), random thermostat settings, random dependency graphs of lazily set attributes in random call '
               'order, random timer histories on a scripted clock')


@reg.scenario(quick=300, thorough=5000)
def voigt(ctx):
    """tensors and Voigt vectors"""
    ns = ctx.choice([1, 2, 3, 6, ctx.sz(4, 40, 300)])
    kind = ctx.choice(['float', 'int', 'float32', 'fortran', 'strided', 'special'])
    ctx.note(nstep=ns, kind=kind)
    t = ctx.rng.standard_normal((ns, 3, 3)) * 10.0**ctx.ri(-8, 8)
    t = t + t.transpose(0, 2, 1)
    if kind == 'int':
        t = np.rint(t / np.abs(t).max() * 1000).astype(int)
    elif kind == 'float32':
        t = t.astype(np.float32)
    elif kind == 'fortran':
        t = np.asfortranarray(t)
    elif kind == 'strided':
        b = np.zeros((2 * ns, 3, 4))
        b[::2, :, :3] = t
        t = b[::2, :, :3]
    elif kind == 'special':
        t[:, 0, 0], t[:, 1, 2], t[:, 2, 1] = np.inf, np.nan, np.nan
    t0 = t.copy()
    idx = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    v3 = crys.tensor2voigt3d(t)
    ctx.check(v3.shape == (ns, 6), 'shape', got=v3)
    for s in range(ns):
        v = crys.tensor2voigt(t[s])
        ctx.same(v, np.array([t[s][i] for i in idx], dtype=float), 'components xx yy zz yz xz xy')
        ctx.same(v3[s], v, 'trajectory')
        b = crys.voigt2tensor(v)
        ctx.same(b, t[s].astype(float), 'back')
        ctx.same(crys.voigt2tensor(list(v)), b, 'list of six')
    b3 = crys.voigt2tensor3d(v3)
    ctx.same(b3, t.astype(float), 'trajectory back')
    ctx.same(t, t0, 'input changed')
    # conversion copies
    v3 += 1
    ctx.same(b3, t0.astype(float), 'result shares memory')
    for f, bad in ((crys.tensor2voigt, t[0][:2]), (crys.tensor2voigt, t), (crys.tensor2voigt3d, t[0]), (crys.tensor2voigt3d, t[:, :2]),
                   (crys.voigt2tensor, v3[0][:5]), (crys.voigt2tensor3d, v3[0]), (crys.voigt2tensor3d, v3[:, :4])):
        if f is crys.tensor2voigt and bad.shape == (3, 3):
            continue
        ctx.raises(Exception, f, bad, _msg='wrong shape')


@reg.scenario(quick=118, thorough=118)
def elements(ctx):
    """one element per case"""
    import ase.data
    z = ctx.idx
    s = atomic_data.symbols[z]
    ctx.note(z=z)
    n = len(atomic_data.symbols)
    ctx.check(n == len(atomic_data.masses) == len(atomic_data.covalent_radii) == len(atomic_data.pt) == len(atomic_data.numbers) == 118, 'lengths of the tables')
    ctx.same(atomic_data.symbols.count(s), 1, 'symbols are unique')
    ctx.same(atomic_data.numbers[s], z, 'number of the symbol')
    e = atomic_data.pt[s]
    ctx.same(sorted(e), ['cov_rad', 'mass', 'number'], 'entries')
    ctx.same(e['number'], z, 'number')
    ctx.check(e['mass'] == atomic_data.masses[z], 'mass', got=e)
    ctx.check(e['cov_rad'] == atomic_data.covalent_radii[z], 'radius', got=e)
    if z == 0:
        return
    if z < 112:
        ctx.same(ase.data.chemical_symbols[z], s, 'symbol')
    else:
        ctx.check(s.startswith('Uu'), 'provisional name', got=s)
    ctx.close(e['mass'], ase.data.atomic_masses[z], 'mass', rtol=1e-3 if z < 99 else 0.02)
    if z <= 96:
        ctx.close(e['cov_rad'], ase.data.covalent_radii[z], 'covalent radius', rtol=1e-12)
    # used by structures
    k = ctx.sz(1, 5, 30)
    sy = [s] * k + ['H']
    st = crys.Structure(cell=np.eye(3) * 5, coords_frac=ctx.rng.uniform(size=(k + 1, 3)), symbols=sy)
    ctx.same(list(st.znucl), [z] * k + [1], 'znucl')
    ctx.same(st.mass, np.array([atomic_data.masses[z]] * k + [atomic_data.masses[1]]), 'mass')
    ctx.same(st.symbols_unique, sorted(set(sy)), 'unique symbols')
    ctx.same(list(st.znucl_unique), [atomic_data.numbers[x] for x in sorted(set(sy))], 'unique numbers')
    ctx.same(st.nspecies, dict((x, sy.count(x)) for x in set(sy)), 'atoms per species')
    ctx.same(st.ntypat, len(set(sy)), 'number of species')


@reg.scenario(quick=1, thorough=1, serial=True)
def consts(ctx):
    """constants against CODATA 2018 and against each other"""
    import scipy.constants as sc
    c = constants
    for k, v in dict(kb=sc.k, h=sc.h, hbar=sc.hbar, m0=sc.m_e, e0=sc.e, c0=sc.c, eps0=sc.epsilon_0, mu0=sc.mu_0, a0=sc.value('Bohr radius'),
                     Eh=sc.value('Hartree energy'), th=sc.value('atomic unit of time'), amu=sc.atomic_mass, alpha=sc.alpha, avo=sc.N_A, R=sc.R, dyn=1e-5,
                     Ang=1e-10, fs=1e-15, ps=1e-12, eV=sc.e, GPa=1e9, Eryd=sc.value('Hartree energy') / 2, tryd=2 * sc.value('atomic unit of time'),
                     a0_to_A=sc.value('Bohr radius') * 1e10, Ry_to_eV=sc.value('Rydberg constant times hc in eV'), Ry_to_Ha=0.5,
                     Ha_to_eV=sc.value('Hartree energy in eV'), J_to_eV=1 / sc.e, Ry_to_J=sc.value('Rydberg constant times hc in J'),
                     J_to_rcm=1 / (sc.h * sc.c * 100), Ry_to_rcm=sc.value('Rydberg constant') / 100, rcm_to_Hz=sc.c * 100,
                     Ry_to_Hz=sc.value('Rydberg constant times c in Hz'), eV_by_Ang3_to_Pa=sc.e * 1e30, eV_by_Ang3_to_GPa=sc.e * 1e21).items():
        ctx.close(getattr(c, k), v, k, rtol=2e-6)
    for a, b in (('Ha', 'Eh'), ('Hartree', 'Eh'), ('Ry', 'Eryd'), ('Rydberg', 'Eryd'), ('Bohr', 'a0'), ('Bohr_to_Ang', 'a0_to_A'), ('Angstrom', 'Ang'),
                 ('hplanck', 'h'), ('thart', 'th')):
        ctx.check(getattr(c, a) == getattr(c, b), 'alias ' + a)
    p = np.pi
    for what, x, y in (('hbar', c.hbar, c.h / 2 / p), ('mu0', c.mu0, 4e-7 * p), ('eps0 mu0', c.eps0 * c.mu0 * c.c0**2, 1), ('a0', c.a0, 4 * p * c.eps0 * c.hbar**2 / c.m0 / c.e0**2),
                       ('alpha', c.alpha, c.e0**2 / (4 * p * c.eps0 * c.hbar * c.c0)), ('Eh', c.Eh, c.e0**2 / (4 * p * c.eps0 * c.a0)),
                       ('Eh alpha', c.Eh, c.alpha**2 * c.m0 * c.c0**2), ('th', c.th, c.hbar / c.Eh), ('Eryd', c.Eryd, c.Eh / 2), ('tryd', c.tryd, 2 * c.th),
                       ('R', c.R, c.kb * c.avo), ('amu', c.amu * c.avo, 1e-3), ('Ry_to_J', c.Ry_to_J, c.Eryd), ('Ha_to_eV', c.Ha_to_eV, c.Eh / c.eV),
                       ('Ry_to_Hz', c.Ry_to_Hz, c.Eryd / c.h), ('Ry_to_rcm', c.Ry_to_rcm * c.rcm_to_Hz, c.Ry_to_Hz), ('J_to_eV', c.J_to_eV * c.eV, 1),
                       ('eV_by_Ang3', c.eV_by_Ang3_to_Pa, c.eV_by_Ang3_to_GPa * c.GPa), ('a0_to_A', c.a0_to_A, c.a0 / c.Ang), ('dyn', c.dyn / 1e-4, 0.1),
                       ('kbar', 1e9 * c.dyn / 1e-4, 0.1 * c.GPa)):
        ctx.close(x, y, 'relation for ' + what, rtol=2e-7)
    ctx.note(constants=44)


@reg.scenario(quick=200, thorough=3000)
def masses(ctx):
    """thermostat and barostat masses"""
    from scipy import constants as sc
    f, T = 10.0**ctx.rng.uniform(10, 15), 10.0**ctx.rng.uniform(-1, 4)
    nf, nd, nn = ctx.ri(1, 300), ctx.choice([1, 2, 3, 3]), ctx.ri(1, 8)
    unit = sc.m_e * sc.value('Bohr radius')**2
    q = sc.k * T / f**2 / unit
    ctx.note(nf=nf, ndim=nd, nnos=nn)
    got = mttk.particle_nhc_masses(f, T, nf=nf, nnos=nn)
    ctx.check(isinstance(got, list) and len(got) == nn, 'one mass per thermostat', got=got)
    ctx.close(got, [nf * q] + [q] * (nn - 1), 'particle chain', rtol=5e-6)
    got = mttk.barostat_nhc_masses(f, T, ndim=nd, nnos=nn)
    ctx.check(isinstance(got, list) and len(got) == nn, 'one mass per thermostat', got=got)
    ctx.close(got, [nd**2 * q] + [q] * (nn - 1), 'barostat chain', rtol=5e-6)
    ctx.close(mttk.barostat_mass_w(f, T, nf=nf, ndim=nd), (nf + nd) * q, 'isotropic barostat', rtol=5e-6)
    ctx.close(mttk.barostat_mass_wg(f, T, nf=nf, ndim=nd), (nf + nd) * q / nd, 'flexible barostat', rtol=5e-6)
    ctx.close(mttk.barostat_mass_w(f, T, nf=nf), (nf + 3) * q, 'three dimensions by default', rtol=5e-6)
    ctx.same(len(mttk.particle_nhc_masses(f, T, nf=nf)), 4, 'default chain length')
    ctx.raises(Exception, mttk.particle_nhc_masses, f, T, nf=nf, nnos=ctx.choice([0, -1]), _msg='no chain')
    ctx.raises(Exception, mttk.barostat_nhc_masses, f, T, nnos=0, _msg='no chain')


@reg.scenario(quick=200, thorough=3000)
def lazy(ctx):
    """lazy properties: computed on first use, once per instance"""
    n = ctx.sz(1, 4, 40)
    calls = []
    ns = {}
    for i in range(n):
        def get(self, i=i):
            calls.append((self.name, i))
            if i and self.deep:
                return (self.name, i, getattr(self, 'p%d' % (i - 1)))
            if self.fail == i and calls.count((self.name, i)) == 1:
                raise ValueError('first time')
            return [None, 0, (self.name, i), [self.name]][i % 4]
        get.__name__ = 'p%d' % i
        ns[get.__name__] = lazyprop(get)
    cls = type('Lazy', (object,), ns)
    obs = []
    for j in range(ctx.ri(1, 3)):
        o = cls()
        o.name, o.deep, o.fail = 'o%d' % j, ctx.coin(), ctx.choice([-1, -1, 0])
        ctx.check(not [x for x in vars(o) if x.startswith('p')], 'computed too early')
        obs.append(o)
    ctx.note(attrs=n, objects=len(obs))
    ctx.same(calls, [], 'computed too early')
    seen = {}
    for _ in range(ctx.sz(1, 20, 200)):
        o, i = ctx.choice(obs), ctx.ri(0, n - 1)
        a = 'p%d' % i
        try:
            v = getattr(o, a)
        except ValueError:
            ctx.check(o.fail == 0 and a not in vars(o), 'a failed computation is not remembered')
            o.fail = -1
            calls[:] = [x for x in calls if x[0] != o.name or 'p%d' % x[1] in vars(o)]
            continue
        if (o.name, i) in seen:
            ctx.check(seen[o.name, i] is v, 'another value', got=v, want=seen[o.name, i])
        seen[o.name, i] = v
        for x in set(calls):
            ctx.same(calls.count(x), 1, 'computed more than once')
        ctx.check((o.name, i) in calls, 'computed', got=calls)
    for o in obs:
        if ctx.coin():
            o.p0 = 'assigned'
            ctx.same(o.p0, 'assigned', 'assignment')


@reg.scenario(quick=300, thorough=5000)
def getters(ctx):
    """FlexibleGetters over random dependency graphs: any order, same values, each getter at most once"""
    n = ctx.sz(1, 9, 60)
    names = [ctx.choice(['a', '_a']) + str(i) for i in range(n)]
    deps = [sorted(set(ctx.ri(0, i - 1) for _ in range(ctx.ri(0, 3)))) if i else [] for i in range(n)]
    none = [ctx.coin(0.15) for _ in range(n)]
    leaf = [float(ctx.ri(-3, 3)) for _ in range(n)]
    style = [ctx.choice(['check', 'check_lst', 'try', 'return']) for _ in range(n)]
    calls = []

    def mk(i):
        def get(self):
            calls.append(i)
            if none[i]:
                return None
            need = [names[j] for j in deps[i]]
            if style[i] == 'check_lst':
                ok = self.check_set_attr_lst(need)
            elif style[i] == 'try':
                self.try_set_attr_lst(need)
                ok = self.is_set_attr_lst(need)
            elif style[i] == 'return':
                ok = all([self.get_return_attr(a) is not None for a in need])
            else:
                ok = all([self.check_set_attr(a) for a in need])
            return leaf[i] + sum([2 * getattr(self, a) for a in need]) if ok else None
        return get
    want = [None] * n
    for i in range(n):
        if not none[i] and all(want[j] is not None for j in deps[i]):
            want[i] = leaf[i] + sum(2 * want[j] for j in deps[i])
    ns = dict((('_get' if names[i][0] == '_' else 'get_') + names[i], mk(i)) for i in range(n))
    cls = type('G', (base.FlexibleGetters,), ns)
    ctx.note(attrs=n, deps=sum(map(len, deps)), unset=sum(none), styles=sorted(set(style)))
    for _ in range(2):
        g = cls()
        del calls[:]
        order = [int(i) for i in ctx.rng.permutation(n)]
        if ctx.coin():
            g.set_attr_lst([names[i] for i in order])
            ctx.check(all(getattr(g, a) is None for a in names), 'attributes initialized')
            if ctx.coin():
                g.set_all()
            else:
                g.set_all([names[i] for i in order[:n // 2]])
                g.set_all()
        else:
            for i in order:
                k = ctx.choice(['try', 'check', 'assert', 'return'])
                a = names[i]
                if k == 'try':
                    g.try_set_attr(a)
                elif k == 'check':
                    ctx.same(g.check_set_attr(a), want[i] is not None, 'check_set_attr')
                elif k == 'return':
                    ctx.same(g.get_return_attr(a), want[i], 'get_return_attr')
                elif want[i] is None:
                    ctx.raises(AssertionError, g.assert_set_attr, a, _msg='assert_set_attr')
                else:
                    g.assert_set_attr(a)
        ctx.same([getattr(g, a) for a in names], want, 'values do not depend on the order of calls')
        for i in range(n):
            ctx.check(want[i] is None or calls.count(i) == 1, 'getter executed once', got=calls, which=i)
        ctx.same([g.is_set_attr(a) for a in names], [w is not None for w in want], 'is_set_attr')
        ctx.same(g.is_set_attr_lst(names), all(w is not None for w in want), 'is_set_attr_lst')
        ctx.check(not g.is_set_attr('nothing'), 'unknown attribute is not set')
        del calls[:]
        g.try_set_attr_lst([a for a, w in zip(names, want) if w is not None])
        ctx.same(calls, [], 'set attributes are not computed again')
    # raw arrays
    arr = ctx.rng.standard_normal([(5,), (5, 3), (5, 3, 2)][ctx.ri(0, 2)])
    g = type('R', (base.FlexibleGetters,), dict(_get_x_raw=lambda self: arr, _get_y_raw=lambda self: None))()
    ax = ctx.ri(0, arr.ndim - 1)
    sl = ctx.choice([slice(None), slice(0, None, 2), slice(1, 2), slice(-1, None)])
    w = arr[tuple(sl if k == ax else slice(None) for k in range(arr.ndim))]
    got = g.raw_slice_get('x', sl=sl, axis=ax)
    ctx.same(np.asarray(got), w[0] if w.shape == (1,) else w, 'raw slice')
    ctx.check(g.raw_return('x') is arr and g.raw_return('y') is None and g.raw_slice_get('y', sl=sl, axis=ax) is None, 'raw data')


@reg.scenario(quick=200, thorough=3000)
def timers(ctx):
    """TagTimer against a model, on a scripted clock"""
    now = [1000.0]

    def clock():
        now[0] += ctx.choice([0.0, 0.25, 1.5, 64.0])
        return now[0]
    old = timer.time
    silent = ctx.coin(0.2)
    model, out = {}, []
    tags = ['a', 'outer-loop', 3, 'x1'][:ctx.ri(1, 4)]
    ctx.note(tags=len(tags), silent=silent)
    timer.time = clock
    try:
        t = timer.TagTimer(silence=silent)
        for _ in range(ctx.ri(1, 25)):
            k = ctx.choice(['t', 't', 'pt', 'p'])
            g = ctx.choice(tags)
            buf = sio.StringIO()
            with contextlib.redirect_stdout(buf):
                if k == 't':
                    t.t(g)
                    m = model.setdefault(g, [])
                    if len(m) == 2:
                        del m[:]
                    m.append(now[0])
                elif k == 'p':
                    t.p('hello %s' % (g,))
                elif g not in model:
                    ctx.raises(ValueError, t.pt, g, _msg='no time yet')
                else:
                    t.pt(g, 'msg')
                    if len(model[g]) == 1:
                        model[g].append(now[0])
            s = buf.getvalue()
            if silent or k == 't' or k == 'pt' and g not in model:
                ctx.same(s, '', 'printed')
            elif k == 'p':
                ctx.check('hello %s' % (g,) in s, 'message', got=s)
            else:
                ctx.check(str(g) in s and 'msg' in s, 'tag and message', got=s)
                ctx.close(float(s.split()[-1]), model[g][1] - model[g][0], 'elapsed time', rtol=1e-12)
    finally:
        timer.time = old
    ctx.check(timer.time is time.time, 'clock restored')
