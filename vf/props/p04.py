"""P04: phonon output readers."""
import os
import shutil
import subprocess
import warnings
import numpy as np
from vf.core import Registry, Inconclusive
from vf import gen, mdw
from pwtools import pwscf

warnings.simplefilter('ignore')

reg = Registry('P04', 'Phonon files of random sizes (1..40 atoms, 1..9 q-points, both QE line styles, optional columns) are written from '
               'random numbers with the print formats of QE and the numbers read are compared with the printed ones; files cut short '
               'must be refused; the real dynmat.x is run on random force constants and what is read is compared with an independent '
               'diagonalisation.')


class Modes:
    """one q-point"""
    def __init__(self, r, n, style):
        self.n = n
        nm = 3 * n
        self.q_s, self.q = mdw.num('%12.4f', r.normal(size=3) * r.choice([0.0, 1.0, 10.0]))
        f = np.sort(r.normal(size=nm)) * 10.0 ** r.uniform(0, 3.3)
        self.thz_s, _ = mdw.num('%15.6f', f * 0.0299792458)
        self.f_s, self.f = mdw.num('%15.6f', f)
        v_s, v = mdw.num('%10.6f', r.uniform(-1, 1, size=(nm, n, 6)))
        self.v_s, self.v = v_s, v[..., 0::2] + 1j * v[..., 1::2]
        self.style = style

    def block(self):
        l = [' ' + '*' * 74]
        for m in range(3 * self.n):
            if self.style == 'omega':
                no = '%2d' % (m + 1) if m < 99 else '**'
                h = '     omega(%s) =%s [THz] =%s [cm-1]' % (no, self.thz_s[m], self.f_s[m])
            else:
                h = '     freq (%5d) =%s [THz] =%s [cm-1]' % (m + 1, self.thz_s[m], self.f_s[m])
            l.append(h)
            for a in range(self.n):
                s = self.v_s[m, a]
                l.append(' (' + '   '.join(s[2 * k] + ' ' + s[2 * k + 1] for k in range(3)) + '   )')
        l.append(' ' + '*' * 74)
        return l

    def matdyn(self):
        return ['     diagonalizing the dynamical matrix ...', '', ' q = ' + ''.join(self.q_s)] + self.block()


def dyn_file(r, mo, star):
    n = mo.n
    st = lambda q: '     q = (' + ''.join('%14.9f' % x for x in q) + ' ) '
    l = ['Dynamical matrix file' if r.random() < .5 else 'File generated with QE, q = 1', '',
         '  1  %3d   0   7.6000000   0.0000000   0.0000000   0.0000000   0.0000000   0.0000000' % n, 'Basis vectors',
         '      0.000000000    0.500000000    0.500000000', '      0.500000000    0.000000000    0.500000000',
         '      0.500000000    0.500000000    0.000000000', "           1  'Al  '    24590.7655930491"]
    for i in range(n):
        l.append('%5d%5d' % (i + 1, 1) + ''.join('%18.10f' % x for x in r.normal(size=3)))
    qlast = None
    for k in range(star):
        qlast = r.normal(size=3)
        l += ['', '     Dynamical  Matrix in cartesian axes', '', st(qlast), '']
        for i in range(n):
            for j in range(n):
                l.append('%5d%5d' % (i + 1, j + 1))
                for a in range(3):
                    l.append('  '.join('%12.8f%12.8f' % tuple(x) for x in r.normal(size=(3, 2))))
    qs = mo.q + 0.0
    if r.random() < .5:
        l += ['', '     Dielectric Tensor:', '']
        l += [''.join('%24.12f' % x for x in r.normal(size=3)) for _ in range(3)]
        l += ['', '     Effective Charges E-U: Z_{s,alpha}{beta}', '']
        for i in range(n):
            l += ['     atom # %4d' % (i + 1)] + [''.join('%24.12f' % x for x in r.normal(size=3)) for _ in range(3)]
    l += ['', '     Diagonalizing the dynamical matrix', '', st(qs), ''] + mo.block()
    return l


def _size(ctx, big=40):
    n = ctx.choice([1, 1, 2, 3, 4, 5, 7, 12, 34, big])
    style = ctx.pick(['omega', 'freq'])
    ctx.note(natoms=n, style=style)
    return n, style


@reg.scenario(quick=60)
def modes(ctx):
    r = ctx.rng
    n, style = _size(ctx)
    nq = ctx.sz(1, 6, 30) if n < 10 else ctx.ri(1, 2)
    ctx.note(nq=nq)
    ms = [Modes(r, n, style) for _ in range(nq)]
    o = mdw.Out(ctx.tmp())
    o.write('matdyn.modes', sum((m.matdyn() for m in ms), []))
    fn = os.path.join(o.dn, 'matdyn.modes')
    for _ in range(2):
        q, f, v = pwscf.read_matdyn_modes(fn, natoms=n)
        ctx.close(q, np.array([m.q for m in ms]), 'q-points', rtol=1e-14)
        ctx.close(f, np.array([m.f for m in ms]), 'frequencies', rtol=1e-14)
        ctx.close(v, np.array([m.v for m in ms]), 'eigenvectors', rtol=1e-14)
    # cut inside: never quietly fewer numbers
    full = open(fn).read().split('\n')
    k = ctx.ri(4, len(full) - 4)
    o.write('cut', full[:k])
    heads = [i for i, x in enumerate(full) if x.startswith('     diagonalizing')]
    try:
        got = pwscf.read_matdyn_modes(os.path.join(o.dn, 'cut'), natoms=n)
    except Exception:
        ctx.count('refused')
        return
    nfull = sum(1 for i in heads if i + 3 + 3 * n * (n + 1) <= k - 1 and i + 2 < k)
    ctx.count('cut read')
    ctx.check(got[0].shape[0] == nfull, 'a file cut inside a q-point is read', nq=got[0].shape[0], complete=nfull)
    for g, w in zip(got, ([m.q for m in ms], [m.f for m in ms], [m.v for m in ms])):
        ctx.close(g, np.array(w[:nfull]), 'cut file', rtol=1e-14)


@reg.scenario(quick=60)
def dyn(ctx):
    r = ctx.rng
    n, style = _size(ctx, 12)
    if n > 12:
        n = 12
    nq = ctx.choice([1, 2, 3, 11, 12]) if n < 6 else ctx.ri(1, 2)
    base = ctx.choice(['ph.dyn', 'dyn', 'al.dynG', 'a1'])
    ctx.note(nq=nq, base=base)
    ms = [Modes(r, n, style) for _ in range(nq)]
    o = mdw.Out(ctx.tmp())
    for i in r.permutation(nq):
        o.write('%s%d' % (base, i + 1), dyn_file(r, ms[i], ctx.ri(1, 3)))
    o.write('%s0' % base, [' 2 2 2', ' 3', '0 0 0'])
    q, f, v = pwscf.read_all_dyn(o.dn, nqpoints=nq, natoms=n, base=base)
    ctx.close(q, np.array([m.q for m in ms]), 'q-points in file number order', rtol=1e-12, atol=1e-12)
    ctx.close(f, np.array([m.f for m in ms]), 'frequencies', rtol=1e-14)
    ctx.close(v, np.array([m.v for m in ms]), 'eigenvectors', rtol=1e-14)
    i = ctx.ri(0, nq - 1)
    q, f, v = pwscf.read_dyn(os.path.join(o.dn, '%s%d' % (base, i + 1)), natoms=n)
    ctx.close(q, ms[i].q, 'one file: q', rtol=1e-12, atol=1e-12)
    ctx.close(f, ms[i].f, 'one file: freqs', rtol=1e-14)
    ctx.close(v, ms[i].v, 'one file: vecs', rtol=1e-14)
    os.remove(os.path.join(o.dn, '%s%d' % (base, i + 1)))
    ctx.raises(Exception, pwscf.read_all_dyn, o.dn, nqpoints=nq, natoms=n, base=base, _msg='a file is missing')


@reg.scenario(quick=100)
def freq(ctx):
    r = ctx.rng
    nb = ctx.choice([1, 3, 5, 6, 7, 12, 13, 18, 30, 99, 120])
    nk = ctx.choice([1, 2, 3, 10, 50])
    wide = ctx.coin()
    ctx.note(nbnd=nb, nks=nk, wide=wide)
    ks, k = mdw.num('%10.6f', r.normal(size=(nk, 3)))
    fs, f = mdw.num('%10.4f', np.clip(r.normal(size=(nk, nb)) * 10.0 ** r.uniform(0, 2.5), -999, 9999))
    l = [' &plot nbnd=%4d, nks=%4d /' % (nb, nk)]
    for i in range(nk):
        l.append(' ' * 10 + ''.join(ks[i]))
        per = 6 if wide else 10
        l += [''.join(fs[i, j:j + per]) for j in range(0, nb, per)]
    o = mdw.Out(ctx.tmp())
    o.write('matdyn.freq', l)
    fn = os.path.join(o.dn, 'matdyn.freq')
    for _ in range(2):
        gk, gf = pwscf.read_matdyn_freq(fn)
        ctx.close(gk, k, 'k-points', rtol=1e-14)
        ctx.close(gf, f, 'frequencies', rtol=1e-14)
    per_k = (len(l) - 1) // nk
    cut = ctx.ri(1, len(l) - 1)
    o.write('cut', l[:cut])
    ctx.note(cut=cut % per_k)
    try:
        gk, gf = pwscf.read_matdyn_freq(os.path.join(o.dn, 'cut'))
    except Exception:
        ctx.count('refused')
        return
    nn = (cut - 1) // per_k
    ctx.close(gk, k[:nn], 'short file: k-points that are in it', rtol=1e-14)
    ctx.close(gf, f[:nn], 'short file: frequencies that are in it', rtol=1e-14)


@reg.scenario(quick=60)
def dynmat(ctx):
    r = ctx.rng
    n = ctx.choice([1, 2, 3, 4, 7, 12, 34, 40])
    nm = 3 * n
    sym = gen.rand_symbols(r, n)
    ncol = ctx.pick([3, 4, 6])
    path = ctx.coin()
    ctx.note(natoms=n, ncol=ncol, repeat_cell=path)
    cols = [mdw.num('%10.2f', np.sort(r.normal(size=nm) * 10.0 ** r.uniform(0, 3)))]
    cols.append(mdw.num('%10.4f', cols[0][1] * 0.03))
    if ncol > 3:
        cols.append(mdw.num('%10.4f', r.random(nm) * 30))
    if ncol > 4:
        cols.append(mdw.num('%15.4f', r.random(nm) * 30))
        cols.append(mdw.num('%10.4f', r.random(nm)))
    l = ['', '     Program DYNMAT v.6.7MaX starts on 19Nov2026 at 20:45:10 ', '', '     Reading Dynamical Matrix from file ph.dyn',
         '     Polarizability (A^3 units)', '     multiply by 1.000000 for Clausius-Mossotti correction']
    l += [''.join('%12.6f' % x for x in r.normal(size=3)) for _ in range(3)]
    l += ['', '     IR activities are in (D/A)^2/amu units', '',
          '# mode   [cm-1]    [THz]' + ('      IR' if ncol > 3 else '') + ('          Raman   depol.fact' if ncol > 4 else '')]
    for i in range(nm):
        l.append('%5d' % (i + 1) + ''.join(c[0][i] for c in cols))
    l += ['', '     DYNMAT       :      0.00s CPU      0.00s WALL', '']
    xs, _ = mdw.num('%10.5f', r.normal(size=(nm, n, 3)))
    vs, v = mdw.num('%10.5f', r.uniform(-1, 1, size=(nm, n, 3)))
    cell = [''.join('%15.9f' % x for x in w) for w in r.normal(size=(3, 3))]
    x = ['ANIMSTEPS %4d' % nm, 'CRYSTAL'] + ([] if path else ['PRIMVEC'] + cell)
    for m in range(nm):
        if path:
            x += ['PRIMVEC %4d' % (m + 1)] + cell
        x += ['PRIMCOORD %4d' % (m + 1), '%7d   1' % n]
        x += ['%5s' % sym[a] + ''.join(xs[0, a]) + ''.join(vs[m, a]) for a in range(n)]
    o = mdw.Out(ctx.tmp())
    names = ctx.choice([('dynmat.out', 'dynmat.axsf'), ('x.out', 'y.axsf')])
    o.write(names[0], l)
    o.write(names[1], x)
    kw = {} if names[0] == 'dynmat.out' else dict(filename=names[0], axsf=names[1])
    fr = cols[0][1]
    if not path:
        q, f, vv = pwscf.read_dynmat(path=o.dn, natoms=n, **kw)
        ctx.same(q, np.zeros(3), 'Gamma')
        ctx.close(f, fr, 'frequencies', rtol=1e-14)
        ctx.close(vv, v, 'mode vectors', rtol=1e-14)
    fn = os.path.join(o.dn, names[0])
    arr = pwscf.read_dynmat_ir_raman(fn, natoms=n, cols=None)
    ctx.close(arr, np.array([np.arange(1., nm + 1)] + [c[1] for c in cols]).T, 'table', rtol=1e-14)
    have = {'freqs': 1, 'ir': 3, 'raman': 4, 'depol': 5}
    for func in (pwscf.read_dynmat_ir_raman, pwscf.read_dynmat_out):
        d = func(fn, natoms=n)
        ctx.check(set(d) == set(have), 'keys', got=sorted(d))
        for name, c in have.items():
            if c < ncol:
                ctx.close(d[name], cols[c - 1][1], name, rtol=1e-14)
            else:
                ctx.check(d[name] is None, 'missing column %s is None' % name, got=d[name])
    d = pwscf.read_dynmat_ir_raman(fn, natoms=n, cols={2: 'thz', 9: 'none'})
    ctx.check(set(d) == {'thz', 'none'} and d['none'] is None, 'own columns', got=d)
    ctx.close(d['thz'], cols[1][1], 'own column', rtol=1e-14)


@reg.scenario(quick=24)
def real_dynmat(ctx):
    """Force constants -> dynmat.x (the real program) -> reader, against
    numpy's diagonalisation of the same matrix."""
    exe = shutil.which('dynmat.x')
    if exe is None:
        raise Inconclusive('no dynmat.x')
    r = ctx.rng
    n = ctx.choice([1, 2, 3, 5, 8])
    ctx.note(natoms=n)
    M = r.normal(size=(3 * n, 3 * n)) * 0.1
    M = np.round(M + M.T, 8)
    pos = np.round(r.random((n, 3)), 10)
    amass = 24590.7655930491
    l = ['Dynamical matrix file', '', '  1 %4d   0   7.6000000   0.0  0.0  0.0  0.0  0.0' % n, 'Basis vectors',
         '      0.000000000    0.500000000    0.500000000', '      0.500000000    0.000000000    0.500000000',
         '      0.500000000    0.500000000    0.000000000', "           1  'Al  '    %.10f" % amass]
    l += ['%5d%5d' % (i + 1, 1) + ''.join('%18.10f' % x for x in pos[i]) for i in range(n)]
    l += ['', '     Dynamical  Matrix in cartesian axes', '', '     q = (    0.000000000   0.000000000   0.000000000 ) ', '']
    for i in range(n):
        for j in range(n):
            l.append('%5d%5d' % (i + 1, j + 1))
            l += ['  '.join('%12.8f%12.8f' % (M[3 * i + a, 3 * j + b], 0) for b in range(3)) for a in range(3)]
    l += ['', '     Diagonalizing the dynamical matrix', '', '     q = (    0.000000000   0.000000000   0.000000000 ) ', '']
    o = mdw.Out(ctx.tmp())
    o.write('ph.dyn', l)
    o.write('in', ['&input', " fildyn='ph.dyn', asr='no', filout='dynmat.modes', filxsf='dynmat.axsf'", '/'])
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_ess_singleton_isolated='1',
               OMPI_MCA_btl='self', OMP_NUM_THREADS='1')
    with open(os.path.join(o.dn, 'in')) as fi, open(os.path.join(o.dn, 'dynmat.out'), 'w') as fo:
        try:
            subprocess.run([exe], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL, cwd=o.dn, env=env, timeout=60)
        except subprocess.TimeoutExpired:
            raise Inconclusive('dynmat.x did not finish')
    if 'JOB DONE' not in open(os.path.join(o.dn, 'dynmat.out')).read():
        raise Inconclusive('dynmat.x does not run here')
    w, V = np.linalg.eigh(M / amass)
    # Rydberg frequency to cm^-1
    ry_cm1 = 109737.31568160
    want = np.sign(w) * np.sqrt(abs(w)) * ry_cm1
    q, f, v = pwscf.read_dynmat(path=o.dn, natoms=n)
    ctx.close(f, want, 'frequencies', rtol=1e-5, atol=0.02)
    qm, fm, vm = pwscf.read_matdyn_modes(os.path.join(o.dn, 'dynmat.modes'), natoms=n)
    ctx.close(fm, want[None], 'frequencies in the modes file', rtol=1e-5, atol=0.01)
    ctx.close(qm, np.zeros((1, 3)), 'q')
    V = V.T.reshape(3 * n, n, 3)
    gap = np.diff(np.concatenate([[-np.inf], want, [np.inf]]))
    for m in range(3 * n):
        if min(gap[m], gap[m + 1]) < 1.0:
            continue
        for got, tol in ((vm[0, m], 3e-5), (v[m] * np.linalg.norm(vm[0, m]) / np.linalg.norm(v[m]), 5e-3)):
            s = np.sign((got.real * V[m]).sum())
            ctx.close(got.real, s * V[m], 'mode %d' % m, rtol=0, atol=tol)
    ctx.count('real modes', 3 * n)
