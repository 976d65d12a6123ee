import matplotlib
matplotlib.use('Agg')
import numpy as np
from matplotlib import pyplot as plt

from pwtools import kpath
from vf.core import Registry
from vf import storage

reg = Registry('K01', 'Paths through random special points (repeated points, zero-length segments, closed loops, integer and float '
               'input, 1-6 dimensions, one to many steps) and plots of dispersions on them; the oracle walks the path itself and '
               'reads lines, ticks, labels and limits back from the drawn figure')


def points(ctx, M=None):
    K = ctx.sz(1, 8, 40)
    M = ctx.choice([1, 2, 3, 3, 3, 6]) if M is None else M
    kind = ctx.choice(['random', 'fcc', 'integer', 'repeat', 'loop', 'large'])
    v = ctx.rng.uniform(-1, 1, (K, M))
    if kind == 'fcc':
        v = ctx.choice([0, 0.25, 0.375, 0.5, 0.75, 1.0]) * ctx.rng.integers(-1, 3, (K, M)) / 2.0
    elif kind == 'integer':
        v = ctx.rng.integers(-3, 4, (K, M))
    elif kind == 'repeat' and K > 2:
        v[ctx.ri(1, K - 1)] = v[0]
        v[-1] = v[-2]
    elif kind == 'loop':
        v[-1] = v[0]
    elif kind == 'large':
        v = v * 1e6 + 1e7
    return v, kind


@reg.scenario(quick=600, thorough=10000)
def path(ctx):
    """number, order and position of the points on the path"""
    v, kind = points(ctx)
    K, M = v.shape
    N = ctx.choice([None, 1, 2, 3, ctx.ri(4, 50)])
    ctx.note(K=K, M=M, N=str(N), kind=kind)
    w = np.asfortranarray(v) if ctx.coin() else v.copy()
    p = kpath.kpath(w) if N is None else kpath.kpath(w, N=N)
    N = 10 if N is None else N
    ctx.same(w, v, 'input changed')
    ctx.check(p.shape == (N * (K - 1) + 1, M), 'shape of the path', got=p)
    ctx.check(p.dtype.kind == 'f', 'float path', got=p.dtype)
    s = np.abs(v).max() * 1e-14
    ctx.same(p[0], v[0].astype(float), 'starts at the first point')
    ctx.same(p[-1], v[-1].astype(float), 'ends at the last point')
    ctx.close(p[::N], v, 'special points in order', rtol=1e-14, atol=s)
    want = np.array([v[i] + (v[i + 1] - v[i]) * (j / N) for i in range(K - 1) for j in range(N)] + [v[-1]])
    ctx.close(p, want, 'equal steps on each segment', rtol=1e-13, atol=10 * s)
    # walk
    n = kpath.get_path_norm(p)
    ctx.same(p[-1], v[-1].astype(float), 'path changed')
    ctx.check(n.shape == (len(p),), 'one length per point', got=n)
    ctx.check((np.diff(n) >= 0).all(), 'length decreases', got=n)
    acc, w = float(np.sqrt((p[0]**2).sum())), []
    for i in range(len(p)):
        if i:
            acc += float(np.sqrt(((p[i] - p[i - 1])**2).sum()))
        w.append(acc)
    ctx.close(n, w, 'cumulative length', rtol=1e-11)
    ns = kpath.get_path_norm(v.astype(float))
    ctx.close(n[::N], ns, 'lengths at the special points', rtol=1e-10, atol=100 * s)
    ctx.close(n[-1] - n[0], sum(np.sqrt(((v[i + 1] - v[i]).astype(float)**2).sum()) for i in range(K - 1)), 'total length', rtol=1e-9, atol=100 * s * len(p))
    if M:
        sp = kpath.SpecialPointsPath(ks=v, ks_frac=v if ctx.coin() else None, symbols=ctx.choice([None, ['P%i' % i for i in range(K)]]))
        ctx.close(sp.path_norm, n[::N], 'markers at the path positions', rtol=1e-10, atol=100 * s)
        ctx.same(sp.ks, v, 'points kept')
    # reversed path
    r = kpath.kpath(v[::-1], N=N)
    ctx.close(r[::-1], p, 'reversed path', rtol=1e-13, atol=10 * s)


@reg.scenario(quick=60, thorough=600)
def plot(ctx):
    """drawn dispersion, ticks, labels, limits, DOS panel"""
    v, kind = points(ctx, M=3)
    if len(v) < 2:
        v = np.vstack([v, v + 1])
    K = len(v)
    N = ctx.sz(1, 12, 150)
    p = kpath.kpath(v, N=N)
    pn = kpath.get_path_norm(p)
    nb = ctx.sz(1, 6, 40)
    fr = ctx.rng.uniform(-50, 600, (len(p), nb))
    frac = ctx.rng.uniform(-1, 1, (K, 3)) if ctx.coin() else None
    sym = ['$\\Gamma$', 'X', 'K', 'L', 'U', 'W', 'Z', 'R', 'S']
    sym = (sym * K)[:K]
    sym = sym if ctx.coin(0.8) else None
    mode = ctx.choice(['none', 'label', 'cart', 'frac', 'bad'])
    if mode == 'frac' and frac is None:
        mode = 'cart'
    dos = np.array([np.linspace(0, 600, 20), ctx.rng.uniform(0, 1, 20)]).T if ctx.coin() else None
    ylim = ctx.choice([None, (-100., 900.), (0., 50.)])
    ctx.note(markers=mode, dos=dos is not None, ylim=str(ylim), nb=nb, symbols=sym is not None)
    sp = kpath.SpecialPointsPath(ks=v, ks_frac=frac, symbols=sym)
    own = ctx.coin()
    kw = dict(dos=dos, ylim=ylim)
    if mode != 'none':
        kw['special_points_path'] = sp
        kw['show_coords'] = None if mode == 'label' else mode
    inp = (pn.copy(), fr.copy(), v.copy())
    try:
        if own:
            f0, a0 = plt.subplots()
            kw['ax'] = a0
        if mode == 'bad':
            ctx.raises(Exception, kpath.plot_dis, pn, fr, **kw)
            return
        fig, ax, axd = kpath.plot_dis(pn, fr, **kw)
        ctx.same((pn, fr, v), inp, 'input changed')
        if own:
            ctx.check(fig is f0 and ax is a0, 'given axes used')
        ctx.check(ax.get_figure() is fig, 'axes belong to the figure')
        L = ax.get_lines()
        ctx.check(len(L) == nb, 'one line per band', got=len(L), want=nb)
        for i, l in enumerate(L):
            ctx.same(np.asarray(l.get_xdata()), pn, 'band x')
            ctx.same(np.asarray(l.get_ydata()), fr[:, i], 'band y')
        fig.canvas.draw()
        if mode != 'none':
            ctx.close(ax.get_xticks(), pn[::N], 'ticks at the special points', rtol=1e-9, atol=1e-9)
            t = [x.get_text() for x in ax.get_xticklabels()]
            ctx.check(len(t) == K, 'one label per special point', got=t)
            pos = pn[::N]
            for i, x in enumerate(t):
                if (np.abs(pos - pos[i]) < 1e-9).sum() > 1:
                    continue            # two markers at the same place share a label
                s = sym[i] if sym else ''
                if mode == 'label':
                    ctx.same(x, s, 'label')
                else:
                    c = (v if mode == 'cart' else frac)[i]
                    ctx.check(x.startswith(s) and '[' in x, 'label with coordinates', got=x)
                    got = [float(q) for q in x[x.index('[') + 1:x.index(']')].split(',')]
                    ctx.close(got, c, 'coordinates in the label', rtol=0.051, atol=1e-12)
            ctx.close(ax.get_xlim(), (pn[0], pn[-1]), 'x range', rtol=1e-9, atol=1e-2 if pn[0] == pn[-1] else 1e-12 * pn[-1]) if pn[0] != pn[-1] else None
            seg = [c for c in ax.collections for c in c.get_segments()]
            ctx.close(sorted(s[0][0] for s in seg), pn[::N], 'vertical lines at the special points', rtol=1e-9, atol=1e-9)
            if ylim is not None:
                ctx.close([sorted(q[1] for q in s) for s in seg], [sorted(ylim)] * len(seg), 'markers over the requested frequency range')
            else:
                ctx.check(all(min(q[1] for q in s) <= fr.min() and max(q[1] for q in s) >= fr.max() for s in seg),
                          'markers over all bands')
            ctx.count('markers read back', K)
        if ylim is not None:
            ctx.close(ax.get_ylim(), ylim, 'frequency limits')
        if dos is None:
            ctx.check(axd is None, 'no DOS axes', got=axd)
        else:
            l, = axd.get_lines()
            ctx.same(np.asarray(l.get_ydata()), dos[:, 0], 'DOS frequencies on the y axis')
            ctx.same(np.asarray(l.get_xdata()), dos[:, 1], 'DOS values on the x axis')
            ctx.same(tuple(axd.get_ylim()), tuple(ax.get_ylim()), 'shared frequency axis')
    finally:
        plt.close('all')


storage.add(reg, 100, 'fits.kpath', 'fits.path_norm')
