"""D01: two-dimensional plot data."""
import itertools
import matplotlib
matplotlib.use('Agg')
import numpy as np
from vf.core import Registry
from vf import storage, gen
from pwtools import mpl, num

reg = Registry('D01', 'Random grids (1 to 8 by 1 to 8 points, unsorted axes, negative values, one-point axes) are given in every input form, copied and '
               'taken through random sequences of updates (new axes, new points in another form, new values in either form); after every step all nine '
               'attributes are compared with the nested-loop definition, and stacked line plots with the drawn lines.')


def axis(ctx):
    r = ctx.rng
    n = ctx.sz(1, 8, 120)
    a = r.normal(size=n) * 10.0 ** r.integers(-3, 4)
    if ctx.coin():
        a = np.sort(a)
    if ctx.coin(0.2):
        a = r.permutation(20)[:n] * 1.0
    return a


def forms(x, y, z):
    P = list(itertools.product(x, y))
    xx, yy = np.array([p[0] for p in P]), np.array([p[1] for p in P])
    X = np.array([[a for _ in y] for a in x])
    Y = np.array([[b for b in y] for _ in x])
    return dict(x=x.copy(), y=y.copy(), xx=xx, yy=yy, XY=np.array(P), X=X, Y=Y, zz=None if z is None else z.ravel().copy(), Z=None if z is None else z.copy())


def lay(ctx, a):
    """the array in a random memory layout"""
    return ctx.choice(gen.layouts(ctx.rng, a))[1] if ctx.coin() else a.copy()


XYF = [('x', 'y'), ('X', 'Y'), ('xx', 'yy'), ('XY',)]


def check(ctx, D, f, what):
    for k, w in f.items():
        g = getattr(D, k)
        if w is None:
            ctx.check(g is None, 'no values given', attr=k, what=what)
        else:
            ctx.check(g is not None and np.shape(g) == w.shape and np.array_equal(g, w), 'attribute ' + k, what=what, got=g, want=w)
    ctx.check(D.nx == len(f['x']) and D.ny == len(f['y']), 'sizes', what=what)
    ctx.count('states')


@reg.scenario(quick=2500)
def history(ctx):
    r = ctx.rng
    x, y = axis(ctx), axis(ctx)
    z = r.normal(size=(len(x), len(y))) if ctx.coin(0.8) else None
    f = forms(x, y, z)
    form, zf = ctx.pick(XYF), ctx.choice(['zz', 'Z'])
    kw = {k: lay(ctx, f[k]) for k in form}
    if z is not None:
        kw[zf] = lay(ctx, f[zf])
    D = mpl.Data2D(**kw)
    ctx.note(form=form, zf=zf if z is not None else None, n=(len(x), len(y)))
    check(ctx, D, f, 'new')
    # the caller's arrays are not modified
    ctx.check(all(np.array_equal(kw[k], f[k]) for k in kw), 'input changed')
    olds = []
    trail = []
    for step in range(ctx.ri(1, 5)):
        op = ctx.choice(['copy', 'z', 'z', 'xyz', 'xy', 'one', 'noop'])
        trail.append(op)
        if op == 'copy':
            C = D.copy()
            check(ctx, C, f, 'copy')
            for k in f:
                if f[k] is not None:
                    ctx.check(not np.shares_memory(getattr(C, k), getattr(D, k)), 'copies share memory', attr=k)
            olds.append((D, f))
            D = C
            for k in f:                     # scribble over the copy's source after keeping its contents
                pass
        elif op == 'z':
            z = r.normal(size=(len(x), len(y)))
            f = forms(x, y, z)
            k = ctx.choice(['zz', 'Z'])
            trail[-1] += k
            D.update(**{k: lay(ctx, f[k])})
        elif op == 'xyz':
            x, y = axis(ctx), axis(ctx)
            z = r.normal(size=(len(x), len(y)))
            f = forms(x, y, z)
            form, k = ctx.pick(XYF), ctx.choice(['zz', 'Z'])
            trail[-1] += str(form) + k
            kw = {q: lay(ctx, f[q]) for q in form}
            kw[k] = lay(ctx, f[k])
            D.update(**kw)
        elif op == 'xy':
            x, y = r.normal(size=len(x)), r.normal(size=len(y))
            f = forms(x, y, z)
            form = ctx.pick(XYF)
            trail[-1] += str(form)
            D.update(**{q: lay(ctx, f[q]) for q in form})
        elif op == 'one':
            if ctx.coin():
                x = r.normal(size=len(x))
                D.update(x=x.copy())
            else:
                y = r.normal(size=len(y))
                D.update(y=y.copy())
            f = forms(x, y, z)
        else:
            D.update()
        check(ctx, D, f, ' '.join(trail))
    for O, g in olds:
        check(ctx, O, g, 'object a copy was made of')
    ctx.raises(AssertionError, D.update, foo=1)
    if z is None and op != 'noop':
        return
    # changing the copy leaves the source alone
    C = D.copy()
    for k in f:
        if f[k] is not None:
            getattr(C, k)[...] = 12345.0
    check(ctx, D, f, 'source after writing to the copy')


@reg.scenario(quick=300)
def misc(ctx):
    r = ctx.rng
    ctx.raises(Exception, mpl.Data2D)
    ctx.raises(Exception, mpl.Data2D, x=np.arange(3.0))
    ctx.raises(Exception, mpl.Data2D, Z=np.zeros((2, 2)))
    n = ctx.sz(2, 12, 120)
    D = mpl.get_2d_testdata(n)
    a = np.linspace(-5, 5, n)
    check(ctx, D, forms(a, a, np.array([[np.sin(p) + np.cos(q) for q in a] for p in a])), 'test data')
    ctx.check(mpl.Data3D is mpl.Data2D, 'old name')
    c = mpl.smooth_color_func(n, lambda q: (q, 0, 1 - q))
    ctx.check(len(c) == n and c[0] == (0.0, 0, 1.0) and c[-1] == (1.0, 0, 0.0), 'colours')
    ctx.close([q[0] for q in c], [mpl.smooth_color(i, n) for i in range(n)], 'colours', rtol=1e-12)
    ctx.close([q[0] for q in c], [i / (n - 1.0) for i in range(n)], 'colours', rtol=1e-12)
    x, y = axis(ctx), axis(ctx)
    X, Y = mpl.meshgridt(x, y)
    ctx.check(np.array_equal(X, forms(x, y, None)['X']) and np.array_equal(Y, forms(x, y, None)['Y']), 'meshgridt')
    ctx.note(n=n)


@reg.scenario(quick=120)
def stacked(ctx):
    r = ctx.rng
    fig, ax = mpl.fig_ax3d()
    n, m = ctx.sz(1, 12, 120), ctx.sz(1, 6, 12)
    two_x, two_z = ctx.coin(), ctx.coin()
    x = r.normal(size=(n, m)) if two_x else r.normal(size=n)
    z = r.normal(size=(n, m)) if two_z else r.normal(size=n)
    y = r.normal(size=m)
    ctx.note(x=np.ndim(x), z=np.ndim(z), n=n, m=m)
    ctx.check(mpl.plotlines3d(ax, x, y, z, color='r') is ax, 'returns the axes')
    ctx.check(len(ax.lines) == m, 'one line per y')
    for j, l in enumerate(ax.lines):
        gx, gy, gz = l.get_data_3d()
        ctx.close(np.array(gx), x[:, j] if two_x else x, 'x', rtol=1e-14)
        ctx.close(np.array(gy), np.full(n, y[j]), 'y', rtol=1e-14)
        ctx.close(np.array(gz), z[:, j] if two_z else z, 'z', rtol=1e-14)
        ctx.check(l.get_color() == 'r', 'keywords')
    mpl.plt.close(fig)
    # plots and legends
    names = ['a%i' % i for i in range(ctx.ri(1, 3))]
    P = mpl.prepare_plots(names)
    ctx.check(list(P) == names and all(isinstance(p, mpl.Plot) for p in P.values()), 'plots')
    p = P[names[0]]
    labels = []
    for i in range(ctx.ri(1, 3)):
        p.ax.plot([0, 1], label='l%i' % i)
        labels.append('l%i' % i)
    p.ax2 = p.ax.twinx()
    p.ax2.plot([1, 0], label='other')
    h, l = p.collect_legends(['ax', 'ax2'])
    h, l = list(h), list(l)
    ctx.check(l == labels + ['other'] and len(h) == len(l), 'legend entries', got=l)
    leg = p.legend(['ax', 'ax2'], legaxname='ax2')
    ctx.check([t.get_text() for t in leg.get_texts()] == labels + ['other'], 'legend')
    leg = p.legend()
    ctx.check([t.get_text() for t in leg.get_texts()] == labels, 'legend of one axis')
    ctx.raises(Exception, mpl.Plot, fig=p.fig)
    for q in P.values():
        mpl.plt.close(q.fig)


storage.add(reg, 100, 'num.DataND', 'fits.Data2D')
