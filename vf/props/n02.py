"""N02: fits, splines, interpolators."""
import itertools
import math
import warnings
import numpy as np
from vf.core import Registry
from vf import storage
from pwtools import num

reg = Registry('N02', 'Splines and polynomial fits of random data and of random known polynomials (1 to 4 dimensions, degree 0 to 5, extreme scales, '
               'constant columns and values) are evaluated against the generating function, term-by-term derivatives and definition checks; inverse, '
               'root and extremum searches are checked by substituting the answer back and by the known location.')


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def poly_eval(co, powers, pts):
    return np.array([math.fsum(c * math.prod(float(p[i]) ** int(e) for i, e in enumerate(pw)) for c, pw in zip(co, powers)) for p in pts])


@reg.scenario(quick=1200)
def powers_vander(ctx):
    r = ctx.rng
    nd, deg = ctx.choice([(1, 0), (1, 5), (2, 3), (3, 2), (4, 2), (2, 0), (3, 1), (1, 9)])
    P = num.poly_powers(nd, deg)
    want = [list(x) for x in itertools.product(range(deg + 1), repeat=nd)]
    ctx.check(P.tolist() == want, 'powers', got=P, want=want)
    pts = r.uniform(-2, 2, (ctx.sz(1, 6, 150), nd))
    if ctx.coin(0.2):
        pts[0, 0] = 0.0
    V = num.vander(pts, deg)
    W = [[math.prod(float(p[i]) ** int(e) for i, e in enumerate(pw)) for pw in want] for p in pts]
    ctx.close(V, W, 'matrix', rtol=1e-12, atol=1e-14)
    st = num.poly_str(nd, deg)
    terms = st.split(' + ')
    ctx.check(len(terms) == len(want), 'terms', st=st)
    env = {'x%i' % i: pts[0, i] for i in range(nd)}
    co = r.normal(size=len(want))
    env.update({'a%i' % i: c for i, c in enumerate(co)})
    ctx.close(eval(st.replace('^', '**'), {}, env), float(np.dot(W[0], co)), 'printed polynomial', rtol=1e-10, atol=1e-12)


@reg.scenario(quick=900)
def exact_polynomial(ctx):
    r = ctx.rng
    nd = ctx.choice([1, 1, 2, 2, 3])
    tdeg = ctx.ri(0, {1: 5, 2: 3, 3: 2}[nd])
    deg = tdeg + (ctx.ri(0, 2) if nd < 3 else 0)
    nterm = (deg + 1) ** nd
    npts = nterm * 2 + ctx.ri(1, 10)
    u = r.uniform(-1, 1, (npts, nd))
    scale = 10.0 ** r.integers(-6, 7, nd)
    off = r.uniform(-2, 2, nd) * ctx.choice([0, 1, 1])
    f = lambda uu: poly_eval(co, pw, uu)
    pw = list(itertools.product(range(tdeg + 1), repeat=nd))
    co = r.normal(size=len(pw))
    if ctx.coin(0.15):
        co[1:] = 0.0
    vs = 10.0 ** r.integers(-8, 9)
    vo = ctx.choice([0.0, 0.0, 5.0, -5.0]) * vs
    pts = (u + off) * scale
    vals = f(u) * vs + vo
    mode = ctx.choice(['scale', 'scale', 'default', 'vand', 'both'])
    if mode in ('vand',):
        pts = u + off * 0.3
        vals = f(u) * vs + vo
        mk = lambda uu: uu + off * 0.3
        kw = dict(scale=False, scale_vand=True)
    else:
        mk = lambda uu: (uu + off) * scale
        kw = {'scale': dict(scale=True), 'default': {}, 'both': dict(scale=True, scale_vand=True)}[mode]
    ctx.note(nd=nd, deg=deg, tdeg=tdeg, mode=mode, const=bool((co[1:] == 0).all()))
    p0, v0 = pts.copy(), vals.copy()
    fit = num.polyfit(pts, vals, deg, **kw)
    F = num.PolyFit(pts, vals, deg, **kw)
    ctx.same(pts, p0, 'points'), ctx.same(vals, v0, 'values')
    un = r.uniform(-1, 1, (ctx.sz(1, 8, 300), nd))
    want = f(un) * vs + vo
    amp = float(np.abs(vals).max()) + 1e-300
    tol = 1e-7 * amp
    for uu, w, what in ((u, vals, 'data points'), (un, want, 'new points')):
        ctx.close(num.polyval(fit, mk(uu)), w, 'polyval at ' + what, rtol=0, atol=tol)
        ctx.close(F(mk(uu)), w, 'PolyFit at ' + what, rtol=0, atol=tol)
    one = F(mk(un)[0])
    ctx.check(np.ndim(one) == 0, 'one point gives one value')
    ctx.close(one, want[0], 'single point', rtol=0, atol=tol)
    ctx.raises(AssertionError, num.polyval, fit, np.zeros((2, nd + 1)))
    ctx.raises(AssertionError, num.polyfit, pts, vals[:-1], deg)
    # the order of the points does not matter
    pm = r.permutation(npts)
    ctx.close(num.PolyFit(pts[pm], vals[pm], deg, **kw)(mk(un)), want, 'order of points', rtol=0, atol=tol)
    if nd == 1:
        G = num.PolyFit1D(ctx.choice([pts[:, 0], pts, list(pts[:, 0])]), vals, deg, **kw)
        ctx.close(G(mk(un)[:, 0]) if len(un) > 1 else G(mk(un)), want, 'PolyFit1D', rtol=0, atol=tol)
        ctx.close(G(mk(un)), want, 'PolyFit1D column', rtol=0, atol=tol)
        s = G(float(mk(un)[0, 0]))
        ctx.check(np.ndim(s) == 0, 'scalar in, scalar out')
        ctx.close(s, want[0], 'PolyFit1D scalar', rtol=0, atol=tol)
        sc = scale[0] if mode != 'vand' else 1.0
        for der in range(1, tdeg + 3):
            dc = np.polynomial.polynomial.polyder(co, der) if der <= tdeg else np.array([0.0])
            dw = np.array([math.fsum(c * float(x) ** k for k, c in enumerate(dc)) for x in un[:, 0]]) * vs / sc ** der
            dtol = 1e-6 * 40 ** der * amp / sc ** der
            ctx.close(np.atleast_1d(G(mk(un), der=der)), dw, 'derivative %i' % der, rtol=1e-6, atol=dtol)
            ctx.close(num.polyval(fit, mk(un), der=der), dw, 'derivative %i' % der, rtol=1e-6, atol=dtol)
    else:
        ctx.raises(AssertionError, num.polyval, fit, mk(un), der=1)


@reg.scenario(quick=600)
def least_squares(ctx):
    """a fit to more points than terms is the least squares solution: the residual is orthogonal to every term"""
    r = ctx.rng
    nd = ctx.choice([1, 2, 3])
    deg = ctx.ri(0, {1: 5, 2: 2, 3: 1}[nd])
    n = (deg + 1) ** nd * 3 + ctx.ri(0, 9)
    pts = r.uniform(-1, 1, (n, nd)) * 10.0 ** r.integers(-3, 4)
    vals = r.normal(size=n) * 10.0 ** r.integers(-6, 6)
    kw = ctx.choice([{}, dict(scale=True), dict(scale=True, scale_vand=True)])
    F = num.PolyFit(pts, vals, deg, **kw)
    res = (F(pts) - vals) / np.abs(vals).max()
    un = pts / np.abs(pts).max()
    for pw in itertools.product(range(deg + 1), repeat=nd):
        t = np.array([math.prod(float(p[i]) ** e for i, e in enumerate(pw)) for p in un])
        ctx.close(np.dot(t, res), 0.0, 'residual is orthogonal to each term', rtol=0, atol=1e-8 * n)
    ctx.note(nd=nd, deg=deg, n=n, kw=str(kw))
    kws = [dict(scale=s, scale_vand=v) for s in (True, False) for v in (True, False)]
    outs = [num.PolyFit(un, vals, deg, **k)(un) for k in kws]
    for o in outs[1:]:
        ctx.close(o, outs[0], 'scaling options agree', rtol=0, atol=1e-8 * np.abs(vals).max())


@reg.scenario(quick=500)
def poly_extrema(ctx):
    r = ctx.rng
    x0, w, c0, c = r.uniform(-1, 1), r.uniform(0.5, 3), r.normal(), r.uniform(0.5, 4)
    sc = 10.0 ** r.integers(-4, 5)
    x = np.linspace(-2, 2, ctx.ri(8, 30)) if ctx.coin() else np.sort(r.uniform(-2, 2, 20))
    x[0], x[-1] = -2, 2
    if ctx.coin(0.4):
        x = r.permutation(x)
    g = ctx.choice(['quad', 'quart'])
    f = (lambda t: c * (t - x0) ** 2 + c0) if g == 'quad' else (lambda t: c * (t - x0) ** 2 + 0.2 * (t - x0) ** 4 + c0)
    F = num.PolyFit1D(x * sc, f(x), 2 if g == 'quad' else 4)
    ctx.close(F.get_min(), x0 * sc, 'minimum', rtol=0, atol=1e-6 * sc)
    ctx.close(F.get_min(xab=[(x0 - 0.5) * sc, (x0 + 0.7) * sc]), x0 * sc, 'minimum', rtol=0, atol=1e-6 * sc)
    N = num.PolyFit1D(x * sc, -f(x), 2 if g == 'quad' else 4)
    ctx.close(N.get_max(), x0 * sc, 'maximum', rtol=0, atol=1e-6 * sc)
    Z = num.PolyFit1D(x * sc, f(x) - f(np.array([x0 + 0.4]))[0], 2 if g == 'quad' else 4)
    ctx.close(Z.get_root(xab=[x0 * sc, (x0 + 1) * sc]), (x0 + 0.4) * sc, 'root', rtol=0, atol=1e-6 * sc)
    # several dimensions
    nd = ctx.ri(1, 3)
    m = r.uniform(-0.5, 0.5, nd)
    A = np.diag(r.uniform(0.5, 3, nd))
    pts = r.uniform(-1, 1, (40, nd))
    z = lambda: np.einsum('ij,jk,ik->i', pts - m, A, pts - m) + c0
    if ctx.coin():
        # the search starts on (or near) an axis
        pts[z().argmin(), ctx.ri(0, nd - 1)] *= ctx.choice([0, 1e-8, 1e-4, 1e-3])
    ext = 10.0 ** r.integers(-3, 4, nd)
    vals = z()
    P = num.PolyFit(pts * ext, vals, 2)
    ctx.close(P.get_min() / ext, m, 'minimum of the scaled polynomial', rtol=0, atol=1e-3)
    M = num.PolyFit(pts, vals, 2)
    ctx.close(M.get_min(), m, 'minimum of the polynomial', rtol=0, atol=1e-4)
    if nd == 2:
        I = num.Interpol2D(points=pts, values=vals, what='poly', deg=2)
        ctx.close(I.get_min(), m, 'minimum of the surface', rtol=0, atol=1e-4)


@reg.scenario(quick=900)
def spline(ctx):
    r = ctx.rng
    k = ctx.choice([3, 3, 3, 1, 2, 4, 5])
    n = ctx.ri(k + 2, 40)
    sc = 10.0 ** r.integers(-4, 5)
    x = np.cumsum(r.uniform(0.3, 1, n)) * sc
    if ctx.coin():
        x -= x.mean()
    y = r.normal(size=n)
    kw = {} if k == 3 and ctx.coin() else {'k': k}
    x0, y0 = x.copy(), y.copy()
    sp = num.Spline(x, y, eps=1e-6, **kw)
    ctx.note(k=k, n=n)
    ctx.same(x, x0, 'x'), ctx.same(y, y0, 'y')
    ctx.close(sp(x), y, 'passes through the points', rtol=0, atol=1e-6)
    i = ctx.ri(0, n - 1)
    v = sp(float(x[i]))
    ctx.check(isinstance(v, float), 'scalar in, float out', got=type(v).__name__)
    ctx.close(v, y[i], 'scalar', rtol=0, atol=1e-6)
    # derivatives agree with the integral of the derivative over each knot interval (Gauss-Legendre is exact for it)
    gx, gw = np.polynomial.legendre.leggauss(6)
    tk = np.unique(sp.tck[0])
    lo, hi = tk[0], tk[-1]
    a, b = sorted(r.uniform(lo, hi, 2))
    cuts = [a] + [t for t in tk if a < t < b] + [b]
    for der in range(1, k + 1):
        tot, mag = 0.0, 0.0
        for p, q in zip(cuts[:-1], cuts[1:]):
            d = np.asarray(sp((q + p) / 2 + (q - p) / 2 * gx, der=der))
            tot += float(np.dot(gw, d)) * (q - p) / 2
            mag += float(np.dot(gw, np.abs(d))) * (q - p) / 2
        lo_ = (lambda t: sp(t, der=der - 1))
        ctx.close(tot, lo_(b) - lo_(a), 'integral of the derivative', rtol=0, atol=1e-8 * (mag + abs(lo_(b)) + abs(lo_(a))) + 1e-300)
        xn = np.sort(r.uniform(lo, hi, 5))
        ctx.close(num.deriv_spl(y, x, xn, n=der, **kw), sp(xn, der=der), 'deriv_spl', rtol=1e-9, atol=1e-9 * np.abs(sp(xn, der=der)).max())
    xd, yd = num.deriv_spl(y, x, n=1, fullout=True, **kw)
    ctx.same(np.asarray(xd), x, 'axis')
    ctx.close(yd, sp(x, der=1), 'deriv_spl on the points', rtol=1e-9, atol=1e-9 * np.abs(yd).max())
    ctx.close(num.deriv_spl(y, n=1), num.deriv_spl(y, np.arange(n), n=1), 'default axis', rtol=1e-12) if k == 3 else None
    ctx.raises(AssertionError, num.deriv_spl, y, x, n=0)
    if n > 1:
        bad = x.copy()
        bad[0], bad[1] = bad[1], bad[0]
        ctx.raises(AssertionError, num.Spline, bad, y)
    with_s = None
    try:
        with_s = num.Spline(x, y, s=float(n) * 5, k=min(3, n - 1), eps=1e-12)
    except AssertionError as e:
        ctx.check('not accurate' in str(e), 'message', e=str(e))
        ctx.count('inaccurate refused')
    if with_s is not None:
        ctx.check(np.abs(with_s(x) - y).max() < 1e-12, 'a spline which misses its points is refused')
    # one point which the spline is told to ignore, above or below the rest
    i = ctx.ri(1, n - 2)
    u = (x - x[0]) / (x[-1] - x[0])
    yo = r.uniform(-2, 2) * u + r.uniform(-2, 2)
    yo[i] += ctx.choice([-1.0, 1.0]) * r.uniform(0.5, 5)
    w = np.ones(n)
    w[i] = 1e-9
    kw_o = dict(w=w, s=1e-6, k=k)
    miss = np.abs(num.Spline(x, yo, checkeps=False, **kw_o)(x) - yo)
    if miss.max() > 0.4 and np.delete(miss, i).max() < 1e-3:
        ctx.count('outliers')
        ctx.raises(AssertionError, num.Spline, x, yo, eps=1e-2, **kw_o)
        ctx.close(num.Spline(x, yo, eps=miss.max() * 1.01, **kw_o)(x) - yo, np.where(miss > 0.4, num.Spline(x, yo, checkeps=False, **kw_o)(x) - yo, 0),
                  'within eps', rtol=0, atol=1e-3)


@reg.scenario(quick=900)
def spline_exact(ctx):
    """splines of degree k reproduce polynomials of degree <= k"""
    r = ctx.rng
    k = ctx.ri(1, 5)
    n = ctx.ri(k + 2, 30)
    x = np.cumsum(r.uniform(0.3, 1, n))
    x = (x - x.mean()) / np.ptp(x) * 2
    co = r.normal(size=k + 1)
    f = lambda t, d=0: np.polyval(np.polyder(co, d) if d <= k else [0], t)
    sp = num.Spline(x, f(x), k=k, eps=1e-8)
    t = r.uniform(x[0], x[-1], 7)
    ctx.note(k=k, n=n)
    for d in range(0, k + 1):
        ctx.close(sp(t, der=d), np.ones(7) * f(t, d), 'derivative %i' % d, rtol=0, atol=1e-7 * 60.0 ** d)


@reg.scenario(quick=800)
def lookup(ctx):
    r = ctx.rng
    n = ctx.ri(15, 60)
    x = np.sort(r.uniform(-2, 2, n - 2))
    x = np.concatenate(([-2.0], x[(x > -1.99) & (x < 1.99)], [2.0]))
    x = x[np.concatenate(([True], np.diff(x) > 1e-3))]
    sc, vs = 10.0 ** r.integers(-3, 4), 10.0 ** r.integers(-3, 4)
    p, q = r.uniform(0.5, 2), r.uniform(-0.4, 0.4)
    up = ctx.coin()
    f = lambda t: (np.tanh(p * t) + 0.3 * t + q) * (1 if up else -1) * vs
    y = f(x)
    S = quiet(num.Spline, x * sc, y, eps=1e-6 * vs)
    ctx.note(n=len(x), up=up)
    assert len(x) > 6
    fine = np.asarray(S(np.linspace(-2, 2, 400) * sc))
    mono = (np.diff(fine) > 0).all() or (np.diff(fine) < 0).all()
    y0 = float(r.uniform(min(y), max(y)))
    xx = S.invsplev(y0)
    ctx.close(S(xx), y0, 'inverse lookup', rtol=0, atol=1e-8 * vs)
    ctx.check(-2 * sc <= xx <= 2 * sc, 'inside the data')
    ctx.check(bool(S.is_mono()) is True, 'monotonic data')
    if mono:
        t = float(r.uniform(-1.9, 1.9)) * sc
        ctx.close(S.invsplev(S(t)), t, 'inverse of the value', rtol=0, atol=1e-6 * sc)
        ctx.close(S.invsplev(S(t), x0=t + 0.01 * sc), t, 'Newton', rtol=0, atol=1e-5 * sc)
        ctx.close(S.invsplev(S(t), xab=[t - 0.05 * sc, t + 0.08 * sc]), t, 'bracket', rtol=0, atol=1e-6 * sc)
    for out in (max(y) + 0.1 * vs, min(y) - 0.1 * vs):
        ctx.raises(AssertionError, S.invsplev, out)
    if min(y) < 0 < max(y):
        root = S.get_root()
        ctx.close(S(root), 0.0, 'root', rtol=0, atol=1e-8 * vs)
        fr = quiet(num.findroot, x * sc, y) if vs <= 1 else np.array([root, S(root)])
        ctx.close(fr, [root, S(root)], 'findroot', rtol=1e-6, atol=1e-8 * (vs + sc))
    # extrema
    x0 = float(r.uniform(-1, 1))
    g = lambda t: ((t - x0) ** 2 + 0.1 * (t - x0) ** 3 * 0) * vs + q
    for sign in (1, -1):
        T = quiet(num.Spline, x * sc, sign * g(x), eps=1e-6 * vs)
        loc = T.get_min() if sign == 1 else T.get_max()
        ctx.close(loc, x0 * sc, 'extremum', rtol=0, atol=1e-5 * sc)
        ctx.close(T(loc, der=1), 0.0, 'derivative there', rtol=0, atol=1e-6 * vs / sc)
        ctx.close(T.get_min(x0=x0 * sc * 1.01 + 0.01 * sc), x0 * sc, 'Newton', rtol=0, atol=1e-4 * sc)
        ctx.check(bool(T.is_mono()) == bool((np.diff(np.sign(np.diff(sign * g(x)))) == 0).all()), 'not monotonic')
    fm = quiet(num.findmin, x * sc, g(x)) if vs <= 1 else None
    if fm is not None:
        ctx.close(fm[0], x0 * sc, 'findmin', rtol=0, atol=1e-5 * sc)
        ctx.close(fm[1], q, 'value at the minimum', rtol=0, atol=1e-6 * vs)


@reg.scenario(quick=160)
def surface(ctx):
    r = ctx.rng
    what = ctx.choice(['rbf_multi', 'rbf_inv_multi', 'rbf_gauss', 'poly', 'ct', 'linear', 'nearest', 'bispl'])
    n = ctx.ri(12, 40)
    how = ctx.choice(['points', 'xx', 'dd'])
    if what in ('bispl',) or how == 'dd':
        nx, ny = ctx.ri(5, 8), ctx.ri(5, 8)
        gx, gy = np.linspace(-1, 1, nx), np.linspace(0, 2, ny)
        pts = np.array([[a, b] for a in gx for b in gy])
        pts = pts[r.permutation(len(pts))]
    else:
        # points which are not too close
        pts = []
        while len(pts) < n:
            p = r.uniform(-1, 1, 2)
            if all(np.hypot(*(p - o)) > 0.1 for o in pts):
                pts.append(p)
        pts = np.array(pts)
    co = r.normal(size=9)
    f = lambda P: sum(c * P[:, 0] ** i * P[:, 1] ** j for c, (i, j) in zip(co, itertools.product(range(3), repeat=2)))
    vals = f(pts)
    kw = {'poly': {'deg': ctx.choice([2, 3])} if len(pts) >= 20 else {'deg': 2}, 'bispl': {}}.get(what, {})
    if how == 'points':
        a = dict(points=pts, values=vals)
    elif how == 'xx':
        a = dict(xx=pts[:, 0], yy=pts[:, 1], values=vals)
    else:
        from pwtools import mpl
        a = dict(dd=mpl.Data2D(xx=pts[:, 0], yy=pts[:, 1], zz=vals))
    ctx.note(what=what, how=how, n=len(pts))
    I = quiet(num.Interpol2D, what=what, **a, **kw)
    amp = float(np.abs(vals).max())
    tol = {'poly': 1e-7, 'ct': 1e-9, 'linear': 1e-9, 'nearest': 1e-12, 'bispl': 1e-4}.get(what, 1e-5) * amp
    got = np.asarray(quiet(I, pts))
    ctx.check(got.shape == (len(pts),), 'shape', got=got.shape)
    ctx.close(got, vals, 'values at the data points', rtol=0, atol=tol)
    i = ctx.ri(0, len(pts) - 1)
    one = quiet(I, pts[i])
    ctx.check(np.shape(one) == (1,), 'one point', got=np.shape(one))
    ctx.close(one, vals[i:i + 1], 'one point', rtol=0, atol=tol)
    ctx.close(quiet(I, [list(p) for p in pts[:3]]), vals[:3], 'list', rtol=0, atol=tol)
    if what == 'poly':
        P = r.uniform(-1, 1, (5, 2))
        ctx.close(I(P), f(P), 'the same polynomial everywhere', rtol=0, atol=1e-6 * amp)
    elif what == 'nearest':
        P = r.uniform(-1, 1, (5, 2))
        ctx.close(I(P), [vals[np.argmin(((pts - p) ** 2).sum(1))] for p in P], 'nearest', rtol=1e-12)
    elif what == 'linear':
        L = num.Interpol2D(points=pts, values=2 * pts[:, 0] - pts[:, 1] + 3, what='linear')
        c = r.dirichlet(np.ones(len(pts)), 4) @ pts
        ctx.close(L(c), 2 * c[:, 0] - c[:, 1] + 3, 'plane', rtol=1e-9)
    # many points at once are the same as one after the other
    m = ctx.choice([len(pts), len(pts) + 1, 2 * len(pts), ctx.ri(1, 300)])
    P = r.dirichlet(np.ones(len(pts)), m) @ pts
    P[m // 2:] = pts[r.integers(0, len(pts), m - m // 2)] + r.normal(size=(m - m // 2, 2)) * 1e-3
    many = np.asarray(quiet(I, P))
    ctx.check(many.shape == (m,), 'shape for many points', got=many.shape, m=m)
    for i in sorted(set(r.integers(0, m, 12).tolist() + [m - 1])):
        one = np.asarray(quiet(I, P[i]))
        if np.isnan(many[i]):
            # outside of the points
            ctx.check(one.shape == (1,) and np.isnan(one[0]), 'one of %d points' % m, got=one)
        else:
            ctx.close(many[i:i + 1], one, 'one of %d points' % m, rtol=0, atol=tol + 1e-9 * abs(many[i]))
    ctx.raises(Exception, num.Interpol2D, points=pts, values=vals, what='nothing')
    ctx.raises(Exception, num.Interpol2D, points=pts, xx=pts[:, 0], yy=pts[:, 1], values=vals)


@reg.scenario(quick=60)
def surface_min(ctx):
    r = ctx.rng
    what = ctx.choice(['rbf_multi', 'rbf_inv_multi', 'rbf_gauss', 'poly', 'ct', 'bispl'])
    m = r.uniform(-2, 2, 2)
    x = np.linspace(-5, 5, 16)
    pts = np.array([[a, b] for a in x for b in x])[r.permutation(256)]
    vals = ((pts - m) ** 2).sum(1) + 5
    kw = {'poly': {'deg': 5}, 'bispl': {}}.get(what, {'r': 1e-10} if what.startswith('rbf') else {})
    I = quiet(num.Interpol2D, points=pts, values=vals, what=what, **kw)
    x0 = None if ctx.coin() else list(m + r.uniform(-0.5, 0.5, 2))
    got = quiet(I.get_min) if x0 is None else quiet(I.get_min, x0)
    ctx.note(what=what)
    ctx.close(got, m, 'minimum', rtol=0, atol=0.15 if what == 'ct' else 0.4 if what.startswith('rbf') else 1e-2)
    ctx.check(float(quiet(I, got)[0]) <= float(quiet(I, pts).min()) + (0.1 if what.startswith('rbf') else 1e-6), 'not above the data')


storage.add(reg, 360, 'num.norm_int', 'num.deriv_spl', 'num.findmin', 'num.Spline', 'num.polyfit', 'num.PolyFit', 'num.PolyFit1D',
            'num.vander', 'num.Interpol2D')
