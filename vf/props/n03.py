"""N03: matching, ordering, grids, inner points."""
import itertools
import math
import numpy as np
from vf.core import Registry
from vf import storage
from pwtools import num, comb

reg = Registry('N03', 'Random integer and float arrays (repeats, values not contained, empty lists), tables on random 1- to 5-dimensional grids, random and '
               'gridded point sets, and families of smooth crossing curves with scrambled rows; compared with element-wise loops, the coordinates themselves, '
               'an independent hull test and the unscrambled curves.')


@reg.scenario(quick=2500)
def matching(ctx):
    r = ctx.rng
    n, m = ctx.sz(0, 20, 150), ctx.sz(0, 15, 150)
    kind = ctx.choice(['int', 'neg', 'float', 'eps', 'big'])
    if kind == 'int':
        a, v = r.integers(0, 12, n), r.integers(0, 15, m)
    elif kind == 'neg':
        a, v = r.integers(-6, 6, n).astype(np.int32), r.integers(-8, 8, m)
    elif kind == 'big':
        a, v = r.integers(0, 4, n) + 2 ** 53, r.integers(0, 4, m) + 2 ** 53
    else:
        pool = r.normal(size=8)
        a, v = r.choice(pool, n), r.choice(pool, m)
    eps = None
    if kind == 'eps':
        eps = float(ctx.choice([1e-3, 0.2, 1.5]))
        a = a + r.uniform(-1, 1, n) * eps * 2
    kw = {} if eps is None else {'eps': eps}
    a0, v0 = a.copy(), v.copy()
    want = [any((abs(float(x) - float(w)) < eps) if eps else int(x) == int(w) if kind in ('int', 'neg', 'big') else x == w for w in v) for x in a]
    got = num.match_mask(a, v, **kw)
    ctx.note(n=n, m=m, kind=kind)
    ctx.check(got.dtype == bool and got.shape == (n,) and got.tolist() == want, 'mask', got=got, want=want, arr=a, values=v, eps=eps)
    mask, idx = num.match_mask(a, v, fullout=True, **kw)
    ctx.check(mask.tolist() == want and list(idx) == [i for i in range(n) if want[i]], 'indices', got=idx, want=want)
    ctx.same(a, a0, 'arr'), ctx.same(v, v0, 'values')
    ctx.raises(AssertionError, num.match_mask, np.zeros((2, 2)), v)


@reg.scenario(quick=800)
def unique(ctx):
    r = ctx.rng
    a = r.integers(0, ctx.choice([2, 3, 50]), (ctx.sz(1, 15, 150), ctx.sz(1, 4, 10)))
    kind = ctx.choice(['int', 'float', 'tiny', 'near', 'big'])
    if kind != 'int':
        # values that differ by very little only are different ones
        a = {'float': a * 0.1, 'tiny': a * 1e-12, 'near': 1.0 + a * 2.0 ** -50, 'big': a + 2**60}[kind]
    ctx.note(kind=kind, shape=a.shape, k=ctx.idx)
    for what, arr in (('row', a), ('col', a.T)):
        seen = []
        for row in a:
            if not any(list(row) == s for s in seen):
                seen.append(list(row))
        got = comb.unique2d(arr if ctx.coin() else arr.tolist(), what)
        want = np.array(seen) if what == 'row' else np.array(seen).T
        ctx.check(np.array_equal(got, want), 'unique', what=what, got=got, want=want, arr=arr)
    ctx.raises(ValueError, comb.unique2d, a, 'other')


@reg.scenario(quick=800)
def grid(ctx):
    r = ctx.rng
    nd = ctx.ri(1, 5)
    axes = []
    for _ in range(nd):
        n = ctx.ri(1, [0, 20, 8, 5, 4, 3][nd])
        ax = np.unique(r.integers(-20, 20, n)) * 1.0 if ctx.coin(0.3) else np.cumsum(r.uniform(0.01, 1, n)) - r.uniform(-1, 1) * n
        axes.append(ax)
    rows = []
    want = np.empty([len(a) for a in axes])
    for p in itertools.product(*[range(len(a)) for a in axes]):
        want[p] = r.normal() if ctx.coin(0.9) else np.nan
        rows.append([axes[i][q] for i, q in enumerate(p)] + [want[p]])
    a2 = np.array(rows)
    b = a2.copy()
    D = num.DataND(a2=a2)
    ctx.note(nd=nd, shape=want.shape)
    ctx.check(D.an.shape == want.shape, 'shape', got=D.an.shape, want=want.shape)
    ctx.check(np.array_equal(D.an, want, equal_nan=True), 'values', got=D.an, want=want)
    ctx.check(len(D.axes) == nd and all(np.array_equal(x, y) for x, y in zip(D.axes, axes)), 'axes', got=D.axes, want=axes)
    ctx.check(np.array_equal(a2, b, equal_nan=True), 'input changed')
    for k in range(5):
        i = ctx.ri(0, len(rows) - 1)
        pos = tuple(int(np.where(ax == b[i, d])[0][0]) for d, ax in enumerate(D.axes))
        ctx.check(D.an[pos] == b[i, -1] or np.isnan(b[i, -1]), 'value at its coordinates')
    if len(rows) > 1 and all(len(a) > 1 for a in axes) and nd > 1:
        ctx.raises(AssertionError, num.DataND, a2=a2[:-1])


@reg.scenario(quick=500)
def inner(ctx):
    r = ctx.rng
    kind = ctx.choice(['1d', 'cloud', 'cloud', 'cloud', 'grid', 'ring', 'shifted'])
    if kind == '1d':
        p = np.sort(r.normal(size=(ctx.ri(2, 20), 1)), axis=0)
        got = num.inner_points_mask(p)
        ctx.check(got.tolist() == [False] + [True] * (len(p) - 2) + [False], '1d', got=got)
        ctx.raises(AssertionError, num.inner_points_mask, p[::-1]) if len(p) > 1 else None
        ctx.note(kind=kind)
        return
    nd = ctx.choice([2, 2, 3, 4]) if kind in ('cloud', 'shifted') else 2
    if kind in ('cloud', 'shifted'):
        p = r.normal(size=(ctx.ri(nd + 3, 50), nd)) * 10.0 ** r.integers(-3, 4, nd)
        if kind == 'shifted':
            p = r.normal(size=p.shape) + 5
    elif kind == 'grid':
        p = np.array([[a, b] for a in range(ctx.ri(2, 6)) for b in range(ctx.ri(2, 6) * 0 + 5)], float)[:, :]
        p = p[r.permutation(len(p))]
    else:
        t = r.uniform(0, 2 * np.pi, ctx.ri(4, 20))
        p = np.concatenate((np.c_[np.cos(t), np.sin(t)] * 3, r.normal(size=(ctx.ri(0, 15), 2)) * 0.1))
    ctx.note(kind=kind, n=len(p), nd=nd)
    q = p.copy()
    got = num.inner_points_mask(p)
    ctx.same(p, q, 'points')
    ctx.check(got.dtype == bool and got.shape == (len(p),), 'mask')
    if kind == 'grid':
        lo, hi = p.min(0), p.max(0)
        want = ((p > lo) & (p < hi)).all(1)
    elif nd == 2:
        # a point is on the hull when all others are on one side of some line through it: largest angular gap >= 180 degrees
        want = []
        s = (p - p.mean(0)) / p.std(0)
        for i in range(len(p)):
            d = np.delete(s, i, 0) - s[i]
            a = np.sort(np.arctan2(d[:, 1], d[:, 0]))
            gap = np.diff(np.append(a, a[0] + 2 * np.pi)).max()
            want.append(None if abs(gap - np.pi) < 1e-6 else bool(gap < np.pi))
    else:
        # linear programme: p_i is inside when it is a convex combination of the others
        from scipy.optimize import linprog
        s = (p - p.mean(0)) / p.std(0)
        want = [None] * len(p)
        for i in [int(x) for x in r.permutation(len(p))[:6]]:
            o = np.delete(s, i, 0)
            res = linprog(np.zeros(len(o)), A_eq=np.vstack((o.T, np.ones(len(o)))), b_eq=np.append(s[i], 1.0), bounds=(0, None), method='highs')
            want[i] = bool(res.status == 0)
    bad = [i for i, w in enumerate(want) if w is not None and bool(got[i]) != bool(w)]
    ctx.check(not bad, 'inner points are those not on the hull', bad=bad, points=p)
    ctx.count('points', len(p))


@reg.scenario(quick=250)
def ordering(ctx):
    r = ctx.rng
    npts = ctx.ri(120, 250)
    x = np.linspace(0, 10, npts)
    nb = ctx.ri(2, 5)
    order = ctx.choice([2, 2, 2, 1, 0])
    repeat = ctx.choice([1, 1, 2, 3])
    if order == 0:
        # well separated curves: the next similar point is on the same curve
        curves = [4.0 * i + np.sin(x * r.uniform(0.2, 1.5) + r.uniform(0, 6)) for i in range(nb)]
    else:
        # crossing straight (order 1) or smoothly bent (order 2) curves, crossings away from the first steps and not tangential
        for _ in range(200):
            if order == 1:
                curves = [r.uniform(-1, 1) * (x - 5) + r.uniform(-3, 3) for i in range(nb)]
            else:
                curves = [r.uniform(0.5, 2) * np.sin(r.uniform(0.2, 0.6) * x + r.uniform(0, 6)) + r.uniform(-0.2, 0.2) * x for i in range(nb)]
            A = np.array(curves)
            ok = True
            for i in range(nb):
                for j in range(i):
                    d = A[i] - A[j]
                    sl = np.abs(np.gradient(d))
                    ok &= np.abs(d[:6]).min() > 0.3
                    near = np.abs(d) < 0.1
                    ok &= not near.any() or bool((sl[near] > 0.02).all())
            if ok:
                break
        else:
            ctx.note(order='none found')
            return
    A = np.array(curves).T
    S = A.copy()
    for i in range(npts):
        S[i] = S[i][r.permutation(nb)]
    S0 = S.copy()
    got = num.order_similar(S, repeat=repeat, order=order) if order != 2 or ctx.coin() else num.order_similar(S, repeat=repeat)
    ctx.note(nb=nb, order=order, repeat=repeat)
    ctx.same(S, S0, 'input')
    ctx.check(got.shape == A.shape and np.array_equal(got[0], S[0]), 'first row kept')
    ctx.check(all(set(got[i]) <= set(S[i]) for i in range(npts)), 'values come from the same row')
    col = [int(np.where(A[0] == v)[0][0]) for v in S[0]]
    # two points of one row which are closer than this may be exchanged where curves cross
    ctx.close(got, A[:, col], 'the curves are recovered', rtol=0, atol=1e-3)
    ctx.count('curves', nb)


@reg.scenario(quick=300)
def ordering_rule(ctx):
    """every point is the one of its row which is next to the extrapolation from the up to order+1 previous points of its curve"""
    r = ctx.rng
    n, nb, order, repeat = ctx.ri(2, 30), ctx.ri(1, 5), ctx.ri(0, 2), ctx.ri(1, 3)
    S = r.normal(size=(n, nb)) + np.cumsum(r.normal(size=(n, nb)) * 0.3, axis=0)
    got = num.order_similar(S, repeat=repeat, order=order)
    ctx.note(n=n, nb=nb, order=order, repeat=repeat)
    for i in range(n - 1):
        o = min(i, order)
        for j in range(nb):
            g = got[:, j]
            ref = [lambda: g[i], lambda: 2 * g[i] - g[i - 1], lambda: 3 * g[i] - 3 * g[i - 1] + g[i - 2]][o]()
            d = np.abs(S[i + 1] - ref)
            k = int(np.where(S[i + 1] == got[i + 1, j])[0][0])
            ctx.check(d[k] <= d.min() + 1e-9, 'nearest to the extrapolation', row=i + 1, col=j, order=order, repeat=repeat)
    ctx.raises(AssertionError, num.order_similar, S, order=3)
    ctx.raises(AssertionError, num.order_similar, S, repeat=0)


storage.add(reg, 120, 'num.match_mask', 'num.match_mask_eps', 'num.order_similar')
