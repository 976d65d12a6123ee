"""The same numbers stored in another way (memory order, strides, byte order, read-only, integers) give the same result."""
import os
import re
import zlib
import numpy as np
from vf import gen
from vf.props import c06


class _C:
    """what the argument makers use of a context, with its own random numbers"""

    def __init__(self, seed):
        self.rng = np.random.default_rng(seed)

    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def coin(self, p=0.5):
        return bool(self.rng.random() < p)

    def ri(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def sz(self, lo, hi, big, p=0.04):
        return self.ri(lo, hi)


def ways(a):
    """the array stored in other ways"""
    out = dict((k, v) for k, v in gen.layouts(None, a) if k != 'C')
    if a.dtype.kind in 'fi' and a.dtype.itemsize > 1:
        out['swapped'] = a.astype(a.dtype.newbyteorder())
    r = a.copy()
    r.setflags(write=False)
    out['readonly'] = r
    # not aligned to the item size
    buf = np.zeros(a.nbytes + 1, dtype=np.uint8)
    u = buf[1:].view(a.dtype).reshape(a.shape) if a.nbytes else a.copy()
    u[...] = a
    out['unaligned'] = u
    if a.dtype == np.float64 and (a.astype(np.float32) == a).all():
        out['float32'] = a.astype(np.float32)
    if a.dtype.kind == 'f' and a.size and (a == np.rint(a)).all() and np.abs(a).max() < 2**30:
        out['int'] = a.astype(np.int64)
        if np.abs(a).max() < 100:
            out['int32'] = a.astype(np.int32)
    return out


class Mk(c06.Mk):
    def __init__(self, seed, way=None, only=None, scale=None, f32=False):
        """way: how arrays are stored (None: C order, float64); only: number or mask of the arrays which are (and are rounded, if scale)"""
        c06.Mk.__init__(self, _C(seed))
        self.way, self.only, self.scale, self.f32, self.n = way, only, scale, f32, 0
        self.lays, self.used = [], []

    def L(self, a):
        a = np.array(a, order='C')
        i, self.n = self.n, self.n + 1
        this = self.only is None or self.only == i or (isinstance(self.only, str) and self.only[i % len(self.only)] == '1')
        if self.scale and a.dtype.kind in 'fi' and this:
            a = np.rint(a * float(self.scale))
        if self.f32 and a.dtype == np.float64:
            a = a.astype(np.float32).astype(float)
        if self.way and this:
            w = ways(a)
            if self.way in w:
                self.used.append(i)
                return w[self.way]
        return a


def _call(ctx, area, name, mk, k):
    if area == 'files':
        d = os.path.join(ctx.tmp(), str(k))
        os.makedirs(d)
        f, args, kw = c06.C[area][name](mk, os.path.join(d, 'f'))
        np.random.seed(7)
        r = f(*args, **kw)
        files = {}
        for root, _, ff in sorted(os.walk(d)):
            for x in sorted(ff):
                if not x.endswith(('.h5', '.db')) and name not in ('write_h5', 'dump', 'makedb', 'ParameterStudy'):
                    files[os.path.relpath(os.path.join(root, x), d)] = open(os.path.join(root, x), errors='replace').read()
        return c06.snap([r, files]) if not isinstance(r, str) else [r.replace(d, ''), files]
    f, args, kw = c06.C[area][name](mk)
    np.random.seed(7)
    return c06.snap(f(*args, **kw))


def same(a, b):
    """results agree; text word by word, numbers in text to their precision"""
    if isinstance(a, str) and isinstance(b, str):
        x, y = [re.sub(r'\b\w{3} \w{3} +\d+ \d\d:\d\d:\d\d \d{4}|\d{4}-\d\d-\d\d|\d\d:\d\d:\d\d', 'time', t).split() for t in (a, b)]
        if len(x) != len(y):
            return 'text of %d vs %d words' % (len(x), len(y))
        for p, q in zip(x, y):
            if p != q and not close(p, q):
                return 'text: %r vs %r' % (p, q)
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y)
            if d:
                return '[%d] %s' % (i, d)
        return None
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for k in a:
            d = same(a[k], b[k])
            if d:
                return '[%r] %s' % (k, d)
        return None
    return c06.approx(a, b)


def roughly(a, b):
    """results agree up to the rounding of single precision (shapes and signs must fit)"""
    if isinstance(a, (np.ndarray, np.generic, float)) and isinstance(b, (np.ndarray, np.generic, float)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return 'shape %s vs %s' % (a.shape, b.shape)
        if a.dtype.kind in 'fc' and b.dtype.kind in 'fc' and a.size:
            sc = np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0
            if not np.allclose(a, b, rtol=1e-3, atol=1e-3 * sc, equal_nan=True):
                return '%s vs %s' % (a, b)
            return None
        return c06.approx(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return next((d for d in map(roughly, a, b) if d), None)
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        return next(('[%r] %s' % (k, d) for k, d in ((k, roughly(a[k], b[k])) for k in a) if d), None)
    return same(a, b)


def close(p, q):
    try:
        p, q = float(p), float(q)
    except ValueError:
        return False
    return p == q or abs(p - q) <= 1e-7 * max(abs(p), abs(q)) + 1e-12


WAYS = ['F', 'strided', 'neg', 'swapped', 'readonly', 'unaligned', 'int', 'int32', 'float32']


def storage(ctx, names):
    """names: list of (area, name) of operations"""
    area, name = ctx.pick(names)
    k = ctx.idx // len(names)
    way = WAYS[(k + zlib.crc32(name.encode())) % len(WAYS)]
    if way == 'float32' and area not in ('crys', 'signal'):
        # written digits and ill-conditioned fits show the rounding
        way = 'strided'
    seed = [int(ctx.rng.integers(2**31)), k]
    scale = None
    if 'int' in way:
        scale = ctx.choice([1, 3] if way == 'int32' else [1, 3, 10, 100])
    only = ctx.choice([None, None, 0, 1, 2, 3, '0111', '1011', '0110'])
    try:
        m = Mk(seed, None, only, scale, way == 'float32')
        ref = _call(ctx, area, name, m, 'ref')
    except Exception:
        if scale is None:
            raise
        ctx.note(op=name, way=way, skipped=True)
        ctx.count('rounded input not valid')
        ctx.check(True, '')
        return
    m = Mk(seed, way, only, scale, way == 'float32')
    ctx.note(op=name, way=way, arg=only, scale=scale)
    got = _call(ctx, area, name, m, 'way')
    ctx.count('arrays stored in another way', len(m.used))
    d = same(got, ref) if way != 'float32' else roughly(got, ref)
    ctx.check(d is None, '%s: array%s stored as %s give something else than C-ordered float64: %s' % (name, m.used, way, d), key='storage:' + name)


def ops(*areas, only=None, skip=()):
    return [(a, n) for a in areas for n in sorted(c06.C[a]) if (only is None or n in only) and n not in skip + ('makedb', 'Calculation', 'ParameterStudy')]


def add(reg, quick, *ops):
    """scenario `storage` for the operations of a property: names 'area.op'"""
    lst = [tuple(o.split('.')) for o in ops]
    for a, n in lst:
        assert n in c06.C[a], (a, n)

    def scen(ctx):
        storage(ctx, lst)
    scen.__name__ = 'storage'
    reg.scenario(quick=quick)(scen)
