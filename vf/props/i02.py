"""I02: HDF5 and text storage of numeric data."""
import gzip
import hashlib
import io as _io
import os
import numpy as np
from vf.core import Registry, Violation
from vf import storage, gen
from pwtools import io, arrayio

reg = Registry('I02', 'Random dictionaries of nested HDF5 paths (scalars, text, lists, arrays of all integer/float/complex types, 0-3 '
               'dimensions, all memory layouts) through random write/append/overwrite/read histories against a dictionary model and '
               'plain h5py; 1-3-d arrays (singleton dimensions, huge/tiny values) through text files along every axis, against '
               'numpy.loadtxt of the text and the array itself.')

DT = ['f8', 'f4', 'i8', 'i4', 'u1', 'c16', 'bool']


def _val(ctx):
    r = ctx.rng
    k = ctx.choice(['float', 'int', 'str', 'list', 'arr', 'arr', 'arr', 'arr', 'uni', 'empty', 'big', 'bool'])
    if k == 'float':
        return float(r.normal())
    if k == 'int':
        return int(r.integers(-10**9, 10**9))
    if k == 'str':
        return ctx.choice(['text', 'two words', 'x' * 300])
    if k == 'uni':
        return 'Å °ü'
    if k == 'list':
        n = ctx.sz(1, 4, 300)
        return ctx.choice([lambda: [float(x) for x in r.normal(size=n)],
                           lambda: [int(x) for x in r.integers(-2**62, 2**62, n)],
                           lambda: [bool(x) for x in r.integers(0, 2, n)],
                           lambda: [[int(x), int(x) + 1] for x in r.integers(0, 99, n)],
                           lambda: tuple(float(x) for x in r.normal(size=n))])()
    if k == 'big':
        return r.integers(-2**63, 2**63 - 1, size=ctx.sz(1, 4, 300), dtype='i8')
    if k == 'bool':
        return bool(ctx.coin())
    if k == 'empty':
        return np.empty((0, 3))
    sh = tuple(ctx.sz(1, 4, 60) for _ in range(ctx.ri(1, 3)))
    a = (r.normal(size=sh) * 50)
    dt = ctx.choice(DT)
    a = (np.abs(a) if dt == 'u1' else a + 1j * r.normal(size=sh) if dt == 'c16' else a).astype(dt)
    return ctx.choice(gen.layouts(r, a))[1]


def _paths(ctx, used, n):
    out = []
    while len(out) < n:
        depth = ctx.sz(1, 3, 8)
        p = '/' + '/'.join(ctx.choice(['a', 'b', 'x1', 'long name', 'α', '#opt', 'ax0-ax1']) + ctx.choice(['', '0', '1'])
                           for _ in range(depth))
        allp = list(used) + out
        if any(p == q or p.startswith(q + '/') or q.startswith(p + '/') for q in allp):
            continue
        out.append(p)
    return out


def _cmp(ctx, got, model, msg):
    ctx.same(sorted(got), sorted(model), msg + ': keys')
    for k, v in model.items():
        g = got[k]
        if isinstance(v, str):
            ctx.check(isinstance(g, str) and g == v, msg + ': text ' + k, got=g, want=v)
            continue
        ga, va = np.asarray(g), np.asarray(v)
        ctx.check(ga.shape == va.shape, msg + ': shape of ' + k, got=ga.shape, want=va.shape)
        ctx.check(ga.dtype == va.dtype, msg + ': type of ' + k, got=ga.dtype, want=va.dtype)
        ctx.check(np.array_equal(ga, va), msg + ': values of ' + k, got=ga, want=va)


def _digest(fn):
    with open(fn, 'rb') as fh:
        return hashlib.sha256(fh.read()).hexdigest()


@reg.scenario(quick=320)
def hdf5(ctx):
    import h5py
    fn = os.path.join(ctx.tmp(), 'x.h5')
    model = {}
    ops = []
    for step in range(ctx.sz(1, 6, 25)):
        op = ctx.choice(['append', 'append', 'write', 'clash', 'read', 'update']) if model else ctx.choice(['append', 'write'])
        ops.append(op)
        if op in ('append', 'write'):
            new = {p: _val(ctx) for p in _paths(ctx, model if op == 'append' else {}, ctx.sz(1, 4, 40))}
            arg = {(k if ctx.coin() else k[1:]): v for k, v in new.items()}
            keep = dict(arg)
            if op == 'write':
                io.write_h5(fn, arg, mode='w')
                model = new
            else:
                io.write_h5(fn, arg, **({'mode': 'a'} if ctx.coin(0.3) else {}))
                model.update(new)
            ctx.check(list(arg) == list(keep) and all(arg[k] is keep[k] for k in keep), 'argument unchanged')
        elif op == 'clash':
            k = ctx.choice(sorted(model))
            try:
                io.write_h5(fn, {k: 123456.0})
            except Violation:
                raise
            except Exception:
                pass
            else:
                ctx.fail('existing key %r silently overwritten or ignored in append mode' % k)
        elif op == 'update':
            old = io.read_h5(fn)
            k = ctx.choice(sorted(model))
            new = {k: _val(ctx)}
            old.update(new)
            io.write_h5(fn, old, mode='w')
            model.update(new)
        else:
            d0 = _digest(fn)
            _cmp(ctx, io.read_h5(fn), model, 'second read')
            ctx.check(_digest(fn) == d0, 'reading leaves the file alone')
        _cmp(ctx, io.read_h5(fn), model, 'after %s' % ','.join(ops))
        with h5py.File(fn, 'r') as fh:
            names = []
            fh.visititems(lambda n, o: names.append('/' + n) if isinstance(o, h5py.Dataset) else None)
            ctx.same(sorted(names), sorted(model), 'datasets in the file')
            for k, v in model.items():
                if not isinstance(v, str):
                    ctx.check(np.array_equal(fh[k][()], np.asarray(v)), 'h5py sees the value of ' + k)
    ctx.note(ops=','.join(ops), n=len(model), k=ctx.idx)
    ctx.count('h5 operations', len(ops))


@reg.scenario(quick=700)
def text(ctx):
    r = ctx.rng
    nd = ctx.pick([1, 2, 3, 3])
    sh = tuple(ctx.choice([1, 1, 2, 3, 5]) for _ in range(nd))
    a = r.normal(size=sh) * 10.0**r.integers(-3, 4, sh)
    kind = ctx.choice(['plain', 'int', 'extreme', 'f4', 'nan'])
    if kind == 'int':
        a = np.rint(a * 100).astype(int)
    elif kind == 'extreme':
        a = a * 10.0**r.choice([-250, 0, 250], sh)
    elif kind == 'f4':
        a = a.astype('f4')
    elif kind == 'nan':
        a[r.random(sh) < 0.2] = np.nan
        a[r.random(sh) < 0.1] = -np.inf
    lay, arr = ctx.choice(gen.layouts(r, a))
    axis = ctx.ri(-nd, nd - 1)
    fn = os.path.join(ctx.tmp(), 'a.txt')
    header = ctx.coin(0.7)
    kw = dict(axis=axis)
    if axis == -1 and ctx.coin():
        kw = {}
    if not header:
        kw['header'] = False
    ctx.note(shape=str(sh), kind=kind, lay=lay, axis=axis, header=header)
    arrayio.writetxt(fn, arr, **kw)
    ctx.check(np.array_equal(arr, a, equal_nan=kind != 'int'), 'argument unchanged')
    with open(fn) as fh:
        txt = fh.read()
    ctx.check(header == txt.startswith('#'), 'header written as asked')
    rows = [[float(x) for x in l.split()] for l in txt.splitlines() if l.strip() and not l.startswith('#')]
    if nd == 1:
        want = a[:, None]
    elif nd == 2:
        want = a
    else:
        m = np.moveaxis(a, axis, 0)
        want = m.reshape(-1, m.shape[-1])
    ctx.close(np.array(rows), want, 'rows in the text file', rtol=1e-7 if kind == 'f4' else 0, nan_ok=True) if kind != 'nan' else \
        ctx.check(np.array_equal(np.array(rows), want, equal_nan=True), 'rows in the text file')
    how = ctx.choice(['header', 'both', 'axis', 'shape', 'fh'])
    if not header:
        how = 'both'
    rk = {}
    if how in ('both', 'axis'):
        rk['axis'] = axis
    if how in ('both', 'shape'):
        rk['shape'] = sh
    ctx.note(read=how)
    if how == 'fh':
        with open(fn) as fh:
            b = arrayio.readtxt(fh)
    elif ctx.coin(0.3):
        ctx.note(gz=True)
        with gzip.open(fn + '.gz', 'wt') as fh:
            fh.write(txt)
        b = arrayio.readtxt(fn + '.gz', **rk)
    else:
        b = arrayio.readtxt(fn, **rk)
    ctx.check(b.shape == sh, 'shape after reading', got=b.shape, want=sh)
    ctx.check(np.array_equal(b, a, equal_nan=kind != 'int'), 'values after reading', got=b, want=a)
    with open(fn) as fh:
        ctx.same(fh.read(), txt, 'reading leaves the file alone')


@reg.scenario(quick=40)
def text_empty(ctx):
    """files without data (header only, or nothing at all) give an empty array, as documented"""
    fn = os.path.join(ctx.tmp(), 'a.txt')
    sh = tuple(ctx.sz(1, 4, 60) for _ in range(ctx.ri(1, 3)))
    arrayio.writetxt(fn, np.ones(sh), axis=0)
    head = [l for l in open(fn) if l.startswith('#')]
    what = ctx.pick(['header', 'nothing', 'blank', 'comment'])
    ctx.note(what=what, nd=len(sh))
    with open(fn, 'w') as f:
        f.write({'header': ''.join(head), 'nothing': '', 'blank': '\n \n', 'comment': '# no data\n\n'}[what])
    kw = {} if what == 'header' and ctx.coin() else dict(shape=sh, axis=0)
    got = arrayio.readtxt(fn, **kw)
    ctx.check(isinstance(got, np.ndarray) and got.size == 0, 'empty array', got=got)
    with open(fn) as fh:
        ctx.check(arrayio.readtxt(fh, **kw).size == 0, 'empty array from an open file')


@reg.scenario(quick=160)
def reshape(ctx):
    r = ctx.rng
    sh = tuple(ctx.sz(1, 5, 40) for _ in range(3))
    axis = ctx.ri(-3, 2)
    a = r.normal(size=sh)
    m = np.moveaxis(a, axis, 0)
    arg = ctx.choice(gen.layouts(r, np.ascontiguousarray(m.reshape(-1, m.shape[-1]))))[1]
    ctx.note(shape=str(sh), axis=axis)
    b = arrayio.arr2d_to_3d(arg, sh, axis=axis)
    ctx.same(b, a, '3-d array from the stacked 2-d chunks')
    ctx.check(not np.shares_memory(a, b), 'own memory')


@reg.scenario(quick=60)
def from_txt(ctx):
    """parse helpers turning grep output into arrays"""
    from pwtools import parse
    r = ctx.rng
    n, m, k = ctx.sz(1, 5, 130), ctx.sz(1, 4, 30), ctx.sz(1, 4, 30)
    a = r.normal(size=(n, m, k))
    ctx.note(shape='%d,%d,%d' % (n, m, k))
    t3 = '\n'.join(' '.join('%.17g' % x for x in row) for row in a.reshape(n * m, k)) + '\n'
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.same(parse.traj_from_txt(t3, a.shape), a, '3-d from text')
    t2 = '\n'.join(' '.join('%.17g' % x for x in row) for row in a[:, 0, :])
    got = parse.arr2d_from_txt(t2)
    # a single column cannot be told from a single row
    ctx.same(got if k > 1 else got.reshape(-1, 1), a[:, 0, :], '2-d from text')
    ctx.same(parse.arr1d_from_txt('\n'.join('%.17g' % x for x in a[:, 0, 0])), a[:, 0, 0], '1-d from text')
    for f in (parse.arr1d_from_txt, parse.arr2d_from_txt, parse.int_from_txt, parse.float_from_txt):
        ctx.check(f(' \n') is None, 'empty text gives None')
    ctx.check(parse.traj_from_txt('\n', (1, 2, 3)) is None and parse.nstep_from_txt(' ') == 0, 'empty text')
    ctx.same(parse.int_from_txt(' 17\n'), 17, 'integer')
    ctx.same(parse.float_from_txt(' -1.5e3\n'), -1500.0, 'float')
    ctx.same(parse.axis_lens([a, None, a[0]], axis=1), [m, 0, k], 'axis lengths')


storage.add(reg, 100, 'files.write_h5', 'files.writetxt')
