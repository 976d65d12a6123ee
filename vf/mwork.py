"""Workload for the instrumented extensions: runs in a process of its own
(`python mwork.py SPEC.json`), drives the kernels through the package and
compares every result with an independent computation.  Prints one JSON line
per event; the parent reads them (vf/props/m01.py)."""
import json
import os
import sys
import threading

import numpy as np

from pwtools import crys, dcd, num, pydos, signal
from pwtools import random as pwrandom
from vf import gen, mdw


def say(**kw):
    sys.stdout.write(json.dumps(kw) + '\n')
    sys.stdout.flush()


def bad(name, got, want, info, tol=1e-9, floor=0.0):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return '%s: shape %s, expected %s (%s)' % (name, got.shape, want.shape, info)
    if not np.isfinite(got[np.isfinite(want)]).all():
        return '%s: non-finite values (%s)' % (name, info)
    fin = np.isfinite(want)
    scale = np.abs(want[fin]).max() if fin.any() else 0.0
    err = np.abs(got[fin] - want[fin])
    if err.size and err.max() > tol * max(scale, floor):
        return '%s: largest error %g at scale %g (%s)' % (name, err.max(), scale, info)


def lay(rng, a):
    k = int(rng.integers(5))
    if k == 0:
        return np.asarray(a, order='F')
    if k == 1 and a.ndim:
        b = np.empty(tuple(2 * s + 1 for s in a.shape))
        b[...] = 1e300
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 2:
        return np.ascontiguousarray(a[::-1])[::-1]
    return np.ascontiguousarray(a)


def wrap(x):
    return x - np.floor(x + 0.5)


def size(rng, big):
    return int(rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33] + ([48, 63, 64, 65] if big else [])))


def cells(rng, n):
    c = np.array([gen.rand_cell(rng, gen.CELL_KINDS[int(rng.integers(len(gen.CELL_KINDS)))]) for _ in range(n)])
    return c


def frac(rng, shape):
    x = rng.random(shape)
    k = int(rng.integers(4))
    if k == 1:
        x = x * 8 - 4
    elif k == 2:
        x = np.round(x * 4) / 4
    return x


def op_distances(rng, cfg):
    n = size(rng, cfg['big'])
    f, c = frac(rng, (n, 3)), cells(rng, 1)[0]
    pbc, sq = bool(rng.integers(2)), bool(rng.integers(2))
    st = crys.Structure(coords_frac=lay(rng, f), cell=lay(rng, c), symbols=['H'] * n)
    d, v, vf = crys.distances(st, pbc=pbc, squared=sq, fullout=True)
    wf = f[:, None, :] - f[None, :, :]
    if pbc:
        wf = wrap(wf)
    info = 'natoms=%d pbc=%s squared=%s' % (n, pbc, sq)
    # exactly half a cell vector may come out on either side; judge the vectors
    # by the class modulo 1 and the range, the distances by the vectors
    r = bad('fractional differences', wrap(vf - wf + 0.25) - 0.25, np.zeros_like(wf), info, 1e-9, 1.0)
    if r is None and pbc and (np.abs(vf) > 0.5 + 1e-12).any():
        r = 'wrapped difference outside half a cell (%s)' % info
    ww = vf @ c
    dd = (ww ** 2).sum(-1)
    return 'distances', info, r or (None if pbc else bad('plain differences', vf, wf, info)) \
        or bad('difference vectors', v, ww, info) or bad('distances', d, dd if sq else np.sqrt(dd), info)


def op_distances_traj(rng, cfg):
    nt, n = size(rng, cfg['big']), size(rng, False)
    f, c = frac(rng, (nt, n, 3)), cells(rng, nt)
    pbc = bool(rng.integers(2))
    f = np.where(np.abs(np.abs(wrap(f[:, :, None] - f[:, None])) - 0.5).min() < 1e-9, f + 1e-3 * rng.random(f.shape), f)
    tr = crys.Trajectory(coords_frac=lay(rng, f), cell=lay(rng, c), symbols=['H'] * n)
    d = crys.distances_traj(tr, pbc=pbc)
    w = f[:, :, None] - f[:, None]
    if pbc:
        w = wrap(w)
    want = np.sqrt((np.einsum('tijk,tkl->tijl', w, c) ** 2).sum(-1))
    info = 'nstep=%d natoms=%d pbc=%s' % (nt, n, pbc)
    return 'distances_traj', info, bad('distances', d, want, info)


def op_angles(rng, cfg):
    n = min(size(rng, False), 17)
    f, c = rng.random((n, 3)), cells(rng, 1)[0]
    deg, mask = bool(rng.integers(2)), float(rng.choice([999.0, -5.0, 200.0]))
    st = crys.Structure(coords_frac=lay(rng, f), cell=c, symbols=['H'] * n)
    a = crys.angles(st, pbc=False, deg=deg, mask_val=mask)
    v = (f[:, None] - f[None]) @ c
    d = np.sqrt((v ** 2).sum(-1))
    with np.errstate(all='ignore'):
        w = np.einsum('ijx,ikx->ijk', v, v) / d[:, :, None] / d[:, None, :]
    i = np.arange(n)
    m = (i[:, None, None] == i[:, None]) | (i[:, None, None] == i) | (i[:, None] == i)
    info = 'natoms=%d deg=%s mask=%s' % (n, deg, mask)
    if (a[m] != mask).any():
        return 'angles', info, 'masked entries not filled (%s)' % info
    got = a[~m]
    if not np.isfinite(got).all():
        return 'angles', info, 'non-finite angle (%s)' % info
    return 'angles', info, bad('cosines', np.cos(np.radians(got)) if deg else got, np.clip(w[~m], -1, 1), info, 1e-7, 1.0)


def op_transform(rng, cfg):
    n, nt = size(rng, cfg['big']), size(rng, False)
    kind = int(rng.integers(4))
    info = 'natoms=%d nstep=%d kind=%d' % (n, nt, kind)
    if kind < 2:
        c = cells(rng, 1)[0]
        f = frac(rng, (n, 3))
        if kind == 0:
            got, want = crys.Structure(coords=lay(rng, f @ c), cell=lay(rng, c), symbols=['H'] * n).coords_frac, f
        else:
            got, want = crys.Structure(coords_frac=lay(rng, f), cell=lay(rng, c), symbols=['H'] * n).coords, f @ c
    else:
        c, f = cells(rng, nt), frac(rng, (nt, n, 3))
        x = np.einsum('tij,tjk->tik', f, c)
        if kind == 2:
            got, want = crys.Trajectory(coords=lay(rng, x), cell=lay(rng, c), symbols=['H'] * n).coords_frac, f
        else:
            got, want = crys.Trajectory(coords_frac=lay(rng, f), cell=lay(rng, c), symbols=['H'] * n).coords, x
    return 'transform', info, bad('coordinates', got, want, info, 1e-8, 1e-3)


def _vacf(v, m):
    nt = len(v)
    w = np.ones(v.shape[1]) if m is None else m
    c = np.array([np.einsum('tix,tix,i->', v[:nt - t], v[t:], w) for t in range(nt)])
    return c / c[0]


def op_fvacf(rng, cfg):
    nt, n = size(rng, cfg['big']), size(rng, False)
    v = rng.standard_normal((nt, n, 3))
    m = None if rng.integers(2) else rng.random(n) * 10 + 0.5
    meth, nth = int(rng.integers(1, 3)), [None, 1, 2, 3, 4, 5, 8][int(rng.integers(7))]
    got = pydos.fvacf(lay(rng, v), m=m, method=meth, nthreads=nth)
    info = 'nstep=%d natoms=%d method=%d mass=%s nthreads=%s' % (nt, n, meth, m is not None, nth)
    return 'fvacf', info, bad('velocity correlation', got, _vacf(v, m), info)


def op_acorr(rng, cfg):
    nt = size(rng, cfg['big'])
    v = rng.standard_normal(nt) + 1e-3
    meth, norm = int(rng.integers(5, 7)), bool(rng.integers(2))
    got = signal.acorr(lay(rng, v), method=meth, norm=norm)
    c = np.array([(v[:nt - t] * v[t:]).sum() for t in range(nt)])
    info = 'nstep=%d method=%d norm=%s' % (nt, meth, norm)
    return 'acorr', info, bad('correlation', got, c / c[0] if norm else c, info)


def op_distsq(rng, cfg):
    nx, ny, nd = size(rng, cfg['big']), size(rng, cfg['big']), int(rng.choice([1, 2, 3, 5, 8, 13, 30]))
    x, y = rng.standard_normal((nx, nd)), rng.standard_normal((ny, nd))
    got = num.distsq(lay(rng, x), lay(rng, y))
    info = 'nx=%d ny=%d ndim=%d' % (nx, ny, nd)
    return 'distsq', info, bad('squared distances', got, ((x[:, None] - y[None]) ** 2).sum(-1), info)


def op_dcd(rng, cfg):
    nt, n = size(rng, False), size(rng, cfg['big'])
    cc = np.concatenate([rng.random((nt, 3)) * 9 + 3, rng.random((nt, 3)) * 50 + 65], 1)
    co = rng.standard_normal((nt, n, 3)) * 5
    lmp = bool(rng.integers(2))
    # long names: the compiled reader has a fixed size name buffer
    d = cfg['tmp']
    for _ in range(int(rng.integers(0, 4))):
        d = os.path.join(d, 'd' * int(rng.integers(1, 200)))
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, 'f%d-%s.dcd' % (rng.integers(10 ** 9), threading.get_ident()))
    nti = int(rng.choice([2, 2, 3, 5, 20]))
    mdw.dcd(fn, cc, co, 1.5, cosines=lmp, ntitle=nti)
    hdr = lmp and bool(rng.integers(2))
    gc, gx = dcd.read_dcd_data_f(fn, convang=lmp, nstephdr=hdr)
    os.unlink(fn)
    info = 'nstep=%d natoms=%d lammps=%s nstephdr=%s name=%d titles=%d' % (nt, n, lmp, hdr, len(fn), nti)
    return 'dcd', info, bad('cell constants', gc, cc, info, 1e-6) or bad('coordinates', gx, co, info, 1e-6)


def op_random(rng, cfg):
    n = int(rng.integers(1, 6))
    rs = pwrandom.RandomStructure(symbols=['C'] * n, vol_scale=6.0, angle_range=[70.0, 110.0], close_scale=0.4)
    np.random.seed(int(rng.integers(2 ** 31)))
    st = rs.get_random_struct(fail='none')
    info = 'natoms=%d ok=%s' % (n, st is not None)
    if st is None:
        return 'random', info, None
    w = wrap(st.coords_frac[:, None] - st.coords_frac[None]) @ st.cell
    d = np.sqrt((w ** 2).sum(-1)) + 1e9 * np.eye(n)
    return 'random', info, None if d.min() > 0.2 else 'atoms too close (%s)' % info


OPS = dict((k[3:], v) for k, v in list(globals().items()) if k.startswith('op_'))


def main():
    with open(sys.argv[1]) as f:
        cfg = json.load(f)
    ops = [OPS[k] for k in cfg['ops']]
    for i in range(cfg['n']):
        rng = np.random.default_rng([cfg['seed'], i])
        o = ops[i % len(ops)]
        say(start=i, op=o.__name__[3:])
        if cfg['threads'] and i % cfg['threads'] == 0:
            # several interpreter threads inside the kernels at once
            sub = [np.random.default_rng([cfg['seed'], i, j]) for j in range(4)]
            tops = [k for k in ops if k is not op_random and k is not op_dcd]
            out = [None] * 4

            def work(j):
                try:
                    out[j] = tops[(i // cfg['threads'] + (j // 2)) % len(tops)](sub[j], cfg)
                except BaseException as e:
                    out[j] = ('threads', '', 'exception %r' % (e,))
            ts = [threading.Thread(target=work, args=(j,)) for j in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            res = [('threads:' + a, b, c) for a, b, c in out]
        else:
            res = [o(rng, cfg)]
        for name, info, err in res:
            say(done=i, op=name, info=info, err=err)
    import ctypes
    end = dict(end=True)
    try:
        lib = ctypes.CDLL(crys._flib.__file__)
        end.update(regions=ctypes.c_long(lib.vf_gomp_regions()).value, team=ctypes.c_long(lib.vf_gomp_threads()).value)
    except (AttributeError, OSError):
        pass
    say(**end)


if __name__ == '__main__':
    main()
