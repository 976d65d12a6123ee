"""I03: DCD readers return what the file contains."""
import os
import struct
import sys
import warnings
import numpy as np
from vf.core import Registry
from vf import gen
from pwtools import dcd

reg = Registry('I03', 'DCD files of both flavours (LAMMPS: cosines and step count in the header; CP2K: degrees, zero steps) written '
               'byte by byte in the check with random atom/frame counts, cells and single-precision values incl. special values; '
               'every reader is compared with the written data and with each other; files cut at every kind of byte position are '
               'read in a forked child so that a process exit is seen.')


def _write(fn, cc, co, flavour, timestep, rng, nhdr=None):
    """cc (nt,6) as stored (angle columns already cos or deg), co (nt,n,3) f4"""
    nt, n = co.shape[:2]
    rec = lambda b: struct.pack('<i', len(b)) + b + struct.pack('<i', len(b))
    nhdr = nt if nhdr is None else nhdr
    ints = [nhdr, 0, 1, 0, 0, 0, 0, 0, 0] if flavour == 'lammps' else [0, 7, 1, 0, 0, 0, 0, 0, 0]
    out = rec(b'CORD' + struct.pack('<9i', *ints) + struct.pack('<f', timestep) + struct.pack('<10i', 1, *([0] * 8), 24))
    r1, r2 = b'REMARK one'.ljust(80), b'REMARK user@host'.ljust(80)
    out += rec(struct.pack('<i', 2) + r1 + r2)
    out += rec(struct.pack('<i', n))
    hdr = len(out)
    for i in range(nt):
        a, b, c, al, be, ga = cc[i]
        out += rec(struct.pack('<6d', a, ga, b, be, al, c))
        for j in range(3):
            out += rec(np.ascontiguousarray(co[i, :, j]).astype('<f4').tobytes())
    with open(fn, 'wb') as fh:
        fh.write(out)
    return hdr, (len(out) - hdr) // max(nt, 1)


def _data(ctx, nmax=40, tmax=12, stale=False):
    r = ctx.rng
    n, nt = ctx.sz(1, nmax, 1200, .02), ctx.sz(1, tmax, 150)
    flavour = ctx.choice(['lammps', 'cp2k'])
    co = (r.normal(size=(nt, n, 3)) * 10.0**ctx.ri(-3, 4)).astype('f4')
    if ctx.coin(0.15):
        co[r.random(co.shape) < 0.1] = ctx.choice([np.inf, -np.inf, 1e-42, 3e38, -0.0])
    cc = np.array([gen.cc_from_cell(c) for c in gen.rand_cells(r, nt)]) if ctx.coin() else \
        np.array([gen.cc_from_cell(gen.rand_cell(r))] * nt)
    st = cc.copy()
    if flavour == 'lammps':
        st[:, 3:] = np.cos(np.radians(cc[:, 3:]))
        if ctx.coin(0.2):
            cc[:, 3:] = 90.0
            st[:, 3:] = 0.0
    ts = np.float32(r.uniform(0.1, 50))
    fn = os.path.join(ctx.tmp(), ctx.choice(['a.dcd', 'with space.dcd', 'x' * 120 + '.dcd']))
    # the frame count in the header may be one of an earlier run which was continued into the same file
    nhdr = ctx.ri(1, nt) if stale and ctx.coin(0.2) else nt
    hdr, per = _write(fn, st, co, flavour, ts, r, nhdr)
    if stale:
        return fn, n, nt, flavour, cc, st, co, ts, hdr, per, nhdr
    return fn, n, nt, flavour, cc, st, co, ts, hdr, per


class Quiet:
    """silence what Fortran prints"""
    def __enter__(self):
        sys.stdout.flush()
        self.save = [os.dup(1), os.dup(2)]
        d = os.open(os.devnull, os.O_WRONLY)
        os.dup2(d, 1)
        os.dup2(d, 2)
        os.close(d)

    def __exit__(self, *a):
        for i, s in zip((1, 2), self.save):
            os.dup2(s, i)
            os.close(s)


READERS = {
    'py': lambda fn, ca: dcd.read_dcd_data(fn, convang=ca),
    'ref': lambda fn, ca: dcd.read_dcd_data_ref(fn, convang=ca),
    'f': lambda fn, ca: dcd.read_dcd_data_f(fn, convang=ca),
    'f-hdr': lambda fn, ca: dcd.read_dcd_data_f(fn, convang=ca, nstephdr=True),
}


def _same_bits(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)


@reg.scenario(quick=900)
def readers(ctx):
    fn, n, nt, fl, cc, st, co, ts, hdr, per, nhdr = _data(ctx, stale=True)
    ctx.note(n=n, nt=nt, flavour=fl, hdr=hdr, nhdr=nhdr)
    with open(fn, 'rb') as fh:
        raw = fh.read()
    h = dcd.read_dcd_header(fn)
    ctx.same(int(h['natoms']), n, 'header: natoms')
    ctx.check(np.float32(h['timestep']) == ts, 'header: timestep', got=h['timestep'], want=ts)
    ctx.same(bytes(h['hdr']), b'CORD', 'header: magic')
    ctx.same(int(h['9int'][0]), nhdr if fl == 'lammps' else 0, 'header: number of frames')
    ctx.same(int(h['ntitle']), 2, 'header: ntitle')
    ctx.check(bytes(h['remark1']).strip() == b'REMARK one' and bytes(h['remark2']).strip() == b'REMARK user@host', 'header: remarks')
    for conv in (False, True):
        if conv and fl == 'cp2k':
            continue
        for nm, rd in READERS.items():
            if nm == 'f-hdr' and (fl == 'cp2k' or nhdr != nt):
                continue
            with Quiet():
                c, x = rd(fn, conv)
            ctx.check(_same_bits(np.asarray(x), co) and np.asarray(x).dtype == np.float32, '%s: coordinates' % nm, got=x, want=co)
            ctx.check(np.asarray(c).dtype == np.float64, '%s: cell type' % nm)
            if conv:
                ctx.close(c[:, :3], st[:, :3], '%s: lengths' % nm, rtol=0)
                ctx.close(c[:, 3:], cc[:, 3:], '%s: angles in degree' % nm, atol=1e-9)
            else:
                ctx.same(np.asarray(c), st, '%s: cell constants as stored' % nm)
    if fl == 'lammps':
        from pwtools import _dcd
        with Quiet():
            a = _dcd.get_dcd_file_info(fn, 1)
            b = _dcd.get_dcd_file_info(fn, 0)
        ctx.same([int(a[0]), int(a[1]), float(a[2])], [nhdr, n, float(ts)], 'compiled header reader')
        ctx.same([int(b[0]), int(b[1]), float(b[2])], [nt, n, float(ts)], 'compiled frame counter')
    with open(fn, 'rb') as fh:
        ctx.check(fh.read() == raw, 'reading leaves the file alone')


def _forked(func):
    """('ok', result) | ('exc', text) | ('exit', status)"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            d = os.open(os.devnull, os.O_WRONLY)
            os.dup2(d, 1)
            os.dup2(d, 2)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    res = ('ok', func())
            except BaseException as e:
                res = ('exc', repr(e))
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(res, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    st = os.waitpid(pid, 0)[1]
    return pickle.loads(data) if data else ('exit', st)


@reg.scenario(quick=260)
def truncated(ctx):
    fn, n, nt, fl, cc, st, co, ts, hdr, per = _data(ctx, nmax=6, tmax=4)
    size = os.path.getsize(fn)
    assert size == hdr + nt * per
    where = ctx.pick(['any', 'frame', 'marker', 'xyz', 'header', 'one'])
    f = ctx.ri(0, nt - 1)
    cut = {'any': ctx.ri(1, size - 1), 'frame': hdr + f * per, 'marker': hdr + f * per + ctx.choice([2, 4, 50, 54, 56, 58, 60]),
           'xyz': hdr + f * per + 56 + 4 + ctx.ri(0, 2) * (8 + 4 * n) + ctx.ri(0, 4 * n), 'header': ctx.ri(1, hdr - 1),
           'one': size - 1}[where]
    os.truncate(fn, cut)
    nfull = max(0, (cut - hdr) // per)
    whole = cut >= hdr and (cut - hdr) % per == 0
    ctx.note(n=n, nt=nt, flavour=fl, where=where, cut=cut)
    for nm, rd in READERS.items():
        if nm == 'f-hdr' and fl == 'cp2k':
            continue
        kind, res = _forked(lambda: rd(fn, False))
        ctx.count('cut file, %s reader: %s' % (nm, kind))
        ctx.observed += 1
        if nm == 'py' and not whole:
            ctx.check(kind != 'ok', 'default reader takes a file cut off inside a frame', key='trunc-ok')
        if kind != 'ok':
            continue
        c, x = np.asarray(res[0]), np.asarray(res[1])
        # whatever is returned is what the file holds: complete frames only
        # (the compiled reader does not need the closing record mark of the last frame)
        nmax = nfull + ((cut - hdr) % per >= per - 4 if nm.startswith('f') else 0)
        ctx.check(len(x) <= nmax and len(c) == len(x), '%s returned %d frames, the cut file holds %d complete ones' % (nm, len(x), nmax),
                  key='trunc')
        ctx.check(len(x) == 0 or np.array_equal(x, co[:len(x)], equal_nan=True) and np.array_equal(c, st[:len(c)]),
                  '%s: returned frames are those in the file' % nm, key='trunc')
        if whole and nm in ('py', 'ref', 'f'):
            ctx.same(len(x), nfull, '%s: all complete frames' % nm)


@reg.scenario(quick=40)
def big(ctx):
    fn, n, nt, fl, cc, st, co, ts, hdr, per = _data(ctx, nmax=3000, tmax=30)
    ctx.note(n=n, nt=nt, flavour=fl)
    for nm in ('py', 'ref', 'f'):
        with Quiet():
            c, x = READERS[nm](fn, False)
        ctx.check(np.array_equal(x, co, equal_nan=True), nm + ': coordinates')
        ctx.check(np.array_equal(c, st), nm + ': cell')
