"""Put a private copy of /repo's current package where the check can import it.

The copy lives in the check's scratch directory.  The Fortran extensions are
taken from /repo when they were built from exactly the current sources (the
stamp that /opt/vp/build.sh leaves), and compiled from the current sources in
the scratch directory otherwise.  Nothing is written to /repo.
"""
import hashlib
import os
import shutil
import subprocess

REPO = os.environ.get('VF_REPO', '/repo')


class StageError(Exception):
    pass


def _sums(extdir):
    names = ['Makefile'] + sorted(x for x in os.listdir(extdir) if x.endswith('.f90'))
    out = []
    for n in names:
        with open(os.path.join(extdir, n), 'rb') as f:
            out.append('%s  %s' % (hashlib.sha256(f.read()).hexdigest(), n))
    return '\n'.join(out)


def _ext_fresh(extdir, pkgdir):
    stamp = os.path.join(extdir, '.vp-stamp')
    if not os.path.exists(stamp):
        return False
    with open(stamp) as f:
        if f.read().strip() != _sums(extdir):
            return False
    for n in ('_flib.so', '_dcd.so'):
        a, b = os.path.join(extdir, n), os.path.join(pkgdir, n)
        if not (os.path.exists(a) and os.path.exists(b) and os.path.getsize(b)):
            return False
        with open(a, 'rb') as fa, open(b, 'rb') as fb:
            if fa.read() != fb.read():
                return False
    return True


def stage(scratch):
    """Returns (path to put on sys.path, how the extensions were obtained)."""
    src = os.path.join(REPO, 'src')
    dst = os.path.join(scratch, 'src')
    fresh = _ext_fresh(os.path.join(src, '_ext_src'), os.path.join(src, 'pwtools'))
    ign = ['__pycache__', '*.pyc', '.pytest_cache']
    if not fresh:
        ign.append('*.so')
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns(*ign))
    if fresh:
        return dst, 'reused build of the current sources'
    d = os.path.join(dst, '_ext_src')
    p = subprocess.run(['make', '-C', d, 'gfortran-omp', 'ARCH=-march=x86-64-v2'],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    for n in ('_flib.so', '_dcd.so'):
        f = os.path.join(dst, 'pwtools', n)
        if not (os.path.exists(f) and os.path.getsize(f)):
            raise StageError('extension %s does not build:\n%s' % (
                n, p.stdout.decode('utf8', 'replace')[-3000:]))
    return dst, 'compiled from the current sources'
