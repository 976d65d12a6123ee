"""Instrumented builds of the two Fortran extensions, made from the current
sources in the check's scratch directory (see DESIGN.md, M01)."""
import os
import shutil
import subprocess
import sys
import sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
LIBDIR = os.path.dirname(subprocess.run(['gcc', '-print-file-name=libasan.so'],
                                        stdout=subprocess.PIPE, text=True).stdout.strip())
FPP = ['-x', 'f95-cpp-input', '-fopenmp', '-D__OPENMP']
VARIANTS = dict(
    asan=dict(c=['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined'],
              f=['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                 '-fcheck=bounds,do,mem,pointer,recursion', '-finit-real=snan',
                 '-finit-integer=-77777777'],
              link=['-fsanitize=address,undefined', '-fopenmp']),
    tsan=dict(c=['-O1', '-fsanitize=thread'], f=['-O1', '-fsanitize=thread'],
              link=['-fsanitize=thread']),
    # the project's own optimisation flags, with line numbers
    memcheck=dict(c=['-O2'], f=['-O2', '-march=x86-64-v2'], link=['-fopenmp']),
)


class BuildError(Exception):
    pass


def _run(cmds, cwd):
    ps = [(c, subprocess.Popen(c, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)) for c in cmds]
    for c, p in ps:
        out = p.communicate(timeout=600)[0].decode('utf8', 'replace')
        if p.returncode:
            raise BuildError('%s\n%s' % (' '.join(c), out[-3000:]))


def build(stage, scratch):
    """stage: copy of src/. Makes one package copy per variant; -> {variant: dir}"""
    import numpy
    import numpy.f2py
    ext = os.path.join(stage, '_ext_src')
    d = os.path.join(scratch, 'sanit')
    os.makedirs(d)
    f2src = os.path.join(os.path.dirname(numpy.f2py.__file__), 'src')
    inc = ['-I' + numpy.get_include(), '-I' + f2src, '-I' + sysconfig.get_paths()['include'], '-I.']
    mods = ['flib', 'dcd']
    for f in os.listdir(ext):
        if f.endswith(('.f90', '.inc', '.h')):
            shutil.copy(os.path.join(ext, f), d)
    _run([[sys.executable, '-m', 'numpy.f2py', m + '.f90', '-m', '_' + m] for m in mods], d)
    objs = {}
    cmds = []
    for v, o in VARIANTS.items():
        vd = os.path.join(d, v)
        os.makedirs(vd)
        com = ['-g', '-fPIC', '-w']
        if v == 'tsan':
            cmds.append(['gcc', '-O1', '-g', '-fPIC', '-c', os.path.join(HERE, 'gomp.c'), '-o', v + '/gomp.o'])
        cmds.append(['gcc'] + com + o['c'] + inc + ['-c', os.path.join(f2src, 'fortranobject.c'), '-o', v + '/fo.o'])
        for m in mods:
            objs[v, m] = [v + '/fo.o', v + '/%s_c.o' % m, v + '/%s_f.o' % m]
            cmds.append(['gcc'] + com + o['c'] + inc + ['-c', '_%smodule.c' % m, '-o', v + '/%s_c.o' % m])
            cmds.append(['gfortran'] + FPP[:2] + com + o['f'] + FPP[2:] + ['-J' + v, '-c', m + '.f90', '-o', v + '/%s_f.o' % m])
            for k, w in enumerate(['_%s-f2pywrappers.f' % m, '_%s-f2pywrappers2.f90' % m]):
                f = os.path.join(d, w)
                if os.path.exists(f) and os.path.getsize(f):
                    obj = v + '/%s_w%d.o' % (m, k)
                    objs[v, m].append(obj)
                    cmds.append(['gfortran'] + com + o['f'] + ['-fopenmp', '-I' + v, '-c', w, '-o', obj])
            if v == 'tsan':
                objs[v, m].append(v + '/gomp.o')
    _run(cmds, d)
    out = {}
    cmds = []
    for v, o in VARIANTS.items():
        vd = os.path.join(d, v, 'src')
        shutil.copytree(stage, vd, ignore=shutil.ignore_patterns('_ext_src', '__pycache__', '*.so'))
        for m in mods:
            cmds.append(['gfortran', '-shared'] + o['link'] + objs[v, m] +
                        ['-llapack', '-o', os.path.join(vd, 'pwtools', '_%s.so' % m)])
        out[v] = vd
    _run(cmds, d)
    out['plain'] = stage
    return out


def env(variant, path, log):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('OMP_', 'GOMP', 'LD_', 'PYTHON'))}
    e.update(PYTHONPATH=path + os.pathsep + os.path.dirname(HERE), OPENBLAS_NUM_THREADS='1',
             OMP_NUM_THREADS='3', OMP_WAIT_POLICY='passive', MPLBACKEND='Agg',
             PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    if variant == 'asan':
        # fresh heap memory reads as NaN / huge integers
        e.update(LD_PRELOAD='%s/libasan.so %s/libubsan.so' % (LIBDIR, LIBDIR),
                 ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=255:'
                              'exitcode=97:log_path=' + log,
                 UBSAN_OPTIONS='print_stacktrace=1:log_path=' + log)
    elif variant == 'tsan':
        e.update(LD_PRELOAD=LIBDIR + '/libtsan.so', VF_GOMP_DELAY='200000',
                 TSAN_OPTIONS='exitcode=0:halt_on_error=0:second_deadlock_stack=1:log_path=' + log)
    elif variant == 'memcheck':
        e.update(PYTHONMALLOC='malloc')
    return e


def argv(variant, log):
    if variant == 'memcheck':
        return ['valgrind', '--tool=memcheck', '--error-limit=no', '--xml=yes', '--xml-file=%s.xml' % log,
                '--undef-value-errors=yes', sys.executable]
    return [sys.executable]


def reports(variant, log):
    """what the instrumentation reported about the extensions -> list of text"""
    d, base = os.path.split(log)
    out = []
    for f in sorted(os.listdir(d)):
        if not f.startswith(base):
            continue
        with open(os.path.join(d, f), errors='replace') as fh:
            txt = fh.read()
        if variant == 'memcheck':
            out += _memcheck(txt)
        elif variant == 'tsan':
            for part in txt.split('==================')[1:]:
                if 'WARNING: ThreadSanitizer' in part and ('_flib' in part or '_dcd' in part or '.f90' in part):
                    out.append(part.strip())
        elif txt.strip():
            out.append(txt.strip())
    return out


def _memcheck(txt):
    import xml.etree.ElementTree as ET
    i = txt.find('<valgrindoutput')
    txt = txt[i:] if i >= 0 else txt
    if '</valgrindoutput>' not in txt:
        txt = txt[:txt.rfind('</error>') + 8] + '</valgrindoutput>' if '</error>' in txt else '<valgrindoutput/>'
    out = []
    for e in ET.fromstring(txt).iter('error'):
        st = e.find('stack')
        if st is None or (e.findtext('kind') or '').startswith('Leak'):
            continue
        fr = [(f.findtext('obj') or '', f.findtext('fn') or '?', f.findtext('file') or '',
               f.findtext('line') or '') for f in st.iter('frame')]
        objs = [os.path.basename(f[0]) for f in fr]
        k = [j for j, o in enumerate(objs) if o in ('_flib.so', '_dcd.so')]
        if not k or any('python' in o for o in objs[:k[0]]):
            continue
        out.append('%s: %s\n' % (e.findtext('kind'), e.findtext('what') or (e.findtext('xwhat/text') or '')) +
                   '\n'.join('  %s (%s:%s) %s' % (f[1], f[2], f[3], os.path.basename(f[0])) for f in fr[:8]))
    return out
