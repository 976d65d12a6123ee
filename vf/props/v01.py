import os, re, stat, sys, json, time, shutil, subprocess, tempfile

import numpy as np

from pwtools import crys, io, visualize, constants
from vf import gen
from vf.vmdref import read_axsf, read_xyz, read_cif, gofr
from vf.core import Registry, Inconclusive

reg = Registry('V01', 'Stand-in viewers (programs that record their arguments, working files and output) are started through the real '
               'viewer functions with random structures, trajectories and options; a stand-in VMD runs the generated Tcl script in '
               'a real Tcl interpreter and computes g(r) from the file it was given; the oracle knows what should have been shown')

VIEWER = r'''#!/usr/bin/env python3
import sys, os, json, time, shutil
rec = os.environ['VF_VIEW_REC']
fn = [a for a in sys.argv[1:] if os.path.isfile(a)]
d = dict(prog=os.path.basename(sys.argv[0]), argv=sys.argv[1:], start=time.time(), text=None)
if fn:
    d['text'] = open(fn[-1]).read()
with open(rec + '.started', 'a') as f:
    f.write('x\n')
print('hello from the viewer')
sys.stdout.flush()
sys.stderr.write('some complaint\n')
sys.stderr.flush()
time.sleep(float(os.environ.get('VF_VIEW_SLEEP', '0')))
d['exists'] = [os.path.exists(f) for f in fn]
d['end'] = time.time()
with open(rec + '.tmp%d' % os.getpid(), 'w') as f:
    json.dump(d, f)
os.rename(rec + '.tmp%d' % os.getpid(), rec + '.%d' % os.getpid())
sys.exit(int(os.environ.get('VF_VIEW_RC', '0')))
'''


def put(path, txt):
    with open(path, 'w') as f:
        f.write(txt)
    os.chmod(path, 0o755)
    return path


class Env:
    """scratch folder with stand-in programs in front of PATH"""
    def __init__(self, ctx, progs=(), sleep=0, rc=0):
        self.d = tempfile.mkdtemp(dir=ctx.tmp())
        self.bin = os.path.join(self.d, 'bin')
        self.tmp = os.path.join(self.d, 'tmp')
        os.makedirs(self.bin)
        os.makedirs(self.tmp)
        for p in progs:
            put(os.path.join(self.bin, p), VIEWER)
        self.rec = os.path.join(self.d, 'rec')
        self.new = dict(PATH=self.bin + ':/usr/bin:/bin', VF_VIEW_REC=self.rec, VF_VIEW_SLEEP=str(sleep), VF_VIEW_RC=str(rc))

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in self.new}
        os.environ.update(self.new)
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    def recs(self):
        out = []
        for f in sorted(os.listdir(self.d)):
            if re.fullmatch(r'rec\.\d+', f):
                out.append(json.load(open(os.path.join(self.d, f))))
                os.unlink(os.path.join(self.d, f))
        return out

    def nstarted(self):
        f = self.rec + '.started'
        return len(open(f).readlines()) if os.path.exists(f) else 0


def nfds():
    return len(os.listdir('/proc/self/fd'))


class Captured:
    """what really arrives on file descriptors 1 and 2"""
    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush()
        self.old = os.dup(1), os.dup(2)
        f = os.open(self.fn, os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600)
        os.dup2(f, 1); os.dup2(f, 2)
        os.close(f)
        return self

    def __exit__(self, *a):
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(self.old[0], 1); os.dup2(self.old[1], 2)
        os.close(self.old[0]); os.close(self.old[1])
        self.text = open(self.fn).read()


def rand_obj(ctx, traj=None, forces=True, ortho=False, nstep=None, symbols=True, varcell=None):
    nat = ctx.sz(1, 8, 130)
    traj = ctx.coin() if traj is None else traj
    n = (ctx.sz(1, 5, 40) if nstep is None else nstep) if traj else 1
    cell = gen.rand_cell(ctx.rng, 'ortho' if ortho else ctx.choice(['cubic', 'ortho', 'hex', 'tricl', 'rotated', 'left', 'fcc']))
    varcell = ctx.coin() if varcell is None else varcell
    cells = np.array([cell * (ctx.rng.uniform(0.9, 1.2) if varcell else 1.0) for _ in range(n)])
    frac = ctx.rng.uniform(-0.2, 1.2, (n, nat, 3))
    sym = [str(s) for s in gen.rand_symbols(ctx.rng, nat)] if symbols else None
    f = ctx.rng.normal(size=(n, nat, 3)) if forces and ctx.coin() else None
    kw = dict(symbols=sym) if symbols else {}
    if f is not None:
        kw['forces'] = f if traj else f[0]
    if traj:
        return crys.Trajectory(coords_frac=frac, cell=cells, **kw)
    return crys.Structure(coords_frac=frac[0], cell=cells[0], **kw)


def frames(o):
    """[(cell, symbols, coords, frac, forces)] from the stored arrays"""
    tr = o.is_traj
    n = o.coords_frac.shape[0] if tr else 1
    out = []
    for i in range(n):
        g = lambda a: None if a is None else np.array(a[i] if tr else a)
        c, x = g(o.cell), g(o.coords_frac)
        out.append((c, list(o.symbols), x @ c, x, g(o.forces)))
    return out


def check_shown(ctx, suffix, txt, fr):
    if suffix == '.axsf':
        got = read_axsf(txt)
        ctx.check(len(got) == len(fr), 'number of frames shown', got=len(got), want=len(fr))
        for g, w in zip(got, fr):
            ctx.close(g[0], w[0], 'cell shown', rtol=1e-9, atol=1e-8)
            ctx.check(g[1] == w[1], 'symbols shown', got=g[1], want=w[1])
            ctx.close(g[2][:, :3], w[2], 'positions shown', rtol=1e-9, atol=1e-8)
            if w[4] is None:
                ctx.check(g[2].shape[1] == 3, 'columns shown', got=g[2].shape)
            else:
                ctx.close(g[2][:, 3:], w[4] / 27.211386, 'forces shown', rtol=1e-5, atol=1e-8)
    elif suffix == '.xyz':
        got = read_xyz(txt)
        ctx.check(len(got) == len(fr), 'number of frames shown', got=len(got), want=len(fr))
        for g, w in zip(got, fr):
            ctx.check(g[0] == w[1], 'symbols shown', got=g[0], want=w[1])
            ctx.close(g[1], w[2], 'positions shown', rtol=1e-6, atol=1e-6)
    else:
        cc, sym, x = read_cif(txt)
        ctx.close(cc, gen.cc_from_cell(fr[0][0]), 'cell shown', rtol=1e-6, atol=1e-5)
        ctx.check(sym == fr[0][1], 'symbols shown', got=sym, want=fr[0][1])
        ctx.close(x, fr[0][3], 'positions shown', rtol=1e-6, atol=1e-6)


VIEWERS = [('view_xcrysden', 'xcrysden', ['--axsf'], '.axsf', False), ('view_vmd_axsf', 'vmd', [], '.axsf', False),
           ('view_vmd_xyz', 'vmd', [], '.xyz', False), ('view_jmol', 'jmol', [], '.cif', True),
           ('view_avogadro', 'avogadro', [], '.cif', True), ('view_avogadro', 'avogadro2', [], '.cif', True),
           ('own', 'myviewer', ['-a', 'b'], '.axsf', False), ('own', 'myviewer', [], '.dat', False)]


@reg.scenario(quick=100, thorough=3000)
def show(ctx):
    """viewer functions: what the program gets, output, temporary files, descriptors"""
    name, prog, args, suffix, only_struct = ctx.pick(VIEWERS)
    both = name == 'view_avogadro' and prog == 'avogadro2' and ctx.coin()
    obj = rand_obj(ctx, traj=False if only_struct else None)
    fr = frames(obj)
    ctx.note(viewer=name, prog=prog, nframes=len(fr))
    calls = []
    if name == 'own':
        if suffix == '.dat':
            def wr(fn, o):
                calls.append(o)
                io.write_axsf(fn, o)
        else:
            wr = io.write_axsf
        view = visualize.ViewFactory(cmd=' '.join([prog] + args), suffix=suffix, writer=wr, **({} if ctx.coin() else dict(assert_cmd=None)))
    else:
        view = getattr(visualize, name)
    with Env(ctx, [prog] + (['avogadro'] if both else [])) as env:
        for rep in range(ctx.ri(1, 3)):
            kw = dict(tmpdir=env.tmp)
            opts = []
            if ctx.coin():
                opts = ctx.choice([['-e', 'script.tcl'], ['--zoom=2'], ['-x', '-y', 'a b']])
                kw['options'] = ' '.join("'%s'" % o if ' ' in o else o for o in opts)
            if prog.startswith('avogadro'):
                # the shell function hands its arguments on unquoted ($@)
                opts = [w for o in opts for w in o.split()]
            keep, disp = ctx.coin(), ctx.coin()
            if keep or ctx.coin():
                kw['keepfiles'] = keep
            if disp or ctx.coin():
                kw['disp'] = disp
            if ctx.coin(0.3):
                kw['structfile'] = os.path.join(env.d, 'given' + suffix)
            if ctx.coin(0.3):
                kw['logfile'] = os.path.join(env.d, 'given.log')
            for k in ('structfile', 'logfile'):
                if k in kw and ctx.coin():
                    # left over from an earlier run
                    with open(kw[k], 'w') as f:
                        f.write('something old\n' * ctx.ri(1, 500))
            if ctx.coin(0.3):
                kw['wait'] = True
            n0 = nfds()
            with Captured(os.path.join(env.d, 'out')) as cap:
                ret = view(obj, **kw)
            os.unlink(cap.fn)
            ctx.check(nfds() <= n0, 'file descriptors left open', before=n0, after=nfds())
            r = env.recs()
            ctx.check(len(r) == 1, 'viewer ran (and ended) once', got=len(r))
            r = r[0]
            ctx.check(r['prog'] == prog, 'program started', got=r['prog'], want=prog)
            ctx.check(r['argv'][:-1] == args + opts, 'arguments <cmd> <options> <structfile>', got=r['argv'], want=args + opts)
            sf = r['argv'][-1]
            if 'structfile' in kw:
                ctx.check(sf == kw['structfile'], 'given structure file used', got=sf)
            else:
                ctx.check(os.path.dirname(sf) == env.tmp and sf.endswith(suffix), 'temporary structure file in tmpdir with suffix', got=sf)
            ctx.check(r['exists'] == [True], 'structure file there while the viewer runs', got=r['exists'])
            check_shown(ctx, '.axsf' if suffix == '.dat' else suffix, r['text'], fr)
            left = sorted(os.listdir(env.tmp))
            want = 0
            said = 'hello from the viewer\n' + 'some complaint\n'
            if keep:
                want = ('structfile' not in kw) + ('logfile' not in kw)
                lf = kw.get('logfile') or [os.path.join(env.tmp, f) for f in left if os.path.join(env.tmp, f) != sf][0]
                ctx.check(os.path.isfile(sf) and open(sf).read() == r['text'], 'structure file kept')
                ctx.check(open(lf).read() == said, 'output of the viewer in the log file', got=open(lf).read())
            else:
                for k in ('structfile', 'logfile'):
                    ctx.check(k not in kw or not os.path.exists(kw[k]), 'file removed if not kept', got=kw.get(k))
            ctx.check(len(left) == want, 'temporary files left', got=left, want=want, keep=keep)
            ctx.check(cap.text.count('hello from the viewer') == cap.text.count('some complaint') == int(disp), 'viewer output displayed', got=cap.text, disp=disp)
            for f in left:
                os.unlink(os.path.join(env.tmp, f))
            for k in ('structfile', 'logfile'):
                if k in kw and os.path.exists(kw[k]):
                    os.unlink(kw[k])
            for g, w in zip(frames(obj), fr):
                ctx.check(all(np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b for a, b in zip(g, w)), 'object unchanged')


@reg.scenario(quick=6, thorough=60)
def background(ctx):
    """bg=True: returns while viewers run, several at the same time, files stay"""
    for attempt in range(3):
        # a machine under load may stall us for longer than the viewer runs; a call that waits does so every time
        if _background(ctx):
            return
    ctx.fail('bg=True returned only after the viewer ended')


def _background(ctx):
    with Env(ctx, ['vmd'], sleep=1.5) as env:
        view = visualize.view_vmd_axsf
        objs = [rand_obj(ctx) for _ in range(ctx.ri(1, 3))]
        for o in objs:
            view(o, bg=True, tmpdir=env.tmp, **ctx.choice([{}, dict(keepfiles=False), dict(wait=True)]))
        t = time.time()
        files = sorted(os.listdir(env.tmp))
        ctx.check(len(files) == 2 * len(objs), 'structure and log file per viewer', got=files)
        recs = []
        for _ in range(600):
            recs += env.recs()
            if len(recs) == len(objs):
                break
            time.sleep(0.05)
        ctx.check(len(recs) == len(objs), 'all viewers ran', got=len(recs))
        ctx.check(all(r['exists'] == [True] for r in recs), 'structure files stay while viewers run')
        early = all(r['end'] > t for r in recs)
        ctx.note(n=len(objs), returned_early=early)
        left = [frames(o) for o in objs]
        for r in recs:
            got = read_axsf(r['text'])
            ok = [i for i, fr in enumerate(left) if len(fr) == len(got) and [g[1] for g in got] == [w[1] for w in fr]
                  and all(np.allclose(g[0], w[0], rtol=1e-9) and np.allclose(g[2][:, :3], w[2], atol=1e-8) for g, w in zip(got, fr))]
            ctx.check(bool(ok), 'each viewer shows its own object')
            left.pop(ok[0])
        ctx.check(sorted(os.listdir(env.tmp)) == files, 'files kept')
    return early


@reg.scenario(quick=30, thorough=400)
def guards(ctx):
    """viewers for structures refuse trajectories early; missing symbols; failing viewers are not silent"""
    kind = ctx.pick(['traj', 'assert', 'nosym', 'rc'])
    ctx.note(kind=kind)
    if kind == 'traj':
        with Env(ctx, ['jmol', 'avogadro']) as env:
            n0 = nfds()
            ctx.raises(AssertionError, ctx.choice([visualize.view_jmol, visualize.view_avogadro]), rand_obj(ctx, traj=True), tmpdir=env.tmp)
            ctx.check(env.nstarted() == 0, 'viewer not started')
            ctx.check(os.listdir(env.tmp) == [] and nfds() <= n0, 'nothing left behind', got=os.listdir(env.tmp))
    elif kind == 'assert':
        seen = []
        def acmd(o):
            seen.append(o)
            if len(seen) == 2:
                raise ValueError('no')
        with Env(ctx, ['prog']) as env:
            v = visualize.ViewFactory(cmd='prog', assert_cmd=acmd)
            o = rand_obj(ctx)
            with Captured(os.path.join(env.d, 'out')):
                v(o, tmpdir=env.tmp)
            ctx.check(len(seen) == 1 and seen[0] is o, 'assert_cmd(obj) called')
            ctx.check(env.nstarted() == 1, 'viewer started')
            ctx.raises(ValueError, v, o, tmpdir=env.tmp)
            ctx.check(env.nstarted() == 1, 'viewer not started')
            ctx.check(os.listdir(env.tmp) == [], 'nothing left behind')
    elif kind == 'nosym':
        with Env(ctx, ['vmd']) as env:
            o = rand_obj(ctx, symbols=False)
            nat = o.coords_frac.shape[-2]
            fr = [(f[0], ['H'] * nat) + f[2:] for f in frames_nosym(o)]
            with Captured(os.path.join(env.d, 'out')):
                ctx.choice([visualize.view_vmd_axsf, visualize.view_vmd_xyz])(o, tmpdir=env.tmp)
            r = env.recs()
            ctx.check(len(r) == 1, 'viewer ran')
            check_shown(ctx, '.' + r[0]['argv'][-1].rsplit('.', 1)[1], r[0]['text'], fr)
    else:
        with Env(ctx, ['vmd'], rc=3) as env:
            disp = ctx.coin()
            with Captured(os.path.join(env.d, 'out')):
                if disp:
                    # status of tee counts in a pipe
                    visualize.view_vmd_axsf(rand_obj(ctx), tmpdir=env.tmp, disp=True)
                else:
                    ctx.raises(subprocess.CalledProcessError, visualize.view_vmd_axsf, rand_obj(ctx), tmpdir=env.tmp)
            ctx.check(env.nstarted() == 1, 'viewer started once')


def frames_nosym(o):
    o2 = o.copy()
    o2.symbols = ['H'] * o.coords_frac.shape[-2]
    return frames(o2)


# ---------------------------------------------------------------------------
# VMD "measure gofr"
# ---------------------------------------------------------------------------
TCL = r'''
proc log {args} { set f [open "$::env(VF_VMD_REC)" a]; puts $f [join $args "\t"]; close $f }
set ::nmol -1
proc mol {cmd args} {
    if {$cmd eq "new" || $cmd eq "load"} {
        incr ::nmol
        set ::molfile [lindex $args 0]
        log mol $cmd {*}$args
        return $::nmol
    }
    error "stand-in: mol $cmd"
}
proc molinfo {args} { if {[lindex $args 0] eq "top"} {return $::nmol}; return [list] }
set ::nsel 0
proc atomselect {m s args} {
    log atomselect $m $s
    incr ::nsel
    set ::sel($::nsel) $s
    return sel$::nsel
}
proc measure {what args} {
    if {$what ne "gofr"} { error "stand-in: measure $what" }
    set s1 [string range [lindex $args 0] 3 end]
    set s2 [string range [lindex $args 1] 3 end]
    # VMD's defaults
    array set o {delta 0.1 rmax 10.0 first -1 last -1 step 1 usepbc 0}
    foreach {k v} [lrange $args 2 end] { set o($k) $v }
    log gofr $::molfile $::sel($s1) $::sel($s2) $o(first) $o(last) $o(step) $o(delta) $o(rmax) $o(usepbc)
    return [exec $::env(VF_VMD_HELPER) $::molfile $::sel($s1) $::sel($s2) $o(first) $o(last) $o(step) $o(delta) $o(rmax) $o(usepbc)]
}
proc quit {args} { log quit; exit 0 }
'''
VMD = r'''#!/bin/sh
# stand-in for: vmd -dispdev none -eofexit -e SCRIPT
printf '%s\t' cmdline "$@" >> "$VF_VMD_REC"; echo >> "$VF_VMD_REC"
while [ $# -gt 0 ]; do
    case "$1" in -e) shift; script="$1";; esac
    shift
done
echo "Info) stand-in for VMD"
cat "$VF_VMD_TCL" "$script" > "$VF_VMD_REC.run.tcl"
exec tclsh "$VF_VMD_REC.run.tcl"
'''
HELPER = r'''#!%s
import sys
sys.path.insert(0, %r)
from vmdref import read_axsf, gofr
fn, s1, s2 = sys.argv[1:4]
first, last, step = [int(x) for x in sys.argv[4:7]]
delta, rmax = float(sys.argv[7]), float(sys.argv[8])
fr = [(c, s, x[:, :3]) for c, s, x in read_axsf(open(fn).read())]
if first == -1:
    first = len(fr) - 1
r = gofr(fr, first, last, step, delta, rmax, int(sys.argv[9]), [s1, s2])
print(' '.join('{' + ' '.join('%%.17g' %% v for v in col) + '}' for col in r.T))
'''


def vmd_env(ctx):
    if shutil.which('tclsh') is None:
        raise Inconclusive("no tclsh")
    env = Env(ctx)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    put(os.path.join(env.bin, 'vmd'), VMD)
    h = put(os.path.join(env.d, 'helper'), HELPER % (sys.executable, here))
    t = put(os.path.join(env.d, 'pre.tcl'), TCL)
    env.vrec = os.path.join(env.d, 'vmdrec')
    env.new.update(VF_VMD_REC=env.vrec, VF_VMD_TCL=t, VF_VMD_HELPER=h, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return env


def rmax_own(cell):
    """largest sphere inside the cell: half the smallest distance of opposite faces"""
    v = abs(np.linalg.det(cell))
    return 0.5 * min(v / np.linalg.norm(np.cross(cell[(i + 1) % 3], cell[(i + 2) % 3])) for i in range(3))


@reg.scenario(quick=48, thorough=800)
def vmd_gofr(ctx):
    """frames, selections, settings and cells reach VMD; its table comes back unchanged; both slicing modes agree"""
    traj = ctx.coin(0.8)
    n = ctx.ri(1, 6)
    varcell = ctx.coin()
    obj = rand_obj(ctx, traj=traj, nstep=n, ortho=True, varcell=varcell)
    fr = [f[:3] for f in frames(obj)]
    n = len(fr)
    syms = fr[0][1]
    kw = {}
    if ctx.coin(0.8):
        kw['sel'] = [ctx.choice(['all', 'name ' + ctx.choice(syms)]) for _ in range(2)]
    sel = kw.get('sel', ['all', 'all'])
    first, last, step = 0, -1, 1
    if n > 1 and ctx.coin(0.7):
        first = kw['first'] = ctx.ri(0, n - 1)
        last = kw['last'] = ctx.choice([-1, ctx.ri(first, n - 1)])
        step = kw['step'] = ctx.ri(1, 3)
    rm = rmax_own(fr[0][0])
    delta = 0.05
    if ctx.coin(0.7):
        delta = kw['dr'] = float(ctx.choice([0.02, 0.1, 0.25, 0.3]))
    if ctx.coin():
        rm = kw['rmax'] = float(ctx.choice([1.5, 2.25, 4.0, rm * 0.77]))
    pbc = 1
    if ctx.coin(0.3):
        pbc = kw['usepbc'] = ctx.ri(0, 1)
    if ctx.coin(0.3):
        kw['verbose'] = False
    ctx.note(n=n, varcell=varcell, first=first, last=last, step=step, sel=str(sel))
    want = None
    got = []
    for sf in (None, True, False):
        with vmd_env(ctx) as env:
            n0 = nfds()
            k = dict(kw, tmpdir=env.tmp, **({} if sf is None else dict(slicefirst=sf)))
            with Captured(os.path.join(env.d, 'out')) as cap:
                g = crys.vmd_measure_gofr(obj, **k)
            ctx.check(nfds() <= n0, 'file descriptors left open', before=n0, after=nfds())
            rec = [l.rstrip('\n').rstrip('\t').split('\t') for l in open(env.vrec)]
            run = [r for r in rec if r[0] == 'gofr']
            ctx.check(len(run) == 1, 'one measurement', got=rec)
            ctx.check(run[0][2:4] == sel, 'selections', got=run[0][2:4], want=sel)
            ctx.close([float(run[0][7]), float(run[0][8])], [delta, rm], 'delta and rmax', rtol=1e-9)
            ctx.check(int(run[0][9]) == pbc, 'usepbc', got=run[0][9])
            if want is None:
                want = gofr(fr, first, last, step, float(run[0][7]), float(run[0][8]), pbc, sel)
            ctx.close(g, want, 'radius, g(r), number integral (slicefirst=%s)' % sf, rtol=1e-7, atol=1e-9)
            ctx.check('stand-in' not in cap.text, 'quiet', got=cap.text)
            leftover = [f for f in os.listdir('/tmp') if f.startswith('vmd_xsf_')]
            ctx.check(not leftover, 'temporary files outside tmpdir', got=leftover)
    for g, w in zip(frames(obj), fr):
        ctx.check(np.array_equal(g[0], w[0]) and g[1] == w[1] and np.array_equal(g[2], w[2]), 'object unchanged')


@reg.scenario(quick=20, thorough=300)
def vmd_files(ctx):
    """call_vmd_measure_gofr: given file names are used, settings handed over; refusals"""
    kind = ctx.pick(['files', 'verbose', 'skew', 'missing'])
    obj = rand_obj(ctx, traj=True, ortho=kind != 'skew', varcell=False)
    ctx.note(kind=kind)
    with vmd_env(ctx) as env:
        if kind == 'skew':
            obj = rand_obj(ctx, traj=ctx.coin(), varcell=False)
            while np.abs(gen.cc_from_cell(frames(obj)[0][0])[3:] - 90).max() < 0.5:
                obj = rand_obj(ctx, traj=ctx.coin(), varcell=False)
            with Captured(os.path.join(env.d, 'out')):
                ctx.raises(Exception, crys.vmd_measure_gofr, obj, tmpdir=env.tmp)
            ctx.check(not os.path.exists(env.vrec), 'VMD not started for non-orthogonal cells')
            return
        fr = [f[:3] for f in frames(obj)]
        tf = os.path.join(env.d, 'traj.axsf')
        io.write_axsf(tf, obj)
        kw = dict(dr=0.1, rmax=2.0)
        if kind == 'missing':
            kw.pop(ctx.choice(['dr', 'rmax']))
            ctx.raises(AssertionError, crys.call_vmd_measure_gofr, tf, tmpdir=env.tmp, **kw)
            ctx.raises(AssertionError, crys.call_vmd_measure_gofr, tf, dr=.1, rmax=2., sel=['all'], tmpdir=env.tmp)
            ctx.raises(AssertionError, crys.call_vmd_measure_gofr, tf, dr=.1, rmax=2., fntype='xyz', tmpdir=env.tmp)
            ctx.check(not os.path.exists(env.vrec), 'VMD not started')
            return
        for k in ('datafn', 'scriptfn', 'logfn'):
            if ctx.coin():
                kw[k] = os.path.join(env.d, 'my_' + k)
        n = len(fr)
        first = ctx.ri(0, n - 1)
        last = ctx.choice([-1, ctx.ri(first, n - 1)])
        step = ctx.ri(1, 2)
        verbose = kind == 'verbose'
        with Captured(os.path.join(env.d, 'out')) as cap:
            g = crys.call_vmd_measure_gofr(tf, first=first, last=last, step=step, usepbc=0, sel=['all', 'name ' + fr[0][1][-1]],
                                           verbose=verbose, tmpdir=env.tmp, **kw)
        w = gofr(fr, first, last, step, 0.1, 2.0, 0, ['all', 'name ' + fr[0][1][-1]])
        ctx.close(g, w, 'table', rtol=1e-7, atol=1e-9)
        ctx.check(('stand-in for VMD' in cap.text) == verbose, 'output shown if verbose', got=cap.text)
        rec = [l.rstrip('\n').rstrip('\t').split('\t') for l in open(env.vrec)]
        mol = [r for r in rec if r[0] == 'mol']
        ctx.check(len(mol) == 1 and mol[0][2] == tf and 'xsf' in mol[0], 'trajectory loaded as xsf', got=mol)
        i = mol[0].index('waitfor') if 'waitfor' in mol[0] else None
        ctx.check(i is not None and mol[0][i + 1] == 'all', 'all frames loaded before measuring', got=mol)
        cl = [r for r in rec if r[0] == 'cmdline'][0]
        ctx.check('-dispdev' in cl and cl[cl.index('-dispdev') + 1] == 'none', 'no display', got=cl)
        for k in ('datafn', 'scriptfn', 'logfn'):
            if k in kw:
                ctx.check(os.path.getsize(kw[k]) > 0, 'given file used', got=k)
        if 'datafn' in kw:
            ctx.close(np.loadtxt(kw['datafn']).reshape(-1, 3), w, 'data file', rtol=1e-7, atol=1e-9)
        if 'logfn' in kw:
            ctx.check('stand-in for VMD' in open(kw['logfn']).read(), 'VMD output in log file')
        if 'scriptfn' in kw:
            ctx.check(kw['scriptfn'] in cl, 'script executed', got=cl)
        ctx.check(rec[-1][0] == 'quit', 'VMD quits', got=rec[-1])
