"""Case runner: workers execute cases of the real code, oracles watch them."""
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import resource
import shutil
import signal
import sys
import time
import traceback
import zlib

import numpy as np

CPU_LIMIT = 120.      # CPU seconds per case before "does not terminate"
WALL_LIMIT = 400.     # wall seconds per case before the run is inconclusive


from vf import cov


class Violation(Exception):
    def __init__(self, msg, key=None, info=None):
        Exception.__init__(self, msg)
        self.msg, self.key, self.info = msg, key, info


class Inconclusive(Exception):
    pass


class Hang(BaseException):
    pass


def short(x, n=400):
    if isinstance(x, np.ndarray):
        s = 'array(shape=%s, dtype=%s) %s' % (x.shape, x.dtype,
            np.array2string(x.ravel()[:12], precision=12, threshold=20))
    else:
        s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Scenario:
    def __init__(self, func, name, quick, thorough, serial=False):
        self.func, self.name = func, name
        self.quick, self.thorough, self.serial = quick, thorough, serial

    def count(self, tier):
        return self.quick if tier == 'quick' else self.thorough


class Registry:
    """One per property module: `reg = Registry('C01', rule=...)`."""
    def __init__(self, prop, rule, assumptions=()):
        self.prop, self.rule = prop, rule
        self.assumptions = list(assumptions)
        self.scenarios = {}

    def scenario(self, quick=30, thorough=None, serial=False):
        def deco(f):
            th = quick * 15 if thorough is None else thorough
            self.scenarios[f.__name__] = Scenario(f, f.__name__, quick, th, serial)
            return f
        return deco


def _leaves(x, path=''):
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            yield from _leaves(x[k], path + '[%r]' % (k,))
    else:
        yield path, x


class Ctx:
    def __init__(self, prop, scen, idx, seed, tier, scratch):
        self.prop, self.scen, self.idx, self.seed, self.tier = prop, scen, idx, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(prop.encode()),
                                          zlib.crc32(scen.encode()), idx])
        self.notes = {}
        self.observed = 0
        self.counters = {}
        self._scratch = scratch
        self._tmp = None
        self.soft = []

    # -- generation helpers
    def note(self, **kw):
        """Describe the configuration of this case (decides distinctness)."""
        self.notes.update({k: (short(v, 120) if not isinstance(v, (int, float, str, bool, type(None))) else v)
                           for k, v in kw.items()})

    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def pick(self, seq):
        """Walks through `seq` with the case index: systematic, not random."""
        return seq[self.idx % len(seq)]

    def coin(self, p=0.5):
        return bool(self.rng.random() < p)

    def ri(self, lo, hi):
        """random integer lo..hi inclusive"""
        return int(self.rng.integers(lo, hi + 1))

    def sz(self, lo, hi, big, p=0.04):
        """a size: random integer lo..hi inclusive, now and then a larger one up to `big`"""
        if big > hi and self.rng.random() < p:
            return int(self.rng.integers(hi + 1, big + 1))
        return self.ri(lo, hi)

    def tmp(self):
        if self._tmp is None:
            self._tmp = os.path.join(self._scratch, 'case-%d-%s-%d' % (os.getpid(), self.scen, self.idx))
            os.makedirs(self._tmp)
        return self._tmp

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    # -- oracles
    def fail(self, msg, key=None, **info):
        raise Violation(msg + ''.join('\n    %s = %s' % (k, short(v)) for k, v in info.items()), key=key)

    def softfail(self, msg, key, **info):
        """Record a violation with a mechanism key and carry on with the case."""
        self.observed += 1
        self.soft.append((msg + ''.join('\n    %s = %s' % (k, short(v)) for k, v in info.items()), key))

    def check(self, cond, msg, key=None, **info):
        self.observed += 1
        if not cond:
            self.fail(msg, key=key, **info)

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, key=None, shape=True, nan_ok=False):
        self.observed += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.dtype == object or w.dtype == object:
            self.fail(msg + ': not numeric', key=key, got=got, want=want)
        if shape and g.shape != w.shape:
            self.fail(msg + ': shape', key=key, got=g, want=w)
        with np.errstate(all='ignore'):
            if not nan_ok and np.isfinite(w).all() and not np.isfinite(g).all():
                self.fail(msg + ': not finite', key=key, got=g, want=w)
            err = np.abs(g.astype(complex if np.iscomplexobj(g) or np.iscomplexobj(w) else float)
                         - w)
            lim = atol + rtol * np.abs(w)
            bad = ~((err <= lim) | (g == w))         # equal infinities
            if nan_ok:
                bad &= ~(np.isnan(g) & np.isnan(w))
        if bad.any():
            i = int(np.argmax(np.where(np.isnan(err), np.inf, err - lim).ravel())) if err.ndim else 0
            gg = np.broadcast_to(g, err.shape).ravel()[i] if err.ndim else g
            ww = np.broadcast_to(w, err.shape).ravel()[i] if err.ndim else w
            self.fail('%s: %d of %d values differ, worst: got %r want %r (rtol=%g atol=%g)' % (
                msg, int(bad.sum()), bad.size, gg, ww, np.max(rtol), np.max(atol)), key=key, got=g, want=w)

    def same(self, got, want, msg, key=None):
        """Exact equality of values and shapes (dicts, lists, arrays)."""
        self.observed += 1
        d = differ(got, want)
        if d:
            self.fail('%s: %s' % (msg, d), key=key, got=got, want=want)

    def raises(self, exc, func, *args, **kw):
        msg = kw.pop('_msg', 'expected %s' % (exc,))
        key = kw.pop('_key', None)
        self.observed += 1
        if exc is AssertionError:
            exc = Exception         # how a refusal is worded is not decided here
        try:
            r = func(*args, **kw)
        except exc:
            return
        self.fail(msg + ' (no exception)', key=key, returned=r)


def differ(a, b, path=''):
    """None if equal, else a description.  Types of scalars are not compared
    except for text vs number; arrays are compared elementwise and by shape."""
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        if a is None or b is None:
            return '%s: %s vs %s' % (path, short(a), short(b))
        try:
            a_, b_ = np.asarray(a), np.asarray(b)
        except ValueError:
            return '%s: %s vs %s' % (path, short(a), short(b))
        if a_.shape != b_.shape:
            return '%s: shape %s vs %s' % (path, a_.shape, b_.shape)
        if a_.dtype.kind in 'fc' and b_.dtype.kind in 'fc':
            ok = ((a_ == b_) | (np.isnan(a_) & np.isnan(b_))).all()
        else:
            ok = bool(np.all(a_ == b_))
        return None if ok else '%s: %s vs %s' % (path, short(a_), short(b_))
    if isinstance(b, dict):
        if not isinstance(a, dict):
            return '%s: not a dict' % path
        if set(a) != set(b):
            return '%s: keys %s vs %s' % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in b:
            d = differ(a[k], b[k], path + '[%r]' % (k,))
            if d:
                return d
        return None
    if isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            return '%s: %s vs %s' % (path, short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, path + '[%d]' % i)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float) and np.isnan(a) and np.isnan(b):
        return None
    try:
        ok = bool(a == b)
    except Exception as e:
        return '%s: cannot compare %s vs %s' % (path, short(a), short(b))
    return None if ok else '%s: %s vs %s' % (path, short(a), short(b))


# ---------------------------------------------------------------------------
def run_case(reg, name, idx, seed, tier, scratch):
    """Run one case, return a result dict."""
    scen = reg.scenarios[name]
    ctx = Ctx(reg.prop, name, idx, seed, tier, scratch)
    res = dict(scen=name, idx=idx, viol=[], inconc=None)

    def on_prof(*a):
        raise Hang()
    old = signal.signal(signal.SIGPROF, on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    cwd = os.getcwd()
    t0 = time.time()
    np.random.seed(zlib.crc32(('%d-%s-%s-%d' % (seed, reg.prop, name, idx)).encode()) & 0x7fffffff)
    try:
        scen.func(ctx)
    except Violation as v:
        res['viol'].append((v.msg, v.key))
    except Inconclusive as v:
        res['inconc'] = str(v)
    except MemoryError as v:
        res['inconc'] = 'MemoryError: %s' % v
    except Hang:
        res['viol'].append(('no result after %d s of CPU time' % CPU_LIMIT, 'hang'))
    except (KeyboardInterrupt, SystemExit) as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        res['viol'].append(('code under test called exit: %r' % e, 'exit'))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
                            for f in reversed(tb[-5:]))
        res['viol'].append(('unexpected %s: %s\n    at %s' % (type(e).__name__, e, where),
                            'exc:' + type(e).__name__))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        os.chdir(cwd)
        if ctx._tmp and os.path.isdir(ctx._tmp):
            shutil.rmtree(ctx._tmp, ignore_errors=True)
    res['viol'] += ctx.soft
    res.update(observed=ctx.observed, notes=ctx.notes, counters=ctx.counters, t=time.time() - t0)
    return res


def _worker(reg, seed, tier, scratch, conn):
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        wd = os.path.join(scratch, 'w%d' % os.getpid())
        os.makedirs(wd, exist_ok=True)
        os.chdir(wd)
        nul = os.open(os.devnull, os.O_RDWR)
        if not os.environ.get('VF_DEBUG'):
            os.dup2(nul, 1)
            os.dup2(nul, 2)
        while True:
            task = conn.recv()
            if task is None:
                break
            r = run_case(reg, task[0], task[1], seed, tier, scratch)
            r['lines'] = cov.take()
            try:
                conn.send(r)
            except Exception as e:
                r['notes'] = {k: str(v) for k, v in r['notes'].items()}
                r['viol'] = [(str(a), str(b)) for a, b in r['viol']]
                conn.send(r)
    except EOFError:
        pass
    finally:
        os._exit(0)


def run_all(reg, tasks, seed, tier, scratch, nproc, budget):
    """Yields result dicts.  A dying worker is a result as well."""
    ctxm = mp.get_context('fork')
    tasks = list(tasks)
    tasks.reverse()
    workers = {}

    def spawn():
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=_worker, args=(reg, seed, tier, scratch, b), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None, 0.]
        give(a)

    def give(a):
        w = workers[a]
        if tasks:
            w[1], w[2] = tasks.pop(), time.time()
            a.send(w[1])
        else:
            w[1] = None
            try:
                a.send(None)
            except OSError:
                pass

    t0 = time.time()
    for _ in range(min(nproc, max(1, len(tasks)))):
        spawn()
    while any(w[1] is not None for w in workers.values()):
        ready = mpc.wait([a for a, w in workers.items() if w[1] is not None], timeout=2.)
        now = time.time()
        for a in ready:
            p, task, ts = workers[a]
            try:
                r = a.recv()
            except (EOFError, ConnectionResetError, OSError):
                p.join(10)
                del workers[a]
                rc = p.exitcode
                r = dict(scen=task[0], idx=task[1], viol=[], inconc=None, observed=0,
                         notes={}, counters={}, t=now - ts)
                if rc == -signal.SIGKILL:
                    r['inconc'] = 'worker was killed (out of memory?)'
                else:
                    r['viol'] = [('the code under test ended the process: exit status %s' % rc,
                                  'died:%s' % rc)]
                yield r
                spawn()
                continue
            yield r
            give(a)
        for a in list(workers):
            p, task, ts = workers[a]
            if task is not None and now - ts > WALL_LIMIT:
                p.kill()
                p.join(10)
                del workers[a]
                yield dict(scen=task[0], idx=task[1], viol=[], inconc='wall watchdog', observed=0,
                           notes={}, counters={}, t=now - ts)
                spawn()
        if now - t0 > budget:
            for a, w in workers.items():
                w[0].kill()
            yield dict(scen='-', idx=-1, viol=[], inconc='time budget of %d s used up, %d cases not run'
                       % (budget, len(tasks)), observed=0, notes={}, counters={}, t=0)
            return
    for a, w in workers.items():
        w[0].join(5)
