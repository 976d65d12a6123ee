"""B03: backups."""
import os
import resource
import shutil
import signal
import numpy as np
from vf.core import Registry, differ
from vf.props import c06
from pwtools import common, batch, sql, io, crys, parse, eos, num
from pwtools.base import FlexibleGetters

reg = Registry('B03', 'Backups of random files, trees and links are made again and again among random existing names; after each call the whole '
               'surrounding tree is compared with the state before (nothing may differ except one new copy). Text replacement with backup '
               'and study overwriting are run with write failures injected (file size limit): the previous content must survive. Dumped '
               'objects are loaded and compared attribute by attribute.')


def tree(d):
    """everything below d: {path: (kind, content, mode)}"""
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs + files:
            p = os.path.join(root, x)
            k = os.path.relpath(p, d)
            if os.path.islink(p):
                out[k] = ('link', os.readlink(p), 0)
            elif os.path.isdir(p):
                out[k] = ('dir', None, os.stat(p).st_mode & 0o777)
            else:
                with open(p, 'rb') as f:
                    out[k] = ('file', f.read(), os.stat(p).st_mode & 0o777)
    return out


def content(p):
    """what a reader sees when following links"""
    if os.path.isdir(p):
        return {x: content(os.path.join(p, x)) for x in sorted(os.listdir(p))}
    with open(p, 'rb') as f:
        return f.read()


def fill(ctx, d, depth=2):
    r = ctx.rng
    os.makedirs(d, exist_ok=True)
    for i in range(ctx.ri(0, 4)):
        n = ctx.choice(['a', 'b.txt', '.hidden', 'x y', 'pw.out', 'ä', '0', '1.0']) + str(i)
        p = os.path.join(d, n)
        k = ctx.choice(['file', 'file', 'empty', 'dir', 'link', 'exe'])
        if k == 'dir' and depth:
            fill(ctx, p, depth - 1)
        elif k == 'link':
            with open(os.path.join(d, 'target%d' % i), 'wb') as f:
                f.write(r.bytes(20))
            os.symlink('target%d' % i, p)
        else:
            with open(p, 'wb') as f:
                f.write(b'' if k == 'empty' else r.bytes(ctx.ri(1, 300)))
            if k == 'exe':
                os.chmod(p, 0o755)


@reg.scenario(quick=600)
def backup(ctx):
    d = ctx.tmp()
    r = ctx.rng
    kind = ctx.pick(['file', 'dir', 'filelink', 'dirlink', 'empty', 'missing'])
    name = ctx.choice(['x', 'x.db', 'calc_foo', 'with space', '.hid', 'x.0', '-x', 'ünï', 'a*b', "q'uote"])
    prefix = ctx.choice([None, '.', '.bak', '_', '-old.'])
    rel = ctx.choice(['abs', 'rel', 'dot'])
    slash = kind in ('dir', 'dirlink') and ctx.coin(.3)
    p = os.path.join(d, name)
    if kind in ('file', 'filelink'):
        real = p if kind == 'file' else os.path.join(d, 'zz real')
        with open(real, 'wb') as f:
            f.write(r.bytes(ctx.ri(1, 2000)))
        if kind == 'filelink':
            os.symlink('zz real', p)
    elif kind in ('dir', 'dirlink'):
        real = p if kind == 'dir' else os.path.join(d, 'zz real')
        fill(ctx, real)
        if kind == 'dirlink':
            os.symlink(ctx.choice(['zz real', real]), p)
    elif kind == 'empty':
        open(p, 'w').close()
    pre = '.' if prefix is None else prefix
    # existing names of all kinds
    for i in r.permutation(4)[:ctx.ri(0, 4)]:
        q = p + pre + str(i)
        k = ctx.choice(['file', 'dir', 'dangling', 'link'])
        if k == 'file':
            open(q, 'w').write('older %d' % i)
        elif k == 'dir':
            fill(ctx, q, 1)
        elif k == 'dangling':
            os.symlink('nowhere%d' % i, q)
        elif kind != 'missing':
            os.symlink(name, q)
    ctx.note(kind=kind, name=name, prefix=prefix, slash=slash)
    os.chdir(d)
    arg = {'abs': p, 'rel': name, 'dot': './' + name}[rel] + ('/' if slash else '')
    made = []
    for rep in range(ctx.sz(1, 4, 14, .03)):
        before = tree(d)
        base_before = os.path.join(d, name)
        c0 = content(p) if kind != 'missing' else None
        common.backup(arg, **({} if prefix is None else dict(prefix=prefix)))
        after = tree(d)
        for k in before:
            ctx.check(after.get(k) == before[k], 'existing entry %r changed' % k, got=after.get(k), want=before[k])
        new = sorted(set(after) - set(before))
        if kind == 'missing':
            ctx.check(not new, 'something was created for a missing source', new=new)
            continue
        top = [k for k in new if '/' not in k]
        ctx.check(len(top) == 1 and all(k == top[0] or k.startswith(top[0] + '/') for k in new), 'one new copy', new=new)
        want = next(name + pre + str(i) for i in range(99) if name + pre + str(i) not in before)
        ctx.check(top[0] == want, 'first unused name', got=top[0], want=want)
        ctx.check(content(os.path.join(d, top[0])) == c0, 'content of the copy', got=content(os.path.join(d, top[0])), want=c0)
        made.append((top[0], c0))
        # go on working on the original: earlier backups must not follow
        if os.path.isdir(p):
            with open(os.path.join(p, 'new%d' % rep), 'w') as f:
                f.write('n')
            for x in os.listdir(p):
                q = os.path.join(p, x)
                if os.path.isfile(q) and not os.path.islink(q):
                    with open(q, 'ab') as f:
                        f.write(b'more')
        else:
            with open(p, 'ab') as f:
                f.write(b'more')
        for nm, c in made:
            ctx.check(content(os.path.join(d, nm)) == c, 'an earlier backup changed with the original', name=nm)
    ctx.count('backups', len(made))


TXT = ['XXXA', ' = ', 'XXXB', '\n', 'text', 'ä', '%', '\t', ' ', '\n\n', '0.5']


@reg.scenario(quick=200)
def replace_bak(ctx):
    d = ctx.tmp()
    txt = ''.join(str(x) for x in ctx.rng.choice(TXT, ctx.sz(0, 40, 3000)))
    crlf = ctx.coin(.2)
    raw = (txt.replace('\n', '\r\n') if crlf else txt).encode()
    fn = os.path.join(d, 'f.txt')
    with open(fn, 'wb') as f:
        f.write(raw)
    bak = ctx.choice(['.bak', '~', '.0', ''])
    old = ctx.coin(.3)
    if old and bak:
        open(fn + bak, 'w').write('older')
    ctx.note(bak=bak, crlf=crlf, old=old, n=len(txt))
    other = os.path.join(d, 'other')
    open(other, 'w').write('other')
    before = tree(d)
    a, b = ctx.choice([('1', 'two'), ('XXXB', ''), (r'\1', '%s')])
    common.file_template_replace(fn, {'XXXA': a, 'XXXB': b}, bak, mode='txt', warn_not_found=False, warn_mult_found=False, disp=False)
    after = tree(d)
    ctx.check(set(after) == set(before) | ({'f.txt' + bak} if bak else set()), 'files', got=sorted(after), want=sorted(before))
    if bak:
        ctx.check(after['f.txt' + bak][1] == raw, 'the backup is the previous content', got=after['f.txt' + bak][1], want=raw)
    ctx.check(after['other'] == before['other'], 'other file')
    if not crlf:
        parts = txt.split('XXXA')
        want = a.join(x.replace('XXXB', b) for x in parts)
        ctx.check(after['f.txt'][1].decode() == want, 'replaced text', got=after['f.txt'][1], want=want)


def _limited(limit, func, args, kw):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    try:
        func(*args, **kw)
    except Exception as e:
        return type(e).__name__
    return 'done'


def limited(limit, func, *args, **kw):
    """run in a forked process which cannot write files larger than limit"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(w, _limited(limit, func, args, kw).encode())
        finally:
            os._exit(0)
    os.close(w)
    out = b''
    while True:
        x = os.read(r, 1000)
        if not x:
            break
        out += x
    os.close(r)
    os.waitpid(pid, 0)
    return out.decode()


@reg.scenario(quick=80)
def faults(ctx):
    """writing fails (no space): what was there before still is"""
    d = ctx.tmp()
    r = ctx.rng
    what = ctx.pick(['backup', 'replace', 'study', 'studydb'])
    limit = ctx.choice([0, 100, 1000])
    ctx.note(what=what, limit=limit)
    if what in ('backup', 'replace'):
        fn = os.path.join(d, 'f')
        raw = ('XXXA ' + 'x' * ctx.ri(0, 2000)).encode()
        with open(fn, 'wb') as f:
            f.write(raw)
        open(fn + '.0', 'w').write('')
        before = tree(d)
        if what == 'backup':
            res = limited(limit, common.backup, fn)
        else:
            res = limited(limit, common.file_template_replace, fn, {'XXXA': 'y' * ctx.ri(1, 3000)}, '.bak', mode='txt', disp=False)
        after = tree(d)
        ctx.check(after['f.0'] == before['f.0'], 'earlier backup')
        if what == 'backup':
            ctx.check(after['f'] == before['f'], 'the original changed', result=res)
            fits = len(raw) <= limit
            ctx.check((res == 'done') == fits, 'a failing copy is reported', result=res, size=len(raw), limit=limit)
            if res == 'done':
                ctx.check(after['f.1'][1] == raw, 'copy')
        else:
            ctx.check(after['f'][1] == raw or after.get('f.bak', (0, None))[1] == raw or res == 'done',
                      'previous content is lost', result=res, got=after)
            if res == 'done':
                ctx.check(after['f.bak'][1] == raw, 'backup')
        ctx.count('failures' if res != 'done' else 'successes')
        return
    # parameter study overwritten
    os.chdir(d)
    os.makedirs('calc.templ')
    open('calc.templ/pw.in', 'w').write('XXXA\n' + 'y' * ctx.ri(0, 500))
    open('calc.templ/job', 'w').write('job XXXIDX\n')
    m = batch.Machine(hostname='h', subcmd='sh', filename='calc.templ/job')
    st = batch.ParameterStudy(machines=m, templates=[batch.FileTemplate('pw.in')],
                              params_lst=[[sql.SQLEntry(key='a', sqlval=i)] for i in range(ctx.ri(1, 3))], calc_root='st')
    st.write_input()
    big = 'st/calc_h/0/result' if what == 'study' else 'st/calc_h/notes'
    with open(big, 'wb') as f:
        f.write(r.bytes(ctx.ri(500, 3000)))
    before = tree(d)
    dbsize = os.path.getsize('st/calc.db')
    lim = ctx.choice([100, dbsize - 1]) if what == 'studydb' else max(dbsize * 4, 0)
    if what == 'study':
        with open(big, 'wb') as f:
            f.write(r.bytes(lim + 100))
        before = tree(d)
    res = limited(lim, st.write_input, mode='w', backup=True)
    after = tree(d)
    ctx.check(res != 'done', 'a failing backup is reported')
    lost = [k for k in before if k.startswith('st/calc_h/') and after.get(k) != before[k]]
    ctx.check(not lost, 'overwriting went on although the backup failed', lost=lost)
    if what == 'studydb':
        ctx.check(after.get('st/calc.db') == before['st/calc.db'], 'the data base was removed although its backup failed', result=res)
    else:
        old = before['st/calc.db'][1]
        ctx.check(any(v[1] == old for k, v in after.items() if k.startswith('st/calc.db')), 'the previous data base is lost')
    ctx.count('failures')


class Plain(FlexibleGetters):
    def __init__(self, **kw):
        self.set_attr_lst(sorted(kw))
        self.__dict__.update(kw)


@reg.scenario(quick=120)
def dumps(ctx):
    r = ctx.rng
    kind = ctx.pick(['struct', 'traj', 'plain', 'list', 'eos'])
    if kind == 'struct':
        obj = c06.structure(r) if hasattr(c06, 'structure') else crys.Structure(coords_frac=r.random((3, 3)), cell=np.eye(3) + .1 * r.random((3, 3)), symbols=['H', 'O', 'H'])
    elif kind == 'traj':
        obj = crys.Trajectory(coords_frac=r.random((4, 3, 3)), cell=np.eye(3) + .1 * r.random((4, 3, 3)), symbols=['H', 'O', 'H'], timestep=1.0)
    elif kind == 'plain':
        obj = Plain(a=r.normal(size=(2, 3)), b='text', c=None, d={'x': [1, 2, r.normal(size=3)]}, e=float(r.normal()))
    else:
        obj = None
    d = ctx.tmp()
    deep = ctx.coin()
    fn = os.path.join(d, 'sub/dir/x.pk' if deep else 'x.pk')
    ctx.note(kind=kind, deep=deep)
    if obj is None:
        data = [r.normal(size=3), 'a', {'b': (1, 2.5)}, None]
        import pickle
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, 'wb') as f:
            pickle.dump(data, f)
        for func in (io.read_pickle, common.cpickle_load):
            ctx.same(func(fn), data, 'pickle file')
        return
    if deep:
        ctx.raises(Exception, obj.dump, fn, mkdir=False)
    for rep in range(2):
        obj.dump(fn)
        for func in (io.read_pickle, common.cpickle_load):
            x = func(fn)
            ctx.check(type(x) is type(obj), 'type')
            same_obj(ctx, x, obj)
        y = type(obj)() if kind != 'plain' else Plain()
        y.load(fn)
        same_obj(ctx, y, obj)
        if kind in ('struct', 'traj'):
            obj.coords = obj.coords + 1.0


def same_obj(ctx, x, obj):
    ctx.check(set(x.__dict__) == set(obj.__dict__), 'attributes', got=sorted(x.__dict__), want=sorted(obj.__dict__))
    for k, v in obj.__dict__.items():
        w = x.__dict__[k]
        if isinstance(v, (np.ndarray, list, dict, str, float, int, tuple)) or v is None:
            ctx.check(differ(w, v) is None, 'attribute ' + k, got=w, want=v)
