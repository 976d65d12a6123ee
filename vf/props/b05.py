"""B05: small text and list helpers."""
import configparser
import contextlib
import io as _io
import os
import re
import warnings
import numpy as np
from vf.core import Registry, differ
from pwtools import common, batch, parse, regex, atomic_data

warnings.simplefilter('ignore')

reg = Registry('B05', 'Values are turned into text with random formats and back through the library conversions and compared; slices given as '
               'text are compared with plain slicing; nested lists are flattened and compared with an independent walk; convergence tables '
               'are read back from their columns; shell helpers are run with real commands.')


@reg.scenario(quick=600)
def slices(ctx):
    n = ctx.sz(1, 12, 150)
    a = ctx.rng.normal(size=n)

    def part():
        return ctx.choice(['', str(ctx.ri(-n, n)), str(ctx.ri(-3, 3))])
    kind = ctx.choice(['int', 'two', 'three'])
    if kind == 'int':
        i = ctx.ri(-n, n - 1)
        s, want = str(i), a[i]
    else:
        lo, hi = part(), part()
        st = ctx.choice(['', '1', '2', '-1', '-3']) if kind == 'three' else None
        s = lo + ':' + hi + (':' + st if st is not None else '')
        num = lambda x: int(x) if x else None
        want = a[slice(num(lo), num(hi), num(st or ''))]
    pad = ctx.choice(['', ' '])
    ctx.note(s=s, n=n)
    sl = common.toslice(pad + s + pad)
    ctx.same(np.asarray(a[sl]), np.asarray(want), 'elements for %r' % s)
    ctx.check(isinstance(sl, slice) == (kind != 'int'), 'type', got=sl)
    for bad in (1, None, [1], slice(1, 2)):
        ctx.raises(Exception, common.toslice, bad)


@reg.scenario(quick=200)
def bools(ctx):
    t = ctx.choice(['.true.', '1', 'true', 'on', 'yes'])
    f = ctx.choice(['.false.', '0', 'false', 'off', 'no'])
    case = ctx.choice([str.upper, str.lower, str.title, str.swapcase])
    ctx.note(t=t, f=f, case=case.__name__)
    ctx.check(common.tobool(case(t)) is True, 'true text', text=case(t))
    ctx.check(common.tobool(case(f)) is False, 'false text', text=case(f))
    for x in (True, False):
        ctx.check(common.tobool(x) is x, 'bool')
        ctx.check(common.tobool(str(x)) is x, 'str(bool)')
    i = ctx.ri(-5, 5)
    ctx.check(common.tobool(i) is (i != 0), 'integer', value=i)
    ctx.raises(Exception, common.tobool, ctx.choice(['', 'maybe', '2', 'truee', None, 1.5, [], 't', '.true']))


@reg.scenario(quick=1000)
def floats(ctx):
    r = ctx.rng
    x = float(r.normal() * 10.0 ** r.integers(-30, 30)) if ctx.coin(.8) else float(ctx.ri(-99, 99))
    fmt = ctx.choice(['%.16e', '%g', '%.3f', '%.17g', '%i', '%.1e', '%12.6e', '%.0e'])
    s = fmt % x
    want = float(s)
    e = ctx.choice(['e', 'E', 'd', 'D'])
    s = s.replace('e', e)
    if ctx.coin(.2) and not s.strip().startswith('-'):
        s = '+' + s.strip()
    if ctx.coin(.2):
        s = re.sub(r'^(\s*[+-]?)0\.', r'\1.', s)
    if ctx.coin(.2):
        s = re.sub(r'(?<=[0-9])\.0+(?=[eEdD]|\s*$)', '.', s)     # 1.d0
    want = float(s.replace('d', 'e').replace('D', 'e'))
    if 'd' in s.lower() and ctx.coin(.2):
        s = re.sub(r'([dD])\+', r'\1', s)
    kind = ctx.coin(.15) and re.search('[eEdD]', s) is not None
    if kind:
        s += ctx.choice(['_10', '_8', '_4'])
    s = ctx.choice(['', ' ', '\t']) + s + ctx.choice(['', ' ', '\n'])
    ctx.note(fmt=fmt, e=e, kind=bool(kind))
    got = common.ffloat(s)
    ctx.check(type(got) is float and got == want, 'ffloat(%r)' % s, got=got, want=want)
    if not kind:
        m = re.search(regex.float_re, s)
        ctx.check(m is not None and m.group() == s.strip(), 'float regex', text=s, got=m and m.group())
    ctx.raises(Exception, common.ffloat, ctx.choice(['', 'abc', '1d', 'd5', None, 1.0, '1 2']))
    # frepr
    ctx.check(float(common.frepr(x)) == x, 'frepr of a float is exact', got=common.frepr(x), value=x)
    ctx.check(float(common.frepr(np.float64(x))) == x, 'frepr of a numpy float is exact')
    f2 = ctx.choice(['%.3f', '%g', '%12.5e'])
    ctx.check(common.frepr(x, ffmt=f2) == f2 % x, 'frepr with format')
    i = ctx.ri(-10**9, 10**9)
    ctx.check(common.frepr(i) == str(i) and common.frepr(None) == 'None' and common.frepr(True) == 'True', 'frepr')
    t = ctx.choice(['lala', '', "it's", '1.0', 'ä\n'])
    ctx.check(common.frepr(t) == t, 'frepr of text')
    ctx.check(common.frepr([1, 'a']) == repr([1, 'a']), 'frepr of other things')


@reg.scenario(quick=400)
def sequences(ctx):
    r = ctx.rng
    kind = ctx.choice(['int', 'float', 'str'])
    n = ctx.sz(0, 8, 150)
    seq = {'int': lambda: [int(x) for x in r.integers(-999, 999, n)], 'float': lambda: [float(x) for x in r.normal(size=n)],
           'str': lambda: [str(x) for x in r.choice(['a', 'bb', 'c1', 'ä'], n)]}[kind]()
    func = {'int': int, 'float': float, 'str': str}[kind]
    sep = ctx.choice([' ', ',', ', ', '\t', ';'])
    out = {'int': str, 'float': repr, 'str': str}[kind]
    ctx.note(kind=kind, n=n, sep=sep)
    form = ctx.choice([list, tuple, np.array, iter])
    s = common.seq2str(form(seq), func=lambda x: out(func(x)), sep=sep)
    ctx.check(s == sep.join(out(x) for x in seq), 'seq2str', got=s)
    ctx.check(common.tup2str(seq, func=out, sep=sep) == s, 'tup2str')
    if n:
        for g, w in ((common.str2seq(s, func=func, sep=sep), seq), (common.str2tup(s, func=func, sep=sep), tuple(seq))):
            ctx.check(type(g) is type(w) and g == w, 'back', got=g, want=w)
        if sep in ' \t':
            ctx.check(common.str2seq('  ' + s + ' \n', func=func) == seq, 'white space')
    if kind == 'int' and n:
        ctx.check(common.str2seq(common.seq2str(seq)) == seq, 'defaults')

    # nested data
    def nest(depth):
        k = ctx.ri(0, 4)
        res = []
        for _ in range(k):
            t = ctx.choice(['leaf', 'leaf', 'nest', 'str', 'bytes', 'none', 'arr', 'tup', 'gen', 'set0'])
            if t == 'nest' and depth:
                res.append(nest(depth - 1))
            elif t == 'tup' and depth:
                res.append(tuple(nest(depth - 1)))
            elif t == 'str':
                res.append(ctx.choice(['', 'text', 'a b']))
            elif t == 'bytes':
                res.append(b'ab')
            elif t == 'none':
                res.append(None)
            elif t == 'arr':
                res.append(r.integers(0, 9, size=ctx.choice([(2,), (2, 2), (0,), ()])))
            elif t == 'gen':
                res.append(range(ctx.sz(0, 3, 15)))
            elif t == 'set0':
                res.append(set())
            else:
                res.append(ctx.ri(0, 99))
        return res

    def walk(x):
        if isinstance(x, np.ndarray):
            return [v for y in x for v in walk(y)] if x.ndim else [x]
        if isinstance(x, (list, tuple, set, range)):
            return [v for y in x for v in walk(y)]
        return [x]
    data = nest(4)
    want = walk(data)
    for f in (common.flatten, lambda x: list(common.iflatten(x))):
        got = f(data if ctx.coin() else tuple(data))
        ctx.check(len(got) == len(want) and all((a is b) or (type(a) is type(b) and a == b) for a, b in zip(got, want)), 'flatten',
                  got=got, want=want)
    # removing
    lst = [int(x) for x in r.integers(0, 9, ctx.sz(1, 12, 150))]
    items = [int(x) for x in r.permutation(lst)[:ctx.ri(0, len(lst))]]
    keep = list(lst)
    res = common.pop_from_list(lst, items if ctx.coin() else tuple(items))
    ref = list(lst)
    for i in items:
        ref.remove(i)
    ctx.check(lst == keep, 'input list changed')
    ctx.check(res == ref and res is not lst, 'pop_from_list', got=res, want=ref)
    ctx.raises(ValueError, common.pop_from_list, lst, [77])
    for x, seqlike in (([1], True), ((), True), (np.zeros(2), True), (range(3), True), ('text', False), (b'x', False), (1.0, False),
                       (None, False), (iter([1]), True)):
        ctx.check(common.is_seq(x) is seqlike, 'is_seq', arg=x)
        y = common.asseq(x)
        ctx.check((y is x) if seqlike else (isinstance(y, list) and len(y) == 1 and y[0] is x), 'asseq', arg=x, got=y)
    with open(os.devnull) as f:
        ctx.check(common.is_seq(f) is False, 'is_seq of a file')
    # dict helpers
    d = {str(k): ctx.choice([1, 'a', None, [1]]) for k in lst}
    o = common.dict2class(d, name='Bar')
    ctx.check(o.__dict__ == d and type(o).__name__ == 'Bar', 'dict2class')
    o.new = 1
    ctx.check('new' not in d, 'dict2class is independent')
    ctx.check(common.dict2str(d) == ''.join('%s: %r\n' % (k, v) for k, v in d.items()), 'dict2str')
    buf = _io.StringIO()
    with contextlib.redirect_stdout(buf):
        common.print_dct(d)
    ctx.check(buf.getvalue() == common.dict2str(d) + '\n', 'print_dct')


@reg.scenario(quick=500)
def tables(ctx):
    r = ctx.rng
    n, ny = ctx.sz(1, 8, 120), ctx.sz(1, 4, 12)
    one = ny == 1 and ctx.coin()
    xx = ctx.choice([[str(k) * 2 for k in range(n)], ['%d %d %d' % (k, k, k) for k in range(n)], [float(k) for k in range(n)], list(range(n)),
                     np.arange(n) * 10])
    yy = np.round(r.normal(size=(ny, n)) * 10.0 ** r.integers(0, 4), 4)
    if ctx.coin(.2):
        yy = yy.astype(int)
    arg = ctx.choice([np.array, lambda a: [list(x) for x in a], lambda a: [np.array(x) for x in a], lambda a: tuple(tuple(x) for x in a)])(yy)
    if one:
        arg = arg[0]
    keep = np.array(arg)
    mode, orig, ad = ctx.choice(['last', 'next']), ctx.coin(), ctx.coin()
    f = ctx.choice([None, '%20.6f', '%18.8e'])
    kw = {} if f is None else dict(ffmt=f, sfmt='%25s')
    ctx.note(n=n, ny=ny, mode=mode, orig=orig, absdiff=ad, f=f, int=yy.dtype.kind == 'i', one=one)
    txt = batch.conv_table(xx, arg, mode=mode, orig=orig, absdiff=ad, **kw)
    ctx.same(np.array(arg), keep, 'data unchanged')
    lines = txt.split('\n')
    ctx.check(len(lines) == n + 1 and lines[-1] == '', 'one line per value', got=len(lines), n=n)
    ws, wf, ff = (15, 15, '%15.4f') if f is None else (25, {'%20.6f': 20, '%18.8e': 18}[f], f)
    for i, l in enumerate(lines[:-1]):
        ctx.check(l[:ws] == ('%%%ds' % ws) % xx[i], 'parameter', line=l, want=xx[i])
        rest = [l[k:k + wf] for k in range(ws, len(l), wf)]
        want = []
        for j in range(ny):
            dv = yy[j, -1] - yy[j, i] if mode == 'last' else (0 if i == n - 1 else yy[j, i + 1] - yy[j, i])
            want.append(abs(dv) if ad else dv)
            if orig:
                want.append(yy[j, i])
        ctx.check(len(rest) == len(want), 'columns', line=l, want=want)
        for g, w in zip(rest, want):
            ctx.check(abs(float(g) - float(w)) <= 0.51e-4 + 1e-8 * abs(w), 'value', line=l, got=g, want=w)
    ctx.raises(Exception, batch.conv_table, xx, arg, mode='other')


@reg.scenario(quick=300)
def text_arrays(ctx):
    """numbers found in text -> arrays (used by all readers)"""
    r = ctx.rng
    n, m, k = ctx.sz(1, 6, 120), ctx.sz(2, 5, 12), ctx.sz(1, 4, 12)
    a = r.normal(size=(n, m)) * 10.0 ** r.integers(-9, 9)
    txt = '\n'.join(' '.join('%.17g' % x for x in row) for row in a) + ctx.choice(['', '\n'])
    ctx.note(n=n, m=m)
    ctx.same(parse.arr2d_from_txt(txt), a, 'arr2d_from_txt')
    ctx.same(parse.arr1d_from_txt(' '.join('%.17g' % x for x in a[0])), a[0], 'row')
    ctx.same(parse.arr1d_from_txt('\n'.join('%.17g' % x for x in a[0])), a[0], 'column')
    t3 = r.normal(size=(k, n, m))
    ctx.same(parse.traj_from_txt('\n'.join('%.17g' % x for x in t3.ravel()), shape=(k, n, m)), t3, 'traj_from_txt')
    ctx.raises(Exception, parse.traj_from_txt, '1 2 3', shape=(k, n, m + 3))
    ctx.raises(AssertionError, parse.traj_from_txt, '1 2', shape=(1, 2))
    e = ctx.choice(['', ' ', '\n \n'])
    ctx.check(parse.int_from_txt(e) is None and parse.float_from_txt(e) is None and parse.nstep_from_txt(e) == 0 and
              parse.arr1d_from_txt(e) is None and parse.arr2d_from_txt(e) is None and parse.traj_from_txt(e, shape=(1, 2, 3)) is None, 'no text')
    i = ctx.ri(-999, 999)
    ctx.check(parse.int_from_txt(' %d\n' % i) == i and parse.nstep_from_txt('%d\n' % abs(i)) == abs(i), 'int')
    ctx.check(parse.float_from_txt(' %.17g\n' % a[0, 0]) == a[0, 0], 'float')
    ctx.same(parse.axis_lens([a, None, t3, a[0]]), [n, 0, k, m], 'axis_lens')
    ctx.same(parse.axis_lens([a, None, t3], axis=1), [m, 0, n], 'axis_lens, axis=1')


@reg.scenario(quick=150)
def files(ctx):
    d = ctx.tmp()
    txt = ''.join(str(x) for x in ctx.rng.choice(['a', '\n', ' ', 'ä', '%', '\\', '\t', '1.0'], ctx.sz(0, 50, 5000)))
    fn = os.path.join(d, ctx.choice(['f', 'x y', 'ü.txt']))
    ctx.note(n=len(txt))
    for t in ('longer than the text that follows ' * 5, txt):
        common.file_write(fn, t)
        ctx.check(common.file_read(fn) == t, 'file_read')
    ctx.check(''.join(common.file_readlines(fn)) == txt and common.file_readlines(fn) == txt.splitlines(True), 'file_readlines')
    os.chdir(d)
    ctx.check(common.fullpath('a/../b') == os.path.join(os.getcwd(), 'b'), 'fullpath')
    ctx.check(common.fullpath('~/x') == os.path.join(os.path.expanduser('~'), 'x'), 'fullpath of home')
    ctx.check(common.fpj('a', 'b') == common.fullpath('a/b') and common.pj('a', 'b') == 'a/b', 'fullpathjoin')
    for p in ('', ' ', 'p/q/r', 'p/q/r', 'p'):
        common.makedirs(p)
        ctx.check(p.strip() == '' or os.path.isdir(p), 'makedirs')
    ctx.check(sorted(os.listdir(d)) == sorted([os.path.basename(fn), 'p']), 'nothing else created', got=os.listdir(d))
    with open(fn) as f:
        ctx.check(common.get_filename(f) == fn, 'get_filename')
    ctx.check(isinstance(common.get_filename(_io.StringIO()), str), 'get_filename of an object')
    # shell
    big = ctx.choice([0, 10, 300000])
    out = common.backtick("head -c %d /dev/zero | tr '\\0' 'x'; printf 'a%%s\\n' end" % big)
    ctx.check(out == 'x' * big + 'aend\n', 'backtick output', got=len(out), want=big + 5)
    ctx.raises(Exception, common.backtick, 'echo problem >&2')
    ctx.check(common.backtick('yes | head -n 3') == 'y\ny\ny\n', 'closed pipe')
    common.system('echo hi > sys.txt')
    ctx.check(open('sys.txt').read() == 'hi\n', 'system has finished when it returns')
    ctx.raises(Exception, common.system, 'exit 3')
    ctx.raises(NotImplementedError, common.system, 'true', wait=False)
    ctx.raises(AssertionError, common.assert_cond, False, 'x')
    ctx.check(common.assert_cond(True, 'x') is None, 'assert_cond')
    c = configparser.ConfigParser()
    info = {'s%d' % i: {'k%d' % j: str(ctx.ri(0, 99)) for j in range(ctx.sz(0, 3, 15))} for i in range(ctx.sz(0, 3, 15))}
    ctx.check(common.add_to_config(c, info) is c, 'add_to_config')
    ctx.check({s: dict(c.items(s)) for s in c.sections()} == info, 'config', got={s: dict(c.items(s)) for s in c.sections()}, want=info)
