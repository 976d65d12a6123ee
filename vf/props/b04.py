"""B04: text templates."""
import contextlib
import io as _io
import itertools
import os
import numpy as np
from vf.core import Registry
from vf.props.b01 import render, FUNCS
from pwtools import common, batch, sql

reg = Registry('B04', 'Random texts made of placeholders (names that are part of each other, regex and format characters, values that look '
               'like placeholders) are filled in both modes, with the placeholders given in every or several orders, and compared with an '
               'independent left-to-right renderer; the printed warnings are compared with the actual occurrences.')

KEYS = ['XXXFOO', 'XXXFOOBAR', 'XXXF', 'XXX', '@a@', '@b@', '@ab@', 'a.b', 'a+b', '(x)', '[k]', '$x^', '\\d', '%s', '%(x)s', 'two words', 'ä', 'X\nY', '*', 'A|B', '{0}']
LIT = ['text', ' ', '\n', '=', 'XX', '@', 'FOO', 'BAR', '%', '\\', 'a', 'b', '1.0', 'aXb', 'd', '$', '\t', "'", '"', 'ü', 'k']


def val(ctx, conv):
    r = ctx.rng
    k = ctx.choice(['str', 'str', 'key'] + (['int', 'float', 'np', 'none', 'tuple', 'bool'] if conv else []))
    return {'str': ctx.choice(['', 'v', '1.5', 'two words', r'\1', r'\g<0>', '%d', 'new\nline', '&', '.*']), 'key': ctx.choice(KEYS),
            'int': int(r.integers(-99, 99)), 'float': float(r.normal() * 10.0 ** r.integers(-20, 20)), 'np': np.float64(r.normal()),
            'none': None, 'tuple': (1, 'a'), 'bool': True}[k]


def call(func, *args, **kw):
    out = _io.StringIO()
    with contextlib.redirect_stdout(out):
        res = func(*args, **kw)
    return res, out.getvalue()


@reg.scenario(quick=1500)
def txt_mode(ctx):
    r = ctx.rng
    nk = ctx.ri(0, 5)
    keys = [str(x) for x in r.choice(KEYS, nk, replace=False)]
    conv = ctx.coin()
    dct = {k: val(ctx, conv) for k in keys}
    txt = ''.join(str(x) for x in r.choice(LIT + keys * 4 + KEYS, ctx.sz(0, 30, 2000)))
    ctx.note(nk=nk, conv=conv, n=len(txt))
    want = render(txt, dct)
    orders = list(itertools.permutations(keys)) if nk <= 3 else [list(r.permutation(keys)) for _ in range(5)]
    for o in orders:
        d = {str(k): dct[k] for k in o}
        wn, wm, disp = ctx.coin(), ctx.coin(), ctx.coin()
        got, out = call(common.template_replace, txt, d, conv=conv, mode='txt', warn_not_found=wn, warn_mult_found=wm, disp=disp)
        ctx.check(got == want, 'filled text', got=got, want=want, txt=txt, dct=d)
        ctx.check(list(d) == [str(k) for k in o] and all(d[k] is dct[k] for k in d), 'the dictionary changed')
        for k in keys:
            missing = k not in txt
            if '\n' in k:
                continue
            ctx.check(('key not found: %s\n' % k in out) == (wn and missing), 'warning for a missing placeholder', out=out, key=k, asked=wn)
            ctx.check(("key '%s' found %i times" % (k, txt.count(k)) in out) == (wm and txt.count(k) > 1), 'warning for repeated placeholder',
                      out=out, key=k, asked=wm, count=txt.count(k))
        if not (wn or wm or disp):
            ctx.check(out == '', 'nothing printed', out=out)
    # values which are not text must be converted explicitly
    if keys and txt:
        ctx.raises(Exception, call, common.template_replace, keys[0] + 'x', {keys[0]: 1.0}, conv=False, mode='txt')
    ctx.raises(ValueError, common.template_replace, dct, txt)
    ctx.raises(Exception, common.template_replace, txt, dct, mode='other')
    # through a file
    fn = os.path.join(ctx.tmp(), 'f')
    with open(fn, 'w', newline='') as f:
        f.write(txt)
    call(common.file_template_replace, fn, dct, mode='txt', conv=conv, disp=False)
    ctx.check(open(fn, newline='').read() == want, 'file', got=open(fn).read(), want=want)


@reg.scenario(quick=800)
def dct_mode(ctx):
    r = ctx.rng
    names = [str(x) for x in r.choice(['foo', 'foobar', 'f', 'pi', 'one', 'XXX', 'a b', 'a.b', 'n'], ctx.ri(1, 5), replace=False)]
    kinds = {n: ctx.choice(['int', 'float', 'str']) for n in names}
    vals = {n: int(r.integers(-9999, 9999)) if kinds[n] == 'int' else float(r.normal() * 10.0 ** r.integers(-20, 20)) if kinds[n] == 'float'
            else ctx.choice(['', 'v', '%(foo)s', '%d', 'two words', '\\1']) for n in names}
    parts, want = [], []
    used = set()
    for _ in range(ctx.sz(0, 20, 300)):
        if ctx.coin(.6):
            n = ctx.choice(names)
            fmt = {'int': ['i', 'd', '5d', 's', '.3f', '05i'], 'float': ['.16e', 'g', '12.3f', 's', '-20.5e'], 'str': ['s', '10s', '-8s']}[kinds[n]]
            f = ctx.choice(fmt)
            parts.append('%%(%s)%s' % (n, f))
            want.append(('%' + f) % (vals[n],))
            used.add(n)
        else:
            x = ctx.choice(['text', ' ', '\n', '%%', 'XXX', '(foo)s', 'ä'])
            parts.append(x)
            want.append('%' if x == '%%' else x)
    txt, want = ''.join(parts), ''.join(want)
    ctx.note(names=len(names), parts=len(parts))
    for _ in range(2):
        d = {str(k): vals[k] for k in r.permutation(names)}
        d0 = dict(d)
        got, out = call(common.template_replace, txt, d)
        ctx.check(got == want, 'filled text', got=got, want=want, txt=txt)
        ctx.same(d, d0, 'dictionary')
        for n in names:
            ctx.check(('key not found: %%(%s)\n' % n in out) == ('%%(%s)' % n not in txt), 'warning', out=out, name=n)
    if used:
        ctx.raises(KeyError, call, common.template_replace, txt, {k: v for k, v in vals.items() if k != sorted(used)[0]})


@reg.scenario(quick=500)
def file_template(ctx):
    """FileTemplate: both value kinds, key lists, text given, functions"""
    r = ctx.rng
    f = FUNCS[ctx.choice(sorted(FUNCS))]
    names = [str(x) for x in r.choice(['a', 'ab', 'abc', 'foo', 'foo1', 'x_y', 'idx', 'prefix'], ctx.ri(1, 6), replace=False)]
    vals = {n: val(ctx, True) for n in names}
    txt = ''.join(str(x) for x in r.choice(LIT + [f(n) for n in names] * 3 + [f('other')], ctx.sz(1, 40, 2000)))
    d = ctx.tmp()
    td = os.path.join(d, 'templ')
    os.makedirs(td)
    fn = os.path.join(td, 'pw.in')
    with open(fn, 'w') as fh:
        fh.write(txt)
    keys = ctx.choice([None, None, names[:1], names[::2], []])
    own = ctx.coin(.3) and keys != []
    kw = dict(keys=keys, func=f)
    if own:
        txt = txt + ' own ' + f(names[0])
        kw['txt'] = txt
    t = batch.FileTemplate(filename=fn, **kw) if ctx.coin() else batch.FileTemplate(basename='pw.in', templ_dir=td, **kw)
    mode = ctx.choice(['dct', 'sql', 'writesql'])
    ctx.note(mode=mode, own=own, keys=-1 if keys is None else len(keys), n=len(names))
    use = {f(k): vals[k] for k in (names if keys is None else keys)}
    want = txt if keys == [] else render(txt, use)
    for rep in range(2):
        order = [str(k) for k in r.permutation(names)]
        out = os.path.join(d, 'calc%d' % rep)
        os.makedirs(out)
        if mode == 'dct':
            call(t.write, {k: vals[k] for k in order}, out)
        else:
            dd = {}
            for k in order:
                v = vals[k]
                if v is None or isinstance(v, (tuple, bool)) or ctx.coin():
                    e = sql.SQLEntry(sqlval='db', fileval=v) if v is not None else sql.SQLEntry(sqlval=None)
                else:
                    e = sql.SQLEntry(sqlval=v)
                dd[k] = e
            if mode == 'sql':
                call(t.write, dd, calc_dir=out, mode='sql')
            else:
                call(t.writesql, dd, out)
        ctx.check(os.listdir(out) == ['pw.in'], 'files', got=os.listdir(out))
        got = open(os.path.join(out, 'pw.in')).read()
        ctx.check(got == want, 'written file', got=got, want=want, txt=txt)
    ctx.raises(AssertionError, t.write, {}, d, mode='nope')
