"""B01: parameter studies."""
import os
import re
import shutil
import sqlite3
import subprocess
import numpy as np
from vf.core import Registry
from pwtools import batch, sql, comb, common

reg = Registry('B01', 'Random histories of writing, extending, overwriting and editing parameter studies (1..3 machines, incomplete and nested '
               'parameter sets, tricky names and values, stray files, user columns, removed rows) are replayed against a model of the '
               'whole directory tree and data base; after every step every file, every row (read with plain sqlite3) and every backup is '
               'compared, and the generated run script is executed.')


def snap(d):
    """{relative path: bytes or None for directories}"""
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = None
        for x in files:
            with open(os.path.join(root, x), 'rb') as f:
                out[os.path.relpath(os.path.join(root, x), d)] = f.read()
    return out


def rows(fn, table):
    c = sqlite3.connect(fn)
    try:
        cur = c.execute('select * from %s order by rowid' % table)
        names = [x[0] for x in cur.description]
        return [dict(zip(names, r)) for r in cur.fetchall()]
    finally:
        c.close()


def render(txt, rules):
    """independent: walk through the text, at each place take the longest placeholder"""
    keys = sorted(rules, key=len, reverse=True)
    out, i = [], 0
    while i < len(txt):
        for k in keys:
            if txt.startswith(k, i):
                v = rules[k]
                out.append('%.16e' % v if isinstance(v, float) else v if isinstance(v, str) else repr(v))
                i += len(k)
                break
        else:
            out.append(txt[i])
            i += 1
    return ''.join(out)


FUNCS = {'XXX': lambda x: 'XXX' + x.upper(), '@': lambda x: '@%s@' % x, '<': lambda x: '<' + x + '>'}
NAMES = ['ecut', 'ecutwfc', 'ec', 'kpts', 'pseudo_dir', 'a', 'ab', 'x1', 'x10', 'foo', 'runs', 'idx2', 'calc', 'rev', 'conv_thr']


def value(ctx, kind):
    r = ctx.rng
    if kind == 'number':
        # integers and floats in one column
        kind = ctx.choice(['int', 'float'])
    if kind == 'int':
        return int(r.integers(-10**6, 10**6))
    if kind == 'float':
        return float(r.normal() * 10.0 ** r.integers(-12, 12))
    if kind == 'npfloat':
        return np.float64(r.normal())
    return ctx.choice(['lala', 'two words', 'XXXA', '@ab@', r'a\1b\g<0>', '%(foo)s 100%', 'line1\nline2', "it's", '', 'äöü', 'K_POINTS\n2 2 2'])


class Study:
    def __init__(self, ctx, name):
        r = ctx.rng
        self.ctx, self.fkey = ctx, ctx.choice(sorted(FUNCS))
        self.root = os.path.join(ctx.tmp(), name)
        os.makedirs(self.root)
        self.templ = os.path.join(self.root, 'templ')
        os.makedirs(self.templ)
        self.calc_root = os.path.join(self.root, 'my study' if ctx.coin(.2) else 'st')
        self.table = ctx.choice(['calc', 'calc', 'study', 't2'])
        self.db_name = ctx.choice(['calc.db', 'x.sqlite'])
        self.prefix = ctx.choice(['calc', 'run-1', 'calc dir' if ctx.coin(.3) else 'c'])
        self.study_name = ctx.choice(['calc', 'ecut_test', 'n'])
        self.names = [str(x) for x in r.choice(NAMES, ctx.ri(1, 4), replace=False)]
        self.kinds = {n: ctx.choice(['int', 'float', 'npfloat', 'str', 'number']) for n in self.names}
        self.texts = {}
        self.dbfn = os.path.join(self.calc_root, self.db_name)
        self.rows = []          # expected rows
        self.have_db = False
        self.rev = -1
        ctx.note(table=self.table, prefix=self.prefix, func=self.fkey, nparams=len(self.names))

    def text(self, name, extra=()):
        """a template"""
        r, f = self.ctx.rng, FUNCS[self.fkey]
        words = [f(n) for n in self.names] + [f(x) for x in ('idx', 'revision', 'study_name', 'calc_name', 'scratch', 'home', 'subcmd', 'nope')]
        words += ['\n', ' ', ' = ', '&control', '/', '%', '%d', '\\n', '$', "'", 'XXX', '@', 'ä']
        t = ''.join(str(x) for x in r.choice(words, self.ctx.ri(0, 25))) + self.ctx.choice(['', '\n'])
        with open(os.path.join(self.templ, name), 'w') as fh:
            fh.write(t)
        self.texts[name] = t
        return t

    def machine(self, host):
        ctx = self.ctx
        jn = 'job.' + host
        f = FUNCS[self.fkey]
        t = '#!/bin/sh\n# %s %s\necho "ran %s" >> ran.txt\n' % (f('scratch'), f('home'), f('idx'))
        with open(os.path.join(self.templ, jn), 'w') as fh:
            fh.write(t)
        self.texts[jn] = t
        kw = dict(hostname=host, subcmd='sh', scratch='/scratch/' + host, home=ctx.choice([None, '/home/x']))
        if ctx.coin():
            return batch.Machine(filename=os.path.join(self.templ, jn), **kw), jn
        return batch.Machine(template=batch.FileTemplate(jn, templ_dir=self.templ, func=f), **kw), jn

    def params(self):
        ctx, r = self.ctx, self.ctx.rng
        ns = ctx.sz(1, 4, 14)
        out, vals = [], []
        for _ in range(ns):
            use = [n for n in self.names if ctx.coin(.85)] or [self.names[0]]
            ents, v = [], {}
            for n in use:
                sv = value(ctx, self.kinds[n])
                if ctx.coin(.06):
                    sv = None
                fv = ctx.choice(['FILE %s' % n, 7, 1.5]) if ctx.coin(.2) else None
                ents.append(sql.SQLEntry(key=n, sqlval=sv, fileval=fv) if ctx.coin() or sv is None else
                            sql.sql_column(n, [sv], fileval_func=(lambda x, fv=fv: x if fv is None else fv))[0])
                v[n] = (sv, sv if fv is None else fv)
            if len(ents) > 1 and ctx.coin(.4):
                ents = [ents[0], [ents[1:]]] if ctx.coin() else [tuple(ents)]
            out.append(ents)
            vals.append(v)
        return out, vals

    def step(self, mode, backup, excl, nmach):
        ctx = self.ctx
        f = FUNCS[self.fkey]
        machines, jobs = [], {}
        hosts = ['mars', 'local', 'host 3' if ctx.coin(.1) else 'h3'][:nmach]
        for h in hosts:
            m, jn = self.machine(h)
            machines.append(m)
            jobs[h] = jn
        # machine given by file name uses the default placeholder function
        mfunc = {m.hostname: m.template.func for m in machines}
        templates, tspec = [], []
        for i in range(ctx.ri(0, 3)):
            name = ctx.choice(['pw.in', 'in.lmp', 'a.txt', 'k'])
            if name in [x[0] for x in tspec]:
                continue
            t = self.text(name)
            how = ctx.choice(['all', 'all', 'keys', 'copy', 'txt'])
            keys = None
            kw = dict(func=f)
            if how == 'keys':
                keys = [str(x) for x in ctx.rng.choice(self.names + ['idx', 'revision', 'calc_name'], 2, replace=False)]
                kw['keys'] = keys
            elif how == 'copy':
                kw['keys'] = []
            elif how == 'txt':
                t = t + '\ngiven as text ' + f('idx')
                kw['txt'] = t
            if ctx.coin():
                templates.append(batch.FileTemplate(name, templ_dir=self.templ, **kw))
            else:
                templates.append(batch.FileTemplate(filename=os.path.join(self.templ, name), **kw))
            tspec.append((name, t, how, keys))
        plst, vals = self.params()
        if any(how == 'keys' for _, _, how, _ in tspec):
            # keys must be there in every set
            need = set(k for _, _, how, ks in tspec if how == 'keys' for k in ks)
            if any(not (need - {'idx', 'revision', 'calc_name'}) <= set(v) for v in vals):
                tspec2 = [(t, s) for t, s in zip(templates, tspec) if s[2] != 'keys']
                templates, tspec = [t for t, _ in tspec2], [s for _, s in tspec2]
        before = snap(self.calc_root) if os.path.isdir(self.calc_root) else {}
        ntempl = len(templates)
        st = batch.ParameterStudy(machines=machines if nmach > 1 or ctx.coin() else machines[0], templates=templates,
                                  params_lst=plst, study_name=self.study_name, db_name=self.db_name, db_table=self.table,
                                  calc_root=self.calc_root, calc_dir_prefix=self.prefix)
        kw = {}
        if mode != 'a' or ctx.coin():
            kw['mode'] = mode
        if not backup or ctx.coin():
            kw['backup'] = backup
        if not excl or ctx.coin():
            kw['excl'] = excl
        sleep = 0
        st.write_input(**kw)
        ctx.check(len(templates) == ntempl, "the caller's list of templates changed")
        after = snap(self.calc_root)
        # ---- model
        had_db = self.have_db
        old_rows = self.rows
        if mode == 'w' or not had_db:
            self.rows, self.rev, start = [], 0, 0
        else:
            ids = [x['idx'] for x in old_rows]
            start = max(ids) + 1 if ids else 0
            revs = [x['revision'] for x in old_rows]
            self.rev = max(revs) + 1 if revs else 0
        self.have_db = True
        want = dict(before)
        free = lambda base: base + '.%d' % next(i for i in range(1000) if base + '.%d' % i not in before)
        if had_db and backup:
            want[free(self.db_name)] = before[self.db_name]
        files = {}
        for h in hosts:
            d = self.prefix + '_' + h
            old = {k: v for k, v in before.items() if k == d or k.startswith(d + '/')}
            if old and backup:
                b = free(d)
                want.update({b + k[len(d):]: v for k, v in old.items()})
            if mode == 'w':
                for k in old:
                    want.pop(k, None)
            want[d] = None
            for i, v in enumerate(vals):
                idx = start + i
                sub = '%s/%d' % (d, idx)
                want[sub] = None
                mach = next(m for m in machines if m.hostname == h)
                rep = {k: x[1] for k, x in v.items()}
                rep.update(revision=self.rev, study_name=self.study_name, idx=idx, calc_name='%s_run%d' % (self.study_name, idx))
                rep.update(subcmd=mach.subcmd, scratch=mach.scratch, home=mach.home)
                for name, t, how, keys in tspec:
                    if how != 'copy':
                        use = rep if keys is None else {k: rep[k] for k in keys}
                        t = render(t, {f(k): x for k, x in use.items()})
                    want['%s/%s' % (sub, name)] = t.encode()
                want['%s/%s' % (sub, jobs[h])] = render(self.texts[jobs[h]], {mfunc[h](k): x for k, x in rep.items()}).encode()
            want[d + '/run.sh'] = after.get(d + '/run.sh')
            # the run script, executed
            if ' ' in self.calc_root + d:
                continue
            p = subprocess.run(['sh', 'run.sh'], cwd=os.path.join(self.calc_root, d), capture_output=True, text=True)
            ctx.check(p.returncode == 0 and not p.stderr, 'run script', out=p.stderr, script=after.get(d + '/run.sh'))
            ran = {k: v for k, v in snap(os.path.join(self.calc_root, d)).items() if d + '/' + k not in after or after[d + '/' + k] != v}
            ctx.same(sorted(ran), sorted('%d/ran.txt' % (start + i) for i in range(len(vals))),
                     'the run script starts exactly the new calculations')
            ctx.count('calculations run', len(vals))
        for i, v in enumerate(vals):
            idx = start + i
            row = {k: x[0] for k, x in v.items()}
            row.update(revision=self.rev, study_name=self.study_name, idx=idx, calc_name='%s_run%d' % (self.study_name, idx),
                       hostname=','.join(hosts))
            self.rows.append(row)
        if excl and self.rev > 0:
            old = [str(x['idx']) for x in self.rows if x['revision'] < self.rev]
            want['excl_push'] = after.get('excl_push')
            ctx.same((after.get('excl_push') or b'').decode().split('\n'), old, 'excl_push')
        want[self.db_name] = after.get(self.db_name)
        bad = sorted(k for k in set(want) | set(after) if want.get(k, 'absent') != after.get(k, 'absent'))
        if bad:
            k = bad[0]
            ctx.fail('directory tree after the step differs in %s' % bad[:8], mode=mode, backup=backup, file=k,
                     got=after.get(k, 'absent'), want=want.get(k, 'absent'))
        ctx.observed += len(after)
        self.check_db()
        ctx.count('steps')
        ctx.count('files', len(after))

    def check_db(self):
        ctx = self.ctx
        got = rows(self.dbfn, self.table)
        ctx.check(len(got) == len(self.rows), 'number of rows', got=len(got), want=len(self.rows))
        cols = set(k for x in self.rows for k in x)
        for g, w in zip(got, self.rows):
            ctx.check(cols <= set(g), 'columns', got=sorted(g), want=sorted(cols))
            for k in g:
                a, b = g[k], w.get(k)
                ctx.check(a == b and (a is None) == (b is None) and isinstance(a, str) == isinstance(b, str) and
                          (isinstance(a, float) == isinstance(b, float) or self.kinds.get(k) == 'number'), 'row %r column %s' % (w['idx'], k), got=a, want=b)

    def edit(self):
        """what users do between the steps"""
        ctx = self.ctx
        what = ctx.choice(['result', 'stray', 'column', 'rmrow', 'allrows', 'rmdir', 'none'])
        c = sqlite3.connect(self.dbfn)
        if what == 'result':
            for root, dirs, files in os.walk(self.calc_root):
                if files and ctx.coin(.5) and root != self.calc_root:
                    with open(os.path.join(root, 'out.%d' % ctx.ri(0, 9)), 'wb') as f:
                        f.write(ctx.rng.bytes(50))
        elif what == 'stray':
            n = ctx.choice([self.prefix + '_mars.1', self.prefix + '_mars.bak', self.db_name + '.0', 'notes', self.prefix + '_other'])
            p = os.path.join(self.calc_root, n)
            if not os.path.exists(p):
                if ctx.coin():
                    with open(p, 'w') as f:
                        f.write('mine')
                else:
                    os.makedirs(os.path.join(p, '0'))
        elif what == 'column':
            n = 'user%d' % ctx.ri(0, 99)
            if self.rows and n not in self.rows[0]:
                db = sql.SQLiteDB(self.dbfn, table=self.table)
                vals = [float(x) for x in ctx.rng.normal(size=len(self.rows))]
                db.attach_column(n, vals)
                db.finish()
                for r, v in zip(self.rows, vals):
                    r[n] = v
        elif what == 'rmrow' and len(self.rows) > 1:
            i = ctx.ri(0, len(self.rows) - 1)
            c.execute('delete from %s where idx=%d' % (self.table, self.rows[i]['idx']))
            # (rows keep their order; attach_column addresses by rowid)
            if i != len(self.rows) - 1:
                c.execute('vacuum') if False else None
                c.commit()
                c.close()
                c = sqlite3.connect(self.dbfn)
                c.execute('create table tmp_copy as select * from %s order by rowid' % self.table)
                c.execute('delete from %s' % self.table)
                c.execute('insert into %s select * from tmp_copy' % self.table)
                c.execute('drop table tmp_copy')
            del self.rows[i]
        elif what == 'allrows' and ctx.coin(.5):
            c.execute('delete from ' + self.table)
            self.rows = []
        elif what == 'rmdir' and self.rows:
            d = os.path.join(self.calc_root, self.prefix + '_mars', str(self.rows[0]['idx']))
            if os.path.isdir(d):
                shutil.rmtree(d)
        c.commit()
        c.close()
        return what


@reg.scenario(quick=400)
def history(ctx):
    st = Study(ctx, 's')
    hist = []
    n = ctx.ri(1, 5)
    for i in range(n):
        mode = 'a' if ctx.coin(.7) else 'w'
        backup = ctx.coin(.75)
        excl = ctx.coin(.8)
        nm = ctx.choice([1, 1, 2, 3])
        hist.append('%s%d%d%d' % (mode, backup, excl, nm))
        st.step(mode, backup, excl, nm)
        if i < n - 1:
            hist.append(st.edit())
    ctx.note(history=' '.join(hist))


@reg.scenario(quick=60)
def calculation(ctx):
    """a single Calculation and FileTemplates used directly"""
    f = FUNCS[ctx.choice(sorted(FUNCS))]
    d = ctx.tmp()
    td = os.path.join(d, 'calc.templ')
    os.makedirs(td)
    names = [str(x) for x in ctx.rng.choice(NAMES, ctx.ri(1, 5), replace=False)]
    kinds = {n: ctx.choice(['int', 'float', 'str']) for n in names}
    v = {n: value(ctx, kinds[n]) for n in names}
    words = [f(n) for n in names] + [' ', '\n', 'x', '%s', 'XXX']
    t = ''.join(str(x) for x in ctx.rng.choice(words, 30))
    with open(os.path.join(td, 'pw.in'), 'w') as fh:
        fh.write(t)
    keys = ctx.choice([None, names[:2], []])
    ctx.note(n=len(names), keys=-1 if keys is None else len(keys))
    tpl = batch.FileTemplate('pw.in', templ_dir=td, keys=keys, func=f)
    use = {f(k): v[k] for k in (names if keys is None else keys)}
    want = t if keys == [] else render(t, use)
    o1, o2 = os.path.join(d, 'o1'), os.path.join(d, 'o2/deep')
    os.makedirs(o1)
    tpl.write(dict(v), o1)
    ctx.same(open(os.path.join(o1, 'pw.in')).read(), want, 'FileTemplate.write')
    dct = {k: sql.SQLEntry(key=k, sqlval=0, fileval=x) if ctx.coin() else sql.SQLEntry(key=k, sqlval=x) for k, x in v.items()}
    ent = list(dct.values())
    if not all(x.fileval == v[x.key] for x in ent):
        ctx.fail('fileval')
    calc = batch.Calculation(templates=[tpl], params=ent, calc_dir=o2)
    for _ in range(2):
        calc.write_input()
        ctx.same(open(os.path.join(o2, 'pw.in')).read(), want, 'Calculation.write_input')
    rec = calc.get_sql_record()
    ctx.check(sorted(rec) == sorted(names) and all(rec[e.key] is e for e in ent), 'record')
    ctx.same(open(os.path.join(td, 'pw.in')).read(), t, 'the template is not changed')


@reg.scenario(quick=4)
def defaults(ctx):
    """documented default keys, containers"""
    cwd = set(os.listdir('.'))
    k = batch.default_repl_keys()
    ctx.same(sorted(k['ParameterStudy']), ['calc_name', 'idx', 'revision', 'study_name'], 'default keys')
    ctx.same(sorted(k['Machine']), ['home', 'scratch', 'subcmd'], 'machine keys')
    ctx.same(set(os.listdir('.')), cwd, 'nothing left')

    class My(batch.Case):
        def init(self):
            self.z = self.x + self.y
    x, y = [float(v) for v in ctx.rng.normal(size=2)]
    c = My(x=x, y=y)
    ctx.check((c.x, c.y, c.z) == (x, y, x + y), 'Case')
    ctx.raises(AssertionError, batch.Machine, hostname='a', filename='b', template=batch.FileTemplate('x'))
    ctx.raises(AssertionError, batch.FileTemplate, basename='a', filename='b')
    ctx.raises(AssertionError, batch.ParameterStudy(machines=[], calc_root=ctx.tmp()).write_input, mode='x')
