"""B02: data base columns and parameter combinations."""
import itertools
import os
import sqlite3
import numpy as np
from vf.core import Registry, differ
from pwtools import sql, comb, common

reg = Registry('B02', 'Random histories of creating tables, adding, filling, extending and attaching columns and appending rows are replayed '
               'against a list-of-rows model; after every step the whole table is read with plain sqlite3 and through all query helpers '
               'and compared with types. Parameter combinations are compared with an independent enumeration.')

TYPES = {'int': 'INTEGER', 'float': 'REAL', 'str': 'TEXT', 'blob': 'BLOB'}


def value(ctx, kind, none=0.0):
    r = ctx.rng
    if ctx.coin(none):
        return None
    if kind == 'int':
        return int(r.integers(-2**62, 2**62)) if ctx.coin(.2) else int(r.integers(-99, 99))
    if kind == 'float':
        x = float(r.normal() * 10.0 ** r.integers(-200, 200)) if ctx.coin(.3) else float(r.normal())
        return ctx.choice([x, float(round(x)) if abs(x) < 1e15 else x, np.float64(x)])
    if kind == 'blob':
        return memoryview(r.bytes(ctx.sz(1, 20, 3000)))
    return ctx.choice(['', 'a', "it's", '12', '1.0', 'NULL', '2 2 2 0 0 0', 'äöü', 'a\nb', '"q"', '?', '%s', 'x' * 500])


def norm(v):
    if isinstance(v, memoryview):
        return bytes(v)
    if isinstance(v, np.floating):
        return float(v)
    return v


def eq(a, b):
    a, b = norm(a), norm(b)
    return type(a) is type(b) and a == b


class Model:
    def __init__(self, ctx, table):
        self.ctx, self.table = ctx, table
        self.cols, self.kinds, self.rows = [], {}, []

    def header(self):
        return [(c, TYPES[self.kinds[c]]) for c in self.cols]


def verify(ctx, db, models):
    db.commit()
    for m in models:
        own = sqlite3.connect(db.db_fn) if db.db_fn != ':memory:' else None
        cur = (own or db).execute('select * from %s order by rowid' % m.table)
        got = cur.fetchall()
        names = [d[0] for d in cur.description]
        if own:
            own.close()
        ctx.check(names == m.cols, 'columns of ' + m.table, got=names, want=m.cols)
        ctx.check(len(got) == len(m.rows), 'number of rows of ' + m.table, got=len(got), want=len(m.rows))
        for i, (g, w) in enumerate(zip(got, m.rows)):
            for c, x in zip(m.cols, g):
                ctx.check(eq(x, w.get(c)), 'table %s row %d column %s' % (m.table, i + 1, c), got=x, want=w.get(c))
        ctx.same([tuple(x) for x in db.get_header(m.table)], m.header(), 'header')
        ctx.check(db.has_table(m.table) and not db.has_table(m.table + 'x'), 'has_table')
        for c in m.cols:
            ctx.check(db.has_column(c, table=m.table), 'has_column')
        ctx.check(not db.has_column('nope', table=m.table), 'has_column of a missing column')
        ctx.check(db.get_max_rowid(m.table) == len(m.rows), 'number of rows')
        if not m.cols:
            continue
        c = ctx.choice(m.cols)
        want = [norm(r.get(c)) for r in m.rows]
        cmd = 'select %s from %s order by rowid' % (c, m.table)
        g = db.get_list1d(cmd)
        ctx.check(len(g) == len(want) and all(eq(a, b) for a, b in zip(g, want)), 'get_list1d', got=g, want=want)
        a = db.get_array1d(cmd)
        ctx.check(isinstance(a, np.ndarray) and a.shape == (len(want),), 'get_array1d', got=a)
        ctx.check(differ(a, np.array(want)) is None and a.dtype == np.array(want).dtype, 'get_array1d values', got=a, want=np.array(want))
        if m.rows:
            c = ctx.choice(m.cols)
            i = ctx.ri(0, len(m.rows) - 1)
            s = db.get_single('select %s from %s where rowid=?' % (c, m.table), (i + 1,))
            ctx.check(eq(s, m.rows[i].get(c)), 'get_single', got=s, want=m.rows[i].get(c))
            ctx.raises(AssertionError, db.get_single, 'select %s from %s where rowid<0' % (c, m.table))
            if len(m.rows) > 1:
                ctx.raises(AssertionError, db.get_single, 'select %s from %s' % (c, m.table))
        use = [str(x) for x in ctx.rng.choice(m.cols, ctx.ri(1, len(m.cols)), replace=False)]
        cmd = 'select %s from %s order by rowid' % (','.join(use), m.table)
        d = db.get_dict(cmd)
        ctx.check(sorted(d) == sorted(use), 'get_dict keys', got=sorted(d))
        for x in use:
            ctx.check(len(d[x]) == len(m.rows) and all(eq(p, r.get(x)) for p, r in zip(d[x], m.rows)), 'get_dict column', got=d[x],
                      want=[r.get(x) for r in m.rows])
        if any(m.kinds[x] == 'blob' for x in use):
            continue
        arr = db.get_array(cmd)
        w = np.array([tuple(norm(r.get(x)) for x in use) for r in m.rows])
        ctx.check(differ(arr, w) is None and arr.dtype == w.dtype, 'get_array', got=arr, want=w)


def newname(ctx, m):
    while True:
        n = ctx.choice('abcdefgh') + str(ctx.ri(0, 99))
        if n not in m.cols:
            return n


@reg.scenario(quick=500)
def history(ctx):
    mem = ctx.coin(.3)
    fn = ':memory:' if mem else os.path.join(ctx.tmp(), 'x.db')
    two = ctx.coin(.3)
    db = sql.SQLiteDB(fn, table=ctx.choice(['calc', 'data']))
    ms = [Model(ctx, db.get_table())]
    if two:
        ms.append(Model(ctx, 'other'))
    for m in ms:
        kinds = [ctx.choice(['int', 'float', 'str', 'float', 'str', 'blob']) for _ in range(ctx.ri(1, 3))]
        for k in kinds:
            n = newname(ctx, m)
            m.cols.append(n)
            m.kinds[n] = k
        db.create_table([(c, ctx.choice([str.upper, str.lower])({'float': ctx.choice(['float', 'real'])}.get(m.kinds[c], TYPES[m.kinds[c]])))
                         for c in m.cols], **({} if m is ms[0] and ctx.coin() else dict(table=m.table)))
    hist = []
    verify(ctx, db, ms)
    for step in range(ctx.sz(1, 8, 30)):
        m = ctx.choice(ms)
        kw = dict(table=m.table)
        if m is ms[0] and ctx.coin():
            kw = {}
        op = ctx.choice(['insert', 'insert', 'add', 'adds', 'fill', 'fillover', 'refuse', 'attach', 'attach', 'noextend', 'attach_over', 'sql', 'reopen', 'addagain'])
        hist.append(op)
        n = len(m.rows)
        if op == 'insert':
            for _ in range(ctx.sz(1, 4, 40)):
                use = [c for c in m.cols if ctx.coin(.8)] or m.cols[:1]
                row = {c: value(ctx, m.kinds[c], .2) for c in use}
                db.execute('insert into %s (%s) values (%s)' % (m.table, ','.join(use), ','.join('?' * len(use))), tuple(row[c] for c in use))
                m.rows.append(row)
            if ctx.coin(0.3):
                # many rows at once
                use = [c for c in m.cols if ctx.coin(.8)] or m.cols[:1]
                rows = [{c: value(ctx, m.kinds[c], .2) for c in use} for _ in range(ctx.sz(1, 5, 50))]
                db.executemany('insert into %s (%s) values (%s)' % (m.table, ','.join(use), ','.join('?' * len(use))),
                               [tuple(r[c] for c in use) for r in rows])
                m.rows.extend(rows)
        elif op in ('add', 'adds'):
            new = []
            for _ in range(1 if op == 'add' else ctx.sz(1, 3, 12)):
                nn = newname(ctx, m)
                m.cols.append(nn)
                m.kinds[nn] = ctx.choice(list(TYPES))
                new.append((nn, TYPES[m.kinds[nn]].lower()))
            if op == 'add':
                db.add_column(*new[0], **kw)
            else:
                db.add_columns(new, **kw)
        elif op == 'addagain':
            c = ctx.choice(m.cols)
            db.add_column(c, 'text', **kw)
        elif op in ('fill', 'fillover', 'attach_over'):
            c = ctx.choice(m.cols)
            start = ctx.ri(1, n + 1)
            vals = [value(ctx, m.kinds[c], .1) for _ in range(ctx.sz(1, 6, 120))]
            over = op != 'fill' or any(m.rows[i].get(c) is not None for i in range(start - 1, min(n, start - 1 + len(vals))))
            if op == 'attach_over':
                db.attach_column(c, vals, start=start, overwrite=True, sqltype=TYPES[m.kinds[c]], **kw)
            else:
                db.fill_column(c, vals if ctx.coin() else iter(vals), start=start, overwrite=over, **kw)
            for i, v in enumerate(vals):
                j = start - 1 + i
                if j < n:
                    m.rows[j][c] = v
                else:
                    m.rows.append({c: v})
        elif op == 'noextend' and n:
            c = ctx.choice(m.cols)
            start = ctx.ri(1, n)
            vals = [value(ctx, m.kinds[c]) for _ in range(ctx.ri(1, n + 3))]
            db.fill_column(c, vals, start=start, overwrite=True, extend=False, **kw)
            for i, v in enumerate(vals):
                if start - 1 + i < n:
                    m.rows[start - 1 + i][c] = v
            ctx.raises(AssertionError, db.fill_column, c, vals, start=n + 1, extend=False, **kw)
        elif op == 'refuse':
            occ = [(c, i) for c in m.cols for i, r in enumerate(m.rows) if r.get(c) is not None]
            if occ:
                c, i = ctx.choice(occ)
                ctx.raises(AssertionError, db.fill_column, c, [value(ctx, m.kinds[c])], start=i + 1, **kw)
                ctx.raises(AssertionError, db.attach_column, c, [value(ctx, m.kinds[c])], **kw)
            ctx.raises(AssertionError, db.fill_column, 'nope', [1], **kw)
        elif op == 'attach':
            nn = newname(ctx, m)
            k = ctx.choice(list(TYPES))
            start = ctx.ri(1, n + 1) if ctx.coin(.4) else 1
            vals = [value(ctx, k, .1 if j else 0) for j in range(ctx.sz(1, 6, 120))]
            a = dict(start=start) if start > 1 or ctx.coin() else {}
            if ctx.coin(.3):
                a['sqltype'] = TYPES[k]
            elif k == 'float' and ctx.coin():
                vals = np.array([v if v is not None else 0.5 for v in vals])
            db.attach_column(nn, vals, **a, **kw)
            m.cols.append(nn)
            m.kinds[nn] = k
            for i, v in enumerate(vals):
                j = start - 1 + i
                if j < n:
                    m.rows[j][nn] = v
                else:
                    m.rows.append({nn: v})
        elif op == 'sql' and n:
            c = ctx.choice(m.cols)
            i = ctx.ri(1, n)
            v = value(ctx, m.kinds[c])
            db.execute('update %s set %s=? where rowid<=?' % (m.table, c), (v, i))
            for r in m.rows[:i]:
                r[c] = v
        elif op == 'reopen' and not mem:
            t = db.get_table()
            db.finish()
            db = sql.SQLiteDB(fn, table=None if ctx.coin() else t)
            if db.get_table() is None:
                ctx.raises(Exception, db.add_column, 'x', 'text')
                db.set_table(t)
        verify(ctx, db, ms)
    db.finish()
    ctx.note(history=' '.join(hist), tables=len(ms), mem=mem)
    ctx.count('steps', len(hist))


@reg.scenario(quick=300)
def makedb(ctx):
    d = ctx.tmp()
    suffix = ctx.choice(['.db', '.sqlite', '.sqlite3'])
    fn = os.path.join(d, 'foo' + suffix)
    table = ctx.choice([None, 'calc'])
    kinds = {c: ctx.choice(list(TYPES)) for c in 'abcd'[:ctx.ri(1, 4)]}
    cols = list(kinds)
    rows = []
    hist = []
    for step in range(ctx.ri(1, 4)):
        mode = ctx.choice(['a', 'a', 'w'])
        use = cols if not rows or mode == 'w' else [str(x) for x in ctx.rng.permutation(cols)[:ctx.ri(1, len(cols))]]
        new = [[value(ctx, kinds[c], .15 if i else 0) for c in use] for i in range(ctx.sz(1, 4, 120))]
        fac = ctx.coin(.3) and kinds[use[0]] == 'int' and all(abs(x[0] or 0) < 2**60 for x in new)
        kw = dict(sqlval_funcs={use[0]: lambda x: None if x is None else x + 1}) if fac else {}
        close = ctx.coin()
        db = sql.makedb(fn, new if ctx.coin() else [tuple(x) for x in new], use, table=table, mode=mode, close=close, **kw)
        if mode == 'w':
            rows = []
        for x in new:
            row = dict(zip(use, x))
            if fac and row[use[0]] is not None:
                row[use[0]] += 1
            rows.append(row)
        c = sqlite3.connect(fn)
        cur = c.execute('select * from %s order by rowid' % (table or 'foo'))
        got = cur.fetchall()
        names = [x[0] for x in cur.description]
        c.close()
        ctx.check(names == cols, 'columns', got=names, want=cols)
        ctx.check(len(got) == len(rows), 'number of rows', got=len(got), want=len(rows))
        for g, w in zip(got, rows):
            for cc, x in zip(cols, g):
                ctx.check(eq(x, w.get(cc)), 'column ' + cc, got=x, want=w.get(cc))
        if not close:
            ctx.same(db.get_list1d('select count(*) from ' + (table or 'foo')), [len(rows)], 'open data base')
            db.finish()
        hist.append('%s%d' % (mode, len(use)))
    ctx.raises(AssertionError, sql.makedb, fn, [[1]], ['nope'], table=table)
    ctx.raises(AssertionError, sql.makedb, os.path.join(d, 'noname'), [[1]], ['a'])
    bad = {'int': 'x', 'float': 'x', 'str': 1, 'blob': 1}[kinds[cols[0]]]
    ctx.raises(AssertionError, sql.makedb, fn, [[bad]], [cols[0]], table=table, _msg='other type in an existing column')
    ctx.note(history=' '.join(hist), suffix=suffix, table=table, kinds=' '.join(kinds.values()))


def product(lists):
    """independent enumeration"""
    if not lists:
        return [[]]
    rest = product(lists[1:])
    return [[x] + y for x in lists[0] for y in rest]


def tolist(x):
    return [tolist(y) for y in x] if isinstance(x, (list, tuple, np.ndarray)) else x


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, (list, tuple, np.ndarray)) else [x]


class Foo:
    pass


@reg.scenario(quick=500)
def combine(ctx):
    r = ctx.rng
    depth = ctx.ri(1, 4)
    lists, ref = [], []
    for _ in range(depth):
        kind = ctx.choice(['int', 'str', 'obj', 'zip', 'nested', 'range', 'array', 'sql', 'empty' if ctx.coin(.2) else 'float', 'mixed'])
        n = ctx.ri(1, 4)
        if kind == 'int':
            x = [int(v) for v in r.integers(0, 9, n)]
        elif kind == 'float':
            x = [float(v) for v in r.normal(size=n)]
        elif kind == 'str':
            x = ctx.choice([list, tuple])(['a', 'bc', '', 'long text', 'x1'][:n])
        elif kind == 'obj':
            x = [Foo() for _ in range(n)]
        elif kind == 'mixed':
            x = [1, 'a', None, 2.5, np.sin, Foo(), b'xy', True][:n + 4]
        elif kind == 'range':
            x = range(n)
        elif kind == 'array':
            x = r.normal(size=n)
        elif kind == 'sql':
            x = sql.sql_column('p', [float(v) for v in r.normal(size=n)])
        elif kind == 'empty':
            x = []
        elif kind == 'nested':
            x = [[1, ['a', (2, 3)]], [4, ['b', (5, 6)]]][:n]
        else:
            x = list(zip(range(n), 'abcd'))
        ref.append(list(x))
        lists.append(iter(x) if kind == 'zip' and ctx.coin() else x)
    flatten = ctx.coin()
    ctx.note(depth=depth, flatten=flatten, sizes=str([len(x) for x in ref]))
    got = comb.nested_loops(tuple(lists) if ctx.coin() else lists, flatten=flatten)
    want = product(ref)
    want = [flat(w) for w in want] if flatten else [tolist(w) for w in want]
    ctx.check(isinstance(got, list) and len(got) == len(want), 'number of combinations', got=len(got), want=len(want))
    ctx.check(got == want, 'combinations in order', got=got, want=want)
    ctx.check(all(isinstance(x, list) for x in got), 'lists')


@reg.scenario(quick=300)
def entries(ctx):
    """lists of values -> SQLEntry -> parameter sets"""
    r = ctx.rng
    kinds = [ctx.choice(['int', 'float', 'str']) for _ in range(ctx.ri(1, 4))]
    n = ctx.sz(1, 6, 120)
    names = ['col%d' % i for i in range(len(kinds))]
    data = [[norm(value(ctx, k)) for k in kinds] for _ in range(n)]
    expl = ctx.coin()
    ff = {names[0]: lambda x: 'v=%s' % (x,)} if ctx.coin() else None
    sf = {names[-1]: lambda x: x * 2} if ctx.coin() else None
    ctx.note(kinds=' '.join(kinds), n=n, header=expl, ff=ff is not None, sf=sf is not None)
    kw = dict(header=[(a, {'int': 'integer', 'float': ctx.choice(['float', 'real']), 'str': 'Text'}[k]) for a, k in zip(names, kinds)]) if expl else dict(colnames=names)
    mat = sql.sql_matrix(data if ctx.coin() else [tuple(x) for x in data], fileval_funcs=ff, sqlval_funcs=sf, **kw)
    ctx.check(len(mat) == n, 'rows')
    for row, ref in zip(mat, data):
        ctx.check(len(row) == len(ref), 'columns')
        for e, x, nm, k in zip(row, ref, names, kinds):
            sv = x * 2 if sf and nm in sf else x
            fv = 'v=%s' % (x,) if ff and nm in ff else x
            ctx.check(e.key == nm and e.sqltype == TYPES[k] and eq(e.sqlval, sv) and eq(e.fileval, fv), 'entry of sql_matrix',
                      got=(e.key, e.sqltype, e.sqlval, e.fileval), want=(nm, TYPES[k], sv, fv))
    for j, nm in enumerate(names):
        col = [row[j] for row in data]
        t = None if ctx.coin() else {'int': 'integer', 'float': 'float', 'str': 'text'}[kinds[j]]
        es = sql.sql_column(nm, col, sqltype=t, fileval_func=lambda x: ['f', x], sqlval_func=lambda x: x * 3)
        old = sql.sql_column_old(nm, TYPES[kinds[j]].lower(), col, fileval_func=lambda x: ['f', x], sqlval_func=lambda x: x * 3)
        ctx.check(len(es) == len(old) == n, 'sql_column length')
        for e, o, x in zip(es, old, col):
            for q in (e, o):
                ctx.check(q.key == nm and q.sqltype == TYPES[kinds[j]] and eq(q.sqlval, x * 3) and q.fileval == ['f', x], 'entry of sql_column',
                          got=(q.key, q.sqltype, q.sqlval, q.fileval))
        want = ctx.choice(['TEXT', 'REAL', 'integer'])
        for q in sql.sql_column_old(nm, want, col) + sql.sql_column(nm, col, sqltype=want):
            ctx.check(q.sqltype.lower() == want.lower(), 'requested column type', got=q.sqltype, want=want)
    if n > 1:
        ctx.raises(AssertionError, sql.sql_column, 'a', [1, 'b'], _msg='different types in a column')
    # unique rows
    a = r.integers(0, ctx.choice([2, 3, 9]), size=(ctx.sz(1, 12, 150), ctx.sz(1, 3, 9)))
    a = ctx.choice([lambda: a, lambda: a * 0.5, lambda: a * 1e-10, lambda: 3.0 + a * 2.0 ** -48, lambda: a + 2**55])()
    for what, arr in (('row', a), ('col', a.T)):
        u = comb.unique2d(arr, what)
        rowsu = u if what == 'row' else u.T
        first = list(dict.fromkeys(tuple(x) for x in a.tolist()))
        ctx.same(np.asarray(rowsu), np.array(first, dtype=a.dtype), 'unique %ss in order of first appearance' % what)
