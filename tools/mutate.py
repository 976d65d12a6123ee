#!/usr/bin/env python3
"""mutate.py COV.json OUT.jsonl --n N --seed S --workers W [--files a.py,b.py]

Plants small changes in copies of /repo, runs the checks which execute the changed line, then (for changes no check sees) the tests.
COV.json: {prop: {"t": seconds, "lines": [[file, line], ...]}}
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

ap = argparse.ArgumentParser()
ap.add_argument('cov')
ap.add_argument('out')
ap.add_argument('--n', type=int, default=100)
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--workers', type=int, default=4)
ap.add_argument('--files', default='')
ap.add_argument('--nproc', default='2')
ap.add_argument('--minutes', type=float, default=600)
ap.add_argument('--defaults', action='store_true', help='change default values of parameters')
args = ap.parse_args()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs('/tmp/mm', exist_ok=True)
BASE = '/tmp/mm/base-%d' % os.getpid()
subprocess.check_call('mkdir %s && cp -a /repo %s/repo && rm -rf %s/repo/.git && mkdir %s/verif && cp -a /verif/run /verif/vf /verif/known_findings.txt %s/verif/' % ((BASE,) * 5), shell=True)
SRC = BASE + '/repo/src/pwtools/'
cov = json.load(open(args.cov))
byline = {}
for p, d in cov.items():
    for f, l in d['lines']:
        byline.setdefault((f, l), []).append(p)


def sites(fn, src):
    """(line, col, end line, end col, new text, what)"""
    tree = ast.parse(src)
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    out = []
    seg = lambda n: ast.get_source_segment(src, n)

    def add(n, new, what):
        out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, what))

    def infunc(n):
        while n in par:
            n = par[n]
            if isinstance(n, ast.Raise):
                return None
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                return True
        return False
    CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
           ast.In: ['not in'], ast.NotIn: ['in']}
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.Mod: '+', ast.FloorDiv: '/', ast.MatMult: '*'}
    for n in ast.walk(tree):
        if not infunc(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, '%s %s %s' % (seg(n.left), o, seg(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            add(n, '(%s %s %s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'bin')
        elif isinstance(n, ast.Constant) and not isinstance(par[n], (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), 'bool')
            elif isinstance(v, int):
                add(n, str(v + 1), 'int+')
                add(n, '(%d)' % (v - 1), 'int-')
            elif isinstance(v, float):
                add(n, repr(v * 1.01 + (0.01 if v == 0 else 0)), 'float')
            elif v is None and isinstance(par[n], (ast.Return, ast.Call)):
                add(n, '0', 'none')
            elif isinstance(v, str) and n.lineno == n.end_lineno and 0 < len(v) < 30:
                add(n, seg(n)[:-1] + 'X' + seg(n)[-1], 'str')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
            add(n, '(%s)' % seg(n.values[0]), 'drop')
            add(n, '(%s)' % seg(n.values[-1]), 'drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            add(n, '(%s)' % seg(n.operand), 'unary')
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, 'True', 'if')
            add(n.test, 'False', 'if')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    t = seg(n)
                    ks = seg(k) or ''
                    i = t.find(ks)
                    if ks and i > 0 and t.count(ks) == 1:
                        new = t[:i].rstrip()
                        new = new[:-1] if new.endswith(',') else new
                        rest = t[i + len(ks):].lstrip()
                        if new.endswith('(') and rest.startswith(','):
                            rest = rest[1:]
                        add(n, new + rest, 'kwarg')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'strip', 'flatten', 'ravel', 'lower', 'squeeze', 'sum', 'transpose') and not n.args:
                add(n, seg(n.func.value), 'method')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('abs', 'array', 'asarray', 'sqrt', 'atleast_1d', 'sort', 'rint', 'floor', 'ceil', 'degrees', 'radians') and len(n.args) == 1:
                add(n, '(%s)' % seg(n.args[0]), 'func')
            if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'list', 'int', 'float', 'abs', 'set', 'reversed', 'str') and len(n.args) == 1:
                add(n, '(%s)' % seg(n.args[0]), 'func')
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args
                if seg(a) != seg(b):
                    i0 = (a.lineno, a.col_offset)
                    out.append((a.lineno, a.col_offset, b.end_lineno, b.end_col_offset, '%s, %s' % (seg(b), seg(a)), 'swap'))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            add(n, seg(n.value), 'slice')
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            add(n, seg(n.value), 'T')
        elif isinstance(n, (ast.AugAssign, ast.Raise, ast.Assert)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = seg(n)
            if 'verbose(' not in t and 'warn' not in t:
                add(n, 'pass', 'stmt')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, 'pass', 'stmt')
        elif isinstance(n, ast.Break):
            add(n, 'continue', 'break')
        elif isinstance(n, ast.Continue):
            add(n, 'pass', 'break')
    return out


def apply(src, s):
    lines = src.split('\n')
    b = lambda i, c: len('\n'.join(lines[:i - 1]).encode()) + (1 if i > 1 else 0) + c
    raw = src.encode()
    return (raw[:b(s[0], s[1])] + s[4].encode() + raw[b(s[2], s[3]):]).decode()


def default_sites(src):
    out = []
    for n in ast.walk(ast.parse(src)):
        if not isinstance(n, ast.FunctionDef):
            continue
        lines = list(range(n.body[0].lineno, n.end_lineno + 1))
        a = n.args
        for arg, d in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + [x for x in zip(a.kwonlyargs, a.kw_defaults) if x[1] is not None]:
            new = []
            v = d.value if isinstance(d, ast.Constant) else None
            if isinstance(d, ast.Constant):
                if isinstance(v, bool):
                    new = [str(not v)]
                elif isinstance(v, (int, float)):
                    new = [repr(v + 1)]
                elif isinstance(v, str):
                    new = [repr(v + 'X')]
            elif isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
                new = [repr(d.operand.value)]
            elif isinstance(d, (ast.List, ast.Tuple)) and d.elts:
                t = ast.get_source_segment(src, d)
                o, c = ('[', ']') if isinstance(d, ast.List) else ('(', ',)')
                new = [o + ast.get_source_segment(src, d.elts[0]) + c if len(d.elts) > 1 else o.strip() + c.replace(',', '')]
            for t in new:
                out.append(((d.lineno, d.col_offset, d.end_lineno, d.end_col_offset, t, 'default %s.%s' % (n.name, arg.arg)), lines))
    return out


rng = random.Random(args.seed)
files = [f for f in args.files.split(',') if f] or sorted(set(f for f, l in byline if f.endswith('.py') and 'test' not in f))
todo = []
for f in files:
    src = open(SRC + f).read()
    for s, ls in default_sites(src) if args.defaults else [(s, range(s[0], s[2] + 1)) for s in sites(f, src)]:
        ps = set()
        for l in ls:
            ps |= set(byline.get((f, l), []))
        if not ps:
            continue
        try:
            new = apply(src, s)
            compile(new, f, 'exec')
        except Exception:
            continue
        if new != src:
            todo.append((f, s, sorted(ps, key=lambda p: cov[p]['t']), new))
print('%d candidate mutants' % len(todo))
rng.shuffle(todo)
done = set()
if os.path.exists(args.out):
    for l in open(args.out):
        d = json.loads(l)
        done.add((d['file'], tuple(d['site'])))
todo = [t for t in todo if (t[0], tuple(t[1])) not in done][:args.n]
lock = threading.Lock()
T0 = time.time()
base = json.load(open('/opt/vp/BASELINE.json'))
base = set(base if isinstance(base, list) else base.get('passed') or base.get('stable') or list(base.values())[0])


def sh(cmd, env, t):
    p = subprocess.Popen(cmd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -1, 'timeout'


def worker(k):
    w = BASE + '-w%d' % k
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/tmp')
    subprocess.check_call("cp -a %s/repo %s/verif %s/" % (BASE, BASE, w), shell=True)
    env = dict(os.environ, VF_REPO=w + '/repo', VF_NPROC=args.nproc, VF_TMP=w + '/tmp', SRC=w + '/repo')
    while True:
        with lock:
            if not todo or time.time() - T0 > args.minutes * 60:
                return
            f, s, ps, new = todo.pop()
        old = open(SRC + f).read()
        fn = w + '/repo/src/pwtools/' + f
        with open(fn, 'w') as fh:
            fh.write(new)
        res = dict(file=f, site=list(s), old=old.split('\n')[s[0] - 1].strip(), props=ps, killed=None)
        try:
            for p in ps:
                rc, o = sh('%s/verif/run %s' % (w, p), env, 300)
                if rc == 1 and 'VIOLATION' in o:
                    res['killed'] = p
                    break
                if rc != 0:
                    res.setdefault('odd', []).append([p, rc, o[-300:]])
            if not res['killed']:
                o = w + '/o.json'
                if os.path.exists(o):
                    os.remove(o)
                sh('bash %s/tools/mutest.sh %s' % (VERIF, o), env, 400)
                try:
                    res['tests'] = sorted(base - set(json.load(open(o))['passed']))[:5]
                except Exception as e:
                    res['tests'] = ['no result']
        finally:
            with open(fn, 'w') as fh:
                fh.write(old)
        with lock:
            with open(args.out, 'a') as fh:
                fh.write(json.dumps(res) + '\n')


th = [threading.Thread(target=worker, args=(k,)) for k in range(args.workers)]
for t in th:
    t.start()
for t in th:
    t.join()
for k in range(args.workers):
    shutil.rmtree(BASE + '-w%d' % k, ignore_errors=True)
shutil.rmtree(BASE, ignore_errors=True)
