"""Lines of the package a check executed (each code location reports once per process, next to no cost)."""
import ast
import os
import sys

ROOT = None
new = set()


def start(root):
    global ROOT
    ROOT = os.path.join(root, 'pwtools') + os.sep
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'vf')
    except ValueError:
        return
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def line(code, ln):
    if code.co_filename.startswith(ROOT) and code.co_name != '<module>':
        new.add((code.co_filename[len(ROOT):], ln))
    return sys.monitoring.DISABLE


def take():
    out = sorted(new)
    new.clear()
    return out


def _lines(co):
    out = set()
    for c in co.co_consts:
        if hasattr(c, 'co_lines'):
            out |= set(l for _, _, l in c.co_lines() if l and l != c.co_firstlineno)
            out |= _lines(c)
    return out


def body(fn):
    """line numbers of code inside functions"""
    with open(fn) as f:
        src = f.read()
    return _lines(compile(src, fn, 'exec'))


def summary(seen):
    """{file: 'executed of all'}"""
    out = {}
    for f in sorted(set(x[0] for x in seen)):
        b = body(ROOT + f)
        s = set(l for g, l in seen if g == f) & b
        if s:
            out[f] = '%d of %d' % (len(s), len(b))
    return out
