"""What stand-in programs do with the files they are given; independent of the package under test."""
import re

import numpy as np


# reading what a viewer would read: deliberately small, not the package's own readers
def read_axsf(txt):
    w = txt.split()
    assert w[0] == 'ANIMSTEPS' and w[2] == 'CRYSTAL', w[:4]
    n, i, out = int(w[1]), 3, []
    while i < len(w):
        assert w[i] == 'PRIMVEC' and int(w[i + 1]) == len(out) + 1
        cell = np.array(w[i + 2:i + 11], float).reshape(3, 3)
        i += 11
        assert w[i] == 'PRIMCOORD' and int(w[i + 1]) == len(out) + 1
        nat = int(w[i + 2])
        i += 4
        sym, x = [], []
        while i < len(w) and w[i] != 'PRIMVEC':
            sym.append(w[i])
            i += 1
            row = []
            while i < len(w) and re.match(r'[-+.\d]', w[i]):
                row.append(float(w[i]))
                i += 1
            x.append(row)
        assert len(sym) == nat
        out.append((cell, sym, np.array(x)))
    assert len(out) == n
    return out


def gofr(fr, first, last, step, delta, rmax, pbc, sel):
    """[(cell, symbols, coords)] -> rad, hist, num_int; own definition, averaged over frames first,first+step,...,<=last"""
    last = len(fr) - 1 if last == -1 else last
    nb = int(round(rmax / delta - 0.5 + 1e-9)) if rmax / delta % 1 else int(rmax / delta)
    nb = max(nb, 1)
    edges = np.arange(nb + 1) * delta
    hist = np.zeros(nb)
    used = list(range(first, last + 1, step))
    num = np.zeros(nb)
    for i in used:
        cell, sym, x = fr[i]
        ma = [sel[0] == 'all' or s == sel[0].split()[-1] for s in sym]
        mb = [sel[1] == 'all' or s == sel[1].split()[-1] for s in sym]
        f = x @ np.linalg.inv(cell)
        d = f[ma][:, None] - f[mb][None]
        if pbc:
            d = d - np.round(d)
        r = np.sqrt(((d @ cell)**2).sum(-1))
        pairs = np.array([[not (a == b) for b in np.where(mb)[0]] for a in np.where(ma)[0]]).reshape(sum(ma), sum(mb))
        h = np.histogram(r[pairs], bins=edges)[0]
        vol = abs(np.linalg.det(cell))
        shell = 4 * np.pi / 3 * (edges[1:]**3 - edges[:-1]**3)
        n = max(pairs.sum(), 1)
        hist += h / n * vol / shell
        num += np.cumsum(h) / max(sum(ma), 1)
    return np.array([edges[:-1] + delta / 2, hist / len(used), num / len(used)]).T


def read_xyz(txt):
    lines, out, i = txt.strip('\n').split('\n'), [], 0
    while i < len(lines):
        n = int(lines[i])
        rows = [l.split() for l in lines[i + 2:i + 2 + n]]
        out.append(([r[0] for r in rows], np.array([r[1:4] for r in rows], float)))
        i += 2 + n
    return out


def read_cif(txt):
    val = lambda k: float(re.search(r'(?m)^\s*' + k + r'\s+(\S+)', txt).group(1))
    cc = np.array([val('_cell_length_' + k) for k in 'abc'] + [val('_cell_angle_' + k) for k in ('alpha', 'beta', 'gamma')])
    head, rows = [], []
    for l in txt.split('\n'):
        w = l.split()
        if w and w[0].startswith('_atom_site_'):
            head.append(w[0][len('_atom_site_'):])
        elif head and len(w) == len(head):
            rows.append(dict(zip(head, w)))
    sym = [r['type_symbol'] if 'type_symbol' in r else re.match('[A-Za-z]+', r['label']).group(0) for r in rows]
    return cc, sym, np.array([[float(r['fract_' + k]) for k in 'xyz'] for r in rows])
