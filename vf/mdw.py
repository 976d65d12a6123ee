"""Writers of CP2K, CPMD and LAMMPS style output files from random numbers.

Every number goes through the format of the simulation code and the returned
reference holds the value of what was printed."""
import os
import struct
import numpy as np


def num(fmt, a):
    """array of printed strings and array of their values"""
    a = np.asarray(a, dtype=float)
    st = np.empty(a.shape, dtype=object)
    va = np.empty(a.shape)
    for i in np.ndindex(*a.shape):
        st[i] = fmt % a[i]
        va[i] = float(st[i])
    return st, va


class Out:
    def __init__(self, dn):
        self.dn = dn
        os.makedirs(dn, exist_ok=True)

    def write(self, name, lines):
        with open(os.path.join(self.dn, name), 'w') as f:
            f.write('\n'.join(lines) + ('\n' if lines else ''))


# -- CP2K ------------------------------------------------------------------
def cp2k_forces_block(sym, st):
    kinds = {s: i + 1 for i, s in enumerate(dict.fromkeys(sym))}
    l = [' ATOMIC FORCES in [a.u.]', '', ' # Atom   Kind   Element          X              Y              Z']
    for i, s in enumerate(sym):
        l.append('%7d%7d      %-2s     %s' % (i + 1, kinds[s], s, ''.join(st[i])))
    l.append(' SUM OF ATOMIC FORCES          -0.00051016     0.00740432     0.00437477     0.00861527')
    l.append('')
    return l


def cp2k_head(runtype, natoms, dt=None):
    l = [' DBCSR| Multiplication driver                                                SMM', '',
         '  **** **** ******  **  PROGRAM STARTED AT               2013-06-20 22:46:06.526', '',
         ' CP2K| version string:                                          CP2K version 2.4',
         ' GLOBAL| Project name                                                    PROJECT',
         ' GLOBAL| Run type %66s' % runtype, ' GLOBAL| Global print level                                                  LOW', '']
    if dt is not None:
        l += [' MD| Molecular Dynamics Protocol', ' MD| Ensemble Type                                                         NPT_F',
              ' MD| Number of Time Steps %54d' % 10, ' MD| Time Step [fs] %60s' % dt,
              ' MD| Temperature [K]                                                     1500.00']
    l += ['', ' TOTAL NUMBERS AND MAXIMUM NUMBERS', '',
          '  Total number of            - Atomic kinds:                                   2',
          '                             - Atoms:     %25d' % natoms,
          '                                                      Number of atoms: %9d' % natoms, '']
    return l


def cp2k_table(head, steps, times, st, extra=None):
    l = ['#   Step   Time [fs]' + ''.join('%20s' % h for h in head)]
    for i in range(len(st)):
        l.append('%8d%12.3f' % (steps[i], times[i]) + ''.join(st[i].ravel()) + (extra[i] if extra is not None else ''))
    return l


def cp2k_xyz(sym, steps, times, en, st, opt=False):
    l = []
    for i in range(len(st)):
        l.append('%8d' % len(sym))
        l.append((' i = %8d, ' % steps[i]) + ('' if opt else 'time = %12.3f, ' % times[i]) + 'E = %s' % en[i])
        for j, s in enumerate(sym):
            l.append(' %-2s%s' % (s, ''.join(st[i, j])))
    return l


# -- CPMD ------------------------------------------------------------------
def cpmd_geometry(r, n, extra):
    l = [''.join('%20.12f' % x for x in r.normal(size=3) * 9) + '  ' + ''.join('%20.12f' % x for x in r.normal(size=3) * 1e-3)
         for _ in range(n)]
    if extra:
        l += [''.join('%20.12f' % x for x in r.normal(size=3) * 9) for _ in range(3)]
    return l


def cpmd_scale(cell_st, cell, frac_st, sym):
    ang = 0.52917720859
    l = ['CELL MATRIX (BOHR)'] + [''.join(x) for x in cell_st] + ['']
    l += ['CELL MATRIX (ANGSTROM)'] + [''.join('%20.12f' % (x * ang) for x in v) for v in cell] + ['']
    l += ['SCALED ATOMIC COORDINATES'] + [''.join(f) + '%11s%7d' % (s, i + 1) for i, (f, s) in enumerate(zip(frac_st, sym))]
    return l


# -- LAMMPS ----------------------------------------------------------------
def dcd(fn, cc, co, timestep, cosines=True, ntitle=2):
    nt, n = co.shape[:2]
    rec = lambda b: struct.pack('<i', len(b)) + b + struct.pack('<i', len(b))
    ints = [nt, 0, 1, 0, 0, 0, 0, 0, 0] if cosines else [0, 7, 1, 0, 0, 0, 0, 0, 0]
    out = rec(b'CORD' + struct.pack('<9i', *ints) + struct.pack('<f', timestep) + struct.pack('<10i', 1, *([0] * 8), 24))
    out += rec(struct.pack('<i', ntitle) + b'REMARK one'.ljust(80) + b'REMARK user@host'.ljust(80)
               + b''.join((b'REMARK %d' % i).ljust(80, b'x') for i in range(2, ntitle)))
    out += rec(struct.pack('<i', n))
    for i in range(nt):
        a, b, c, al, be, ga = cc[i]
        if cosines:
            al, be, ga = np.cos(np.radians([al, be, ga]))
        out += rec(struct.pack('<6d', a, ga, b, be, al, c))
        for j in range(3):
            out += rec(np.ascontiguousarray(co[i, :, j]).astype('<f4').tobytes())
    with open(fn, 'wb') as fh:
        fh.write(out)
