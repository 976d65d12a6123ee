"""Writer of Quantum ESPRESSO (pw.x) style output text from known numbers.

Every number goes through a Fortran-like format and is read back with float(),
so the returned reference holds exactly what is printed.
"""
import numpy as np


def F(x, w, d):
    s = '%*.*f' % (w, d, x)
    return s


def arr(a, w, d):
    """printed strings and the values they stand for"""
    a = np.asarray(a, dtype=float)
    st = np.empty(a.shape, dtype=object)
    va = np.empty(a.shape)
    for i in np.ndindex(*a.shape):
        st[i] = F(a[i], w, d)
        va[i] = float(st[i])
    return st, va


def one(x, w, d):
    s = F(x, w, d)
    return s, float(s)


class Pw:
    """self.txt: list of lines; self.ref: what is in them"""

    def __init__(self, rng, natoms, symbols, nkp, alat, cell, coords, old=True):
        self.rng, self.n, self.sym = rng, natoms, list(symbols)
        self.l = []
        self.ref = dict(natoms=natoms, symbols=list(symbols), nkpoints=nkp, nstep_scf=[], etot=[], forces=[], stress=[],
                        forces_all=[], ekin=[], temperature=[], coords=[], cell=[], cell_alat=[])
        self.old = old
        a = 'a_0' if old else 'alat'
        s, self.alat = one(alat, 12, 4 if old else 8)
        self.ref['alat'] = self.alat
        w = self.l.append
        w('     Program PWSCF v.4.3.2      starts on 12Nov2011 at 10:11:12')
        w('     Parallel version (MPI), running on     8 processors')
        w('')
        w('     bravais-lattice index     =            0')
        w('     lattice parameter (%s)   =%s  a.u.' % (a, s))
        w('     unit-cell volume          =     %12.4f (a.u.)^3' % rng.uniform(10, 1000))
        w('     number of atoms/cell      =%13d' % natoms)
        w('     number of atomic types    =%13d' % len(set(symbols)))
        w('     number of electrons       =%13.2f' % (4. * natoms))
        w('     kinetic-energy cutoff     =      30.0000  Ry')
        w('     charge density cutoff     =     120.0000  Ry')
        w('     convergence threshold     =      1.0E-09')
        w('     celldm(1)=%11.6f  celldm(2)=   0.000000  celldm(3)=   0.000000' % alat)
        w('')
        st, va = arr(cell, 11, 6)
        self.ref['cell2d'] = va
        w('     crystal axes: (cart. coord. in units of %s)' % a)
        for i in range(3):
            w('               a(%d) = (%s%s%s )' % ((i + 1,) + tuple(st[i])))
        w('')
        w('     reciprocal axes: (cart. coord. in units 2 pi/%s)' % ('a_0' if old else 'alat'))
        for i in range(3):
            w('               b(%d) = ( %9.6f %9.6f %9.6f )' % ((i + 1,) + tuple(rng.normal(size=3))))
        w('')
        for s in sorted(set(symbols)):
            w('        %-2s             3.00    26.98150     %s( 1.00)' % (s, s))
        w('     Cartesian axes')
        w('')
        w('     site n.     atom                  positions (%s units)' % a)
        st, va = arr(coords, 12, 7)
        self.ref['coords2d'] = va
        for i in range(natoms):
            w('      %4d           %-3s tau(%s) = (%s%s%s  )' % ((i + 1, symbols[i], '%3d' % (i + 1) if old else '%4d' % (i + 1))
                                                              + tuple(st[i])))
        w('')
        w('     number of k points=%5d%s' % (nkp, '' if old else '  Marzari-Vanderbilt smearing, width (Ry)=  0.0200'))
        w('                       cart. coord. in units 2pi/%s' % a)
        for i in range(min(nkp, 5)):
            w('        k(%5d) = (   0.0000000   0.0000000   0.%07d), wk =   0.0117188' % (i + 1, i))
        w('')

    def scf(self, forces=True, stress=True, extra=0, conv=True, niter=None):
        r, w = self.rng, self.l.append
        niter = niter or int(r.integers(1, 40))
        w('     Self-consistent Calculation')
        for i in range(min(niter, 3)):
            w('     iteration #%3d     ecut=    30.00 Ry     beta=0.70' % (i + 1))
            w('     total cpu time spent up to now is %10.2f secs' % r.uniform(0, 100))
            w('     total energy              =%17.8f Ry' % (r.normal() * 100))
            w('     Harris-Foulkes estimate   =%17.8f Ry' % (r.normal() * 100))
        w('     End of self-consistent calculation')
        w('          k = 0.0000-0.5774 0.0000 (   531 PWs)   bands (ev):')
        w('    -6.1000  -5.2300--10.1234   6.3456')
        w('     the Fermi energy is%10.4f ev' % r.normal())
        w('')
        s, v = one(r.normal() * 10.0**r.integers(0, 5), 17, 8)
        w('!    total energy              =%s Ry' % s)
        self.ref['etot'].append(v)
        w('     Harris-Foulkes estimate   =%17.8f Ry' % v)
        w('     The total energy is the sum of the following terms:')
        w('     one-electron contribution =%17.8f Ry' % r.normal())
        w('')
        if conv:
            w('     convergence has been achieved in %3d iterations' % niter)
            self.ref['nstep_scf'].append(niter)
        else:
            w('     convergence NOT achieved after %3d iterations: stopping' % niter)
        w('')
        if forces:
            w('     Forces acting on atoms (%sRy/au):' % ('' if self.old else 'cartesian axes, '))
            w('')
            f = r.normal(size=(1 + extra, self.n, 3)) * 10.0**r.integers(-4, 2)
            st, va = arr(f, 14, 8)
            for b in range(1 + extra):
                if b:
                    w('     The %s contrib.  to forces' % ('non-local', 'ionic', 'local', 'core', 'Hubbard', 'SCF correction',
                                                           'Dispersion')[b - 1])
                for i in range(self.n):
                    w('     atom %4d type %2d   force =%s%s%s' % ((i + 1, 1) + tuple(st[b, i])))
            w('')
            w('     Total force =%12.6f     Total SCF correction =     0.000010' % abs(r.normal()))
            self.ref['forces'].append(va[0])
            self.ref['forces_all'].append(va.reshape(-1, 3))
        if stress:
            w('     entering subroutine stress ...')
            w('')
            p = r.normal(size=(3, 3)) * 10.0**r.integers(0, 4)
            p = 0.5 * (p + p.T)
            st, va = arr(p, 10, 2)
            w('          total   stress  (Ry/bohr**3)                   (kbar)     P=%8.2f' % (np.trace(p) / 3))
            for i in range(3):
                w('  %12.8f %12.8f %12.8f   %s %s %s' % (tuple(r.normal(size=3)) + tuple(st[i])))
            w('')
            self.ref['stress'].append(va)
        w('')

    def start_md(self, dt=None, temp=True, title='Molecular Dynamics Calculation'):
        w = self.l.append
        w('     %s' % title)
        w('')
        if temp:
            w('     Starting temperature  =%9.2f K' % self.rng.uniform(1, 1000))
            w('')
            w('     temperature is controlled by velocity rescaling (rescaling)')
        if dt is not None:
            s, v = one(dt, 8, 2)
            w('     Time step             =%s a.u.,%8.4f femto-seconds' % (s, v * 0.0484))
            self.ref['timestep'] = v

    def cell(self, cell, unit):
        """unit: (alat) | (alat= x) | bohr ... ; returns the header"""
        w = self.l.append
        st, va = arr(cell, 14, 9)
        self.ref['cell'].append(va)
        w('CELL_PARAMETERS%s' % unit)
        for i in range(3):
            w('  %s%s%s' % tuple(st[i]))
        w('')

    def pos(self, co, unit, flags=None):
        w = self.l.append
        st, va = arr(co, 14, 9)
        self.ref['coords'].append(va)
        w('ATOMIC_POSITIONS%s' % unit)
        for i in range(self.n):
            f = '' if flags is None or flags[i] is None else '   %d   %d   %d' % tuple(flags[i])
            w('%-3s   %s%s%s%s' % ((self.sym[i],) + tuple(st[i]) + (f,)))
        w('')

    def kin(self):
        r, w = self.rng, self.l.append
        s, v = one(abs(r.normal()) * 10.0**r.integers(-3, 3), 14, 8)
        self.ref['ekin'].append(v)
        w('     kinetic energy (Ekin) = %s Ry' % s)
        s, v = one(r.uniform(0, 2000), 14, 8)
        self.ref['temperature'].append(v)
        w('     temperature           = %s K ' % s)
        w('     Ekin + Etot (const)   = %14.8f Ry' % r.normal())
        w('')
        w('     Linear momentum : %15.10f%15.10f%15.10f' % tuple(r.normal(size=3)))
        w('')

    def vcmd(self):
        r, w = self.rng, self.l.append
        a, va = one(abs(r.normal()), 14, 8)
        b, vb = one(r.uniform(0, 2000), 6, 1)
        c, vc = one(r.normal() * 100, 14, 8)
        self.ref['ekin'].append(va)
        self.ref['temperature'].append(vb)
        self.ref.setdefault('econst', []).append(vc)
        w('     Ekin = %s Ry     T = %s K      Etot = %s' % (a, b, c))
        w('')

    def text(self):
        w = self.l
        return '\n'.join(w + ['     PWSCF        :     0m12.51s CPU time,        0m13.03s wall time', '', '   JOB DONE.']) + '\n'
