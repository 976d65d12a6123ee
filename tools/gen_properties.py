#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = 'src/pwtools/'
P = []
def at(f):
    return f if f.startswith('bin/') else S + f


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[at(f) for f in files],
                          mechanism=[dict(name=n, where=at(w)) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    P.append(d)

p('C01', 'Unit cell representations agree with each other',
  "Cell vectors, (a,b,c,alpha,beta,gamma), celldm and Bravais-lattice descriptions of the same lattice convert into each other without changing lengths, angles or volume (cells up to a rotation, with a along x and b in the xy plane, and for any right- or left-handed cell). Reciprocal vectors satisfy a_i.b_j = 2 pi delta_ij, and grid sizes are the vector lengths divided by the asked spacing rounded to the nearest integer (made even on request, never below the minimum), with the spacing reported for exactly that size. Per-frame (trajectory) versions give for each frame exactly the single-frame result.",
  ['inputs'], 'all non-degenerate cells (skewed, left-handed, large/small scale), all supported Bravais types, any number of frames and any time axis',
  'tests check a handful of fixed cells and mostly one direction of each conversion',
  ['crys.py', 'pwscf.py'],
  [('cell/cryst_const/celldm conversion', 'crys.py:145-505'), ('k-grid spacing', 'crys.py:312-450'), ('Bravais cells', 'pwscf.py:ibrav2cell')],
  ['pwtools.crys.cell2cc, cc2cell, cell2cc3d, cc2cell3d, volume_*, recip_cell, kgrid, grid_in_cell, cc2celldm, celldm2cc', 'pwtools.pwscf.ibrav2cell'])

p('C02', 'Coordinate transformations are exact and layout independent',
  "Changing the basis of coordinates keeps the physical position x = sum_i c_i*v_i unchanged, is inverted by the reverse change, and does not depend on which array axis holds x,y,z, on memory layout, or on whether one cell, one cell per frame, or the compiled fast path is used. A copying call leaves its input alone.",
  ['inputs'], 'all cells, 1-d/2-d/3-d coordinate arrays, axis and time-axis choices, C/Fortran/strided memory layouts, varying cells',
  'tests use a few fixed matrices and random arrays in one layout',
  ['crys.py', '../_ext_src/flib.f90'],
  [('basis change', 'crys.py:coord_trans'), ('per frame basis change', 'crys.py:coord_trans3d'), ('compiled conversion', '../_ext_src/flib.f90:frac2cart/cart2frac')],
  ['pwtools.crys.coord_trans, coord_trans3d', 'pwtools._flib.frac2cart(_traj), cart2frac(_traj)'])

p('C03', 'Periodic wrapping, distances, angles and neighbours are geometrically right',
  "Wrapping moves atoms only by whole lattice vectors into the unit cell along the selected directions; minimum-image distances equal the length of the wrapped fractional difference vector, are symmetric, invariant under lattice translations, and equal the true shortest image distance within the sphere inscribed in the half-cell. Trajectory and single-structure variants (compiled and pure numpy) agree, angles are those between the two difference vectors and are masked where two of the three atoms are the same. Neighbour queries return, in order of distance, exactly the allowed atoms inside the cutoff or the requested number of nearest allowed atoms.",
  ['inputs'], 'any structure or trajectory (skewed cells, atoms on faces, coincident atoms, atoms far outside the cell), any mask/skip/cutoff/num choice',
  'tests compare two code paths on random cubic-like data and a few hand-computed neighbour lists',
  ['crys.py', '../_ext_src/flib.f90'],
  [('wrapping', 'crys.py:pbc_wrap_coords'), ('min image', 'crys.py:min_image_convention,distances,distances_traj'), ('angles', 'crys.py:angles + flib angles'), ('neighbours', 'crys.py:nearest_neighbors*')],
  ['pwtools.crys.pbc_wrap(_coords), distances, distances_traj, angles, nearest_neighbors(_struct,_from_dists), rmax_smith, center_on_atom, rmsd, num.distsq'])

p('C04', 'Pair distribution functions conserve pairs and follow their definition',
  "For any fixed-cell trajectories and atom selections the radial pair distribution equals the time average of the histogram of all minimum-image pair distances, normalised by shell volume and number density, and its running number integral counts exactly the neighbours found below each radius. It does not depend on splitting the work in time, on rigid translations of all atoms, or on describing selections by mask, symbol or slice.",
  ['inputs', 'configurations'], 'fixed-cell structures and trajectories of any cell shape, one or two selections, all bin widths, radii up to the inscribed sphere radius, all time masks',
  'tests compare with stored reference curves for a few systems',
  ['crys.py'],
  [('pair histogram, normalisation', 'crys.py:rpdf'), ('valid radius', 'crys.py:rmax_smith')],
  ['pwtools.crys.rpdf, rmax_smith'])

p('C05', 'Derived structure data is consistent and independent of how it was given',
  "A structure or trajectory built from any sufficient subset of equivalent inputs (Cartesian or fractional coordinates, cell vectors or cell constants, any units) exposes the same derived quantities (coordinates, cell, volume, velocity, kinetic energy, temperature, pressure, masses, species tables, time), in any order of access, repeatedly. User supplied values are kept rather than replaced, unit conversion factors are applied exactly once, and quantities that cannot be derived are reported as missing instead of failing. All quantities refer to the same atoms and frames with consistent lengths.",
  ['inputs', 'histories'], 'all subsets of input attributes, unit dictionaries and access/update orders',
  'tests use a few fixed constructor calls with default units and one access order',
  ['crys.py', 'base.py', 'decorators.py', 'atomic_data.py', 'constants.py'],
  [('lazy attributes', 'crys.py:Structure,Trajectory'), ('units', 'crys.py:UnitsHandler'), ('setters', 'base.py:FlexibleGetters'), ('atomic data', 'atomic_data.py')],
  ['attributes of pwtools.crys.Structure and Trajectory'],
  state=[('units_applied', 'whether unit factors were applied', 'crys.py:UnitsHandler')])

p('C06', 'Operations never modify their inputs and copies are independent',
  "Analysis and conversion operations leave the arrays, lists, dictionaries, structures and trajectories passed to them unchanged unless in-place operation was explicitly requested, and calling an operation twice with the same arguments gives the same result. Copies of structures and trajectories, and the cells and coordinates of the objects made from them (supercells, wrapped, averaged, smoothed, mixed, concatenated), share no mutable data with the original, so changing one never changes the other.",
  ['inputs', 'histories'], 'all public array/structure operations with arbitrary arguments, repeated calls',
  'tests never compare arguments before and after a call',
  ['crys.py', 'num.py', 'signal.py', 'pydos.py', 'io.py', 'batch.py', 'common.py', 'thermo.py', 'eos.py', 'rbf/core.py', 'rbf/hyperopt.py'],
  [('copy flags', 'crys.py,num.py,signal.py'), ('structure copy', 'crys.py:Structure.copy')],
  ['arguments before and after every monitored public call'])

p('C07', 'Trajectories behave like consistent sequences of frames',
  "Slicing, integer indexing, iterating (also nested or interrupted) and concatenating trajectories keep for every selected frame exactly the data of that frame, for every attribute, as if each attribute were a list of frames; cutting a trajectory and joining the pieces gives the original frames back. Repeating a structure into a trajectory and compressing a trajectory lose only what is documented.",
  ['histories', 'inputs'], 'any trajectory (any set of attributes, fixed or varying cell), any sequence of slice/index/iterate/concatenate/copy/compress operations',
  'tests do single slices and joins of one complete trajectory',
  ['crys.py', 'base.py'],
  [('indexing', 'crys.py:Trajectory.__getitem__/__iter__'), ('joining', 'crys.py:concatenate'), ('reduction', 'crys.py:compress'), ('expansion', 'crys.py:Structure.get_traj')],
  ['attributes of sliced/joined pwtools.crys.Trajectory objects'],
  state=[('iteration index', 'frame cursor', 'crys.py:Trajectory')])

p('C08', 'Velocities, averages, smoothing and mixing follow their definitions',
  "Velocities from coordinates are central differences in time (end points repeated when requested), exact for uniform motion and for any numeric type. The mean of a trajectory is the per-attribute time average, smoothing by either method gives the normalised edge-handled convolution of every time-dependent attribute with frame count kept, constant trajectories are unchanged, and mixing two structures interpolates linearly between exactly the two end points.",
  ['inputs'], 'trajectories of any length of three frames or more, any numeric type, kernel, weight',
  'tests check linear data with one axis, and only compare the two smoothing methods with each other',
  ['crys.py', 'signal.py'],
  [('finite differences', 'crys.py:velocity_traj'), ('averages', 'crys.py:mean,smooth,mix'), ('kernel smoothing', 'signal.py:smooth')],
  ['pwtools.crys.velocity_traj, mean, smooth, mix'])

p('C09', 'Supercells and rigid alignments preserve the crystal',
  "A supercell contains every atom of the original once per repeated cell, at positions shifted by whole lattice vectors, with the cell vectors multiplied and species carried along; density, composition and nearest-image distances are unchanged and both construction methods and the trajectory variant agree. Aligning to a new coordinate system rotates cell and positions rigidly: lengths, angles, volume, fractional coordinates and species stay, and the chosen directions become the coordinate axes.",
  ['inputs'], 'any structure/trajectory, any repetition counts, any orientation vectors',
  'tests check a 2x2x2 fcc cell and one alignment',
  ['crys.py', 'num.py'],
  [('supercell', 'crys.py:scell_mask,scell,scell3d'), ('alignment', 'crys.py:align_cart')],
  ['pwtools.crys.scell, scell3d, scell_mask, align_cart, num.euler_matrix'])

p('I01', 'Structures survive writing and reading files',
  "Structures and trajectories written as CIF, XYZ, XSF/AXSF, LAMMPS data, sgroup input or pickled dumps describe the same crystal when the text is read back independently or by the library's own readers: same species order, fractional positions, cell lengths and angles, number of frames and forces, within the printed precision. Reading functions and parser classes of a format give the same result.",
  ['inputs'], 'any structure/trajectory (skewed cells, negative/large coordinates, many species, repeated species, one or many frames)',
  'tests write one or two structures and mostly check only that writing succeeds',
  ['io.py', 'parse.py', 'lammps.py', 'base.py'],
  [('writers', 'io.py:write_*'), ('readers', 'parse.py:CifFile,PDBFile; io.py:read_*')],
  ['files written by pwtools.io and pwtools.lammps and objects read back'])

p('I02', 'Numeric data survives HDF5 and text storage',
  "Dictionaries of paths and values written to HDF5 and arrays of one to three dimensions written to text come back with the same keys, values and shapes (HDF5: also types), for any stacking axis, with or without the file header. Writing to an existing HDF5 file in append mode keeps what other keys hold, and a read never changes the file.",
  ['inputs', 'histories'], 'any dictionary of nested paths and any 1/2/3-d array incl. singleton dimensions, any axis, any sequence of writes',
  'tests store one dictionary and a few fixed shapes',
  ['io.py', 'arrayio.py'],
  [('HDF5', 'io.py:write_h5,read_h5'), ('text', 'arrayio.py:writetxt,readtxt,arr2d_to_3d')],
  ['pwtools.io.write_h5/read_h5, pwtools.arrayio.writetxt/readtxt'])

p('I03', 'All binary trajectory readers return what the file contains',
  "For a well-formed CHARMM-style DCD file of any number of atoms and frames every reader returns the stored single-precision coordinates and the cell constants (with angles converted when asked), and the pure Python and compiled readers agree exactly. Header fields reported are those in the file. A file cut off inside a frame is refused by the default reader, and no reader returns anything for it but complete frames of the file.",
  ['inputs', 'fault_sequences'], 'any frame/atom count, any cell, lengths and angle conventions, truncation at any byte',
  'tests read two fixed files',
  ['dcd.py', '../_ext_src/dcd.f90', 'parse.py'],
  [('python readers', 'dcd.py:63-227'), ('compiled reader', 'dcd.py:read_dcd_data_f; ../_ext_src/dcd.f90')],
  ['pwtools.dcd.read_dcd_*; pwtools.parse.DcdOutputFile family'])

p('P01', 'Quantum ESPRESSO outputs are parsed into the numbers they contain',
  "From the output of a Quantum ESPRESSO SCF, relax or molecular dynamics run the reader returns exactly the printed energies, forces, stresses, positions, cells, symbols, atom count, k-point count, iteration counts and convergence flag, per frame and converted to the library's units, whatever unit the coordinates and cell are printed in. Numbers of frames of all trajectory quantities agree with the run.",
  ['inputs'], 'any number of atoms, species, frames, cell, coordinate unit (alat, bohr, angstrom, crystal), fixed or varying cell, presence or absence of optional sections',
  'tests parse a few stored outputs',
  ['parse.py', 'regex.py', 'common.py'],
  [('SCF reader', 'parse.py:PwSCFOutputFile'), ('MD reader', 'parse.py:PwMDOutputFile,PwVCMDOutputFile')],
  ['attributes of the parser objects and of the Structure/Trajectory they return'])

p('P02', 'CP2K, CPMD and LAMMPS outputs are parsed into the numbers they contain',
  "From the output files of CP2K, CPMD and LAMMPS runs the readers return exactly the printed energies, temperatures, forces, velocities, stresses, positions, cells, symbols and time step, per frame, with atoms in their identity order and converted to the library's units. Quantities available from two sources (text and binary trajectories, cell vectors and cell constants) agree.",
  ['inputs'], 'any number of atoms, species, frames (including one), fixed or varying cells, permuted atom order in dumps, presence or absence of optional files',
  'tests parse a few stored runs and mostly check that attributes are not missing',
  ['parse.py', 'regex.py', 'dcd.py'],
  [('CP2K', 'parse.py:Cp2k*OutputFile'), ('CPMD', 'parse.py:Cpmd*OutputFile'), ('LAMMPS', 'parse.py:Lammps*OutputFile')],
  ['attributes of the parser objects and of the Structure/Trajectory they return'])

p('P03', 'Reading one file never influences reading another',
  "What a reader returns for a file depends only on that file and the given options: not on which other readers were created or used before, on the order of queries, or on asking twice; every returned object is independent. Quantities absent from the file are reported as missing without failing, and any subset that is present is still returned.",
  ['histories', 'inputs'], 'any interleaving of constructing and querying readers of all supported codes, repeated queries, files with sections removed',
  'tests use each reader once on complete files in separate processes or orders fixed by the test file',
  ['parse.py', 'base.py', 'crys.py'],
  [('unit defaults', 'parse.py:default_units of each reader'), ('container reuse', 'parse.py:StructureFileParser.get_cont'), ('check/raw attributes', 'base.py:FlexibleGetters')],
  ['objects returned by pwtools.parse readers in different histories'],
  state=[('cont', 'container filled from the parser', 'parse.py:StructureFileParser')])

p('P04', 'Phonon output readers return the printed modes and frequencies',
  "Dynamical-matrix, phonon-dispersion and dynmat outputs are read into q-points, frequencies, eigenvectors and intensities with the values, order and shapes found in the file, for any number of atoms and q-points, and reading many per-q files gives the q-points in file number order. From a file that ends early nothing but complete q-points in it is returned.",
  ['inputs'], 'any number of atoms and q-points, band counts that do or do not divide the line length, negative frequencies, complex eigenvectors',
  'tests read two or three stored files',
  ['pwscf.py'],
  [('mode readers', 'pwscf.py:161-530')],
  ['pwtools.pwscf.read_matdyn_modes, read_matdyn_freq, read_dyn, read_all_dyn, read_dynmat*'])

p('W01', 'Input text blocks parse back to the data they were made from',
  "Atomic position, species, k-point and LAMMPS structure blocks generated for simulation inputs contain, per atom and in order, the given symbols, numbers, masses and file names to the printed precision, for any data. Replacing tiny values by zero changes only values below the threshold.",
  ['inputs'], 'any symbols, coordinates, masses, shifts and separators',
  'tests compare a few literal strings',
  ['pwscf.py', 'lammps.py', 'common.py'],
  [('string builders', 'pwscf.py:11-160'), ('array formatting', 'common.py:str_arr,fix_eps,frepr')],
  ['strings returned by pwtools.pwscf.*_str*, pwtools.lammps.struct_str, pwtools.common.str_arr/frepr/seq2str'])

p('B01', 'Parameter studies create every calculation once and keep their history',
  "A parameter study creates one directory with its input files per parameter set and machine, numbered consecutively after those already present, and one database row per calculation whose index and directory name match, with every placeholder replaced by the value of that parameter set. Extending a study keeps all earlier directories and rows, records revisions in order, and overwriting first backs up the whole previous study; excluded directories and rows are removed only when that was asked for.",
  ['histories', 'inputs'], 'any sequence of append/overwrite write operations with any parameters, machines, templates, study names and exclusion settings',
  'tests run two fixed sequences',
  ['batch.py', 'sql.py', 'common.py'],
  [('study writer', 'batch.py:ParameterStudy.write_input'), ('calculation writer', 'batch.py:Calculation'), ('templates', 'batch.py:FileTemplate')],
  ['files, directories and the SQLite database below the study directory'],
  state=[('calc table', 'one row per calculation', 'batch.py:ParameterStudy')])

p('B02', 'Database columns hold exactly the values put in them',
  "Values put in a study database by creating, adding, filling, extending or attaching columns are read back unchanged with their types as lists, arrays or dictionaries, in row order, and rows and columns not addressed keep their values. Parameter lists combined into parameter sets enumerate every combination exactly once, in order.",
  ['histories', 'inputs'], 'any sequence of column operations with integers, floats, text, missing values; any nesting of parameter lists',
  'tests do single operations on a tiny table',
  ['sql.py', 'comb.py'],
  [('column operations', 'sql.py:SQLiteDB'), ('records', 'sql.py:SQLEntry,sql_column,sql_matrix'), ('combinations', 'comb.py:nested_loops')],
  ['pwtools.sql.SQLiteDB read back directly with sqlite3', 'pwtools.comb.nested_loops, unique2d'])

p('B03', 'Backups never lose data',
  "Backing up a file, directory or link creates a new copy with the same content under an unused name and leaves the original and all earlier backups intact, for any number of repetitions and any existing names. Backups requested when replacing text in files hold the exact previous content, and dump files are loadable into an equal object.",
  ['histories', 'inputs'], 'any sequence of backup/edit/replace operations on files, directories, symlinks, names with special characters',
  'tests back up one file and one directory two or three times',
  ['common.py', 'base.py'],
  [('backup', 'common.py:backup'), ('in-place replacement', 'common.py:file_template_replace'), ('dump/load', 'base.py:FlexibleGetters.dump/load')],
  ['file system below the working directory'])

p('B04', 'Text templates are filled in exactly',
  "Filling a template replaces every occurrence of each given placeholder with the given value (in the requested or value's own format), changes no other text, and warns or leaves the text alone when a placeholder is absent. The outcome does not depend on the order in which the placeholders are given, also when one placeholder's name is part of another's or a value looks like a placeholder.",
  ['inputs'], 'any template text, placeholder names and values (int, float, string), all replacement modes',
  'tests use one template with two or three unrelated keys',
  ['common.py', 'batch.py'],
  [('replacement', 'common.py:template_replace'), ('file templates', 'batch.py:FileTemplate.write'), ('value formatting', 'common.py:frepr; sql.py:SQLEntry')],
  ['text returned/written by pwtools.common.template_replace, file_template_replace, pwtools.batch.FileTemplate'])

p('B05', 'Small text and list helpers are exact inverses or selections',
  "Converting text to slices, booleans, numbers and sequences and back gives the original value, flattening and list removal keep all other elements in order, and results tables list every value under its parameters. Shell helpers return the complete output of a command and report failing ones.",
  ['inputs'], 'any slice/boolean/number text (Fortran exponents included), nested lists, parameter tables',
  'tests sample a few literals',
  ['common.py', 'batch.py', 'regex.py'],
  [('conversions', 'common.py:65-260'), ('lists', 'common.py:586-655'), ('tables', 'batch.py:conv_table')],
  ['pwtools.common.toslice, tobool, ffloat, str2seq, seq2str, flatten, pop_from_list, asseq, fix_eps', 'pwtools.batch.conv_table'])

p('N01', 'Array slicing, extending and reducing helpers equal plain indexing',
  "Taking from and putting into an array along any axis or all axes equals ordinary indexing with the same slices, with copies only when asked. Extending an array repeats each slice along the chosen axis the given number of times, and reductions (sums over any axes with or without kept dimensions, root mean squares, norms, normalised integrals, squared distances) equal their definitions.",
  ['inputs'], 'arrays of any dimension, shape and numeric type; any positive or negative axis or tuple of axes; any slices',
  'tests use few shapes and mostly non-negative axes',
  ['num.py', '../_ext_src/flib.f90'],
  [('slicing', 'num.py:slicetake,sliceput'), ('reduction', 'num.py:sum,rms,rms3d,norm,norm_int,normalize'), ('distances', 'num.py:distsq')],
  ['pwtools.num.slicetake, sliceput, extend_array, sum, rms, rms3d, distsq, norm_int, normalize, vlinspace, meshgridt, round_up_next_multiple'])

p('N02', 'Fits and splines reproduce the data and derivatives they represent',
  "Splines pass through their points, and their derivatives, inverse, roots and extrema agree with the represented function; polynomial fits reproduce every polynomial up to their degree exactly in any dimension, with or without scaling, and their derivatives are the analytic ones. Two-dimensional interpolators reproduce the values at the data points with every method.",
  ['inputs'], 'any smooth data, polynomial degree, dimension, scaling choice, constant data, shifted/scaled coordinates',
  'tests fit a few functions with loose tolerances',
  ['num.py'],
  [('splines', 'num.py:Fit1D,Spline,deriv_spl,findmin,findroot'), ('polynomials', 'num.py:polyfit,polyval,PolyFit,PolyFit1D'), ('2-d', 'num.py:Interpol2D')],
  ['pwtools.num.Spline, PolyFit, PolyFit1D, polyfit, polyval, poly_powers, vander, Interpol2D, deriv_spl, findmin, findroot'])

p('N03', 'Matching, ordering and grid reshaping select the right elements',
  "Value matching marks exactly the array elements equal (or equal within a tolerance) to one of the given values, grid reshaping puts each table value at its grid coordinates, and the inner-point selection never contains a point on the hull. Ordering similar curves keeps the first row, takes every value from its own row as the one next to the extrapolation of the requested order, and so recovers smooth crossing branches.",
  ['inputs'], 'any arrays with duplicates, any grid sizes and dimensions, any point sets, any crossing smooth branches',
  'tests check one example each',
  ['num.py', 'comb.py'],
  [('matching', 'num.py:match_mask'), ('ordering', 'num.py:order_similar'), ('grids', 'num.py:DataND'), ('hull', 'num.py:inner_points_mask')],
  ['pwtools.num.match_mask, order_similar, DataND, inner_points_mask', 'pwtools.comb.unique2d'])

p('D01', 'Two-dimensional plot data stays consistent in all its forms',
  "Scattered, vector and grid forms of the same two-dimensional data set always describe the same points and values, whichever form was given, after copying and after every update; copies are independent.",
  ['inputs', 'histories'], 'any grid sizes, axis values and values; any construction form; any sequence of update/copy',
  'tests build one data set from each form and never update it',
  ['mpl.py'],
  [('grid data', 'mpl.py:Data2D'), ('grids', 'num.py:meshgridt')],
  ['attributes of pwtools.mpl.Data2D'])

p('S01', 'Signal processing tools equal their mathematical definitions',
  "All autocorrelation methods agree with the definition sum_t v(t)v(t+tau), Fourier transforms agree with the discrete Fourier sum along any axis and sampling helpers return consistent time/frequency ranges, and padding and mirroring add exactly the documented zeros or reflections along the chosen axis. Smoothing is the normalised convolution with the documented edge handling (constants preserved, length kept), window and kernel functions are normalised as documented, and peak finding reports exactly the local maxima above the threshold with accurate positions.",
  ['inputs'], 'signals of any length (short ones included), dimension, axis, kernel and parameter',
  'tests compare methods on one random signal',
  ['signal.py', '../_ext_src/flib.f90'],
  [('autocorrelation', 'signal.py:acorr'), ('transforms', 'signal.py:dft,ezfft,fft_1d_loop,fftsample'), ('padding', 'signal.py:pad_zeros,mirror'), ('smoothing', 'signal.py:smooth'), ('peaks', 'signal.py:find_peaks'), ('filters', 'signal.py:FIRFilter')],
  ['pwtools.signal.*'])

p('S02', 'Velocity autocorrelation and phonon DOS agree across methods and threads',
  "All velocity autocorrelation methods, in Python and compiled, give the mass-weighted definition for any trajectory and mass vector, independent of the number of threads and bit-for-bit repeatable. The phonon density of states has the requested area, non-negative frequencies with the right spacing and limit, its peak at each oscillation frequency, and the direct and autocorrelation routes agree when no window is applied.",
  ['inputs', 'schedules', 'configurations'], 'any number of frames/atoms, masses, axis choices, thread counts and repeated parallel runs, padding/window/mirror options',
  'tests compare methods on one random trajectory with the default thread count',
  ['pydos.py', '../_ext_src/flib.f90', 'signal.py'],
  [('autocorrelation', 'pydos.py:pyvacf,fvacf'), ('spectra', 'pydos.py:pdos,vacf_pdos,direct_pdos'), ('OpenMP loops', '../_ext_src/flib.f90:vacf')],
  ['pwtools.pydos.*'])

p('M01', 'Compiled kernels are memory safe and free of data races',
  "The compiled routines behind distances, angles, coordinate transforms, correlations and binary trajectory reading never access memory outside the arrays they were given and never execute undefined operations for any valid array sizes. Their parallel loops contain no data race, so results do not depend on thread count or scheduling.",
  ['inputs', 'schedules'], 'all valid array sizes (1 and up), thread counts 1-8, repeated parallel executions',
  'tests look only at results of a few sizes; an out-of-bounds or racy access usually leaves them unchanged',
  ['../_ext_src/flib.f90', '../_ext_src/dcd.f90'],
  [('parallel loops', '../_ext_src/flib.f90'), ('binary reader', '../_ext_src/dcd.f90')],
  ['sanitizer-instrumented builds of the two extensions'])

p('E01', 'Equation-of-state fits give mutually consistent properties',
  "An equation-of-state fit to energies generated from known parameters recovers minimum energy, equilibrium volume, bulk modulus and its derivative; pressure is minus the energy derivative, the bulk modulus is -V dP/dV at every volume asked for, and both are consistent at the minimum, for any fit function and unit scale. Fits do not depend on the order of the data points.",
  ['inputs'], 'any physically sensible parameters, volume ranges and point counts',
  'tests fit one material',
  ['eos.py', 'num.py'],
  [('EOS', 'eos.py:Vinet,EosFit'), ('external EOS', 'eos.py:ExternEOS,ElkEOSFit')],
  ['pwtools.eos.EosFit, Vinet, ElkEOSFit'])

p('T01', 'Harmonic thermodynamics obeys the thermodynamic identities',
  "From any phonon density of states and temperature range the harmonic quantities satisfy F = E - T*S, S = -dF/dT, C_V = dE/dT, the zero-point energy limit at low temperature and the Dulong-Petit limit at high temperature, are finite everywhere, and equal the sum over modes for a density of states made of discrete modes. Unphysical or zero frequencies are skipped with a warning, normalisation gives the requested number of modes, and Debye/Einstein helpers equal their integrals.",
  ['inputs'], 'any non-negative DOS on any frequency grid (negative/zero frequencies included), temperatures from near zero to very high',
  'tests compare with one stored reference calculation',
  ['thermo.py', 'constants.py', 'num.py'],
  [('harmonic', 'thermo.py:HarmonicThermo'), ('Debye/Einstein', 'thermo.py:debye_func,einstein_func,expansion')],
  ['pwtools.thermo.HarmonicThermo, coth, debye_func, einstein_func, expansion'])

p('T02', 'Gibbs free energies are minimised and tabulated consistently',
  "On any temperature/pressure grid the tabulated Gibbs energy equals the minimum over the structural variables of F + P*V, the tabulated equilibrium axes, volume, thermal expansion, heat capacity and bulk modulus belong to that minimum and are mutual derivatives, and free energy, internal energy and entropy are related by F = E - T*S in the same units. Results do not depend on the order of the volume/axis points, and the minimised quantities at one grid point do not depend on other grid points.",
  ['inputs', 'configurations'], 'any smooth energy surface in one, two or three structural variables, any phonon DOS, T and P grids, custom fit functions',
  'tests compare with one stored run per dimension',
  ['thermo.py'],
  [('quasi-harmonic', 'thermo.py:Gibbs')],
  ['dictionaries returned by pwtools.thermo.Gibbs.calc_F/calc_H/calc_G'])

p('R01', 'Radial basis interpolation reproduces data, derivatives and errors',
  "An interpolation without regularisation reproduces the training values for any point set, dimension and kernel, predictions equal the kernel sum, derivatives are the gradient of the prediction, and a fit does not depend on point order or on an added constant point offset. Fit-error helpers return the true training or cross-validation error, and all solver choices agree on well-conditioned problems.",
  ['inputs', 'configurations'], 'any dimension, number of points, kernels, regularisation, parameter estimation method, values (zero, constant, large scale)',
  'tests use one or two point clouds with loose tolerances',
  ['rbf/core.py', 'rbf/hyperopt.py'],
  [('interpolation', 'rbf/core.py:Rbf'), ('distances', 'rbf/core.py:squared_dists')],
  ['pwtools.rbf.Rbf, squared_dists, euclidean_dists, estimate_p, rbf kernels'])

p('R02', 'Hyper-parameter optimisation is reproducible and keeps its options',
  "Optimising interpolation parameters returns a parameter set inside the requested bounds whose error is not worse than that of the start or grid candidates, the returned interpolator uses exactly those parameters, and repeating the call with the same options and seed gives the same answer without altering the caller's options. Cross-validation uses every point exactly once as test data per repetition.",
  ['inputs', 'histories'], 'any optimiser choice, cross-validation setting, seed and repeated calls sharing option dictionaries',
  'tests call each mode once',
  ['rbf/hyperopt.py'],
  [('fit error', 'rbf/hyperopt.py:FitError'), ('optimisation', 'rbf/hyperopt.py:fit_opt')],
  ['pwtools.rbf.hyperopt.FitError, fit_opt'])

p('Y01', 'Symmetry reduction keeps the crystal the same',
  "Converting a structure to the symmetry library's form and back changes nothing, a primitive cell has the original's density and composition and generates the same crystal, and the space group found is the same for every equivalent description (translated, re-ordered, rotated, supercell). Two structures compare equal exactly when cell, species and positions agree.",
  ['inputs'], 'crystals of all centring types, supercells, origin shifts and atom permutations',
  'tests use three crystals',
  ['symmetry.py', 'crys.py'],
  [('conversion', 'symmetry.py'), ('structure interfaces', 'crys.py:get_spglib,get_ase_atoms,struct2atoms,atoms2struct')],
  ['pwtools.symmetry.*, pwtools.crys.struct2atoms, atoms2struct'])

p('K01', 'Band paths pass through their special points in equal steps',
  "A path through any list of special points starts and ends exactly at the first and last point, contains each intermediate point once, in order, with the requested number of steps per segment, and its cumulative length never decreases and equals the summed distances. Special point markers are at the path positions of those points.",
  ['inputs'], 'any number of special points, dimension and steps',
  'tests check one path',
  ['kpath.py'],
  [('path', 'kpath.py')],
  ['pwtools.kpath.kpath, get_path_norm, SpecialPointsPath'])

p('X01', 'Random structures respect their constraints',
  "Every generated random structure has the requested species, cell constants and volume inside the allowed ranges, atoms inside the cell, and no two atoms (periodic images included) closer than the given fraction of their bond length or the given distance matrix. Failing to place atoms is reported as documented rather than yielding a violating structure, and statistics counters match the attempts.",
  ['inputs'], 'any species list, volume/angle/length settings, closeness limits and random seeds',
  'tests generate a few structures and check only validity of the cell',
  ['random.py'],
  [('random structures', 'random.py:RandomStructure')],
  ['pwtools.random.RandomStructure, random_struct'])

p('V01', 'Viewers and VMD are handed exactly the requested structure and settings',
  "A viewer call starts the configured program with the given options on a file that holds exactly the given structure or trajectory, keeps its output where asked, removes its temporary files unless they are to be kept (background viewers keep theirs), and leaks nothing over repeated calls. The VMD radial distribution interface measures exactly the selected frames (first and last included), each in its own cell, with the given atom selections and settings, however the frames are selected, and returns VMD's table unchanged.",
  ['inputs', 'histories', 'configurations'], 'any structure or trajectory (fixed or variable cell), viewer, option and file settings, repeated and parallel viewers',
  'tests never start a viewer and skip VMD, which is not installed',
  ['visualize.py', 'crys.py', 'io.py', 'common.py'],
  [('viewers', 'visualize.py:ViewFactory'), ('VMD interface', 'crys.py:call_vmd_measure_gofr,vmd_measure_gofr')],
  ['pwtools.visualize.ViewFactory, view_*', 'pwtools.crys.vmd_measure_gofr, call_vmd_measure_gofr'])

p('G01', 'Figures hold the given data under the requested labels and styles',
  "Plot containers give each name its own figure and axis with the requested settings, legends list exactly the entries of the named axes in their order on the named axis, and saved figures come in every requested format. Extra axis lines, coloured axes and style or colour sequences act on the requested element only, for any number of axes.",
  ['inputs', 'histories'], 'any number of axes, lines, labels, locations, colours and formats',
  'the plotting test is skipped without a display and looks at figure numbers only',
  ['mpl.py', 'num.py'],
  [('plot containers', 'mpl.py:Plot,prepare_plots,collect_legends'), ('axis lines', 'mpl.py:new_axis,make_axes_grid_fig'), ('styles', 'mpl.py:color_ax,smooth_color')],
  ['pwtools.mpl.*'])

p('Z01', 'Command-line tools convert and cut files without losing or inventing data',
  "The conversion scripts print, for every supported program and in its units, exactly the crystal, charges, masses or phonon data of their input file, and plot every band of a dispersion over its path. The cutting scripts leave exactly the time steps before the given one in every output file of an interrupted run, whatever its print interval, keep a complete backup, touch no other file, and change nothing when simulating or refusing wrong arguments.",
  ['inputs', 'crash_points', 'configurations'], 'any crystal, species mix and phonon data; any print interval, continuation point, cut step, missing or broken-off file',
  'tests run three scripts once each and do not look at their output',
  ['bin/cif2any.py', 'bin/cif2sgroup.py', 'bin/pdb2cif.py', 'bin/matdyn2fqha.py', 'bin/plot_dispersion.py', 'bin/solvate.sh', 'bin/cut-cpmd.sh', 'bin/cut-cp2k.sh'],
  [('converters', 'bin/cif2any.py, bin/cif2sgroup.py, bin/pdb2cif.py, bin/matdyn2fqha.py, bin/plot_dispersion.py, bin/solvate.sh'), ('cutting', 'bin/cut-cpmd.sh, bin/cut-cp2k.sh')],
  ['output and files of the scripts in bin/'])

p('A01', 'Calculator input is complete, isolated and round-trips units',
  "Inputs written by the energy calculators describe exactly the given atoms and parameters (cell, positions, species, masses, pseudopotentials, k-points, every keyword), and read-back energies, forces and stresses are those printed, in the calculator interface's units and sign convention. Settings of one calculator never influence another.",
  ['inputs', 'histories', 'configurations'], 'any atoms object, keyword sets, several calculators alive at the same time',
  'tests run one calculator per test with default-like settings',
  ['calculators.py', 'crys.py', 'pwscf.py', 'lammps.py', 'parse.py'],
  [('calculators', 'calculators.py')],
  ['input files written by pwtools.calculators.Pwscf/Lammps, results dictionaries'])

p('U01', 'Stress, mass and thermostat helper formulas are exact',
  "Tensor and Voigt forms of stress convert into each other losslessly for single frames and trajectories, atomic data tables are mutually consistent (symbol, number, mass, radius), physical constants are mutually consistent, and thermostat/barostat mass helpers follow their formulas with dimension-consistent units. Timers and lazily computed attributes compute once and return the same value.",
  ['inputs', 'histories'], 'all elements, any symmetric tensors, any temperatures/frequencies/degrees of freedom',
  'tests check one tensor and no table consistency',
  ['crys.py', 'atomic_data.py', 'constants.py', 'mttk.py', 'decorators.py', 'timer.py'],
  [('voigt', 'crys.py:tensor2voigt...'), ('tables', 'atomic_data.py'), ('masses', 'mttk.py')],
  ['pwtools.crys.tensor2voigt*, voigt2tensor*, pwtools.atomic_data, pwtools.constants, pwtools.mttk, pwtools.decorators.lazyprop'])

p('U02', 'Leaving out an optional argument means its documented default',
  "For every public function, method and constructor, leaving an optional argument out gives the same outcome (result, exception, changed arguments, output and files) as passing the default value shown in its documented signature, one at a time or all together. Repeating a call gives the same outcome again: no call changes the defaults of later calls.",
  ['inputs', 'configurations'], 'any call of any public function with any subset of its optional arguments left out',
  'tests call a function with one set of options and mostly pass the options they depend on',
  ['crys.py', 'num.py', 'signal.py', 'pydos.py', 'thermo.py', 'eos.py', 'io.py', 'parse.py', 'pwscf.py', 'batch.py', 'sql.py', 'common.py', 'calculators.py', 'mpl.py', 'visualize.py', 'random.py'],
  [('all signatures', 'keyword defaults of the public functions of every module')],
  ['the call signatures of the public functions of pwtools'])

p('U03', 'Results do not depend on how the input arrays are stored',
  "The outcome of every operation depends only on the numbers in its input arrays: the same numbers stored in Fortran order, as strided or reversed views, in non-native byte order, unaligned, read-only, or as integers (or single precision, within that precision) give the same results and files as C-ordered native double precision arrays. This holds for all arrays of a call together and for each one alone.",
  ['inputs', 'configurations'], 'any array argument of any public numerical, structure, trajectory or writer operation in any storage',
  'tests pass freshly made C-ordered double arrays',
  ['crys.py', 'num.py', 'signal.py', 'pydos.py', '../_ext_src/flib.f90', 'thermo.py', 'eos.py', 'rbf/core.py', 'io.py', 'arrayio.py', 'pwscf.py', 'lammps.py'],
  [('array arguments', 'public functions taking arrays'), ('Fortran wrappers', '../_ext_src/flib.f90')],
  ['array arguments of the public functions of pwtools'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [d['id'] for d in P]
assert len(set(ids)) == len(ids)
for d in P:
    assert len(d['title']) <= 80, d['title']
    n = len([s for s in d['statement'].replace('a.b', '').split('. ') if s.strip()])
    assert n <= 3, (d['id'], n)
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
