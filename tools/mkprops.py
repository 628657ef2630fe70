#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the properties are worded)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

p('C01', 'Finite-difference derivatives are the sixth-order ones at every point',
  'On a uniform radial grid of n >= 9 points the first derivative is, at every point including the three nearest each end, the derivative of the polynomial through seven neighbouring grid values (so exact for every polynomial of degree at most 6), and the second derivative is that of the polynomial through eight (one-sided, at those three points) or seven (centred) neighbouring values (so exact up to degree 7), up to rounding. '
  'This holds for every number of points, every interval and every field values (any magnitude and sign, constant, oscillating or isolated), and the input field is left unchanged. '
  'The result depends only on the values handed in, not on what the same or another operator was used for before or on the old contents of the output.',
  ['inputs', 'configurations', 'histories'],
  'every n >= 9, every interval, every vector of values, every order of calls',
  'The existing test differentiates one smooth function on two grids and looks at a norm; it cannot see a wrong weight at one boundary point, for one n, or for data it does not use.',
  ['Source/finite_diff.cpp', 'Source/finite_diff.hpp'],
  [('one-sided and centred stencils of first derivative', 'FD::der'), ('stencils of second derivative', 'FD::der2')],
  ['output vector of the first and second derivative'])

p('C02', 'Finite-difference filter is the eighth-difference Kreiss-Oliger filter',
  'The radial filter of the finite-difference grid replaces every value further than four points from both ends by v - (eighth central difference of the incoming values)/256, so the highest-frequency (alternating) mode is removed and every polynomial of degree at most 7 is left unchanged up to rounding; all differences are taken of the values before the call. '
  'The four values nearest each end are left exactly as they were. '
  'This holds for every n >= 9, any values and any order of calls.',
  ['inputs', 'configurations', 'histories'],
  'every n >= 9, every vector of values, every order of calls',
  'The existing test only checks that the total variation of one noisy profile goes down.',
  ['Source/finite_diff.cpp'],
  [('nine-point stencil applied to a temporary copy', 'FD::filter')],
  ['the vector after the call'])

p('C03', 'Chebyshev transforms give the interpolant and invert each other',
  'The forward Chebyshev transform returns the coefficients of the polynomial of degree n-1 that takes the given values at the n Chebyshev points, and the backward transform returns the values at those points of the polynomial with the given coefficients, so forward then backward (or the reverse) is the identity up to rounding. '
  'This holds for every n >= 3, even or odd, on every interval and for all values, including data in the highest modes; the forward transform leaves its input unchanged.',
  ['inputs', 'configurations', 'histories'],
  'every n >= 3, every interval, every vector of values or coefficients, every order of calls',
  'The existing test goes back and forth with one smooth function and one n: a wrong normalisation that cancels in the round trip, or one that shows only in the highest mode or for other n, passes.',
  ['Source/cheb.cpp', 'Source/cheb.hpp'],
  [('DCT-I and the normalisation of the first, interior and last coefficient', 'Cheb::to_ch, Cheb::to_po')],
  ['coefficient and value vectors'])

p('C04', 'Chebyshev derivative differentiates the interpolant below its two top modes',
  'The Chebyshev radial derivative returns, at every one of the n points, the derivative with respect to the physical coordinate of the interpolating polynomial with its two highest modes (degrees n-1 and n-2) discarded, hence the exact derivative of every polynomial of degree at most n-3, up to rounding. '
  'This holds for every n >= 5, every interval (any length and offset) and all values, and the input is left unchanged.',
  ['inputs', 'configurations', 'histories'],
  'every n >= 5, every interval, every vector of values, every order of calls',
  'The existing test differentiates one function on one interval at two resolutions.',
  ['Source/cheb.cpp'],
  [('derivative recurrence in coefficient space and interval Jacobian', 'Cheb::der')],
  ['output vector of the derivative'])

p('C05', 'Chebyshev filter damps mode k by exp(-40 (k/n)^16) and nothing else',
  'The Chebyshev radial filter multiplies the coefficient of degree k of the interpolating polynomial by exp(-40 (k/n)^16) for every k from 0 to n-1, so low modes are untouched, the mean is kept, no mode is ever amplified and modes do not mix. '
  'This holds for every n >= 3 and all values.',
  ['inputs', 'configurations', 'histories'],
  'every n >= 3, every interval, every vector of values, every order of calls',
  'The existing test only checks that the total variation of one noisy profile goes down.',
  ['Source/cheb.cpp'],
  [('low-pass table and its application', 'Cheb::Cheb, Cheb::filter')],
  ['the vector after the call'])

p('C06', 'Radial grid points cover the interval in the documented order',
  'A finite-difference radial grid has n equally spaced points increasing from the lower to the upper bound; a Chebyshev radial grid has the n Chebyshev extrema of the interval, decreasing from the upper to the lower bound. '
  'The first and last points are the ends of the interval (to rounding), the points are strictly ordered, and the grid reports the size and bounds it was made with, for every n >= 9 and every interval.',
  ['inputs', 'configurations'],
  'every n, every interval, both radial methods',
  'Tests use the points of a few grids only as abscissae.',
  ['Source/cheb.cpp', 'Source/finite_diff.cpp'],
  [('point tables', 'Cheb::Cheb, Cheb::pt, FD::pt')],
  ['reported points, size and bounds'])

p('C07', 'Spherical-harmonic transforms, points and harmonics agree',
  'On a sphere with modes l <= lmax, |m| <= mmax the forward transform returns the orthonormal spherical-harmonic coefficients of the field and the backward transform the field with given coefficients (real and complex versions), each inverting the other on band-limited data. '
  'The points reported are the Gauss-Legendre colatitudes and equally spaced longitudes at which the values sit, in either memory layout, and asking for the harmonic (l,m) returns its real-field values there: Y_l0, or 2 Re Y_lm for m > 0.',
  ['inputs', 'configurations'],
  'every lmax, mmax, number of points, both memory layouts, every band-limited field',
  'These tests cannot be built without SHTns and use a single configuration and layout.',
  ['Source/sphere.cpp', 'Source/sphere.hpp'],
  [('copy in, transform, copy out', 'Sphere::to_Ylm, Sphere::to_Sph, Sphere::compute_ylm'), ('point coordinates', 'Sphere::theta, Sphere::phi')],
  ['transform outputs, point coordinates'])

p('C08', 'Angular derivative operators act correctly on every resolved mode',
  'On every band-limited field the angular Laplacian multiplies each harmonic by -l(l+1), the azimuthal derivative is d/dphi, the raising and lowering operators map Y_lm to sqrt((l-+m)(l+-m+1)) Y_l,m+-1 (annihilating m = +-l), and the angular gradient square is (d_theta f)^2 + (d_phi f)^2/sin^2(theta). '
  'This includes the modes with the largest l and m that the grid resolves (for raising, lowering and the gradient square: the modes whose |m|+1 is resolved or equals l+1), both memory layouts, and leaves the input unchanged.',
  ['inputs', 'configurations', 'histories'],
  'every band-limited field, every lmax, mmax and grid size, both layouts',
  'These tests cannot be built without SHTns, and test a handful of low modes in one configuration.',
  ['Source/sphere.cpp'],
  [('diagonal operators in coefficient space', 'Sphere::laplace_beltrami, Sphere::partial_phi'), ('ladder operators', 'Sphere::raise, Sphere::lower'), ('gradient square', 'Sphere::sphereX')],
  ['output fields'])

p('C09', 'Angular filter and power spectrum treat every mode as documented',
  'The angular filter multiplies the (l,m) coefficient by exp(-40 (l/lmax)^16) exp(-40 (m/lmax)^16) for every resolved mode, so it keeps the mean, mixes no modes and amplifies none. '
  'The angular power spectrum returns, for each l from 0 to lmax-1, the sum over all m from -l to l of |f_lm|^2 of the field.',
  ['inputs', 'configurations', 'histories'],
  'every field, every lmax, mmax and grid size, both layouts',
  'These tests cannot be built without SHTns; the filter is only tested to reduce variation.',
  ['Source/sphere.cpp'],
  [('low-pass factors', 'Sphere::filter'), ('sum over m with negative m counted', 'Sphere::power_spectrum')],
  ['field after the filter, spectrum'])

p('C10', 'Every 3d grid point has one storage slot and rows address it',
  'In both memory layouts each (radius, theta, phi) point of the grid has exactly one storage index in 0..N-1 and every index belongs to exactly one point, and likewise for the 2d index maps. '
  'Reading a row or plane (radial, theta, phi, or any of the planes, or one mode number) returns exactly the values stored at its points in order, and writing one changes exactly those entries and no other, for every grid shape, also with unequal numbers of theta and phi points.',
  ['inputs', 'configurations', 'histories'],
  'every grid shape, both layouts, every row, every sequence of reads and writes',
  'No test exercises the row accessors apart from one shape with SHTns.',
  ['Source/grid.hpp'],
  [('index maps', 'indx_R_th_ph and relatives'), ('row accessors', 'get_row_*, set_row_*')],
  ['indices, array contents before and after'])

p('C11', 'Grid coordinates describe the compactified 3d grid consistently',
  'For every point the grid reports the compactified radius R of its radial index, the colatitude and longitude of its angular indices, the Cartesian coordinates R(sin th cos ph, sin th sin ph, cos th), and the (R,l) and (mode,l) labels, consistently between access by index triple and by flat index. '
  'The areal radius is r = R/(1 - R/L), which inverts R = r/(1 + r/L), and R = L (to rounding or 1e-16) is mapped to a very large radius (at least 1e12) rather than to a division by zero.',
  ['inputs', 'configurations'],
  'every grid shape, both layouts and radial methods, every compactification length and interval',
  'No test looks at the coordinates of more than one grid.',
  ['Source/grid.cpp', 'Source/grid.hpp', 'sim_class.py'],
  [('coordinate tables', 'Grid::Grid'), ('compactification', 'Grid::R_to_r')],
  ['reported coordinates'])

p('C12', '3d derivative operators are the 1d/2d ones on each line with the chain rule',
  'The R-derivative of a 3d field is the 1d radial derivative on each radial line; the r-derivative is that times dR/dr = (1-R/L)^2, and the second r-derivative is (dR/dr)^2 f_RR + (d2R/dr2) f_R with d2R/dr2 = -(2/L)(1-R/L)^3. '
  'The azimuthal derivative, angular Laplacian and angular gradient square of a 3d field are the sphere operators on each shell, for every field, grid shape and layout, with no influence between lines or shells, and with the input unchanged.',
  ['inputs', 'configurations', 'histories'],
  'every field, grid shape, layout, radial method, interval and compactification length',
  'Grid tests need SHTns, use a smooth product field and compare norms.',
  ['Source/grid.cpp'],
  [('line by line application', 'Grid::set_partial_R, set_partial_r, set_partial2_r'), ('shell by shell application', 'Grid::set_partial_phi, set_spherical_lap, set_sphereX')],
  ['output fields'])

p('C13', '3d filter applies the angular and radial filters, radial ends fixed',
  'Filtering a 3d field applies the angular low-pass filter on every shell and then the radial low-pass filter on every radial line, in both radial methods. '
  'The radial filter leaves the values at the first and last radial points exactly as the angular filter left them, and no line or shell influences another beyond this.',
  ['inputs', 'configurations', 'histories'],
  'every field, grid shape, layout and radial method',
  'Grid filter tests need SHTns and check only that variation decreases.',
  ['Source/grid.cpp'],
  [('both passes and the saved end values', 'Grid::filter')],
  ['the field after the call'])

p('C14', 'Residual and total-variation diagnostics equal their definitions',
  'The independent residual is the root mean square over all grid points of p - (f_new - f_old)/dt. '
  'The total variation is the sum, over all points that have a next point in radius, theta and phi, of the Euclidean norm of the three forward differences, divided by the number of grid points; both hold for all fields, layouts and thread counts (to rounding).',
  ['inputs', 'configurations', 'schedules'],
  'every field, grid shape, layout, dt and number of threads',
  'Tests only use the total variation comparatively and never the residual.',
  ['Source/grid.cpp'],
  [('parallel reductions', 'Grid::norm_indep_res, Grid::total_variation')],
  ['returned numbers'])

p('C15', 'Initial data are the compact harmonic pulse on every grid point',
  'The initial field is, at every grid point including the outermost and the horizon point, proportional to ((r-rl)/w)^4 ((ru-r)/w)^4 exp(-w/(r-rl)) exp(-2w/(ru-r)) times the real harmonic (l,m) for rl < r < ru (w = ru - rl) and zero elsewhere, scaled so its largest absolute value on the grid is the requested amplitude. '
  'The initial time derivative is the r-derivative of that field for ingoing data, minus it for outgoing data, and zero for time-symmetric or any other direction.',
  ['inputs', 'configurations'],
  'every amplitude, pulse interval, direction, (l,m), grid shape, layout and radial method',
  'No test looks at initial data.',
  ['Source/initial_data.cpp'],
  [('bump, derivative, harmonic, rescaling', 'ID::compact_pulse')],
  ['initial f and p'])

p('C16', 'Evolution equation is the scalar wave equation on Kerr',
  'At every grid point, for every state and every choice of parameters, the computed time derivatives are df/dt = p and dp/dt such that K(f) box f + K\'(f)(grad f)^2/2 - V\'(f) = 0 on the Kerr metric of the given mass and spin in the horizon-penetrating coordinates used, with K = km1/(1+f) + k0 + k1 f + k2 f^2/2 (no first term when km1 = 0, so that f = -1 is then a value like any other) and V = V2 f^2/2 + V3 f^3/6 + V4 f^4/24, spatial derivatives being the grid\'s. '
  'It stays finite at infinity and at the horizon, for zero, intermediate and extremal spin of either sign.',
  ['inputs', 'configurations'],
  'every field state, mass, spin (|a| <= m), coupling and potential constants, grid shape, layout, radial method',
  'No test evaluates the equation of motion.',
  ['Source/scalar_eom.cpp'],
  [('coefficient tables', 'Scalar_eom::Scalar_eom'), ('assembly', 'Scalar_eom::set_k')],
  ['time derivatives of f and p'])

p('C17', 'One time step is classical RK4 on the filtered fields',
  'One time step first filters both fields at the old level and then sets the new level to the classical fourth-order Runge-Kutta step of length dt of the evolution equation for both fields, using the derivatives of the intermediate stages in the right order with weights 1/6, 1/3, 1/3, 1/6. '
  'It depends on nothing but the old level: leftovers of earlier steps in the stage or new-level storage have no effect.',
  ['inputs', 'histories', 'configurations'],
  'every state, dt, parameters, number of steps taken before, leftover contents of the work arrays',
  'No test takes a time step.',
  ['Source/scalar_eom.cpp'],
  [('filter, stages and accumulation', 'Scalar_eom::time_step, set_level')],
  ['new level of f and p after a step'])

p('C18', 'Energy density is that of the normal observer',
  'The energy density output is n^mu n^nu T_mu_nu of the scalar field with kinetic function K(f) and potential V(f) for the unit normal n of the constant-time slices of the Kerr metric of the given mass and spin, at every grid point, with the grid\'s spatial derivatives. '
  'Hence with K > 0 and V >= 0 it is never negative, and it is finite at infinity and on the horizon.',
  ['inputs', 'configurations'],
  'every field state, mass, spin, coupling and potential constants, grid shape, layout, radial method',
  'No test evaluates the energy density.',
  ['Source/scalar_eom.cpp'],
  [('coefficients and assembly', 'Scalar_eom::Scalar_eom, Scalar_eom::set_rho')],
  ['rho'])

p('C19', 'Field storage levels hold what the step protocol says',
  'A field starts with every entry of every level at its initial value; shifting copies the new level to the old level, entry by entry, and changes nothing else. '
  'This holds for every size (including small, odd and large ones), contents, number of fields and number of threads, in any order of updates and shifts.',
  ['histories', 'inputs', 'schedules'],
  'every sequence of level updates and shifts, every size, every content, every number of threads',
  'No test uses a field.',
  ['Source/field.cpp', 'Source/field.hpp'],
  [('construction and shift', 'Field::Field, Field::shift')],
  ['all four levels of each field'],
  [('n, l, np1, k', 'old level, stage, new level, time derivative', 'Field')])

p('C20', 'A run saves the right states at the right times and stops',
  'A run with nt and a save interval s takes nt-1 steps, and output number j (for j = 0, 1, ..., floor((nt-1)/s)) holds the field and the energy density after exactly j*s steps from the initial data, with number 0 the initial data; no other output is made. '
  'For every saved step it reports the time dt*step, the residual and the total variation on the terminal, the run ends successfully, and each step starts from the result of the previous one.',
  ['configurations', 'histories', 'inputs'],
  'every nt, save interval (dividing nt or not, larger than nt), parameters, radial method, layout',
  'No test runs the program.',
  ['Source/main.cpp'],
  [('evolution loop, save condition, shift', 'main')],
  ['files written, their contents, terminal output, exit status'])

p('C21', 'CSV output reproduces the data it was given',
  'Each table written has one header line (when coordinates are asked for) and one row per grid point or (radius, l) pair in storage order with the coordinates and value to 16 significant digits; spectra are written as log10 of the power with -16 for anything below 1e-16, and the 3d table holds exactly the points whose |value| lies strictly between the value bounds and whose radius lies strictly between the radius bounds. '
  'The file name is the given name, the kind of table and the output number; different outputs never share a file and nothing else is written.',
  ['inputs', 'configurations', 'histories'],
  'every data set (also tiny, huge, negative, zero), bounds, grid shape, layout, output number',
  'No test writes a file.',
  ['Source/io.cpp'],
  [('writers', 'Csv::write, write_R_psl, write_n_psl, write_x_y_z')],
  ['files written'])

p('C22', 'Parameters are read exactly as the parameter file gives them',
  'Every parameter takes the value given on the first line of the parameter file whose text before the first blank is exactly its name, whatever the order of lines, whatever other lines are present, and also when another name is a prefix or extension of it or appears as a value; decimal, exponent and signed numbers in the normal range of doubles (and counts up to the range of the counters) are read without loss, whatever files were read before, at the same path or another. '
  'When a parameter is missing the program says which one and stops without running.',
  ['inputs'],
  'every parameter file: any order, repetition, extra lines, names that extend one another, any numeric value',
  'No test reads a parameter file.',
  ['Source/params.cpp', 'Source/params.hpp'],
  [('line scan', 'Params::_read'), ('assignment to fields', 'Params::Params')],
  ['values reported by the getters'])

p('C23', 'The launcher derives consistent run parameters',
  'From mass m and spin a the launcher sets the horizon m + sqrt(m^2-a^2), the pulse bounds as the given multiples of it, Rmin = compactified horizon radius and Rmax = the compactification length, dt = 6/max(nx,nlat,nphi)^2 for the Chebyshev method and min(6/max(nlat,nphi)^2, cfl/(nx-1)) for finite differences, nt = the whole number of steps in evolve_time*m/dt, and the save interval = nt/num_saved_times rounded down but at least 1. '
  'This holds for every admissible choice of settings, including zero and extremal spin, and leaves the settings themselves unchanged.',
  ['inputs', 'configurations'],
  'every mass, spin, grid size, CFL number, evolution time, number of saved times, both radial methods',
  'No test runs the launcher.',
  ['sim_class.py'],
  [('derived parameters', 'Sim.set_derived_params, Sim.compactification')],
  ['attributes after derivation'])

p('C24', 'The launcher hands a run everything it needs in a fresh directory',
  'Each launch makes a new output directory (failing rather than reusing an existing one), writes there a parameter file with every setting and derived parameter that the executable will read, exactly, copies the chosen executable there, and runs it there (or submits a batch job there) with that parameter file, that directory and the requested thread settings, keeping the terminal output in a file of that directory. '
  'The directory is Output/<name> below the directory the launcher was started in, or <out_stem>/<name> for a batch job, with the name given or one made up of date, time and main parameters; a batch job asks for the walltime, memory, threads and mail address of the settings, and the run script of the repository picks the executable of its radial method. '
  'The working directory is restored afterwards, also over repeated launches, and nothing outside the new directory is written.',
  ['configurations', 'histories'],
  'every set of settings (text without blanks), repeated launches, local and batch mode, given and automatic directory names',
  'No test runs the launcher.',
  ['sim_class.py'],
  [('launch sequence', 'Sim.launch_run, make_output_dir, write_sim_params, write_slurm_script')],
  ['directory contents, command line and environment seen by the executable'])

p('C25', 'Each executable uses the radial method its name says',
  'After the configuration script has run, and after the launcher was asked to recompile, the executable named for the Chebyshev method uses Chebyshev radial derivatives and the one named for finite differences uses finite differences, whatever was built before and in whatever order. '
  'Both use the memory layout that was asked for.',
  ['histories', 'configurations'],
  'every sequence of configure, recompile, make and clean commands',
  'No test builds the executables.',
  ['config.py', 'sim_class.py', 'Makefile', 'Source/Makefile'],
  [('which objects are rebuilt with which flags', 'Source/Makefile, config.py, Sim.then_recompile')],
  ['behaviour of the executables produced'])

p('C26', 'Parallel regions are free of races and results do not depend on threads',
  'No two threads of any parallel region touch the same memory with at least one of them writing it unless ordered, in any schedule, for any number of threads and nesting level. '
  'Hence every operator, time step and output gives the same values for every number of threads (reductions up to rounding).',
  ['schedules'],
  'every schedule, number of threads and nesting level',
  'Tests run one schedule and never look for conflicting accesses.',
  ['Source/grid.cpp', 'Source/scalar_eom.cpp', 'Source/field.cpp'],
  [('loop-private work arrays, disjoint sections', 'omp parallel regions of Grid, Scalar_eom, Field')],
  ['memory accesses of each thread, results'])

p('C27', 'Operator objects are independent of each other for their whole lifetime',
  'Any number of grids and radial or angular operators of equal or different sizes and intervals can be made, used and destroyed in any order, and each keeps giving the results it gives alone. '
  'Every transform plan and configuration is used only while it exists and is released exactly once, work arrays are released, no access outside the arrays handed in occurs, and when no object is left nothing is held.',
  ['histories'],
  'every sequence of making, using and destroying operator objects',
  'Tests make one object at a time.',
  ['Source/cheb.cpp', 'Source/finite_diff.cpp', 'Source/sphere.cpp', 'Source/grid.cpp'],
  [('plan ownership', 'Cheb::Cheb, Cheb::~Cheb, Sphere::Sphere, Sphere::~Sphere')],
  ['results of each object, plan life cycle'])

p('C28', 'What a run has saved survives the run being stopped',
  'If a run is killed at any moment (as a batch system does at the end of the walltime), every table of each output before the one being written is complete in the output directory; a table once begun only grows. '
  'The tables of an output are handed to the operating system in full before the run goes on to take the following steps, so a kill during the steps between two outputs loses nothing that was saved.',
  ['crash_points', 'configurations', 'schedules'],
  'every moment at which the program can be killed, every nt and save interval, thread count, radial method and layout',
  'No test runs the program, and none looks at a run that did not end.',
  ['Source/io.cpp', 'Source/main.cpp'],
  [('each table is opened, written and closed in one call', 'Csv::write_R_psl'), ('save before the next step', 'main')],
  ['files in the output directory at each transform the run makes, and after a kill'])

p('C29', 'An output that cannot be written is reported and costs nothing else',
  'When a table cannot be opened for writing (its directory is missing, or something else stands where the file should be) the program names that file on the terminal and goes on: it takes all its steps, does not crash, and every other table and every reported time, residual and total variation is the same as in an undisturbed run.',
  ['fault_sequences', 'configurations', 'histories'],
  'every set of outputs that cannot be written, every nt and save interval, radial method and layout',
  'No test runs the program or makes it fail to write.',
  ['Source/io.cpp', 'Source/main.cpp'],
  [('check after opening each table', 'Csv::write_R_psl')],
  ['files, terminal output and status of a run with obstructed outputs'])

p('C30', 'Evolution and energy density have the symmetries of the equation',
  'Evolving the image of a state gives, after any number of steps and at every grid point, the image of the evolved state up to rounding, and likewise for the energy density: under rotation about the spin axis by whole longitude steps, reflection in the equatorial plane, reversal of longitude and spin together, reversal of the sign of the field together with the odd terms of K and V (km1 = 0), and rescaling of all lengths, times and masses together. '
  'Where K is constant and V at most quadratic the evolution of a sum is the sum of the evolutions, for fields of any size, and a constant field at rest stays constant and at rest when V\' vanishes there. '
  'This holds for every grid shape, memory layout, radial method, number of threads, mass, spin and choice of couplings, whatever else was evolved before.',
  ['inputs', 'histories', 'configurations'],
  'every state, word of symmetries, number of steps, parameters, grid shape, layout, threads',
  'No test evolves anything, let alone two equivalent states.',
  ['Source/scalar_eom.cpp', 'Source/grid.cpp', 'Source/sphere.cpp'],
  [('rate of change and energy density point by point', 'Scalar_eom::Scalar_eom, set_k, set_rho'), ('step and filter', 'Scalar_eom::time_step, Grid::filter'), ('shell operators', 'Sphere')],
  ['levels of both fields after steps of equivalent states', 'energy densities of equivalent states'])

with open(OUT, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
