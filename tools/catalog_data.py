# One prop(...) per property; executed by catalog.py.

prop('C01', 'Numerical integration returns the value of the documented quadrature rule',
     '''Integrating samples on a grid returns the composite trapezoidal or Simpson value of exactly
     those samples, on equally and unequally spaced grids, for real and complex integrands.
     The value does not depend on the number of threads or on whether the parallel code path is
     chosen, it is linear in the integrand, and the inputs are never modified.''',
     '''All integrands, grids, lengths from two points, methods, spacing flags, data types, thread
     counts and parallel flags, in any order of calls.''',
     '''The tests integrate a handful of fixed arrays of one length; odd/even lengths, uneven grids,
     thread counts and call sequences are not explored.''',
     ['cpp-numintegrator/num_integrator/num_integration.cpp',
      'cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx'],
     [('composite trapezoid/Simpson loops with OpenMP reductions', 'cpp-numintegrator/num_integrator'),
      ('method/spacing/threads dispatch', 'cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx')],
     'property-based testing against an exact-summation reference quadrature and metamorphic laws',
     '''Sampled inputs; the oracle is an independent quadrature with math.fsum. Races in OpenMP loops
     are only seen when they change a value.''',
     ['num_integrator.cni.integrate'])

prop('C02', 'Limb-darkening functions and disc integrals equal their defining formulae',
     '''The limb-darkening function and its derivative are the Eddington law at every mu, for every
     array given. The disc integrals of an angular function are the integrals of the documented
     integrands over the visible hemisphere only (0 <= mu <= 1), independent of the thread count
     and of values at mu < 0.''',
     '''All mu grids with points on the visible hemisphere, angular functions and derivatives,
     methods, thread counts, array layouts and call sequences.''',
     '''The tests use one fixed grid and one function; boundary points, partial grids, array views
     and repeated calls are not covered.''',
     ['cpp-ld-funcs/ld_funcs', 'cpp-disc-integrator/disc_integrator'],
     [('hemisphere selection', 'cpp-disc-integrator/disc_integrator'),
      ('Eddington limb darkening', 'cpp-ld-funcs/ld_funcs')],
     'property-based testing against reference formulae and metamorphic relations',
     '''Sampled inputs; the oracle is an independent numpy implementation of the same integrals.''',
     ['ld_funcs.ldf', 'disc_integrator.di'])

prop('C03', 'Finite-difference derivatives have the requested order of accuracy',
     '''The numerical derivative of samples on any strictly monotonic grid is exact (to rounding)
     for polynomials up to the requested accuracy order and has one value per grid point, whether
     or not the samples are interpolated internally. Weights equal the unique interpolation
     weights of the stencil, for ascending and descending grids.''',
     '''All strictly monotonic grids, sample vectors, accuracy orders 1..20 and derivative orders
     0..7, methods and options of the differentiator.''',
     '''Existing tests differentiate a few functions on fixed grids at default accuracy.''',
     ['fornberg-num-deriv/fornberg_num_deriv/fornberg.f90', 'num-tools/num_deriv/num_deriv.py'],
     [('Fornberg weight recursion', 'fornberg-num-deriv/fornberg_num_deriv/fornberg.f90'),
      ('stencil selection and interpolation', 'num-tools/num_deriv/num_deriv.py')],
     'property-based testing against exact rational interpolation weights',
     '''Sampled inputs; the oracle solves the stencil weights in exact rational arithmetic.''',
     ['myfnd.fnd', 'num_deriv.NumericalDifferentiator'])

prop('C04', 'Combinations and mode triads are enumerated completely and exactly once',
     '''Cartesian, single-set and symmetric products list every combination their definition asks
     for, once, and none else, and report the matching cardinality. The mode triads generated for
     radial-order ranges are exactly the triads of the requested ranges (the order of the two
     daughters counts only if their degree or azimuthal order differs), with matching average
     radial order and difference statistic per triad.''',
     '''All operands (ranges, lists, arrays, sets; overlapping, nested, equal, disjoint, empty) and
     all radial-order ranges.''',
     '''Tests cover a few small sets, mostly with elements whose hash order is ascending.''',
     ['py-combinations/py_combinations', 'aesolver/aesolver/mode_input_generator/input_generator.py'],
     [('set algebra on pairs', 'py-combinations/py_combinations/symmetric_product.py'),
      ('triad construction', 'aesolver/aesolver/mode_input_generator/input_generator.py')],
     'property-based testing against brute-force enumeration',
     '''Sampled operands. Pairs hit by the listed finding (set iteration order) may occur in
     addition; everything else must match.''',
     ['py_combinations', 'aesolver.mode_input_generator.InputGen'])

prop('C05', 'Pairing functions are bijections and their inverses undo them',
     '''Pairing two integers at or above a lower bound and inverting the result returns the pair
     (unordered for symmetric pairings), and inverting any valid paired integer and pairing again
     returns that integer. Symmetric pairings ignore the order of the pair, and the lower bound
     only shifts the members.''',
     '''All integer pairs and paired integers (up to double-precision exactness), lower bounds, and
     argument containers.''',
     '''Tests pair a few small integers; diagonals, boundaries between shells and lower bounds are
     not explored.''',
     ['py-combinations/pairing_functions'],
     [('closed-form inverses', 'py-combinations/pairing_functions')],
     'property-based testing: round trips in both directions',
     '''Sampled integers up to about 1e9; round trip is its own oracle.''',
     ['pairing_functions'])

prop('C06', 'Settings mean what the inlist says, whatever combination of values is written',
     '''Every setting of an inlist (custom ASCII or TOML) comes back with the value and type that
     were written (numbers, booleans, strings, None, lists and tuples of them); a user inlist
     overrides the defaults one setting at a time; empty TOML tables are None; a settings parser
     returns the settings of the inlist it was pointed at, whatever dots or directories its name
     has; relative paths are resolved in the documented order; the log level follows the verbose
     and debug settings; the folders, suffixes and name parts that select model files are those of
     their own entries, tuples exactly where their own entry says so, in both formats.''',
     '''All inlists built from the documented value types, names, orders and nestings.''',
     '''Tests parse a handful of example lines.''',
     ['util-tools/inlist_handler', 'util-tools/generic_parser', 'util-tools/path_resolver',
      'util-tools/log_formatter', 'aesolver/aesolver/read_load_info/read_info_dirs.py'],
     [('value conversion', 'util-tools/inlist_handler'), ('inlist lookup', 'util-tools/generic_parser')],
     'property-based testing: write-read round trips of generated inlists',
     '''Sampled inlists; the generator keeps the written values as its oracle.''',
     ['inlist_handler', 'generic_parser', 'path_resolver', 'log_formatter'], over=('inputs', 'configurations'))

prop('C07', 'GYRE data tools normalise, cut and convert profiles consistently',
     '''Normalisation multiplies every eigenfunction of a mode by one and the same factor that
     makes the mode energy (or norm) that of the chosen convention, also when iterating, and
     reports which modes still deviate; cutting applies one and the same slice to all profiles of
     the selected groups and to nothing else; compound GYRE values become the complex numbers they
     stand for and frequency units get their label.''',
     '''All profile lengths, real and complex eigenfunctions, conventions, slices and groups.''',
     '''Tests use one stored GYRE model.''',
     ['gyre-tools/gyre_cutter', 'gyre-tools/gyre_eigen_norm', 'gyre-tools/gyre_unit_converter'],
     [('energy normalisation', 'gyre-tools/gyre_eigen_norm'),
      ('slice cutting', 'gyre-tools/gyre_cutter'),
      ('unit conversion', 'gyre-tools/gyre_unit_converter')],
     'property-based testing against directly computed energies and slices',
     '''Sampled profiles; the energies are an independent quadratic form of the eigenfunctions.''',
     ['gyre_eigen_norm', 'gyre_cutter', 'gyre_unit_converter'])

prop('C08', 'Eigenvalues of the traditional approximation come from the table of the mode',
     '''The eigenvalue returned for a mode (degree, azimuthal order) at a spin parameter is that of
     the GYRE table of precisely that degree and azimuthal order, sign included, for single modes
     and lists in order; a missing table or a directory that is no GYRE installation is refused.''',
     '''All modes, spin parameters and installed sets of tables.''',
     '''The interface has no tests (it could not even be imported).''',
     ['gyre-tools/lam_tar_gyre'],
     [('table selection', 'gyre-tools/lam_tar_gyre/lam_tar_gyre.py')],
     'property-based testing with generated table installations',
     '''The reader of table files belongs to GYRE and is replaced by a stand-in.''',
     ['lam_tar_gyre.GyreLambdas'])

prop('C09', 'Hough functions solve the tidal equation and their companions are consistent',
     '''The radial Hough function of a mode solves Laplace's tidal equation for the eigenvalue
     nearest to the estimate, has the parity of the mode and unit maximum; the latitudinal and
     azimuthal functions, all derivatives with respect to cos(theta) and theta, and their
     combinations follow from it on the whole sphere, in each of the supported definitions; without
     rotation they reduce to associated Legendre functions; normalisation factors make the norm of
     the chosen convention 1 on any grid. The derivatives, differential operators and eigenfunctions
     of the collocation grid are exact for all functions that it resolves.''',
     '''All spin parameters (sub- and super-inertial, both signs), degrees, azimuthal orders, grid
     sizes, eigenvalue estimates and definitions.''',
     '''Tests compare a few stored arrays for a few modes.''',
     ['hough-func-tools/hough_function/hough_function.py',
      'hough-func-tools/cheby_transform/cheby_transform.py',
      'hough-func-tools/hough_function/hough_normalizer.py'],
     [('collocation', 'hough-func-tools/hough_function/hough_function.py'),
      ('norms', 'hough-func-tools/hough_function/hough_normalizer.py')],
     'property-based testing against the differential equation and an independent spectrum',
     '''Residuals use Chebyshev interpolants of the returned values; eigenvalues are checked against
     an expansion in spherical harmonics. Spin parameters within 0.04 of 1 are left out.''',
     ['hough_function.HF', 'hough_function.HNorm'])

prop('C10', 'Likelihood-optimised histograms use the best candidate binning',
     '''Each of the nine implementations (numpy, iterator, BLAS, numexpr, Cython; linear and
     logarithmic bins; serial and parallel) returns, among the candidate smoothing parameters,
     numbers of bins and phases, the histogram that maximises the jackknife likelihood of Hogg
     (2008), with matching edges, widths and parameters: counts, probabilities or densities of the
     values that are not NaN, adding up to their number, 1 or unit integral. They agree with each
     other; empty and single-valued data have their documented answers.''',
     '''All data sets, candidate sets, output kinds and options.''',
     '''Tests run one data set through some implementations.''',
     ['histogram_maker/hogg_jacky'],
     [('jackknife likelihood', 'histogram_maker/hogg_jacky/blas_jacky.py'),
      ('compiled loops', 'histogram_maker/hogg_jacky/cython_jacky')],
     'property-based testing against an exhaustive evaluation of all candidates',
     '''Sampled data; values on inner bin edges may be counted on either side.''',
     ['hogg_jacky'])

prop('C11', 'Histograms of prescribed bins count every value in its bin once',
     '''For a prescribed bin width (with phase and lower bound) or prescribed logarithmic edges,
     every implementation counts each value in the one bin that contains it, values beyond the
     outer bins in the outer ones, pads with empty bins up to the requested number, and divides
     counts into probabilities or densities that add up; values below the lowest bin are refused
     when asked for, but for the lowest value; without data or bins there is no histogram.''',
     '''All data sets, widths, edges, bounds and output kinds.''',
     '''These functions are not tested (two could not be called).''',
     ['histogram_maker/hogg_jacky'],
     [('binning', 'histogram_maker/hogg_jacky/blas_jacky.py'),
      ('log bins', 'histogram_maker/hogg_jacky/shared/shared_computation_functions.py')],
     'property-based testing against direct counting',
     '''Sampled data; values on inner linear bin edges may be counted on either side.''',
     ['hogg_jacky'])

prop('C12', 'All derived mode frequencies follow from the frequencies that were read',
     '''For any set of modes, each with its own units and frame, the frequencies and angular
     frequencies in the inertial and the co-rotating frame (which differ by m times the surface
     rotation frequency), spin parameters, dimensionless frequencies, detuning, driving rates,
     quality factors, their products and detuning-damping ratios are those of the modes, in the
     requested units, adiabatic and nonadiabatic; dimensionless numbers do not depend on the units
     and nonadiabatic information of another number of modes is refused.''',
     '''All frequencies, units, frames, azimuthal orders, rotation rates, stellar models and numbers
     of modes.''',
     '''Tests use one set of three modes, in Hz and the inertial frame, of a unit star.''',
     ['aesolver/aesolver/frequency_handling'],
     [('frame and unit conversion', 'aesolver/aesolver/frequency_handling/frequency_handler.py'),
      ('unit factors', 'aesolver/aesolver/frequency_handling/enumeration_files')],
     'property-based testing against an independent conversion through Hz, metamorphic unit changes',
     '''Sampled sets of modes; tolerances follow the cancellation in frame changes.''',
     ['aesolver.frequency_handling.FH'])

prop('C13', 'Triads pass the pre-check exactly when selection rules and stability allow',
     '''A triad of modes passes the generic check when the azimuthal orders, conjugated as asked, add
     up to zero and the meridional orders l - |m| to an even number, for each listed triad of any
     of the modes; it passes the full check when, in addition, its fixed point exists and is
     linearly stable, for three modes as well as for harmonic pairs. A triad is recorded as
     parametric, direct or driven by the signs of its driving rates alone.''',
     '''All degrees, azimuthal orders, triads, conjugations, driving rates and detunings.''',
     '''Tests use a handful of triads; the rules must hold for every combination of modes.''',
     ['aesolver/aesolver/pre_checks', 'aesolver/aesolver/stability_checker'],
     [('selection rules', 'aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py'),
      ('stability dispatch', 'aesolver/aesolver/pre_checks/specific/three_mode_checks.py')],
     'property-based testing against directly evaluated rules and exact Hurwitz determinants',
     '''Cases within 1e-7 of a stability boundary, and parametric harmonic pairs covered by the
     known finding of C14, are not judged.''',
     ['aesolver.pre_checks'])

prop('C14', 'Stability criteria agree with the eigenvalues of the amplitude equations',
     '''For a parametric triad the two criteria (sum of rates negative, quartic polynomial in the
     detuning ratio) hold exactly when all eigenvalues of the Jacobian of the amplitude equations in
     the fixed point have negative real parts, also in their equivalent form, likewise the criteria
     for harmonic pairs; the
     Jacobian is that of the equations; a matrix counts as hyperbolic exactly when all its values
     are finite and no eigenvalue has a zero real part.''',
     '''All rates, angular frequencies, detunings, coupling coefficients and matrices.''',
     '''Tests freeze outputs for a few values (and with them two errors).''',
     ['aesolver/aesolver/stability_checker'],
     [('quartic criterion', 'aesolver/aesolver/stability_checker/three_mode'),
      ('harmonic pairs', 'aesolver/aesolver/stability_checker/two_mode'),
      ('Jacobian, hyperbolicity', 'aesolver/aesolver/stability_checker/hyperbolicity')],
     'property-based testing against exact rational Hurwitz determinants of the Jacobian',
     '''Two known findings (frozen by stable tests): the bound for parametric pairs and the signs of
     the off-diagonal Jacobian elements; the check accepts either form of the latter and leaves out
     the region of the former.''',
     ['aesolver.stability_checker'])

prop('C15', 'Stationary solutions of triads satisfy the amplitude equations',
     '''The equilibrium amplitudes and relative phase reported for a triad that passed its pre-check
     make all amplitude equations stationary; the critical parent amplitude is the threshold above
     which the children grow; surface flux variations are the amplitudes times the modulus of the
     disc-integrated surface perturbation and the Hough function at the observer's inclination; the
     luminosity phase includes the azimuthal position. A triad that failed has zero amplitudes and
     is reported as not linearly stable.''',
     '''All frequencies, rates, coupling coefficients, surface perturbations, Hough functions and
     observers.''',
     '''Tests use mock objects with a few round values.''',
     ['aesolver/aesolver/stationary_solving'],
     [('equilibrium amplitudes', 'aesolver/aesolver/stationary_solving/three_mode'),
      ('disc-integral factors', 'aesolver/aesolver/stationary_solving/generic')],
     'property-based testing: residuals of the amplitude equations and growth rates as oracles',
     '''Sampled triads; the solver object is a record of the five quantities that are read.''',
     ['aesolver.stationary_solving.ThreeModeStationary'])

prop('C16', 'Angular integrals are those of the product of Hough functions over the sphere',
     '''The integral of a product of Hough functions is 2 pi times that over mu of the product of the
     arrays (conjugated as asked, times or over sin(theta)^power as asked) on their actual grid, or
     exactly zero if the azimuthal orders, conjugated as asked, do not cancel; the functions that
     enter are the normalised Hough functions of the mode for its spin factor, eigenvalue and
     azimuthal order, each under its own name.''',
     '''All products, azimuthal orders, conjugations, grids, integration options and spin factors.''',
     '''Tests use one product on one grid.''',
     ['aesolver/aesolver/angular_integration'],
     [('integrals', 'aesolver/aesolver/angular_integration/rotating_tar_angular'),
      ('Hough functions', 'hough-func-tools/hough_function')],
     'property-based testing against an independent quadrature and independently built functions',
     '''Sampled products; integrals below minus the blow-up factor are not judged.''',
     ['aesolver.angular_integration.HI', 'aesolver.angular_integration.HFHandler'])

prop('C17', 'Coupling coefficients are the third-order energy of the displaced star',
     '''The four terms and the sum of the quadratic coupling coefficient of three modes are those of
     the third-order perturbation of the energy (compression, gravity and Coriolis-modified mode
     shapes included) for the displacement vectors of the modes, each normalised to a mode energy of
     G M^2 / R, with the modes that are conjugated conjugated, and exactly zero if the azimuthal
     orders, so conjugated, do not cancel; the profile holds the coefficient within each radius; the
     result does not depend on the polar axis, the order or the scale of the modes, their grids, the
     form in which they are stored, or the number of threads.''',
     '''All structures (models and polytropes), radial functions, degrees, orders, rotation rates,
     conjugations and grids.''',
     '''No test computes a coefficient with a known value: most tests of this class are disabled.''',
     ['aesolver/aesolver/coupling_coefficients', 'gyre-tools/gyre_eigen_norm',
      'gyre-tools/gyre_cutter', 'hough-func-tools/hough_function'],
     [('coefficient', 'aesolver/aesolver/coupling_coefficients/'
       'quadratic_coupling_coefficient_rotating.py'),
      ('structure and gradients',
       'aesolver/aesolver/coupling_coefficients/coefficient_support_classes')],
     'property-based testing against direct contraction of displacement gradient tensors on the '
     'sphere, Wigner-Eckart ratios and metamorphic relations',
     '''Synthetic stars (polynomial density, hydrostatic), polynomial radial functions, spin factors
     below 0.95; modes whose energies nearly cancel are not judged. Known finding: complex-valued
     eigenfunctions are not supported.''',
     ['aesolver.coupling_coefficients.QCCR'])

prop('C18', 'Polytropic structure obeys the Lane-Emden equation and hydrostatic equilibrium',
     '''From a solution of the Lane-Emden equation, a mass and a radius, the structure of a polytrope
     is derived such that pressure, density, their derivatives up to third order, the gravitational
     potential, enclosed mass, gravity, buoyancy frequency and the dimensionless structure
     functions V, U, c_1 and A* satisfy their definitions, P = K rho^(1+1/n), hydrostatic
     equilibrium, Poisson's equation and the total mass and radius, at the center and surface
     too.''',
     '''All polytropic indices, grids, masses, radii, adiabatic exponents and gravitational
     constants.''',
     '''Tests hold two models, both without the center.''',
     ['aesolver/aesolver/polytropic_computations'],
     [('structure', 'aesolver/aesolver/polytropic_computations/poly_struct_comps.py')],
     'property-based testing against truncated power series of the Lane-Emden solution and '
     'quadrature of the definitions',
     '''Sampled indices from 0.5 to 5, numerical Lane-Emden solutions; derivatives at a surface where
     they are infinite are not judged.''',
     ['aesolver.polytropic_computations.PaSi'])

prop('C19', 'Exactly the requested mode and structure files are selected and loaded',
     '''A file is selected for a mode exactly if degree, azimuthal order (with sign), radial order and
     mode type in its name are those of the mode and all additional words are in it; structure files
     are selected by suffix and words, and files made for GYRE are not MESA profiles; the loader
     returns the data of that one file per mode, in the requested order, from given or inferred
     directories, and stops when there is none or more than one.''',
     '''All file names, directories, requested modes and additional words.''',
     '''Tests hold one file per directory.''',
     ['aesolver/aesolver/model_handling/subselection_classes.py',
      'aesolver/aesolver/model_handling/load_models.py',
      'aesolver/aesolver/model_handling/read_models.py'],
     [('selection', 'aesolver/aesolver/model_handling/subselection_classes.py'),
      ('loader', 'aesolver/aesolver/model_handling/load_models.py')],
     'property-based testing: generated directories with near misses against their metadata',
     '''Sampled names that hold each quantum number once; paths relative to the base directory are
     not judged (code and documentation disagree).''',
     ['aesolver.model_handling.ModelLoader'])

prop('C20', 'Model data are read completely, with correct signs, units and dimensions',
     '''Every quantity in a mode file, polytrope or MESA profile that the reader knows is returned with
     its value in every zone (sign included; complex if it has two parts); with SI units the stellar
     quantities are converted from CGS and the gravitational constant is that of SI; perturbations
     gain the dimensions documented by GYRE; polytropic modes and structure carry the mass, radius
     and gravitational constant that were asked for.''',
     '''All contents of files, numbers of zones, unit systems, masses and radii.''',
     '''Tests hold short profiles in CGS units.''',
     ['aesolver/aesolver/model_handling/read_models.py',
      'aesolver/aesolver/model_handling/enumeration_files',
      'aesolver/aesolver/model_handling/load_models.py', 'num-tools/carr_conv'],
     [('readers', 'aesolver/aesolver/model_handling/read_models.py'),
      ('units and dimensions', 'aesolver/aesolver/model_handling/enumeration_files')],
     'property-based testing: round trip of generated files against a table of GYRE units',
     '''Sampled contents; SI conversion is judged for the quantities that the solver uses.''',
     ['aesolver.model_handling.ModelLoader'])

prop('C21', 'A solve run computes, checks and saves what its inlist and its models imply',
     """Executing the solve script for a grid of triads writes exactly one HDF5 file, at the place and
     under the name that the inlist and command line ask for (with the quantum numbers added). For
     every triad of the requested radial orders, it holds the frequencies in all frames and units,
     driving rates, coupling coefficients with terms and normalization factors, checks, stationary
     amplitudes, phases and surface flux variations that the modes of exactly that triad imply under
     the settings of the inlist; refused triads hold zeros, and polytropes no nonadiabatic data. The
     solver for grids and profiles in one (QuadRotAESolver) gives the same results for a grid. A data
     set that is overwritten in an existing file holds the new values and nothing else.""",
     """All inlist settings, geometries, ranges, mode files, growth rates, names and directories.""",
     """The tests of the solver cannot run without the data of the author.""",
     ['aesolver/aerunners/solve_quadratic.py', 'aesolver/aesolver/solver/quadratic_grid.py',
      'aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py',
      'aesolver/aesolver/solver/quadratic_solver.py', 'aesolver/aesolver/data_handling', 'aesolver/aesolver/inlist_handler',
      'aesolver/aesolver/mode_input_generator/input_generator.py'],
     [('solver', 'aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py'),
      ('run script', 'aesolver/aerunners/solve_quadratic.py'),
      ('storage', 'aesolver/aesolver/data_handling')],
     'property-based testing: whole runs on generated inputs, differential against direct computation '
     'and between solvers',
     """Sampled runs of up to eight triads; single-triad quantities are those of C12 to C18; the
     hyperbolicity flag is not judged for (nearly) singular Jacobians (finding of C14).""",
     ['aerunners.perform_complete_solve_run', 'aesolver.QuadRotAESolver'])

prop('C22', 'Analysis and plots of saved triads tell stable, valid and isolated ones right',
     """For the result files that the settings name, grouped per model, the analysis counts and lists the
     triads, and the plots draw them, as their definitions say: stable if all stability checks pass;
     AE-valid if the detuning is at most a tenth of the smallest frequency; isolated if no other
     parametric triad with one of its modes has a lower threshold luminosity and the second lowest
     threshold of its parent exceeds the equilibrium luminosity of that parent. Detunings, q, Q1,
     thetas, spin parameters, locked nonlinear frequencies, amplitude ratios and histogram
     probabilities are those of exactly the triads they are shown for.""",
     """All sets of triads that compete for modes, files per model, geometries and rotation rates.""",
     """The tests do not cover the analysis and plot packages.""",
     ['aesolver/ae_analyzer/quadratic_stationary_analyzer.py',
      'aesolver/ae_analyzer/library_functions/masking.py',
      'aesolver/aeplotter/quadratic_plotter.py', 'aesolver/aeplotter/library_functions/masking.py',
      'aesolver/aeplotter/overview_plot', 'aesolver/aeplotter/resonance_sharpness',
      'aesolver/aesolver/read_load_info/load_name_plots.py'],
     [('analyzer', 'aesolver/ae_analyzer/quadratic_stationary_analyzer.py'),
      ('masks', 'aesolver/ae_analyzer/library_functions/masking.py'),
      ('plotter', 'aesolver/aeplotter/quadratic_plotter.py')],
     'property-based testing: generated result files against a brute-force evaluation per triad',
     """Sampled sets of up to 24 triads per model and four models; daughters with the same
     quantum numbers; a list that only holds single files is one model (as the code has it), and is
     not generated with more than one entry.""",
     ['ae_analyzer.QuadraticAEStationaryAnalyzer', 'aeplotter.QuadraticAEPlotter'])

prop('C23', 'Run scripts do what command line and inlist ask for, and nothing else',
     """The solve, analysis and plot scripts read the inlist that the command line names (else the default
     one), from the working directory or else from the repository of the script. Each setting reaches
     the one place it is for: a grid or a profile of triads (not both, not neither) is computed with
     them, polytropes with those of polytropes, and only grids are saved, once, under the given name;
     exactly the tables that were asked for are printed, and exactly the figures that were asked for
     are saved, in their places and formats. Incomplete command lines, missing inlists and
     contradictory settings are refused before anything is computed or written.""",
     """All settings, working directories, command lines, repository and inlist names.""",
     """The tests do not execute the run scripts, and each setting passes through several hands.""",
     ['run_scripts', 'aesolver/aerunners', 'util-tools/generic_parser', 'util-tools/path_resolver'],
     [('solve', 'aesolver/aerunners/solve_quadratic.py'),
      ('analysis', 'aesolver/aerunners/analyze_quadratic.py'),
      ('plots', 'aesolver/aerunners/plot_quadratic.py')],
     'property-based testing: generated inlists and command lines, recorders against a settings table',
     """Sampled inlists (TOML); in the solve run the solvers only record what they are given (their
     work is C21); profiles are requested for non-polytropic models only.""",
     ['aerunners.perform_complete_solve_run', 'aerunners.perform_complete_analysis_run',
      'aerunners.perform_complete_plotting_run'])

prop('C24', 'The profile of one triad shows and sums what each layer of the star contributes',
     """The profile run computes the coupling coefficient of the one triad that is asked for, integrated up
     to each shell. Zones in which ten times the rotation or a mode frequency exceeds the buoyancy
     frequency contribute what the profile changes across them: that is what is printed per zone, for
     the coefficient and (if asked for) each of its four terms, and what is subtracted from the
     profile above each such zone, nowhere else. Amplitudes, thresholds and luminosity variations are
     printed before and after the adjustment, and scale with the inverse of the size of the
     coefficient. Figures, named after the model, rotation and triad, show these profiles, the
     stratification, and (if asked for) each kernel that contributes, drawn as its legend says; the layers in
     which the TAR holds are shaded. Refused triads, and modes with quality factors of ten or less, have no figures.""",
     """All triads, structure profiles, orders and extents of zones, and views.""",
     """The tests do not run the profile solver, and the zones of one model say nothing about others.""",
     ['aesolver/aesolver/solver/quadratic_profile.py',
      'aesolver/aesolver/solver/profile_helper_classes',
      'aesolver/aesolver/solver/profile_plot_classes',
      'aesolver/aesolver/solver/profile_print_functions'],
     [('zones', 'aesolver/aesolver/solver/quadratic_profile.py'),
      ('adjusted profile',
       'aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots'),
      ('kernels', 'aesolver/aesolver/solver/profile_helper_classes')],
     'property-based testing: generated stars in layers, whole runs against a reference model',
     """Sampled triads and layers; the coefficient itself is C17, and the scale of radial kernels is
     judged up to their sign.""",
     ['aerunners.perform_complete_solve_run', 'aesolver.solver.QuadraticAEProfileSolver'])

prop('C25', 'Comparisons show both computations of the modes that were asked for',
     """The comparison of adiabatic with nonadiabatic modes reads, for the given rotation rate (or from the
     given directories), the modes of the triad that is asked for, and shows for each of them the real
     and imaginary part of the radial and of the horizontal displacement from both computations, named
     as such, each on its own grid, against fractional mass or (if asked for) radius; the title names
     that mode and its frame. The structure figures show the requested columns of the profile against
     the same coordinate, normalised by its maximum. The file that says in which folders the models are
     has each value below the comment that names it, in any order, is found in the working directory
     or else relative to the run script, and is read exactly.""",
     """All modes, grids, triads, directories, structure profiles, and orders and subsets of entries.""",
     """The tests do not run the comparison nor read a custom file of folders.""",
     ['aesolver/aesolver/ad_nad_comparer', 'aesolver/aesolver/read_load_info'],
     [('comparison', 'aesolver/aesolver/ad_nad_comparer/comparer.py'),
      ('figures', 'aesolver/aesolver/ad_nad_comparer/plotting'),
      ('information on folders', 'aesolver/aesolver/read_load_info/read_info_dirs.py')],
     'property-based testing: generated mode files and folder files, figures against their data',
     """Sampled; entries with the quoted values that the file format can hold.""",
     ['aesolver.AdNadComparer', 'aesolver.read_load_info.InfoDirHandler'])

prop('C26', 'The scripts of the paper reproduce its stability domains and threshold',
     """The corrected conditions of the script for the stability domains hold exactly where all eigenvalues
     of the linearised amplitude equations have negative real parts, for all damping ratios and
     detunings; the conditions of Dziembowski (1982) are those of the published formula; single values
     and grids give the same answers. Grids cover each pair of damping ratios, and panels, names,
     labels and metadata are those of the row that is made. The threshold script fits a line to the k
     triads closest to equal amplitudes on either side, and prints its value at equal amplitudes, with
     the uncertainty that follows from the fit.""",
     """All positive damping ratios, detunings, and tables of triads.""",
     """The scripts have no tests, and run for the values of one publication only.""",
     ['VB_et_al_2024_additional_plot_compute_scripts'],
     [('stability domains', 'VB_et_al_2024_additional_plot_compute_scripts/dziembowski_subplot.py'),
      ('threshold', 'VB_et_al_2024_additional_plot_compute_scripts/compute_threshold_theta.py')],
     'property-based testing: exact eigenvalue criteria and exact least squares as oracles',
     """Sampled; figures are not rendered.""",
     ['original_dziembowski', 'corrected_dziembowski', 'perform_linear_regression'])

prop('C27', 'Helpers of the tests tell equal from unequal values',
     """The helpers that the tests of all packages use: a comparison of two values says that they are equal
     exactly if they are of one type and hold equal contents (numbers up to rounding, strings, None,
     functions with their constants, lists, arrays of equal size); one of dictionaries or lists exactly
     if all of their elements are (and, unless told otherwise, there are no others); an assertion on
     types and lengths fails exactly if one that is asked for differs, also if it is zero. Values,
     parameters and reasons for failure that are listed come back by name, and replacing an expected
     value does so in that one output only.""",
     """All pairs of values, collections, assertions and enumerations.""",
     """A helper that is too lenient passes all tests.""",
     ['pytest-util-tools/pytest_util_functions', 'pytest-util-tools/pytest_util_classes'],
     [('comparisons', 'pytest-util-tools/pytest_util_functions/comparison.py'),
      ('assertions', 'pytest-util-tools/pytest_util_functions/assertion_checker.py'),
      ('listed values', 'pytest-util-tools/pytest_util_classes')],
     'property-based testing: copies and edited copies of generated values',
     """Sampled; arrays of equal size and other shapes, and arrays in lists, are not judged.""",
     ['value_comparison', 'compare_elements', 'compare_dicts', 'check_assertions', 'EVs', 'EPPs',
      'EFPVs', 'IIFTs'])
