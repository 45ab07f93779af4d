"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "CasimirRio/"
P, NA = [], []

VG = "gated-SSA value graph + value numbering"
NOTE = ("Decides the listed obligations for all inputs of the stated symbolic form, in exact real arithmetic; "
        "obligations outside the vocabulary of the analysis are reported as undecided in the evidence, not as alarms. "
        "Trusts the numpy/scipy summaries in sa/npmodel.py and the rewrite system in sa/alg.py; where two value graphs "
        "differ syntactically an alarm also needs a distinguishing interpretation of their symbols.")


def p(pid, title, statement, over, text, tests, files, mech, technique=VG, note=NOTE):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=[D + f for f in files],
                               mechanism=[dict(name=n, where=D + w) for n, w in mech]),
                  technique=technique, note=note))


def na(pid, title, statement, over, text, tests, files, mech, reason):
    p(pid, title, statement, over, text, tests, files, mech)
    NA.append(dict(property=pid, reason=reason))


p("C01", "Permittivity follows the oscillator model",
  "For every list of oscillators (plasma frequency, resonance frequency, damping) a material's permittivity at imaginary "
  "wavenumber k is 1 plus the sum over oscillators of wP^2/(k^2 + wR^2 + gamma*k) in the material units (for the single-oscillator Smith-Drude model, of its back-scattering-corrected Drude term), at "
  "scalar and array wavenumbers alike and at k = 0. It does not depend on the order of the oscillators, and evaluating it "
  "leaves the material unchanged.",
  ["inputs", "configurations"], "every oscillator list, every wavenumber array or scalar, every material class",
  "tests evaluate a few fixed materials at a few wavenumbers",
  ["materials.py"], [("permittivity of each material class", "materials.py:epsilon")])
p("C02", "Permeability follows the magnetic model",
  "A material's permeability at imaginary wavenumber k is 1 + (mu_static - 1)/(1 + k/w_m) for a magnetic material with "
  "static value mu_static and cut-off w_m, and exactly 1 for a non-magnetic one, in the shape of the wavenumbers given.",
  ["inputs", "configurations"], "every magnetic parameter pair and every wavenumber array or scalar",
  "tests use non-magnetic materials almost exclusively",
  ["materials.py"], [("permeability of each material class", "materials.py:mu")])
p("C03", "Conductivity and magnetism classes match the parameters",
  "A material is classified as dielectric exactly when no oscillator has zero resonance frequency, as having finite static "
  "conductivity exactly when it has no undamped zero-resonance oscillator, and as magnetic exactly when it has magnetic "
  "parameters. The classification holds for oscillator lists of any length and order.",
  ["inputs"], "every oscillator list and magnetic parameter set",
  "tests look at a handful of named materials; a misplaced class silently changes the zero-frequency physics",
  ["materials.py"], [("classification helpers", "materials.py:is_sigma_finite, is_dielectric")])
p("C04", "Predefined materials keep their published parameters",
  "Every predefined material has the model class, oscillator table, magnetic parameters, frequency unit and name that it is "
  "published with; no two names share or leak parameters, and importing the module changes nothing else.",
  ["configurations"], "every predefined material",
  "tests use a few of the materials; a wrong digit in another table passes them",
  ["materials.py"], [("module-level material instances", "materials.py")],
  technique="constant propagation of module-level tables")
p("C05", "log K is the modified spherical Bessel function of the second kind",
  "For every array of positive arguments and every maximal order, the logarithmic second-kind functions returned are those "
  "of the three-term recurrence with the exact order-0 and order-1 values, in the documented layout, one row per argument, "
  "independent of the other arguments in the array and of their order.",
  ["inputs"], "every argument array and every maximal order",
  "tests compare a few arguments and orders with scipy",
  ["bessel_sk.py"], [("upward recurrence", "bessel_sk.py:lnknu")],
  technique=VG + ", scalar-evolution induction over the order")
p("C06", "log I is the modified spherical Bessel function of the first kind",
  "For every array of positive arguments and every maximal order, the logarithmic first-kind functions returned satisfy the "
  "ratio recurrence from the continued fraction and the exact order-0 value, small arguments included, one row per argument, "
  "independent of the other arguments and of their order.",
  ["inputs"], "every argument array and maximal order; truncation depth of the continued fraction excepted",
  "tests compare a few arguments and orders with scipy",
  ["bessel_sk.py"], [("downward recurrence and continued fraction", "bessel_sk.py:lniknu, fnu, i_fraction")],
  technique=VG + ", scalar-evolution induction over the order")
p("C07", "Exterior Mie coefficients satisfy the boundary conditions",
  "For every pair of materials (a perfect conductor included), radius, wavenumber array and order range, the TE and TM "
  "exterior coefficients and their common logarithmic scale are those of a sphere in a medium with continuous tangential "
  "fields at imaginary frequency.",
  ["inputs", "configurations"], "all materials, radii, wavenumbers and orders",
  "tests compare single values with an independent implementation for one material pair",
  ["scattering.py"], [("exterior coefficients", "scattering.py:scattering.mie")])
p("C08", "Interior reflection coefficients satisfy the boundary conditions",
  "For every pair of materials (a perfectly conducting wall included), radius, wavenumber array and order range, the TE and "
  "TM coefficients of waves reflected inside a spherical cavity and their logarithmic scale follow from continuous tangential "
  "fields at the wall.",
  ["inputs", "configurations"], "all materials, radii, wavenumbers and orders",
  "tests evaluate the interior coefficients at isolated points",
  ["scattering.py"], [("interior coefficients", "scattering.py:scattering.mie_internal")])
p("C09", "Coated and layered spheres obey the layer recursion",
  "The coefficients of a coated sphere and of a sphere with any number of concentric layers are those obtained by matching "
  "fields at every interface from the core outwards, for all materials, radii, wavenumbers and orders. An outermost layer "
  "made of the surrounding medium changes nothing.",
  ["inputs", "configurations"], "all layer materials and radii; checked symbolically for 1 to 3 layers",
  "tests compare two-layer spheres at single points",
  ["scattering.py", "stratified_sphere_scattering.py"],
  [("coated sphere", "scattering.py:coated_miescattering.mie_coated"),
   ("layer recursion", "stratified_sphere_scattering.py:StratifiedMieScattering.mie_stratified")])
p("C10", "Zero-frequency coefficients are the static limits of their material class",
  "At zero frequency the exterior and interior coefficients and scales are the analytic k -> 0 limits for a dielectric, a "
  "Drude metal, a plasma metal (wherever its free-carrier oscillator stands in the list) and a perfect conductor, in any "
  "dielectric medium, magnetic or not. A conducting intervening medium is rejected.",
  ["inputs", "configurations"], "every combination of conductivity classes, magnetic or not, every radius and order range",
  "tests look at a few class combinations and orders",
  ["scattering.py"], [("static limits", "scattering.py:scattering.mie_k0, mie_internal_k0")])
p("C11", "Exchanging permittivity and permeability exchanges TE and TM",
  "For every scattering system (solid, cavity, coated, layered, planar) the TE result becomes the TM result, and vice versa, "
  "when permittivity and permeability of all materials are exchanged; the common scale factor is unaffected.",
  ["inputs", "configurations"], "all materials, sizes, wavenumbers and orders",
  "tests never use materials with both responses",
  ["scattering.py", "stratified_sphere_scattering.py"],
  [("TE and TM branches", "scattering.py"), ("layered sphere", "stratified_sphere_scattering.py")],
  technique=VG + " under a duality rewriting")
p("C12", "Objects without material contrast are invisible",
  "An object made of the surrounding material scatters nothing, and an interface between two layers of the same material "
  "(core and coating, coating and medium, two inner layers) has no effect on the result, at finite and at zero frequency.",
  ["inputs", "configurations"], "all materials, sizes, wavenumbers and orders",
  "tests check one such case at a few points",
  ["scattering.py", "stratified_sphere_scattering.py"], [("contrast factors of the coefficients", "scattering.py")])
p("C13", "Planar reflection follows the Fresnel formulas",
  "For every pair of materials, transverse momentum and wavenumber the TE and TM reflection amplitudes of a plane interface "
  "are the Fresnel amplitudes at imaginary frequency, and those of a perfect conductor are -1 and +1.",
  ["inputs", "configurations"], "all materials and momenta", "no test evaluates the planar coefficients against a formula",
  ["scattering.py"], [("planar coefficients", "scattering.py:scattering.fresnel")])

p("C14", "Translation coefficients are the Gaunt sums over l''",
  "For every pair of angular momenta, order m, distance, medium and wavenumber array, the polarisation-conserving and "
  "polarisation-mixing translation coefficients in both directions, multiplied by the returned scale, are the sums over l'' "
  "of Gaunt coefficient, kinematic factor and radial function of k L n, with n from permittivity and permeability; "
  "entry (i, j) of the table belongs to l1 = lmin + i and l2 = lmin + j, for exterior and interior geometry.",
  ["inputs", "configurations"], "all angular momenta, orders, distances, wavenumbers, media; both geometries",
  "tests check a dipole entry and two tabulated values",
  ["translation.py"], [("coefficient sum and scaling", "translation.py:translation.get_vl1l2"),
                       ("table assembly", "translation.py:translation.trans_ab")])
p("C15", "Static translation table is the zero-frequency limit",
  "At zero frequency the translation table holds sign and logarithm of the leading power-law coefficient of the "
  "finite-frequency coefficients (power of k L removed), for every pair of angular momenta in either order, every m and "
  "both geometries.",
  ["inputs", "configurations"], "all angular momenta in either order, all m, both geometries",
  "tests check the exterior dipole only",
  ["translation.py"], [("static coefficients", "translation.py:translation.trans_k0_ext, trans_k0_int")])

p("C16", "Gaunt coefficients equal the integrals of three spherical harmonics",
  "For all angular momenta l, l' >= 1 and every projection m of either sign, the Gaunt routine returns the coefficients of "
  "every second l'' from |l-l'| to l+l' in ascending order: the closed form at maximal l'', then the published downward "
  "recurrence; projections larger than min(l, l') in modulus give zeros of the same length.",
  ["inputs"], "all angular momenta in either order and all projections",
  "tests tabulate a few small angular momenta",
  ["cython_gaunt.pyx"], [("downward recurrence", "cython_gaunt.pyx:gaunt")],
  technique=VG + ", scalar-evolution induction over l''")

p("C18", "Round-trip blocks are Mie times translation, summed over the inner index",
  "For every order m, wavenumber array, radii, distance, media and truncation, the four polarisation blocks of the "
  "round-trip matrix have as entries the Mie coefficient of the first sphere at l1 times the sum over l'' of translation, "
  "Mie coefficient of the second sphere at l'' and back translation at l2, up to one diagonal similarity common to the "
  "four blocks; exterior and interior geometry, homogeneous, layered and coated spheres, finite and zero frequency (where "
  "the mixed blocks vanish; the static limit of layered spheres is refused). The channel-resolved variant adds up to the same "
  "blocks.",
  ["inputs", "configurations"], "every geometry, medium, order m, truncation and wavenumber array",
  "tests compare a few determinants at fixed parameters, to limited precision",
  ["geometry.py"], [("block assembly", "geometry.py:SphereSphere.blockmatrices, blockmatrices_channels, blockmatrices_debug"),
                    ("zero frequency", "geometry.py:SphereSphere.blockmatrices_k0"),
                    ("Mie and translation tables", "geometry.py:SphereSphere.roundTrip_elements, roundTrip_elements_k0"),
                    ("coated spheres", "geometry.py:CoatedSphereSphere.roundTrip_elements")])
p("C19", "Scaling and balancing leave determinants and traces unchanged",
  "The over- and underflow guards (exponentiated scaling of the block logarithms, its zero-frequency counterpart and matrix "
  "balancing) multiply entry (i, j) by d_i/d_j and do nothing else, for every matrix, size and wavenumber: determinants, "
  "traces and traces of powers are those of the unscaled matrix.",
  ["inputs"], "every matrix of every size, every convergence setting, every pass of the balancing loop",
  "tests compare determinants of one or two matrices before and after",
  ["geometry.py", "matrix_balancing.pyx"],
  [("scaling", "geometry.py:dynamic_scaling, single_k_scale"), ("balancing", "matrix_balancing.pyx:balance")],
  technique=VG + ", inductive invariant over the balancing loops")
p("C20", "Matrix helpers compute products, inverses and log-determinants exactly",
  "The stacked-matrix helpers return, for every number of matrices and every size, the product, the inverse (direct and by "
  "blocks), the block matrix, ln det(1 - M) of one matrix or of four blocks or of two diagonal blocks, and the trace of "
  "(1 - M)^-1 N; the leading axis is a spectator, the arguments are left unchanged and malformed shapes are rejected.",
  ["inputs"], "every stack of matrices, every size",
  "tests use one or two random matrices of fixed size",
  ["geometry.py"], [("products and inverses", "geometry.py:dot_3d_matrices, inv_3d_matrix, inv_3d_blockmatrix, trace_dot_3d"),
                    ("log-determinants", "geometry.py:sln_det_3d, sln_det_blockdiagonal, balanced_slogdet, matrix_append")])

p("C21", "Sums over m count every order once, with weight two for m > 0",
  "The log-determinant and round-trip sums over the magnetic quantum number are X(0) + 2 X(1) + ... + 2 X(M), with X(m) the "
  "log-determinant of one minus the round-trip matrix (or minus its trace, or minus the sum of traces of powers over n up to "
  "the order asked for) and M = lmax unless the documented truncation criterion stops earlier; an early stop returns a "
  "partial sum of the same series. The result has one entry per wavenumber, in their order, a leading zero frequency included.",
  ["inputs", "configurations"], "every truncation, wavenumber array, precision, order and round-trip matrix",
  "tests evaluate a few sums at fixed parameters",
  ["geometry.py"], [("log-determinant sums", "geometry.py:SphereSphere.mSumme, mSumme_k0, single_m"),
                    ("round-trip sums", "geometry.py:SphereSphere.mSum_oneRoundtrip, mSum_roundtrips, arbitrary_roundtrips"),
                    ("derivative sum", "geometry.py:SphereSphere.mSum_trace_dot, supermatrix")],
  technique=VG + ", loop summaries with first-exit index")
p("C24", "Slice-wise evaluation covers every frequency index exactly once",
  "Evaluating a function of integers slice by slice returns, for all bounds and every slice length, the function at nmin, "
  "nmin+1, ..., nmax in this order and nothing else; the slices passed to the function are consecutive, never empty and "
  "never longer than the slice length; an invalid slice length is rejected before anything is evaluated.",
  ["inputs"], "all bounds, all slice lengths (larger than, equal to and smaller than the range)",
  "tests use one or two bounds and slice lengths",
  ["thermodynamics.py"], [("slicing", "thermodynamics.py:slicewise_eval")],
  technique=VG + ", inductive loop summary and exact path histories")
p("C25", "Free energy, entropy and T = 0 energy are the Matsubara sum and its relatives",
  "For every temperature step, number of frequencies, maximal temperature and geometry, the free energy at the j-th "
  "temperature is that temperature times half the zero-frequency term plus the terms at every j-th frequency up to nmax; the "
  "zero-frequency term is the analytic one exactly when asked for and available; the entropy is minus the temperature "
  "derivative of the free energy, the zero-temperature energy the wavenumber integral over the requested interval.",
  ["inputs", "configurations"], "every temperature grid, frequency cut-off, geometry and option",
  "tests compare one or two temperatures for one geometry",
  ["thermodynamics.py"], [("Matsubara sums", "thermodynamics.py:finiteT.free_energy, force, F_alle, get_f_matsubaras"),
                          ("entropy", "thermodynamics.py:finiteT.entropy"), ("T = 0 energy", "thermodynamics.py:finiteT.e0"),
                          ("single round trip", "thermodynamics.py:oneRoundtrip.F_alle")])

p("C22", "Results do not depend on what was computed before",
  "Every quantity of a geometry or a thermodynamic calculation is a function of its parameters and arguments only: the same "
  "on a new object and on one that evaluated any other wavenumbers, orders m, frequencies, energies or forces before, also "
  "when the caller has since changed the array it passed or the result it was given, and when several calculations share one "
  "geometry. No state is kept outside objects.",
  ["histories", "inputs"], "every sequence of evaluations; checked symbolically for all pairs of requests and representative "
  "relations between successive wavenumber arrays",
  "tests use each object once or in one fixed order",
  ["geometry.py", "thermodynamics.py"],
  [("Mie coefficient caches", "geometry.py:SphereSphere.roundTrip_elements, roundTrip_elements_k0, CoatedSphereSphere.roundTrip_elements"),
   ("force mode", "geometry.py:SphereSphere.supermatrix"),
   ("Matsubara caches", "thermodynamics.py:finiteT.free_energy, force, entropy")],
  technique=VG + ", relational comparison of two call histories")

p("C26", "Plane-plane free energy and pressure follow the Lifshitz formula",
  "For all materials, temperatures and distances, both proximity-force modules give per unit area T/(2 pi) times the primed "
  "sum over Matsubara frequencies of the transverse-momentum integral of ln(1 - r1 r2 exp(-2 kappa L)) for both "
  "polarisations, the pressure is minus its distance derivative, T = 0 gives the frequency integral, T = infinity the "
  "zero-frequency term; shielding removes exactly the zero-frequency term.",
  ["inputs", "configurations"], "all materials (uninterpreted), temperatures, distances and options",
  "no test evaluates the plane-plane formulas",
  ["PFA.py", "raw_PFA.py"], [("round trips", "PFA.py:SphereSpherePFA.roundTrip, pressureRoundTrip"),
                             ("sums and limits", "PFA.py:SphereSpherePFA.planeplaneFreeEnergy, planeplane_e0, planeplaneFreeEnergyHT, planeplanePressure"),
                             ("raw variants", "raw_PFA.py:SphereSpherePFA")])
p("C27", "Proximity-force energy and force follow from the plane-plane energy",
  "For all radii in either order, distances, temperatures and options, the proximity force between two spheres is 2 pi times "
  "the reduced radius (interior arrangement: r1 r2/|r2 - r1|) times the plane-plane energy at closest approach, and the energy "
  "is the integral of the plane-plane energy at the local surface distance over the projected area (raw variant: half the "
  "distance times the force); temperature limits and the shielding option reach the plane-plane energy unchanged.",
  ["inputs", "configurations"], "all radii, distances, temperatures, options; exterior and interior",
  "no test evaluates the sphere-sphere approximation",
  ["PFA.py", "raw_PFA.py"], [("sphere-sphere", "PFA.py:SphereSpherePFA.spheresphereEnergy, spheresphereForce, distance"),
                             ("raw variants", "raw_PFA.py:SphereSpherePFA.spheresphereEnergy, spheresphereForce")])

p("C23", "Evaluations leave the caller's arrays, lists and objects as they were",
  "No public evaluation (material response, Bessel, Mie and translation coefficients, round-trip matrices, sums over m, "
  "frequency sums, energies, proximity-force quantities, numerical derivative, oscillator conversion, data interpolation) "
  "changes the entries of an array, the items of a list or the attributes of a material or geometry its caller passed in, "
  "for every input, with or without a leading zero frequency and with layers equal to the medium.",
  ["inputs"], "all arrays of any length and contents, all layer sequences of the given kinds",
  "tests pass fresh literals and never look at the arguments afterwards",
  ["materials.py", "bessel_sk.py", "scattering.py", "stratified_sphere_scattering.py", "translation.py", "geometry.py",
   "thermodynamics.py", "PFA.py", "raw_PFA.py", "helper_functions.py", "materials_converter.py", "data_inter_extrapolation.py"],
  [("layer lists", "stratified_sphere_scattering.py:StratifiedMieScattering.__init__, mie_stratified"),
   ("zero-frequency substitution", "raw_PFA.py:SphereSpherePFA.get_f_matsubaras, thermodynamics.py:finiteT.F_alle"),
   ("powers of the round-trip matrix", "geometry.py:SphereSphere.arbitrary_roundtrips")],
  technique="effect analysis: heap abstraction of every argument before and after an abstract interpretation of the call")
p("C33", "Configurations are set up as asked for, automatic settings fit the geometry",
  "Given truncation orders and frequency cut-offs are used unchanged. Automatic ones are integers of at least 1 and follow one "
  "estimate from the smaller outer radius, the distance between the surfaces, the precision, the offset and the temperature, "
  "the same whichever sphere comes first, in exterior and interior arrangement, for solid, layered and coated spheres and in any "
  "unit of length; the automatic inner order is the outer one times the ratio of the radii. The evaluation type selects "
  "determinant or trace and anything else is rejected, as is an object that is no geometry; the closed zero-frequency form is "
  "used for two solid spheres only.",
  ["inputs", "configurations"], "all radii, distances, precisions, offsets, temperatures; all arrangements and kinds of spheres",
  "tests set the truncation orders by hand; the automatic choice is hardly evaluated",
  ["geometry.py", "thermodynamics.py"],
  [("automatic order", "geometry.py:get_lmax, SphereSphere.__init__"), ("coated spheres", "geometry.py:CoatedSphereSphere.__init__"),
   ("frequency cut-off, zero-frequency treatment", "thermodynamics.py:finiteT.__init__")])
p("C31", "Numerical derivative uses the stated difference formulas",
  "On every increasing equidistant grid of five or more points the numerical derivative is the five-point formula inside, the central "
  "difference next to the ends and the one-sided difference at the ends, one value per point; with interpolation it is the same on "
  "the grid refined by the multiplier, for functions of either sign, taken at the given points. A grid that does not increase is rejected.",
  ["inputs"], "all functions, grids, lengths; multipliers 3 and 10",
  "tests differentiate a few functions with a tolerance that hides a wrong end point",
  ["helper_functions.py"], [("difference formulas", "helper_functions.py:num_derivative")])
p("C32", "Tabulated response: interpolated inside the table, Drude fit outside",
  "For increasing frequencies (two or more, at least one inside the table) the tabulated response is interpolated strictly "
  "inside the table and is 1 + wp^2/(w g + w^2) with the parameters fitted to the table below and above it, every value at the "
  "position of its frequency.",
  ["inputs"], "all tables and frequencies, every division of up to six frequencies into below, inside, above",
  "the module has no tests",
  ["data_inter_extrapolation.py"], [("interpolation", "data_inter_extrapolation.py:data_interp_extrap.interpolate"),
                                    ("fit and assembly", "data_inter_extrapolation.py:data_interp_extrap.fit, get_drude_data")])
p("C28", "The command-line program computes what the job file says",
  "The program builds exactly one geometry and one calculation from the job file: radii (single or comma-separated layers), materials "
  "of sphere 1, sphere 2 and medium, distance (the third command-line argument wins over, and may replace, the one in the file), "
  "truncation orders, offset, precision, evaluation type, temperature range, frequency cut-off and zero-frequency treatment each reach "
  "their own parameter, given as numbers or as automatic. A missing offset means 0, a missing evaluation lndet, and layered spheres never "
  "get the closed zero-frequency form. The requested quantity is evaluated once; a wrong number of arguments is rejected before anything "
  "is read or written.",
  ["inputs", "configurations"], "all numbers in the job file; every kind of each option (given, automatic, missing, list, on the command line)",
  "the program has no tests",
  ["worker.py"], [("geometry from the job file", "worker.py:return_geometry"), ("calculation", "worker.py:do_calculation")])
p("C29", "The program never overwrites a file and writes a complete, readable result",
  "Whatever files exist already, the program leaves their contents as they are, extends the given result name until it is free and "
  "writes exactly one new file: first comment lines, each starting with #, that name the job file, the radii, the distance, the "
  "materials, the truncation orders, the offset, the temperatures, the precision and the quantity actually used, then the values of "
  "the quantity asked for in full precision.",
  ["inputs", "histories"], "all results; up to five earlier results of the same name; every kind of job file",
  "the program has no tests",
  ["worker.py"], [("free file name and writing", "worker.py:save_result"), ("comment lines", "worker.py:job_infos")])
p("C17", "Compiled code never reads or writes outside its arrays",
  "For all orders l, l' >= 0 and every m the Gaunt coefficients, and for every square matrix the balancing, access only elements that "
  "exist; the compiled modules do not check this at run time, so a wrong index would silently use foreign memory.",
  ["inputs"], "all orders and m, all matrix sizes",
  "an access just outside an array usually goes unnoticed in a test",
  ["cython_gaunt.pyx", "matrix_balancing.pyx"], [("recursions over the coefficient arrays", "cython_gaunt.pyx:gaunt"),
                                                ("row and column sums", "matrix_balancing.pyx:balance")])
p("C30", "No operation fails on a missing name, attribute, argument or variable",
  "Every name, every attribute taken of the package's own modules and objects and every call of the package's own functions "
  "and classes exists and fits, on every path including rarely used ones, and no branch leaves a variable unset that is used afterwards.",
  ["inputs", "configurations"], "every function of the package, every path",
  "Python resolves names only when a path is executed; the tests execute a part of them",
  ["geometry.py", "thermodynamics.py", "translation.py", "scattering.py", "PFA.py", "worker.py"],
  [("geometry methods used by the thermodynamics", "thermodynamics.py:finiteT"), ("translation coefficients", "translation.py:translation")])
na("C34", "Automatic truncation reaches the requested precision",
  "With automatic truncation orders and frequency cut-off the computed free energy, entropy or force differs from the converged "
  "value by no more than the precision asked for, and continued fractions and sums over m stop only when that is ensured.",
  ["inputs", "configurations"], "all geometries, materials, temperatures, precisions",
  "convergence is judged against the exact infinite sums, which a test can only sample",
  ["geometry.py", "thermodynamics.py", "bessel_sk.py"], [("automatic order", "geometry.py:get_lmax"), ("stopping rules", "geometry.py:mSumme")],
  "needs bounds on the tails of round-trip determinants for arbitrary materials: runtime quantities that no static argument in reach bounds; "
  "that the estimates follow one formula and use the right geometry is decided under C33, that nothing is dropped inside the truncation under C19 to C21")
na("C35", "Rounding and overflow do not spoil results",
  "In double precision the results agree with the exact expressions to the stated precision for large orders, small and large "
  "distances and arguments, without overflow, underflow to a wrong limit or cancellation.",
  ["inputs"], "all orders, arguments, geometries",
  "the range of arguments is unbounded",
  ["bessel_sk.py", "scattering.py", "translation.py"], [("logarithmic Bessel functions", "bessel_sk.py"), ("Mie coefficients", "scattering.py")],
  "the checks work with exact real arithmetic on the extracted expressions; a sound floating-point error analysis through lgamma, exponentials and "
  "linear algebra at symbolic order is out of reach of the static tools here")
na("C36", "Every calculation ends",
  "Balancing, continued fractions, round-trip expansions and sums over m stop after finitely many passes for every admissible input.",
  ["inputs"], "all inputs",
  "non-termination shows on special inputs only",
  ["matrix_balancing.pyx", "geometry.py", "bessel_sk.py"], [("balancing until converged", "matrix_balancing.pyx:balance"),
                                                          ("expansion in round trips", "geometry.py:arbitrary_roundtrips")],
  "the loops end by floating-point convergence of data-dependent quantities (e.g. balancing never ends on NaN entries); no static ranking argument bounds them")
p("C37", "Oscillator parameters convert from strengths and electronvolts exactly",
  "For every list of oscillators given as strength and resonance energy in electronvolts the conversion returns, in the same order and one "
  "row each, the plasma frequency and the resonance frequency in radians per second: the resonance frequency is e/hbar (to five digits) times the energy, "
  "and the squared ratio of the two is the strength, so the converted Lorentz model has the static response of the original.",
  ["inputs"], "all strengths and energies, lists of up to six oscillators, rows as lists or tuples",
  "the module has no tests",
  ["materials_converter.py"], [("conversion", "materials_converter.py:transform")])
#MORE

def main():
    na_ids = {x["property"] for x in NA}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in sorted(P, key=lambda x: x["id"]):
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps({k: v for k, v in x.items() if k not in ("technique", "note")}) + "\n")
    checks = []
    for x in sorted(P, key=lambda x: x["id"]):
        if x["id"] in na_ids:
            continue
        c = "python3-vt -m sa.run " + x["id"]
        checks.append(dict(property=x["id"], quick_cmd=c, thorough_cmd=c, evidence_file="evidence/%s.json" % x["id"],
                           technique="static analysis: " + x["technique"], level="other", level_note=x["note"]))
    m = dict(version=1, setup_cmd="python3-vt -c 'import sympy, mpmath'", checks=checks, not_applicable=NA,
             notes="Every check parses /repo/CasimirRio afresh; nothing of /repo is imported or executed. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def design():
    import sys
    sys.path.insert(0, HERE)
    from sa import props
    reg = props.load()
    t = open(os.path.join(HERE, "tools", "DESIGN.tmpl.md")).read()
    out = ["## Properties and how each is decided", ""]
    na_ids = {x["property"]: x["reason"] for x in NA}
    for x in sorted(P, key=lambda x: x["id"]):
        out.append("### %s %s" % (x["id"], x["title"]))
        out.append("")
        if x["id"] in na_ids:
            out += ["Not applicable: " + na_ids[x["id"]], ""]
            continue
        r = reg[x["id"]]
        out.append("*Analysed:* %s" % r.explain)
        out.append("*Rule:* %s." % r.rule.rstrip("."))
        out.append("*Quantifier reached:* %s. *Tests:* %s." % (x["quantifier"]["text"], x["why_tests_cant"].rstrip(".")))
        if r.assumes:
            out.append("*Assumes:* %s." % "; ".join(r.assumes))
        if DESIGN_NOTES.get(x["id"]):
            out.append(DESIGN_NOTES[x["id"]])
        out.append("")
    seeds = ["## Planted changes", "",
             "`tools/try.sh <id>` runs the check of a planted change on a scratch copy; `tools/catch.py` fills this table.", "",
             "| id | property | change needs | caught by |", "|---|---|---|---|"]
    caught = {}
    cp = os.path.join(HERE, "tools", "caught.json")
    if os.path.exists(cp):
        caught = json.load(open(cp))
    sd = os.path.join(HERE, "seeded")
    for i in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, i, "meta.json")))
        seeds.append("| %s | %s | %s: %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"],
                                                  ", ".join(caught.get(i, [])) or "-"))
    t = t.replace("#PROPS#", "\n".join(out)).replace("#SEEDS#", "\n".join(seeds))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t)


DESIGN_NOTES = {}

if __name__ == "__main__":
    main()
    design()
