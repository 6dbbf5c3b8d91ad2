"""Specification of the checks: which harness units decide which property."""
O1 = ["-O1"]
O2 = ["-O2"]
ASAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


check("S01",
      units=[dict(src="s01.cpp", flags=O1, shards=8)],
      rule="one case per degree / knot vector / pair of knot vectors; a state is one (case, evaluation point); "
           "a transition is one comparison of a library value with the reference recursion",
      bounds=dict(quick="Bernstein degree 0..20; open knot vectors degree 0..4 with inner knots {1/4,1/2,4/5} of every multiplicity 0..p+1; degree 5..19 with one inner knot; tensor products degree 0..3",
                  thorough="as quick, knot vectors to degree 5, all run-time degrees, more tensor knots"),
      assumptions=["reference recursions in ref.hpp", "IEEE double arithmetic, tolerances 1e-12..1e-9"])

# ---- controlled OpenMP schedules ------------------------------------------------
WRAP = ("-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=posix_memalign,"
        "--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,"
        "--wrap=pthread_mutex_trylock,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort")


def omp(src, races, part=0, shards=8):
    fl = ["-DEIGEN_DONT_PARALLELIZE", "-DPART=%d" % part]
    fl += ["-O1", "-fsanitize=thread", "-DRACES"] if races else ["-O2"]
    return dict(src=src, flags=fl, link=["omprt.cpp"], link_flags=["-O2"], ldflags=[WRAP, "-lpthread"], shards=shards)


OMP_RULE = ("one case per scenario, team size and first scheduling deviation; a state is one distinct complete schedule of the "
            "real parallel code (all choices at thread switches, task creation/pick-up, single claims, critical sections, barriers); "
            "transitions are scheduling decisions; every schedule's result is compared with a sequential evaluation and every "
            "instrumented memory access is checked for happens-before ordering")
OMP_ASSUME = ["the controlled runtime implements OpenMP semantics (tasks tied, deferred or undeferred)",
              "interleavings inside a region without synchronisation are covered by race freedom (checked), not enumerated",
              "sequential consistency; races detected for teams of 2 and 3"]
OMP_TECH = "stateless model checking of the implementation under a controlled OpenMP scheduler (deviation-bounded exhaustive schedules) with a happens-before race detector"
check("P01", units=[omp("p01.cpp", r, p) for p in (3, 1, 2) for r in (1, 0)], rule=OMP_RULE, assumptions=OMP_ASSUME, technique=OMP_TECH,
      bounds=dict(quick="4 or 16 element-pair tasks, 11 operators; T=2 up to 4 deviations, T=3 up to 2, T=4,8 up to 1; with race detection T=2 up to 2, T=3 up to 1",
                  thorough="T=2 up to 6 deviations, T=3 up to 4, T=4 up to 2; with race detection T=2 up to 3, T=3 up to 2"))
check("P02", units=[omp("p02.cpp", r, p) for p in (3, 1, 2) for r in (1, 0)], rule=OMP_RULE, assumptions=OMP_ASSUME, technique=OMP_TECH,
      bounds=dict(quick="4 to 144 leaves, 8 operators, assembly / product / both; T=2 up to 4 deviations, T=3 up to 3, T=4,8 up to 1; with race detection T=2 up to 2",
                  thorough="T=2 up to 6 deviations, T=3 up to 4; with race detection T=2 up to 3, T=3 up to 2"))
check("P03", units=[omp("p03.cpp", r, 0) for r in (1, 0)], rule=OMP_RULE, assumptions=OMP_ASSUME, technique=OMP_TECH,
      bounds=dict(quick="2 to 8 elements, 8 potentials, repeated and point-wise evaluation; T=2 all schedules of the smallest scenarios, otherwise 3 deviations, T=3 up to 4; with race detection up to 2",
                  thorough="T=3 up to 7 deviations, T=4 up to 4; with race detection up to 4"))

check("P04", units=[omp("p04.cpp", r, p) for p in (3, 1, 2) for r in (1, 0)], assumptions=OMP_ASSUME, technique=OMP_TECH,
      rule="one case per assignment of programs (sequences of reading operations on shared objects, or operations on separate objects) to "
           "2 or 3 user threads; all schedules of the points between operations and of every synchronisation point of the library inside "
           "them, up to a bound of deviations; the results of every thread must equal those of a sequential run and (race units) no two "
           "threads may access the same bytes in conflict; a state is a completed schedule",
      bounds=dict(quick="14 operations, 3 kinds of spaces, all pairs (race detection: costly operations with themselves and with all cheap ones), the same operation in 3 threads, programs of two operations against one of them; up to 2 deviations (race detection: pairs and triples in the undisturbed schedule, which already exposes every unordered conflicting access of the programs)",
                  thorough="all programs of two operations against one; up to 3 deviations (2 with race detection)"))

check("M01", units=[dict(src="m01.cpp", flags=O1, shards=8)],
      rule="one case per geometry (catalogue, all rotations of the parametrisations) and history of refineUniformly / refinePatch(i) / "
           "refineUniformly_recursion(root) / re-initialisation; a state is a reached refinement (levels per patch); every node of every "
           "reached tree is compared with an independent cell model; transitions are operations and comparisons",
      bounds=dict(quick="histories up to length 4 (2-3 on closed surfaces), levels up to 5, 16 geometries with 1 to 12 patches; all rotations of 2- and 3-patch geometries with histories up to 2-3",
                  thorough="histories up to length 5, all rotations of 4-patch geometries and of the cube"),
      assumptions=["distinct patch edges have distinct end point pairs (valid geometry)", "patches are coherently oriented"])

check("A01", units=[dict(src="a01.cpp", flags=O1, shards=8)],
      rule="one case per geometry, patch order, rotation of the parametrisations, degree, level and knot repetition; a state is a "
           "distinct configuration; in every case every basis function is compared from both sides at degree+1 points of every "
           "element edge (which decides polynomials), dimension against V+E(n-2)+F(n-2)^2, rank exactly; transitions are comparisons",
      bounds=dict(quick="all orders and rotations of meshes with up to 3 patches (degree 1-2, level 0), all orders of stars up to 6 patches and of the cube, rotations {0,2}^6 of the cube; degree to 4, level to 2, all knot repetitions on selected meshes",
                  thorough="all rotations of star(4) and cube with orders, star(7); degree to 6, level to 3"),
      assumptions=["coherently oriented geometry with distinct edges having distinct end point pairs"])

check("A02", units=[dict(src="a02.cpp", flags=O1, shards=8)],
      rule="one case per geometry, patch order, rotation, degree, level and knot repetition; a state is a distinct configuration; in "
           "every case the outward flux of every basis function is compared from both sides at degree+1 points of every shared patch "
           "and element edge, dimension with 2F*s*(s+1)-E*s, rank exactly; on selected meshes also the conormal component of the evaluated surface field",
      bounds=dict(quick="all orders and rotations of meshes with up to 3 patches (degree 1-3, level 0) and of star(4), orders of star(5) and the cube, 4^6 rotations of the cube, 2^9 of a torus; degree to 4, level to 2, all knot repetitions on selected meshes; shipped geometries",
                  thorough="orders x rotations of star(5) and the cube (rotations {0,2}); degree to 6, level to 3"),
      assumptions=["coherently oriented geometry with distinct edges having distinct end point pairs"])

check("A03", units=[dict(src="a03.cpp", flags=O1, shards=8)],
      rule="one case per geometry, space kind, degree, level and knot repetition; a state is a distinct configuration; every column of "
           "the projector is evaluated at (degree+1)^2 points of every element and compared with the Cox-de Boor reference",
      bounds=dict(quick="1 to 3 patches, three kinds, degree 0..9, level 0..3, knot repetition 1..degree+2, up to 24 functions per direction",
                  thorough="degree to 12, level to 4, up to 40 functions per direction"),
      assumptions=["Cox-de Boor recursion in long double"])

check("G01", units=[dict(src="g01.cpp", flags=O2 + ["-DPART=1"], shards=8)],
      rule="one case per pair of orders, inner knots and weights; a state is one (patch, evaluation point) including patch edges and knot "
           "lines; position, both tangents, normal and the combined surface point are compared with the rational Cox-de Boor reference",
      bounds=dict(quick="orders 2..4 squared, 8 inner knot vectors per direction up to 49 control points, 3 weight/position styles, 4 points per span; Bezier patches up to order 12",
                  thorough="orders up to 6, up to 100 control points, 6 points per span"),
      assumptions=["Cox-de Boor recursion in long double", "at kinks (C0 knots) either one-sided derivative is accepted"])
check("G02", units=[dict(src="g01.cpp", flags=O2 + ["-DPART=2"], shards=8)],
      rule="one case per pair of orders, inner knots and weights, or list of patches; a state is one piece; position and tangents of every "
           "piece are compared with the reference surface on the corresponding knot span",
      bounds=dict(quick="orders 2..4 squared, 8 inner knot vectors per direction up to 49 control points; all lists of up to 3 patches over 4 kinds",
                  thorough="orders up to 6, up to 100 control points; lists up to 4"),
      assumptions=["Cox-de Boor recursion in long double", "pieces are ordered x-span major, as documented"])
check("G03", units=[dict(src="g03.cpp", flags=O1 + ["-fsanitize=address", "-g1"], shards=8)],
      rule="one case per geometry x format x precision, per path, per history of writes to two files, per B-spline patch and per shipped "
           "file x line ending; a state is a distinct case; loaded patches are compared pointwise (position and tangents) with the written ones; "
           "memory errors are reported by AddressSanitizer",
      bounds=dict(quick="23 geometries (orders 2..7, weights), 2 formats, 4 precisions; 23 path shapes; histories of 3 writes over 4 geometries and 2 files; 9 x 16 B-spline patches; shipped files with 4 line ending variants",
                  thorough="histories of 4 writes; all shipped files"),
      assumptions=["comparison at 25 points per patch decides equality of patches of order at most 5; higher orders are compared at the same points"])

check("M02", units=[dict(src="m02.cpp", flags=O1, shards=8)],
      rule="one case per geometry, patch order, rotation of the parametrisations and position in space; a state is a distinct configuration; "
           "the reported topology is compared with the combinatorics of the mesh, labels and neighbours of every element with those derived from it",
      bounds=dict(quick="all orders and rotations of 8 meshes with up to 3 patches and of star(4); all orders x rotations {0,2} of grid(2,2), star(5); all rotations of the cube; all orders of star(6), star(7), cube, grid(3,2); levels up to 4; every corner / edge mid point / patch centre at the origin; 15 scales and positions; shipped geometries",
                  thorough="all orders x all rotations of star(5), grid(2,2); orders x rotations {0,2} of star(6), cube; all orders of twostar(5,5)"),
      assumptions=["coherently oriented geometry with distinct edges having distinct end point pairs, corners further apart than 1e-9"])
check("S02", units=[dict(src="s02.cpp", flags=O1, shards=8)],
      rule="one case per table and requested index; a state is a distinct case; each rule is compared with all Legendre polynomials and "
           "monomials up to degree 2n-1 (a basis, so all polynomials), its nodes with roots found by Newton iteration in long double",
      bounds=dict(quick="rules with 1 to 64 points; one-dimensional tables of maximal index 0..31, 50, 80; two-dimensional tables of maximal index 0..9, 20, 50 (all pairs of degrees up to index 16, above that extreme and diagonal ones)",
                  thorough="all pairs of degrees for all two-dimensional rules"),
      assumptions=["rounding tolerance 4e-14"])
check("A04", units=[dict(src="a04.cpp", flags=O1 + ["-DPART=1"], shards=8), dict(src="a04.cpp", flags=ASAN + ["-DPART=2"], shards=8)],
      rule="values: one case per geometry, space kind, degree, level, knot repetition, compared on every element at 16 points incl. its "
           "boundary with Bernstein expansions; histories: one case per applicable sequence of operations on two geometries, two spaces and two "
           "evaluators (copy/move construction and assignment, self assignment, re-initialisation, destruction, new coefficients); a state is an abstract state of the six objects",
      bounds=dict(quick="6 geometries, 5 space kinds, degree to 4, level to 3; superspace primitives to degree 9; histories of length 3 (continuous) and 2 (other kinds) over 38 operations, under AddressSanitizer",
                  thorough="degree to 6, level to 4; histories of length 4 and 3"),
      assumptions=["objects that were moved from are only assigned, re-initialised or destroyed", "patches of a geometry are not edited in place after a space was built on it"])
check("D01", units=[dict(src="d01.cpp", flags=O1, shards=8)],
      rule="one case per geometry, patch order, rotation of the parametrisations and level; a state is a configuration; every ordered pair of elements "
           "is classified by the corners it shares in space, alignment is checked by evaluating the surface, distances by sampling",
      bounds=dict(quick="all orders and rotations of 9 meshes with up to 3 patches (levels to 1-3), star(4), all rotations of the cube, rotations {0,2} at level 1, orders x rotations {0,2} of grid(2,2) and star(5); curved, weighted, shifted and shipped geometries up to level 2",
                  thorough="levels to 2-3, orders x rotations of the cube at level 0, all rotations at level 1"),
      assumptions=["elements share at most one edge or one vertex (level > 0 or no doubly glued patches)"])
check("D02", units=[dict(src="d02.cpp", flags=O2, shards=8)],
      rule="one case per family (polynomial kernels / Coulomb kernel on flat elements / rotation of parametrisations / accuracy of the chosen degrees), geometry, "
           "rotation, level and degree; a state is a configuration; all ordered element pairs of each configuration are integrated and compared with "
           "closed forms, an analytic inner integral with double exponential outer rule, the unrotated configuration, or a high order rule",
      bounds=dict(quick="8 flat configurations in all 16 rotations (degree 0..1, level 0), levels to 2 and degree to 3 on selected ones; 3 x 16 rotations with permuted bases; 4 geometries x level x degree x 4 kernels for the degrees",
                  thorough="level 1 in all rotations, degree 3"),
      assumptions=["double exponential reference accurate to 1e-10", "bounds for the automatic degrees are those of the shipped policy with a margin"])
check("H01", units=[dict(src="h01.cpp", flags=O1, shards=8), dict(src="h01.cpp", flags=O1 + ["-g1", "-fsanitize=address", "-DHIST"], shards=8)],
      rule="configurations: one case per geometry, space kind, level and degree, a state per admissibility parameter and minimal cluster level: coverage of all element pairs is "
           "counted, ranges compared with the elements inside the cluster, leaves with a reference recursion; histories: one case per applicable sequence of "
           "operations on two trees, under AddressSanitizer, both trees verified completely afterwards; a state is an abstract state of the two trees",
      bounds=dict(quick="12 geometries and the shipped ones, levels to 3-4, degree to 2, 6 admissibility parameters, all minimal cluster levels; histories of length 3 over 26 operations",
                  thorough="level 5; histories of length 4"),
      assumptions=["the ansatz space outlives the trees built on it", "a tree that was moved from is only assigned or re-parametrised"])
check("H03", units=[dict(src="h03.cpp", flags=["-O0", "-DPART=%d" % p], shards=(2 if p in (8, 9) else 1)) for p in (0, 1, 2, 3, 10, 11, 12, 13, 8, 9)],
      rule="one case per expression (all (A op B) op C and C op (A op B) over the leaves compressed matrix, dense matrix, sparse matrix, scalar times compressed matrix, "
           "and deeper nestings) and scalar type; a state is an expression on one pair of operators; every case is applied to vectors and blocks of vectors in all supported "
           "ways (assign, add, subtract, scale, nest, alias, sub-blocks, maps) and compared with the same expression in dense matrices",
      bounds=dict(quick="all expressions with up to three operands (192 shapes x applications), selected ones with up to six; 2 real and 2 complex pairs of operators",
                  thorough="a second complex pair for all three-operand expressions, refined"),
      assumptions=["dense representation obtained by applying the bare compressed matrix to unit vectors (its accuracy is H02)", "row-major right-hand sides, H*scalar, -H and H/scalar are rejected at compile time and therefore not part of the language"])
check("H04", units=[dict(src="h04.cpp", flags=O1, shards=8)],
      rule="one case per number of points (points, polynomials, transfer matrices) and per operator family, level, cluster size, degree and number of points (moments, forward and "
           "backward transforms); a state is a configuration; every unit vector is transformed forward through all levels and compared with the exact integrals over "
           "the elements of each cluster; every unit vector of every level is transformed backward and compared with the transpose",
      bounds=dict(quick="1 to 16 points; 6 operators, levels 0..3, 0 to 2 levels per smallest cluster, degree to 3, 1 to 9 points",
                  thorough="to 24 points, degree to 4, 12 points for all configurations"),
      assumptions=["rounding tolerance 1e-13 * 2.2^points"])
check("H02", units=[dict(src="h02.cpp", flags=O1 + ["-DPART=%d" % p], shards=8) for p in (3, 4, 2, 1, 0, 5)],
      rule="one case per operator, geometry, level, degree, knot repetition and wavenumber, a state per number of interpolation points; the compressed operator is applied to "
           "all unit vectors and compared with (a) the dense Galerkin matrix, relative error at most 3 * 0.33^points, and (b) the dense matrix with the kernel replaced by its tensor product "
           "interpolant on the admissible blocks (exact moments), to rounding; plus one case per history of re-initialisations of one object over four configurations",
      bounds=dict(quick="10 operators, 9 geometries, levels 0..3, degrees to minimal + 2 (Maxwell: + 1), 4 wavenumbers, 1 to 9 points; histories of length 2",
                  thorough="levels to 4, all numbers of points on curved cubes, histories of length 3"),
      assumptions=["the admissible leaves are those of the operator's own block cluster tree (verified by H01)", "error bound calibrated on the shipped admissibility parameter with a factor of three"])

check("I01", units=[dict(src="i01.cpp", flags=O1, shards=8)],
      rule="one case per format, scalar type, shape and set of values (every storage order and kind of expression inside), per sparsity pattern, and per history of exports to two files; "
           "a state is a configuration or the contents of the two files; the files are read by independent readers (a reader of the Matlab subset, a text reader) or back by bin2Mat and compared exactly (text: to ten digits)",
      bounds=dict(quick="double, float, int, complex; shapes 0..4 x 0..4; all 900 sparsity patterns up to 3x3, compressed and not; histories of length 3 over 15 exports x 2 files",
                  thorough="shapes to 6x6; histories of length 4"),
      assumptions=["an empty dense matrix has no shape in the text formats", "sparse matrices are column major (the only ones accepted)"])
check("I02", units=[dict(src="i02.cpp", flags=O1, shards=8)],
      rule="one case per history of opening (all constructors), logging to terminal / file / both, and closing one or two loggers; a state is an abstract state "
           "(open loggers, number of rows in every sink); files and terminal are parsed after the last operation with the loggers still open and after closing them",
      bounds=dict(quick="11 constructions x 6 kinds of rows x 4 separators in histories of length 3; histories of length 5 (one kind of row: 6) on two files, length 4 with two loggers",
                  thorough="length 6 (7) and 5"),
      assumptions=["two loggers write to the same file at the same time only if both append", "logged strings do not contain the separator"])
check("I03", units=[dict(src="i03.cpp", flags=O1, shards=4)],
      rule="one case per history of start / lap / stop / tic / toc, waiting, and setting the wall clock, executed under a clock controlled by the harness (clock_gettime is replaced); "
           "a state is an abstract state of watch and clocks; every returned and recorded time is compared with the exact one after every operation",
      bounds=dict(quick="all applicable histories of length 10 over start/lap/stop/wait, of length 6 with long waits and clock changes, and with tic/toc",
                  thorough="length 12 and 7"),
      assumptions=["start only when stopped, lap and stop only when running", "the total may or may not include the time after the last lap, but equals the sum of the recorded laps"])
check("I04", units=[dict(src="i04.cpp", flags=O1, shards=8)],
      rule="one case per exporter, grid / points / geometry and level, and history of adding data sets (all kinds), clearing, writing and re-initialising; a state is the list of data sets; every "
           "written file is read by an independent XML reader: extents and counts, every point, every cell matched with exactly one mesh element, every value with the function at its location",
      bounds=dict(quick="grids 1..3 cubed, 1..12 points, 10 surfaces at levels 0..2 or 3 with all 11 kinds of data sets; histories of length 4 (7 operations), 3 on surfaces (9 operations)",
                  thorough="grids to 5 cubed, levels to 4, histories of length 5 and 4"),
      assumptions=["names contain no markup characters", "printed precision of six digits"])
check("O06", units=[dict(src="o06.cpp", flags=O1, shards=8)],
      rule="one case per direction, radius and degree (all harmonics / all unit coefficient vectors and a dense one), per precision, and per history of setting the precision and making, copying and "
           "assigning operators and potentials; a state is a (direction, radius, order) triple, a face point pair, or the configuration of all live objects; values are compared with explicit polynomials, "
           "kernels with an Ewald sum of the periodic Green's function",
      bounds=dict(quick="127 directions on a 5^3 grid incl. axes, poles and near-poles, 3 radii, degrees 0..13 (series 0..8 and 12); 8 precisions, 867 face point pairs, 728 cell points; histories of length 4 over 7 operations",
                  thorough="345 directions, degrees 0..16 (series 0..13), histories of length 5"),
      assumptions=["requested precisions not below 1e-7", "the kernel is used for differences within the unit cell centred at the origin"])
check("O04", units=[dict(src="o04.cpp", flags=O1+["-DPART=1"], shards=8), dict(src="o04.cpp", flags=O1+["-DPART=2"], shards=8)],
      rule="one case per trace type, scalar, geometry with parametrisation, degree, level and knot repetition (8 data functions x 5 quadrature settings each), and per history of initialising, setting data, "
           "setting the degree, copying and assembling; a state is a (space, data, degree) triple; all entries are compared with independently computed moments (exact on affine geometries, at least as good as "
           "the set rule elsewhere, 1e-7 at degree 20)",
      bounds=dict(quick="8 trace/scalar combinations, 8 geometries, P<=4, M<=2, data of degree <=3; histories of length 5 over 8 operations",
                  thorough="11 geometries, P<=6, M<=3, histories of length 6"),
      assumptions=["the trace type's scalar equals the operator's scalar", "a function has been set before assembling"])
check("O05", units=[dict(src="o05.cpp", flags=O1, shards=8)],
      rule="one case per local operator (both mass matrices, Laplace-Beltrami, a vector valued operator without symmetry, a complex one), geometry, degree, level and knot repetition, and per history of "
           "initialising, assembling and copying; a state is one configuration; all entries are compared with independently integrated Gram / stiffness matrices (exact on affine geometries, at least as good as "
           "the documented rule elsewhere), and symmetry, definiteness, area and kernel are checked",
      bounds=dict(quick="14 geometries, P<=4, M<=3, all knot repetitions, up to 700 local functions; histories of length 5 over 5 operations",
                  thorough="17 geometries, P<=6, up to 1600 local functions, histories of length 6"),
      assumptions=["local operators on curved surfaces are integrated with the far-field degree"])
check("O01", units=[dict(src="o01.cpp", flags=O1 + ["-DPART=%d" % p], shards=8) for p in (3, 1, 2, 0, 4)],
      rule="one case per operator, geometry with parametrisation, level, degree, knot repetition and wavenumber (symmetry, conjugate wavenumbers, limit of vanishing wavenumber, rigid motions and scaling, definiteness and kernel, adjoints), "
           "one per closed geometry, level, degree and wavenumber for Green's identities with polynomials and plane waves, one per splitting of the Maxwell operator on the cube into Helmholtz single layers, "
           "and one per history of assigning spaces and wavenumbers, copying, assigning and assembling; a state is a configuration or the (space, wavenumber, assembled) abstraction of a front end object in a history",
      bounds=dict(quick="9 operators, 50 parametrised geometries (cube, curved cube, torus of 9 patches, 5 open ones), levels to 2, degrees to minimal + 2, 5 wavenumbers; histories of length 4 over 5 or 8 operations",
                  thorough="one more degree, level 2 everywhere, all wavenumbers; 64 parametrisations for Maxwell; histories of length 5"),
      assumptions=["scaling a geometry may change the number of quadrature points, which depends on distances, so that it is compared to 2 % of the largest entry only"])
check("O02", units=[dict(src="o02.cpp", flags=O1, shards=8)],
      rule="one case per operator, geometry, level, degree and wavenumber, and per history of setting wavenumbers, copying and assigning two operators; a state is an ordered pair of elements in a configuration; "
           "for every pair of their points the direct integrand, the kernel tensor contracted with the local functions in the order of the moments, and an independent formula are compared for all pairs of local functions",
      bounds=dict(quick="10 operators, 10 geometries, levels to 2, degrees to minimal + 3, 8 wavenumbers (real, imaginary, complex, 1e-4 to 40), all ordered pairs of elements x lattice points not closer than 1e-6; histories of length 3 over 10 operations",
                  thorough="levels to 3, histories of length 4"),
      assumptions=["a wavenumber has been set (nonzero for Maxwell)"])
check("O03", units=[dict(src="o03.cpp", flags=O1 + ["-DPART=%d" % p], shards=(2 if p == 3 else 8)) for p in (2, 1, 0, 4, 3)],
      rule="one case per potential, kind of density, geometry with parametrisation, level, degree and knot repetition (all unit densities and a dense one, 4 quadrature settings, 1 or 4 wavenumbers, 10 points, together, one at a time and reversed), "
           "one per history of initialising, setting densities, degrees and wavenumbers, copying, assigning and evaluating, and one per identity (Green's representation formula, gradients, differential equations, flat double layers, vanishing wavenumbers); "
           "a state is a configuration of the potential; values are compared with independent surface integrals, exact or at least as good as the set rule",
      bounds=dict(quick="12 potential/density combinations, 7 geometries, levels to 2, degrees to minimal + 2; histories of length 3 over 13 operations",
                  thorough="one level more, degrees to minimal + 3, histories of length 4"),
      assumptions=["evaluation points at least 0.2 diameters away from the surface (10 to 20 for difference quotients: about two)", "a density has been set after initialisation"])
check("O07", units=[dict(src="o07.cpp", flags=O1 + ["-DPART=%d" % p], shards=8) for p in (2, 1, 0)],
      rule="one case per boundary integral equation (Laplace and Helmholtz single layer, double layer, adjoint double layer, hypersingular; Maxwell electric field), side, surface, wavenumber, degree, level and matrix format; "
           "a state is one boundary value problem with a known solution (10 harmonic functions, point sources, dipoles, plane waves), solved by dense LU and evaluated with the matching potential at 27 or 26 points; "
           "the error is bounded by C * 2^(-rate * level) with the convergence rate theory gives and C calibrated once per equation, side and degree",
      bounds=dict(quick="an affinely distorted sphere of six differently rotated, reordered patches; 3 wavenumbers (real, complex, imaginary), degrees to minimal + 2, levels 0 to 2, dense matrices, and fast multipole matrices on level 2",
                  thorough="also the sphere as shipped, levels to 3"),
      assumptions=["the wavenumber is no interior eigenvalue of the equation"])
check("A05", units=[dict(src="a05.cpp", flags=O1, shards=8)],
      rule="one case per space, geometry, degree, level and knot repetition (3 coefficient vectors x 7 functions x several quadrature degrees), a state is a (configuration, vector, function) triple; squared errors are compared with an independent evaluation "
           "of the represented function (exact where the rule is, at least as good as the set rule elsewhere); L2 projections are checked for reproduction, orthogonality and best approximation against perturbed coefficients; "
           "on the sphere, projections of and Laplace-Beltrami solutions for 11 spherical harmonics have to converge at the full order",
      bounds=dict(quick="4 spaces, 7 geometries, P<=3, M<=2, all knot repetitions, up to 450 local functions; sphere in two parametrisations with P<=3, levels to 3",
                  thorough="9 geometries, P<=5, M<=3, 9 quadrature degrees, up to 1500 local functions; sphere levels to 4"),
      assumptions=["real valued spaces (the error of complex functions does not compile)"])
check("H05", units=[dict(src="h05.cpp", flags=O1 + ["-DPART=%d" % p], shards=8) for p in (1, 0)],
      rule="one case per solver (CG, BiCGSTAB, GMRES, MINRES), matrix type (compressed operator, lazy sum) and history of computing, solving (single, block, zero, with guesses), changing tolerances and iteration limits, and assembling the operator "
           "anew in place; a state is the (matrix, assembled data, tolerance, limit) configuration of the solver; residuals are taken with a dense copy of the current operator",
      bounds=dict(quick="histories of length 3 over 12 operations after an initial computation (2 for lazy sums and Maxwell), 4 real and 2 complex solvers, 32 to 48 unknowns",
                  thorough="histories of length 4 (3)"),
      assumptions=["the solver is set up again after its operator was assembled anew"])

check("U01", units=[dict(src="u01.cpp", flags=O1, shards=8)],
      rule="one case per sequence of modules included in one translation unit and language standard, and per program of two translation units (orders of inclusion, standard, optimisation); "
           "a state is such a sequence, or a history of operations (13 uses of all parts of the library from either unit, some on objects that exist before main) in the program; "
           "every operation of every history must yield what a program that uses one unit for this operation only yields, given the precision that was set last",
      bounds=dict(quick="18 modules alone (C++11), rotations of the list of all modules forward and backward (C++11, C++20); 2 programs, histories of length 2 over both units in one of them (setting and using the precision: 3)",
                  thorough="all ordered pairs of modules, all rotations, modules alone in all four standards; 4 programs, histories of length 3"),
      assumptions=["g++; the compiler is run by the harness on generated programs"])
