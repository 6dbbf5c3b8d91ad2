import json
P=[]
S="Bembel/src/"
def p(id,title,st,over,q,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=a,where=S+b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

p("P01","Parallel dense Galerkin assembly is schedule independent and race free",
"Assembling a boundary integral operator into a dense matrix performs no unsynchronised conflicting memory accesses and yields, whatever the number of threads and the order in which tasks are executed, the same matrix (up to rounding) as a sequential assembly. This holds for scalar and for vector-valued (Maxwell) operators and for repeated assemblies.",
["schedules","configurations"],"all interleavings of the assembly's tasks and synchronisation operations for 1 to 3 threads up to a deviation bound, over small meshes and operators",
"Tests run one OS schedule with whatever thread count the machine has and only check norms or convergence rates of the result; a racy schedule is essentially never produced.",
["LinearOperator/DiscreteOperator.hpp","DuffyTrick/evaluateBilinearForm.hpp","AnsatzSpace/SuperSpace.hpp"],
[("one task per element pair, private local matrix, disjoint target blocks","LinearOperator/DiscreteOperator.hpp")],["DiscreteOperator::compute / get_discrete_operator"])
p("P02","Parallel H2 assembly and H2 products are schedule independent and race free",
"Building a compressed (H2) operator and multiplying it with vectors or matrices performs no unsynchronised conflicting memory accesses. Every thread count and every schedule produces the same operator and the same product (up to rounding) as a sequential run.",
["schedules","configurations"],"all interleavings of tasks, worksharing claims and critical sections for 1 to 3 threads up to a deviation bound, for scalar, complex and Maxwell operators on small meshes",
"Tests sample one schedule per run and compare only error norms; a lost update or a double-executed leaf in a rare interleaving goes unnoticed.",
["H2Matrix/H2Matrix.hpp","H2Matrix/EigenHelper/H2DenseProduct.hpp","H2Matrix/H2Multipole.hpp"],
[("task per leaf during assembly","H2Matrix/H2Matrix.hpp"),("single nowait per leaf, thread-private accumulators, critical reduction","H2Matrix/EigenHelper/H2DenseProduct.hpp")],["init_H2Matrix, operator*"])
p("P03","Parallel potential evaluation is schedule independent and race free",
"Evaluating a potential at a set of points performs no unsynchronised conflicting memory accesses, and every thread count and schedule returns, for every point, the same value (up to rounding) as a sequential evaluation. Evaluating repeatedly, or evaluating subsets of the points, gives the same values.",
["schedules","configurations"],"all interleavings of worksharing claims and critical sections for 1 to 3 threads up to a deviation bound",
"Tests evaluate potentials under one schedule and compare only convergence rates.",
["Potential/DiscretePotential.hpp","AnsatzSpace/FunctionEvaluator.hpp"],
[("single nowait per element, thread-private accumulator, critical reduction","Potential/DiscretePotential.hpp")],["DiscretePotential::evaluate"])
p("P04","Concurrent use by several threads is safe as long as nothing shared is modified",
"Several user threads may at the same time call reading operations on the same objects (evaluate geometry, basis functions and discrete functions, traverse the mesh, multiply a compressed matrix with vectors, copy objects) and use separate objects in any way (assemble right-hand sides, matrices and compressed matrices, evaluate potentials, refine their own meshes, write their own files) on a shared ansatz space. No such combination performs unsynchronised conflicting memory accesses, and every thread obtains what a sequential program obtains.",
["schedules","histories"],"all assignments of programs of such operations to 2 or 3 threads up to a length, all interleavings of the operations and of the library's synchronisation points up to a deviation bound",
"Tests use the library from one thread only.",
["AnsatzSpace/SuperSpace.hpp","AnsatzSpace/FunctionEvaluator.hpp","Geometry/Patch.hpp","H2Matrix/H2Matrix.hpp","Spline/DeBoor.hpp","Quadrature/GaussLegendre.hpp"],
[("const members without hidden mutable state","AnsatzSpace/SuperSpace.hpp"),("quadrature rules and bases created by each caller","Quadrature/GaussSquare.hpp")],["every const member function of Patch, ElementTree, SuperSpace, AnsatzSpace, FunctionEvaluator, H2Matrix"])
p("M01","Any history of mesh refinements yields a consistent, linked, conforming tree",
"After any sequence of uniform and patch-wise refinements the leaf elements tile every patch exactly once, are enumerated exactly once in hierarchical order both globally and per cluster, and all counts, levels, parents' bounding balls and vertex numbers are consistent: two corners carry the same number iff they are the same point of the surface. Neighbour relations between equally fine elements are symmetric and hold exactly for elements that share an edge. Histories leading to the same refinement yield the same mesh.",
["histories","configurations"],"all sequences of refinement operations up to a depth on geometries with 1 to several patches, all patch orders and relative orientations",
"Tests only use a single uniform refinement from a fresh tree on a few geometries.",
["ClusterTree/ElementTree.hpp","ClusterTree/ElementTreeNode.hpp","ClusterTree/ClusterTree.hpp"],
[("refineLeaf relinks the leaf list, re-uses neighbour midpoints, updates adjacency","ClusterTree/ElementTree.hpp"),("computeElementEnclosings","ClusterTree/ElementTree.hpp")],["ElementTree iterators, generatePointList, generateElementList, computeElementEnclosings"])
p("M02","Patch connectivity is recognised for every numbering and orientation of patches",
"For every valid geometry the reported patch topology lists every shared patch edge exactly once with the correct local edge of both patches and every free edge exactly once as boundary, and derived labels agree with it. The result does not depend on the order of the patches or the rotation of their parametrisations, and geometries are accepted wherever they lie in space.",
["configurations","inputs"],"all patch permutations and parametrisation rotations of small patch complexes (closed, open, patches sharing one or two edges, any position in space)",
"Tests use fixed geometry files with one numbering and orientation each.",
["ClusterTree/ElementTree.hpp","ClusterTree/ClusterTree.hpp"],
[("unique corner detection and edge map","ClusterTree/ElementTree.hpp"),("patchTopologyInfo / checkOrientation","ClusterTree/ClusterTree.hpp")],["patchTopologyInfo, generatePatchBoundaryLabels, identifyPatch, computeReorderingVector"])
p("G01","Patch evaluation, derivatives, normals and surface points agree with the NURBS",
"For every NURBS patch, point evaluation equals the rational B-spline it was built from, the Jacobian equals its exact derivative, the normal equals the cross product of the two tangents, and the combined surface-point evaluation used in assembly returns the same data together with the given reference point and weight. This holds on the whole closed parameter square including patch edges and knot lines.",
["inputs","configurations"],"all degree pairs, knot vectors with inner knots of every admissible multiplicity and evaluation grids (knots, end points, interior) up to the stated bounds, rational weights included",
"Tests evaluate the few shipped geometries at some points.",
["Geometry/Patch.hpp","Geometry/SurfacePoint.hpp","Spline/Bezierextraction.hpp","Spline/Basis.hpp","Spline/Localize.hpp"],
[("Bezier extraction of the control net","Geometry/Patch.hpp"),("eval/evalJacobian/evalNormal/updateSurfacePoint","Geometry/Patch.hpp")],["Patch::eval, evalJacobian, evalNormal, updateSurfacePoint"])
p("G02","Splitting patches at knots reproduces exactly the same surface",
"Splitting a multi-element patch at its inner knots yields patches that each are free of inner knots and together cover the original surface exactly once, in the documented order and parametrisation. Patches without inner knots are passed through unchanged and collections are split patch by patch in order.",
["inputs","configurations"],"all small knot vectors in both directions (0 to 3 inner knots, every multiplicity, uniform and non-uniform) and patch sequences",
"Tests import one shipped geometry that needs splitting.",
["Geometry/Patch.hpp","Geometry/PatchVector.hpp","Geometry/Geometry.hpp"],
[("PatchShredder","Geometry/Patch.hpp"),("Geometry constructor shreds imported patches","Geometry/Geometry.hpp")],["Geometry::get_geometry"])
p("G03","Geometries survive writing to and loading from file, whatever the file path",
"Writing a geometry to a supported file format and loading it again reproduces every patch, in order, as the same parametrised surface up to the printed precision. Loading picks the format from the file name extension for every readable path, including relative paths and directories containing dots.",
["inputs","histories","configurations"],"all small patch collections (degrees, inner knots, weights, coordinates of either sign and magnitude) times formats times path spellings, repeated write/load cycles",
"Tests round-trip one geometry per format from the current directory.",
["Geometry/GeometryIO.hpp","Geometry/GeometryIGS.hpp","Geometry/Geometry.hpp"],
[("WriteDATFile / LoadGeometryFileDAT","Geometry/GeometryIO.hpp"),("writeIGSFile / LoadGeometryFileIGS","Geometry/GeometryIGS.hpp"),("extension dispatch","Geometry/Geometry.hpp")],["Geometry(filename), WriteDATFile, writeIGSFile"])
p("S01","Spline routines evaluate the mathematically defined basis functions",
"Bernstein and B-spline evaluation and differentiation routines return the values of the mathematical basis functions and their derivatives for every supported degree, valid knot vector and point including end points and inner knots. All routes (runtime or compile-time degree, de Boor or tensor product, accumulated or listed) agree, and conversion of B-splines to Bernstein form and its inverse interpolation reproduce the function.",
["inputs","configurations"],"all degrees up to the supported bound times open knot vectors with bounded inner knots of every multiplicity times evaluation points",
"Tests check two or three degrees and points.",
["Spline/Basis.hpp","Spline/Bernstein.hpp","Spline/DeBoor.hpp","Spline/DeBoorTP.hpp","Spline/Knots.hpp","Spline/Localize.hpp","Spline/Pascal.hpp","Spline/ShapeFunctions.hpp","Spline/Unroll.hpp","Spline/Bezierextraction.hpp"],
[("unrolled Bernstein evaluation","Spline/Bernstein.hpp"),("de Boor recursion","Spline/DeBoor.hpp")],["Spl:: and Basis:: functions"])
p("S02","Every quadrature rule is exact to its nominal degree",
"Each one-dimensional and two-dimensional quadrature rule offered integrates every polynomial up to its nominal degree exactly over the unit interval or square, with positive weights and nodes strictly inside the domain. Requesting a rule by index returns the rule of that order.",
["inputs","configurations"],"every rule times every monomial up to its degree of exactness",
"Tests do not check the rules individually; a wrong high-order rule only degrades some integrals slightly.",
["Quadrature/GaussLegendre.hpp","Quadrature/GaussLegendreRule.hpp","Quadrature/GaussSquare.hpp","Quadrature/Quadrature.hpp","Quadrature/QuadratureVector.hpp","Quadrature/TensorProductQuadratureVector.hpp"],
[("tables of Gauss-Legendre rules and their tensor products","Quadrature/GaussLegendre.hpp")],["GaussLegendre, GaussSquare"])
p("A01","Continuous ansatz spaces are exactly the continuous splines on the surface",
"For globally continuous discretisations every coefficient vector represents a function that is single-valued across all shared patch edges and corners, degrees of freedom are linearly independent, and their number equals the dimension of the continuous spline space. This holds for every way patches are numbered, rotated and connected, every polynomial degree and every refinement level.",
["configurations","inputs"],"all patch topologies from the bounded family (permutations, rotations, shared corners of any valence) times degree, level and knot repetition within the bounds",
"Tests check three geometries with fixed numbering and only compare a few rates or coefficients.",
["AnsatzSpace/Glue.hpp","AnsatzSpace/Projector.hpp","AnsatzSpace/AnsatzSpace.hpp"],
[("identification of edge degrees of freedom and merging at corners","AnsatzSpace/Glue.hpp")],["AnsatzSpace::get_transformation_matrix, FunctionEvaluator"])
p("A02","Divergence-conforming spaces have continuous normal components across edges",
"For divergence-conforming discretisations the component of every represented tangential field normal to a shared patch edge is continuous across it, and across element edges inside patches. Degrees of freedom are linearly independent and their number is that of the conforming space, for every numbering and rotation of patches, degree and level.",
["configurations","inputs"],"all patch topologies from the bounded family times degree, level and knot repetition within the bounds",
"Tests check one or two fixed geometries through convergence rates.",
["AnsatzSpace/Glue.hpp","AnsatzSpace/Projector.hpp","AnsatzSpace/FunctionEvaluatorEval.hpp"],
[("signed edge identification with reversal","AnsatzSpace/Glue.hpp")],["AnsatzSpace::get_transformation_matrix, FunctionEvaluator"])
p("A03","Patch-wise spline functions are represented exactly on elements",
"Each degree of freedom of the patch-wise B-spline space is represented on the elements by exactly that tensor-product B-spline (with inner knots of the requested repetition), and each patch contributes exactly the dimension of its spline space. This holds for scalar, discontinuous and vector-valued spaces, every degree, level and admissible knot repetition.",
["configurations","inputs"],"all form types times degree times level times knot repetition within the bounds, every degree of freedom and element",
"Tests check a handful of degree/level pairs.",
["AnsatzSpace/Projector.hpp","AnsatzSpace/SuperSpace.hpp","AnsatzSpace/AnsatzSpace.hpp"],
[("interpolation-based projector and Kronecker structure","AnsatzSpace/Projector.hpp")],["AnsatzSpace::get_transformation_matrix, FunctionEvaluator::evaluate"])
p("A04","Function evaluation agrees across interfaces and survives copying and assignment",
"The value of a discrete function is the same whether evaluated per element, per patch or by accumulation, its surface divergence is the derivative of those values, and the value depends only on the last coefficients set. Copies and assignments of geometries, ansatz spaces and evaluators behave like the original in every history, including after the original is changed or destroyed.",
["histories","configurations"],"all short sequences of construct / copy / assign / move / set / evaluate / destroy operations on geometry, ansatz space and evaluator objects, times form types",
"Tests only construct once and evaluate directly.",
["AnsatzSpace/FunctionEvaluator.hpp","AnsatzSpace/FunctionEvaluatorEval.hpp","AnsatzSpace/AnsatzSpace.hpp","AnsatzSpace/SuperSpace.hpp","Geometry/Geometry.hpp"],
[("copy/assign operations sharing mesh ownership","AnsatzSpace/SuperSpace.hpp"),("evaluateOnPatch via reordering","AnsatzSpace/FunctionEvaluator.hpp")],["FunctionEvaluator"])
p("A05","Surface L2 errors and projections are exact, surface PDE solutions converge",
"The L2 error of any represented function to any given function equals the surface norm of their difference up to the error of the chosen quadrature rule, for every space, degree, level and geometry. Coefficients obtained from mass matrix and right-hand side are the best approximation of the function (polynomials in the space are reproduced, errors are orthogonal to the space), and approximations and Laplace-Beltrami solutions converge with the order the degree promises.",
["inputs","configurations"],"all spaces, degrees, levels, knot repetitions and geometries up to a bound times coefficient vectors, functions and quadrature degrees",
"Tests check one solution on the sphere at one degree and level.",
["util/surfaceL2error.hpp","AnsatzSpace/FunctionEvaluator.hpp","Identity","LaplaceBeltrami","LinearOperator/DiscreteLocalOperator.hpp","LinearForm/DiscreteLinearForm.hpp"],
[("quadrature of the squared difference","util/surfaceL2error.hpp"),("Gram matrices","LinearOperator/DiscreteLocalOperator.hpp")],["surfaceL2error, DiscreteLocalOperator::compute"])
p("D01","Relative position of every element pair is classified correctly",
"For every pair of mesh elements the classification used to choose the integration scheme reports identical, common-edge, common-vertex, near or far positions correctly. The reported parameter rotations align the shared edge or vertex of both elements, in either argument order.",
["configurations","inputs"],"all ordered element pairs of all meshes from the bounded topology family (every relative rotation of neighbouring elements)",
"Tests check few hand-picked pairs; rare rotations occur only for particular patch orientations.",
["DuffyTrick/compareElements.hpp","DuffyTrick/tau.hpp"],
[("compareElements","DuffyTrick/compareElements.hpp")],["DuffyTrick::compareElements"])
p("D02","Galerkin integrals are computed correctly for every relative element position",
"For every pair of elements the computed local matrix equals the double integral of the kernel against all pairs of local basis functions, to quadrature accuracy, for identical, edge-adjacent, vertex-adjacent, near and far elements in every relative rotation. For kernels that are polynomial on the reference elements the integral is exact, and exchanging the two elements transposes the result for symmetric kernels.",
["configurations","inputs"],"all ordered element pairs in all relative rotations times degrees times polynomial kernels up to a degree, and singular kernels against a reference",
"Tests integrate few configurations and mostly constants.",
["DuffyTrick/evaluateBilinearForm.hpp","DuffyTrick/integrate0.hpp","DuffyTrick/integrate1.hpp","DuffyTrick/integrate2.hpp","DuffyTrick/integrate3.hpp","DuffyTrick/integrate4.hpp","DuffyTrick/tau.hpp","DuffyTrick/farFieldQuadratureNodes.hpp"],
[("Duffy transformations","DuffyTrick/integrate2.hpp")],["DiscreteOperator::compute, DuffyTrick::evaluateBilinearForm"])
p("H01","Block cluster trees partition the matrix and keep doing so through copies",
"For every admissibility parameter and mesh the leaves of the block cluster tree cover every pair of elements exactly once, every low-rank leaf satisfies the admissibility condition and no dense leaf larger than the minimal size does, and leaf ranges agree with the elements they contain. Copies, assignments, moves and re-initialisations in any order yield independent trees with the same partition and contents.",
["histories","configurations"],"all parameter settings on a grid times small meshes times all sequences of copy / assign / move / reinitialise / change operations up to a depth",
"Tests build the tree once with default parameters and never copy, move or reconfigure it.",
["H2Matrix/BlockClusterTree.hpp","H2Matrix/TreeLeaf.hpp","util/GenericMatrix.hpp"],
[("compareCluster / appendSubtree / updateLeafPointers","H2Matrix/BlockClusterTree.hpp")],["BlockClusterTree"])
p("H02","Compressed operators approximate the dense operators in every configuration",
"For every operator offering compression, every geometry, degree and refinement level, the compressed operator acts like the dense Galerkin matrix up to the interpolation error, which decreases as the number of interpolation points grows. Meshes too coarse to be compressed reproduce the dense matrix to rounding.",
["configurations","inputs"],"all operators times small geometries times degree times level times interpolation orders, on every unit vector",
"Tests compare convergence rates for single operators and geometries; an error in one block or component can hide below the discretisation error.",
["H2Matrix/H2Matrix.hpp","H2Matrix/H2Multipole.hpp","H2Matrix/EigenHelper/H2DenseProduct.hpp"],
[("kernel interpolation on admissible leaves","H2Matrix/H2Multipole.hpp"),("forward/backward transformation","H2Matrix/H2Multipole.hpp")],["H2Matrix operator*, DiscreteOperator<H2Matrix>"])
p("H03","Lazy linear algebra with compressed operators obeys matrix algebra",
"Any expression built from compressed, dense and sparse operators by addition, subtraction and grouping, applied to any vector, block of vectors or vector expression, optionally scaled and assigned, added to or subtracted from a target, equals the same expression evaluated with dense matrices. Operands are left unchanged.",
["programs","inputs"],"all expression shapes up to a depth over the operand kinds, real and complex, times all ways of applying and assigning them",
"Tests check one fixed sum.",
["H2Matrix/EigenHelper/H2CwiseBinaryOp.hpp","H2Matrix/EigenHelper/H2DenseProduct.hpp","H2Matrix/H2MatrixBase.hpp","H2Matrix/H2Matrix.hpp"],
[("product dispatch for lazy sums","H2Matrix/EigenHelper/H2DenseProduct.hpp")],["Eigen expressions of H2Matrix"])
p("H04","Multilevel interpolation transforms are exact on interpolated functions",
"Interpolation points, transfer matrices and moments used for compression are consistent: restricting and prolonging between levels equals direct interpolation, moments equal the integrals of the basis against the interpolation polynomials, and the forward and backward transforms are transposes of each other. This holds for every number of interpolation points, number of levels and cluster size within the bounds.",
["configurations","inputs"],"all numbers of points times levels times cluster refinements times unit inputs within the bounds, scalar, vector-valued and derivative moments",
"Tests check one or two fixed sizes.",
["H2Matrix/H2Multipole.hpp"],
[("computeTransferMatrices, Moment1D/2D, forward/backwardTransformation","H2Matrix/H2Multipole.hpp")],["H2Multipole:: functions"])
p("H05","Iterative solvers on compressed operators solve the current system",
"Every matrix-free iterative solver that accepts compressed operators or lazy sums with them returns, whenever it reports success, a vector whose residual with the current operator is below the set tolerance, and succeeds whenever its iteration limit allows. This holds after any sequence of setting up, solving single, multiple and zero right-hand sides with or without initial guesses, switching operators and assembling operators anew.",
["histories","inputs"],"all sequences of solver operations up to a depth, several solvers, operators and expression types",
"Tests solve one system once.",
["H2Matrix/H2Matrix.hpp","H2Matrix/H2MatrixBase.hpp","H2Matrix/EigenHelper"],
[("matrix-vector product and expression traits","H2Matrix/EigenHelper")],["Eigen iterative solvers on H2Matrix"])
p("O01","Boundary operators satisfy their structural identities",
"Single layer and hypersingular matrices are symmetric (complex symmetric for Helmholtz and Maxwell), the Laplace ones positive (semi-)definite with the constants in the hypersingular kernel, adjoint double layers are transposes of double layers, and double layers of constants on closed surfaces give minus one half times the mass. Helmholtz operators converge to the Laplace ones as the wavenumber vanishes, and changing the wavenumber takes effect on the next assembly.",
["configurations","inputs","histories"],"all operators times small closed geometries (all patch rotations from the family) times degree times level times wavenumbers including complex ones",
"Tests measure convergence rates of solutions for one geometry and wavenumber; most operators have no identity checks at all.",
["Laplace/SingleLayerOperator.hpp","Laplace/DoubleLayerOperator.hpp","Laplace/AdjointDoubleLayerOperator.hpp","Laplace/HypersingularOperator.hpp","Helmholtz/SingleLayerOperator.hpp","Helmholtz/DoubleLayerOperator.hpp","Helmholtz/AdjointDoubleLayerOperator.hpp","Helmholtz/HypersingularOperator.hpp","Maxwell/SingleLayerOperator.hpp"],
[("evaluateIntegrand_impl","Laplace/DoubleLayerOperator.hpp")],["DiscreteOperator<MatrixXd|MatrixXcd,...>"])
p("O02","Near-field and far-field kernels of an operator describe the same integral",
"For every operator, the kernel tensor used for compression combined with the corresponding moments represents exactly the same bilinear form as the kernel used for direct integration, for all pairs of separated surface points, components and wavenumbers.",
["inputs","configurations"],"all operators times a grid of surface point pairs times basis components times wavenumbers",
"Tests see only the solution error of whole problems where far-field inconsistencies of a component are diluted.",
["Laplace/HypersingularOperator.hpp","Helmholtz/HypersingularOperator.hpp","Maxwell/SingleLayerOperator.hpp","Laplace/SingleLayerOperator.hpp","Laplace/DoubleLayerOperator.hpp","Helmholtz/DoubleLayerOperator.hpp","H2Matrix/H2Multipole.hpp"],
[("evaluateFMMInterpolation_impl vs evaluateIntegrand_impl","Maxwell/SingleLayerOperator.hpp")],["LinearOperatorBase::evaluateIntegrand / evaluateFMMInterpolation"])
p("O03","Potentials equal their surface integrals and their fields are consistent",
"Every potential evaluated away from the surface equals the surface integral of its kernel against the represented density for every density and point, is linear in the density and the point order, and satisfies its differential equation and derivative relations (gradients are derivatives of the potential, Green's identities and wavenumber limits hold). Setting new densities, degrees or wavenumbers takes effect on the next evaluation.",
["inputs","configurations","histories"],"all potentials times densities from a basis times point grids times wavenumbers times short operation histories",
"Tests check convergence of solutions to one manufactured field for a subset of the potentials.",
["Potential/DiscretePotential.hpp","Laplace/SingleLayerPotential.hpp","Laplace/DoubleLayerPotential.hpp","Laplace/SingleLayerPotentialGradient.hpp","Helmholtz/SingleLayerPotential.hpp","Helmholtz/DoubleLayerPotential.hpp","Maxwell/SingleLayerPotential.hpp","AnsatzSpace/FunctionEvaluatorEval.hpp"],
[("evaluateIntegrand_impl of each potential","Potential/DiscretePotential.hpp")],["DiscretePotential::evaluate"])
p("O04","Right-hand sides are the moments of the given data against all test functions",
"For every trace, the assembled right-hand side entry of each basis function equals the integral of the prescribed trace of the given function against it, for every function, geometry, degree, level and quadrature setting. Setting a new function takes effect on the next assembly.",
["inputs","configurations","histories"],"all trace types times monomial data times topologies times degree times level, all basis functions",
"Tests check only scalar Dirichlet data through solution errors and one tangential trace.",
["LinearForm/DiscreteLinearForm.hpp","LinearForm/DirichletTrace.hpp","LinearForm/NeumannTrace.hpp","LinearForm/TangentialTrace.hpp","LinearForm/RotatedTangentialTrace.hpp","LinearForm/LinearForm.hpp"],
[("element-wise quadrature and projection","LinearForm/DiscreteLinearForm.hpp")],["DiscreteLinearForm::compute / get_discrete_linear_form"])
p("O05","Local operators equal the Gram and stiffness matrices of the basis",
"Mass matrices equal the surface inner products of all pairs of basis functions and the Laplace-Beltrami matrix equals the inner products of their surface gradients, for every degree, level and geometry. Hence they are symmetric, positive (semi-)definite, reproduce the surface area and annihilate constants.",
["inputs","configurations"],"all local operators times topologies times degree times level, all basis pairs",
"Tests check a single solution rate.",
["LinearOperator/DiscreteLocalOperator.hpp","LinearOperator/LocalOperatorBase.hpp","Identity/IdentityOperatorBase.hpp","Identity/MassMatrixScalarCont.hpp","Identity/MassMatrixScalarDisc.hpp","LaplaceBeltrami/LaplaceBeltramiOperatorBase.hpp"],
[("element-local quadrature into a sparse matrix","LinearOperator/DiscreteLocalOperator.hpp")],["DiscreteLocalOperator::compute"])
p("O06","Homogenised kernels are periodic and their spherical harmonics are exact",
"Solid and spherical harmonic evaluations and their derivatives satisfy their defining identities (recurrences, harmonicity, homogeneity, addition theorem, all routes agree) for every degree up to the bound and every direction including the axes. The homogenised Laplace kernel matches across opposite faces of the unit cell to the requested precision, and the precision can be chosen and changed between uses.",
["inputs","configurations","histories"],"all degrees and orders times a grid of directions including poles and axes, all offered precisions and face point pairs",
"Tests compare a few coefficients with stored numbers.",
["HomogenisedLaplace/Coefficients.hpp","HomogenisedLaplace/SingleLayerOperator.hpp","HomogenisedLaplace/SingleLayerPotential.hpp","util/Sphericals.hpp"],
[("recurrence evaluation of harmonics","util/Sphericals.hpp"),("coefficient computation by periodicity","HomogenisedLaplace/Coefficients.hpp")],["evaluate_sphericals, spherical_harmonics_full, getCoefficients"])
p("O07","Solved boundary integral equations converge to the true fields at full order",
"For every supported boundary integral equation, side, surface parametrisation, polynomial degree, mesh level, wavenumber and matrix format (dense or compressed), solving the assembled system with the assembled right-hand side and evaluating the matching potential reproduces the known solution of the boundary value problem, with an error that decreases with the mesh level at the rate the polynomial degree promises. The sign, the identity term and the orientation conventions of operators, traces and potentials agree with each other.",
["inputs","configurations"],"all equations times solutions from a family times degrees, levels, wavenumbers, surfaces and matrix formats up to a bound",
"Tests check a few equations on one geometry with one solution and a loose bound; conventions and rates of the others are not tested.",
["Laplace","Helmholtz","Maxwell","LinearOperator/DiscreteOperator.hpp","LinearForm/DiscreteLinearForm.hpp","Potential/DiscretePotential.hpp","H2Matrix/H2Matrix.hpp","DuffyTrick/evaluateBilinearForm.hpp"],
[("operator, trace and potential conventions","LinearOperator/DiscreteOperator.hpp"),("matrix format independence","H2Matrix/H2Matrix.hpp")],["DiscreteOperator::compute, DiscreteLinearForm::compute, DiscretePotential::evaluate"])
p("I01","Matrices and vectors survive export and binary round trips",
"Writing a dense or sparse, real or complex matrix to a file and reading it back with the documented format reproduces shape and entries (exactly for the binary format, to the printed precision for text), for any sequence of writes and appends to any number of files. Entries of sparse matrices appear exactly once with their indices.",
["histories","inputs"],"all small shapes times entry alphabets times all sequences of write/append/read operations up to a depth",
"No test reads an exported matrix back.",
["IO/print2file.hpp"],
[("print2ascii, print2m, print2bin, bin2Mat","IO/print2file.hpp")],["files written"])
p("I02","Loggers write every logged row to every selected sink",
"Every logged row appears exactly once, in order and complete, in each selected sink (terminal, file or both). A log file opened for appending keeps its previous content and one opened for writing starts empty, in any sequence of logger operations.",
["histories","configurations"],"all sequences of construct / log / switch operations up to a depth, all sinks, modes, column counts and value types",
"The logger has no tests.",
["IO/Logger.hpp"],[("file/term/both","IO/Logger.hpp")],["files and terminal output"])
p("I03","Stopwatches account for every lap and can be restarted",
"In any sequence of start, lap and stop operations the recorded laps are non-negative, in order, and sum to the total measured time, and a stopped watch can be started again for a fresh measurement. Repeated measurements do not inherit laps of earlier ones.",
["histories"],"all valid operation sequences up to a depth under a controlled clock",
"The stopwatch has no tests and only works with real time.",
["IO/Stopwatch.hpp"],[("start/lap/stop","IO/Stopwatch.hpp")],["returned durations"])
p("I04","Visualisation files describe exactly the mesh, points and data given",
"Every exported visualisation file is well formed, contains each mesh element, vertex, grid point and data set exactly once in consistent order with matching counts, and each data value equals the given function at the corresponding location. This holds for any sequence of adding, clearing and writing data sets.",
["histories","configurations"],"all sequences of add / clear / write operations up to a depth, all data set kinds, several geometries and levels, grid shapes",
"Exports are only produced by examples that are not checked.",
["IO/VTKSurfaceExport.hpp","IO/VTKDomainExport.hpp","IO/VTKPointExport.hpp"],
[("addDataSet / clearData / writeToFile","IO/VTKSurfaceExport.hpp")],["files written"])
p("U01","The headers form one library",
"Every module header can be included on its own and in any order with the others, under every language standard from C++11 on, and any number of translation units of one program can include them. Such a program behaves like one of a single translation unit: every use of the library gives the same results from every unit and in every order, objects with static storage duration can be used in both, and the only state that belongs to the program, the precision of the homogenised Laplace operator, is shared by all units.",
["configurations","histories"],"all sequences of modules up to a length and all rotations of the complete list; all histories of uses from two translation units up to a length",
"Every test is a program of one translation unit that includes a few modules in one order.",
["util/Sphericals.hpp","Geometry/GeometryIGS.hpp","HomogenisedLaplace/SingleLayerOperator.hpp","DuffyTrick/compareElements.hpp"],
[("header-only library: definitions must be inline, templates or members","Geometry/GeometryIGS.hpp"),("static precision","HomogenisedLaplace/SingleLayerOperator.hpp")],["compiler and linker, results of all modules"])
for x in P:
    assert len(x['title'])<=80,x['id']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
