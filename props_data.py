# P(id, title, statement, over, quantifier text, why tests can't, files, mechanism, level_note)
P("C01", "Dense vector and matrix arithmetic equals the textbook result",
"""For every shape and every element value, adding, subtracting, scaling, multiplying, transposing, slicing and taking products, norms and angles of the dense vectors and matrices (dynamic and fixed size) gives the mathematically defined result up to rounding, and exactly when all intermediate values are exactly representable.
Compound assignment gives the same result as the plain operator, also when an operand aliases an element or the whole of the target.
Operands that are not assigned to keep their values, and views write through to exactly the sub-block they name.""",
[I, H], "all shapes 0..N, all element values and types, all sequences of compound operations including self-aliasing",
"The tests sample a few 2x2/3x3 literals per operator; shape- and alias-dependent index mistakes pass them.",
["mml/base/Vector/Vector.h", "mml/base/Vector/VectorN.h", "mml/base/Matrix/Matrix.h", "mml/base/Matrix/MatrixNM.h", "mml/base/BaseUtils/MatrixOps.h", "mml/base/BaseUtils/VectorOps.h", "mml/base/BaseUtils/MixedTypeOps.h"],
[("element-wise operators and products", "mml/base/Matrix/Matrix.h"), ("views", "mml/base/Matrix/Matrix.h MatrixViewNew")],
"Exact (integer-valued) reference model compared after every operation of random operation histories; sampling, not proof.")

P("C02", "Dense containers reject bad shapes and indices and stay intact",
"""Every checked operation on the dense vectors and matrices that is given mismatched dimensions, an out-of-range index or an impossible size throws the documented dimension, index or initialization exception, and never reads or writes outside the storage.
When such an operation throws, its operands keep the values they had.
Reshaping, resizing and row/column/element removal and insertion keep precisely the elements that the new shape retains.""",
[I, H], "all shapes and index combinations including off-by-one, negative and huge ones",
"Tests try one or two bad shapes per operation; memory errors are invisible without instrumentation.",
["mml/base/Vector/Vector.h", "mml/base/Vector/VectorN.h", "mml/base/Matrix/Matrix.h", "mml/base/Matrix/MatrixNM.h"],
[("dimension validation before mutation", "mml/base/Matrix/Matrix.h"), ("at()/ElemAt range checks", "mml/base/Vector/Vector.h")],
"Every call runs under ASan+UBSan with libstdc++ assertions; exceptions are compared with the documented type.")

P("C03", "Structured matrices agree with their dense equivalents",
"""A symmetric, tridiagonal, band-diagonal or three-index matrix represents one well-defined dense array: element reads, writes, sums, products, transposes, norms, traces and conversions agree with the same operation on that dense array.
Reads outside the stored band give zero and writes there are rejected, without touching other elements.
Mismatched shapes and invalid indices are rejected with the documented exceptions.""",
[I, H], "all dimensions, band widths and element values, and all operation sequences on them",
"Tests use a single hand-written matrix per type; packed-index mistakes show only for particular dimension/band combinations.",
["mml/base/Matrix/MatrixSym.h", "mml/base/Matrix/MatrixTriDiag.h", "mml/base/Matrix/MatrixBandDiag.h", "mml/base/Matrix/Matrix3D.h"],
[("packed storage index maps", "mml/base/Matrix/MatrixSym.h")], "Dense shadow model compared element by element after every operation.")

P("C04", "Direct linear solvers solve the system or report that it is singular",
"""For every right-hand side and every well-conditioned matrix in its domain, each direct solver (elimination, LU, QR, Cholesky, SVD, band and tridiagonal) returns a solution with a residual of rounding size, and its inverse, determinant and factor accessors agree with the matrix.
An exactly singular (or, for Cholesky, not positive definite) matrix and mismatched shapes are reported by the documented exception instead of a wrong answer.
Solver objects are reusable for any number of right-hand sides and never modify their inputs unless documented.""",
[I, H], "all matrices in the solver's domain (real and complex), row/column scalings, pivot patterns and right-hand sides",
"Tests check a handful of fixed systems; pivoting, permutation and least-squares paths depend on data.",
["mml/core/LinAlgEqSolvers/LinAlgDirect.h", "mml/core/LinAlgEqSolvers/LinAlgQR.h", "mml/core/LinAlgEqSolvers/LinAlgSVD.h", "mml/base/Matrix/MatrixTriDiag.h", "mml/base/Matrix/MatrixBandDiag.h"],
[("pivoting and singularity thresholds", "mml/core/LinAlgEqSolvers/LinAlgDirect.h")], "Residual oracle in extended precision on matrices of known conditioning; singular cases are exactly singular in floating point.")

P("C05", "Iterative linear solvers never claim convergence they did not reach",
"""When an iterative linear solver reports convergence, the true residual of the returned vector satisfies the requested tolerance; when it runs out of iterations it says so and reports the best iterate it has.
On strictly diagonally dominant and symmetric positive definite systems within the method's convergence theory it does converge.
Zero diagonals, mismatched shapes and bad parameters are reported as documented.""",
[I, C], "all systems, starting vectors, tolerances, relaxation factors and iteration limits",
"Tests look at systems that converge; honesty of the status matters exactly on those that do not.",
["mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h"], [("convergence test", "mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h")], "Residual recomputed independently for every returned result.")

P("C06", "Matrix analysis (rank, inverse, subspaces, definiteness) is consistent",
"""Rank, determinant, trace, inverse, pseudo-inverse, null and column spaces, condition number, norms and predicate queries (symmetric, orthogonal, definite, ...) computed for a matrix satisfy their defining identities with respect to that matrix.
Matrix functions and decompositions reproduce the input matrix when recombined.
Inputs outside the domain are rejected as documented.""",
[I], "all matrices of known rank, spectrum and structure",
"Tests use a few literals; identities must hold for every matrix.",
["mml/core/MatrixUtils.h", "mml/algorithms/MatrixAlg.h", "mml/core/LinAlgEqSolvers/LinAlgSVD.h"], [("decompositions", "mml/core/MatrixUtils.h")], "Defining identities evaluated on matrices constructed with known rank and spectrum.")

P("C07", "Eigen-solvers return genuine eigenpairs",
"""For every symmetric matrix the solvers return all eigenvalues, real, with orthonormal eigenvectors that reproduce the matrix; for every general real matrix the returned (real or complex conjugate) eigenvalues match trace, determinant and characteristic equation and the eigenvectors satisfy the eigen-equation.
A solver that did not converge says so, and non-square or non-symmetric inputs are handled as documented.""",
[I], "all square matrices incl. repeated, clustered, zero, defective and complex spectra, widely scaled entries",
"Tests use a few matrices with separated spectra.",
["mml/algorithms/EigenSystemSolvers.h", "mml/algorithms/EigenSolverHelpers.h"], [("QR iterations and deflation", "mml/algorithms/EigenSolverHelpers.h")], "Residual, orthogonality and trace oracles on matrices with constructed spectra.")

P("C08", "Polynomial algebra obeys the ring and division laws",
"""Sums, products, scalings, derivatives, integrals, Taylor expansions and evaluations of polynomials (power basis, and Chebyshev expansions) equal those of the coefficient-wise definition, a polynomial built through given points passes through them, and division returns quotient and remainder with dividend = quotient*divisor + remainder and remainder degree below the divisor's.
Degree and leading-term queries stay right when leading coefficients cancel, and illegal operations throw.""",
[I, H], "all degrees and coefficients (real, complex, integer), including zero polynomials and cancelling leading terms",
"Tests use a few literal polynomials.",
["mml/base/Polynom.h", "mml/base/ChebyshevPolynom.h"], [("coefficient arithmetic", "mml/base/Polynom.h")], "Exact integer coefficient reference and Horner evaluation oracle.")

P("C09", "Scalar root finders return true roots or report failure",
"""Whenever a scalar root finder reports success, the returned point lies in the documented bracket and the function really is zero there to the requested tolerance (a sign change or small value), and bracketing searches return only intervals with a sign change.
Invalid brackets, tolerances and limits and failure to converge are reported by the documented exception or status, and every call ends after a bounded number of evaluations.""",
[I, C], "all functions with a sign change (flat, steep, multiple, near-edge roots), brackets in either order, tolerances and iteration limits",
"Tests run well-behaved functions; wrong bracket updates only show for particular sign patterns.",
["mml/algorithms/RootFinding/RootFindingMethods.h", "mml/algorithms/RootFinding/RootFindingBracketing.h"], [("bracket maintenance", "mml/algorithms/RootFinding/RootFindingMethods.h")], "Function evaluations are recorded; sign change and residual are recomputed around the returned point.")

P("C10", "Polynomial root solvers return exactly the roots of the polynomial",
"""For every polynomial of degree n with non-zero leading coefficient, the closed-form and iterative solvers return n roots (with multiplicity) whose product of linear factors reproduces the polynomial, real roots being reported as real and complex ones in conjugate pairs for real coefficients.
Degenerate leading coefficients are handled as documented and non-convergence is reported.""",
[I], "all coefficients, incl. multiple, tiny, huge, and purely imaginary roots and discriminants of either sign or zero",
"Each branch of the closed formulas is taken only for particular coefficient patterns.",
["mml/algorithms/RootFinding/RootFindingPolynoms.h"], [("closed forms and Laguerre/Bairstow/companion iterations", "mml/algorithms/RootFinding/RootFindingPolynoms.h")], "Backward-error oracle: the returned roots are multiplied out in extended precision.")

P("C11", "Interpolants pass through their data and reproduce their model class",
"""Every interpolant returns the tabulated value at each node, reproduces functions of its model class exactly (linear, polynomial of the chosen degree, cubic with the chosen boundary condition, rational), is continuous as documented and evaluates consistently whatever the order of evaluation points.
Derivatives and integrals offered by an interpolant are those of the interpolant itself, and bad tables (too few or repeated nodes, mismatched sizes) and forbidden extrapolation are rejected as documented.""",
[I, H], "all tables (ascending or descending, uneven spacing), all evaluation orders (cached search state), boundary options",
"Cached search positions make the answer depend on the evaluation history; tests evaluate a few points in order.",
["mml/base/InterpolatedFunctions", "mml/base/InterpolatedFunction.h"], [("hunt/locate search with cached index", "mml/base/InterpolatedFunctions/InterpolatedRealFunction.h")], "Node, model-class and history-independence oracles; brute-force interval search as reference.")

P("C12", "Numerical and automatic differentiation agree with the analytic derivative",
"""For smooth functions every differentiation routine (all orders and stencils, one-sided variants, partial, gradient, Jacobian, Hessian, curve, surface and tensor-field versions) approximates the analytic derivative within the accuracy of its stencil, evaluating the function only within the reach of that stencil and, for one-sided variants (first-order accurate), only on the promised side; the optional error estimate equals the leading truncation term up to higher order and rounding, and non-finite or zero steps are rejected.
Automatic differentiation gives the derivative to rounding accuracy for every elementary operation and composition, and gives component i,j in the documented place.""",
[I], "all smooth functions, evaluation points, component indices, step sizes and stencil orders",
"Tests check a few function/point pairs with loose tolerances; index swaps vanish on symmetric examples.",
["mml/core/Derivation", "mml/core/Derivation.h", "mml/core/RichardsonExtrapolation.h"], [("finite-difference stencils", "mml/core/Derivation/DerivationRealFunction.h"), ("dual numbers", "mml/core/Derivation/ForwardAD.h")], "Analytic references and exactness on polynomials of the stencil's degree, with recorded evaluation points.")

P("C13", "One-dimensional integrators reach the requested accuracy or say they did not",
"""Every one-dimensional integration routine that reports success on an integrand its initial refinement resolves returns the true integral within its requested tolerance (or the accuracy its fixed rule guarantees), using only points inside the interval and staying within its step limit; Gauss and Gauss-Kronrod rules have distinct interior nodes and positive weights and are exact for exactly the polynomials their order covers.
Reversing the limits flips the sign, splitting the interval is additive, improper and inverse-square-root singular integrals converge to their value, and a step limit, a non-finite integrand or an exception is reported with an honest error estimate rather than hidden.""",
[I, C], "all smooth, oscillating, peaked, improper and singular integrands, limits, orders and tolerances",
"Tests sample fixed integrands and limits.",
["mml/core/Integration/Integration1D.h", "mml/core/Integration/GaussKronrod.h", "mml/core/Integration/GaussianQuadrature.h", "mml/core/Integration/IntegrationImproper.h", "mml/core/SingularityHandling.h"], [("refinement and error estimate", "mml/core/Integration/Integration1D.h")], "Exact integrals from closed forms; polynomial exactness; evaluation points are recorded.")

P("C14", "Multi-dimensional, path and surface integrals equal the iterated integral",
"""Area, volume, path, work, flux, surface and Monte Carlo integrals approximate the mathematically defined value within the rule's accuracy or the reported error bars, with variable inner limits honoured, integrands evaluated only inside the region and orientation reversal flipping the sign.
Bad regions and parameters are rejected as documented.""",
[I], "all integrands, regions with variable limits, curves, surfaces, rules and seeds",
"Tests use simple symmetric integrands on boxes.",
["mml/core/Integration/Integration2D.h", "mml/core/Integration/Integration3D.h", "mml/core/Integration/Integration2DAdaptive.h", "mml/core/Integration/Integration3DAdaptive.h", "mml/core/Integration/PathIntegration.h", "mml/core/Integration/SurfaceIntegration.h", "mml/core/Integration/MonteCarloIntegration.h"], [("nested quadrature", "mml/core/Integration/Integration2D.h")], "Closed-form integrals of random polynomials over random regions; evaluation points recorded.")

P("C15", "Fixed-step ODE solvers and steppers have their order of accuracy",
"""Each fixed-step method integrates polynomial right-hand sides within its order exactly and converges at its nominal order on smooth systems (embedded error estimates at theirs), evaluates only inside the step, leaves the inputs untouched, and returns solutions with exactly the requested number of equally spaced points whose first is the initial condition.
Velocity-Verlet and leapfrog are time-reversible and keep the harmonic modified energy and angular momentum; the solution container grows on demand and rejects bad indices, and a state of the wrong dimension is rejected.""",
[I, C], "all systems, dimensions, initial states, intervals and step counts",
"Tests compare one trajectory with a loose tolerance; a wrong coefficient only lowers the order.",
["mml/algorithms/ODESolvers/ODEStepCalculators.h", "mml/algorithms/ODESolvers/ODESolverFixedStep.h", "mml/algorithms/ODESolvers/ODERKCoefficients.h", "mml/base/ODESystem.h", "mml/base/ODESystemSolution.h"], [("Runge-Kutta tableaux", "mml/algorithms/ODESolvers/ODERKCoefficients.h")], "Exact solutions, order measurement by step halving, history monitors on the recorded trajectory.")

P("C16", "Adaptive ODE solvers keep the error near tolerance and the time axis honest",
"""Adaptive integrators deliver solutions whose global error is bounded by a modest multiple of the requested tolerance on non-stiff problems, with accepted times strictly monotone from start to end, never evaluating far outside the interval, and dense or saved output consistent with the trajectory.
Statistics equal the work observed at the right-hand side, and step-size underflow, step limits and bad arguments are reported.""",
[I, C, H], "all non-stiff systems, tolerances, intervals, initial step guesses, save spacings",
"Tests fix the system and tolerance; step rejection and clamping paths depend on both.",
["mml/algorithms/ODESolvers/ODESolverAdaptive.h", "mml/algorithms/ODESolvers/ODESteppers.h", "mml/base/ODESystemSolution.h"], [("step-size control", "mml/algorithms/ODESolvers/ODESolverAdaptive.h")], "Recorded right-hand-side calls and accepted steps are checked against closed-form solutions.")

P("C17", "Stiff solvers are stable and event detection finds exactly the crossings",
"""Implicit solvers stay bounded and accurate on stiff decaying systems at step sizes far above the explicit stability limit.
Event detection reports each zero crossing of the event function in the requested direction once, in time order, with the event function numerically zero at the reported state, and honours stop and restart actions.""",
[I, H], "all stiff linear systems, step sizes, event functions, directions and actions",
"Tests contain single-event examples.",
["mml/algorithms/ODESolvers/ODESolverStiff.h", "mml/algorithms/ODESolvers/ODESolverEventDetection.h", "mml/interfaces/IODESystemWithEvents.h"], [("Newton iteration", "mml/algorithms/ODESolvers/ODESolverStiff.h"), ("event bisection", "mml/algorithms/ODESolvers/ODESolverEventDetection.h")], "Closed-form solutions and event times; the event list is checked as a history.")

P("C18", "DAE solvers keep the algebraic constraints satisfied",
"""At every accepted point of a solved differential-algebraic system the algebraic constraint holds to solver tolerance and the differential part converges to the exact solution at the method's order.
Inconsistent initial values, bad arguments and non-convergence are reported.""",
[I], "all index-1 semi-explicit systems, step sizes, tolerances",
"Tests use a few fixed systems.",
["mml/algorithms/DAESolvers", "mml/base/DAESystem.h"], [("Newton solve of the coupled system", "mml/algorithms/DAESolvers")], "Constraint residual recomputed at every stored point; closed-form solutions.")

P("C19", "Boundary-value shooting returns trajectories that meet both boundaries",
"""When a shooting solver reports success the returned trajectory satisfies the boundary conditions at both ends and the differential equation in between to the requested accuracy.
Unsolvable or badly specified problems are reported as failures.""",
[I], "all linear and mildly nonlinear two-point problems, targets and starting guesses",
"Tests use two or three problems.",
["mml/algorithms/ODESolvers/BVPShootingMethod.h"], [("shooting iteration", "mml/algorithms/ODESolvers/BVPShootingMethod.h")], "Boundary residuals and closed-form solutions.")

P("C20", "Minimizers return genuine local minima and honest status",
"""A minimizer that reports convergence returns a point whose value equals the objective there, is no worse than its start, and is a local minimum to the requested tolerance (inside the bracket for one-dimensional methods); maximizers mirror this.
Brackets returned by bracketing routines really contain a minimum, limits on iterations and evaluations are respected and reported, and bad inputs are rejected.""",
[I, C], "all smooth unimodal and convex objectives, dimensions, starting points, tolerances, limits and seeds",
"Tests use Rosenbrock and a few parabolas.",
["mml/algorithms/Optimization.h", "mml/algorithms/OptimizationMultidim.h"], [("line search and bracket updates", "mml/algorithms/Optimization.h")], "Recorded objective calls; convex objectives with known minimizers.")

P("C21", "Probability distributions are internally consistent",
"""For every distribution and parameter set, the cumulative function is monotone from 0 to 1, its slope is the density (or its jumps the mass function), the quantile function inverts it, moments match, and tails and symmetry relations hold.
Invalid parameters and arguments are rejected.""",
[I], "all parameters and arguments including extreme tails",
"Tests compare a few tabulated values.",
["mml/algorithms/Statistics/Distributions.h", "mml/base/StandardFunctions.h"], [("special-function series and continued fractions", "mml/algorithms/Statistics/Distributions.h")], "Cross-consistency (integrals, inverses) and independent long double references.")

P("C22", "Descriptive statistics and hypothesis tests match their definitions",
"""Means, variances, medians, percentiles, modes, correlations, ranks, confidence intervals and test statistics equal their defining formulas for every sample, are invariant or equivariant under permutation, shift and scale as theory demands, and p-values stay in [0,1] and agree with the statistic and its reference distribution.
Samples too small or mismatched for a statistic are rejected as documented.""",
[I], "all samples incl. ties, outliers, large offsets, even and odd sizes",
"Tests use small literal samples.",
["mml/algorithms/Statistics.h", "mml/algorithms/Statistics"], [("formulas", "mml/algorithms/Statistics.h")], "Brute-force long double references and metamorphic relations.")

P("C23", "Fourier and cosine transforms match the defining sum and invert",
"""Every forward transform equals the defining sum for every admissible length, the inverse restores the input, energy is conserved, linear, shift and circular-convolution laws hold, and window functions equal their formulas.
Inadmissible lengths and bad parameters are rejected.""",
[I], "all lengths and signals, real and complex",
"Tests use a few sine waves of one length.",
["mml/algorithms/Fourier.h", "mml/algorithms/FourierRealFFT.h", "mml/algorithms/FourierWindowing.h"], [("butterflies and packing", "mml/algorithms/Fourier.h")], "O(n^2) long double reference sums.")

P("C24", "Graph algorithms return correct answers on every graph",
"""Traversals visit exactly the reachable vertices, shortest paths, minimum spanning trees, topological orders, components, negative cycles, centralities and spectral quantities equal those of a brute-force reference on the same graph, and reported paths are real paths of the reported cost.
Graph editing keeps vertex, edge and adjacency queries consistent, and invalid vertices, negative weights or cycles are reported as documented.""",
[I, H], "all small weighted and unweighted, directed and undirected graphs incl. disconnected ones, self loops and parallel edges",
"Tests use a few hand-drawn graphs.",
["mml/base/Graph.h", "mml/algorithms/GraphAlgorithms.h", "mml/algorithms/GraphSpectral.h"], [("priority-queue and union-find algorithms", "mml/algorithms/GraphAlgorithms.h")], "Brute-force oracles (Floyd-Warshall, exhaustive enumeration) on random small graphs.")

P("C25", "Computational-geometry results satisfy their defining predicates",
"""Planar hulls are exactly the minimal CCW convex polygon of the input, 3D hulls closed outward surfaces containing every point with correct face neighbours, volume and membership; triangulations partition the polygon or hull, Delaunay triangles are CCW with empty circumcircles and consistent neighbours, point location and interpolation agree with them, and Voronoi cells are CCW nearest-site regions, unbounded exactly on the hull, that tile any clipping box.
Segment, line and ray-triangle intersections, polygon orientation, convexity, simplicity, containment, centroid and convex clipping, minimum enclosing circles and closest pairs agree with exact integer predicates and brute force.
Degenerate inputs (collinear, coplanar, cocircular, duplicate or too few points, clockwise clip regions) yield no crash and no false result.""",
[I], "all point sets incl. duplicates, collinear and cocircular points on integer grids",
"Degeneracies are what tests lack.",
["mml/algorithms/CompGeometry", "mml/algorithms/ComputationalGeometry.h"], [("orientation predicates", "mml/algorithms/CompGeometry")], "Exact integer predicates as oracle.")

P("C26", "KD-tree queries equal brute-force search",
"""After construction or any sequence of updates, nearest, k-nearest, radius and range queries return exactly the points a linear scan returns, sorted as documented.
Empty trees and bad arguments are handled as documented.""",
[I, H], "all point sets incl. duplicates, query points, k and radii",
"Tests use few points; pruning mistakes need particular configurations.",
["mml/algorithms/CompGeometry/KDTree.h"], [("pruned recursion", "mml/algorithms/CompGeometry/KDTree.h")], "Linear scan as oracle.")

P("C27", "Geometric primitives measure and intersect correctly",
"""Distances, angles, areas, volumes, projections, containment, bounding volumes and intersections of points, lines, segments, planes, triangles, polygons, circles, boxes and solid bodies equal the values of an independent calculation from the coordinates, and body meshes are closed, outward-oriented and inscribed in the body they represent.
Parallel, coincident, perpendicular and touching configurations are classified correctly.""",
[I], "all configurations incl. parallel, perpendicular, coincident and touching ones",
"Tests use a few axis-aligned examples.",
["mml/base/Geometry"], [("closed formulas", "mml/base/Geometry")], "Independent formulas and random rigid motions.")

P("C28", "Coordinate transformations round-trip and match their Jacobians",
"""Every coordinate transformation composed with its inverse is the identity on its domain, its Jacobian and basis vectors match differentiation of the mapping, and covariant and contravariant vectors and tensors transform so that contractions are invariant; metric tensors and their derived symbols match the embedding.
Rotations are proper and Lorentz transformations keep the interval.""",
[I], "all points of the domain (all octants), parameters and vectors",
"Tests check single points, mostly in the first octant.",
["mml/core/CoordTransf", "mml/core/CoordTransf.h", "mml/core/MetricTensor.h", "mml/core/CoordSystem.h"], [("analytic transformation functions and Jacobians", "mml/core/CoordTransf")], "Round-trip, finite-difference and invariance oracles.")

P("C29", "Field operators agree in every coordinate system and with analysis",
"""Gradient, divergence, curl and Laplacian in Cartesian, cylindrical and spherical coordinates equal the analytic derivative and represent the same geometric object in each system, with curl of gradient and divergence of curl vanishing.
Metric-based covariant derivatives agree with them, built-in fields obey their equations, field analyzers and traced field lines follow the field, and singular or undefined points follow the documented policy instead of giving made-up values.""",
[I], "all smooth fields and points away from coordinate singularities",
"Tests use a few potential fields.",
["mml/core/FieldOperations.h", "mml/core/Fields.h", "mml/algorithms/FieldAnalyzers.h"], [("finite-difference operators", "mml/core/FieldOperations.h")], "Analytic derivatives of random fields transformed between systems.")

P("C30", "Quaternions and geometric vectors form a faithful rotation algebra",
"""Quaternion products, inverses, rotations, interpolation and conversions to and from axis-angle, Euler angles and rotation matrices describe the same rotation, unit norm is kept, and two- and three-dimensional Cartesian, polar, cylindrical and spherical vectors obey dot, cross, angle and projection identities.
Zero-length inputs are handled as documented.""",
[I, H], "all rotations incl. half turns and gimbal lock, all vectors",
"Branches of the conversions depend on the rotation.",
["mml/base/Quaternions.h", "mml/base/Vector/VectorTypes.h"], [("conversion branches", "mml/base/Quaternions.h")], "Rotation-matrix reference in long double.")

P("C31", "Tensors follow index algebra",
"""Tensor sums, products, contractions, index raising/lowering and multilinear evaluation equal the component-wise definition for every index position and variance, arithmetic keeps the variance of its operands, and inconsistent construction, out-of-range contractions or index requests are rejected.""",
[I], "all ranks, variances, dimensions and components",
"Tests use symmetric or diagonal components that hide index swaps.",
["mml/base/Tensor.h", "mml/interfaces/ITensor.h"], [("component loops", "mml/base/Tensor.h")], "Component-wise reference with asymmetric random components.")

P("C32", "The thread pool runs every task exactly once and waits for all of them",
"""Every accepted task runs exactly once, on one worker, and a wait that returns has every earlier-accepted task finished with its effects visible to the waiter and its captured state released; the pool keeps working after any number of waits.
An exception thrown by a task never kills a worker or loses other tasks and is reported as documented, shutdown completes accepted work, and no schedule produces a data race or deadlock. A pool whose threads cannot all be started reports the system's error and leaves no worker behind.""",
[S, H, F], "all interleavings of submitters, waiters and workers, throwing tasks, tasks that submit tasks, pool sizes and destruction times",
"Tests run one schedule of a few tasks.",
["mml/tools/ThreadPool.h"], [("queue mutex, condition variables and in-flight counter", "mml/tools/ThreadPool.h")], "History checker over recorded submit/start/finish/wait events, plus ThreadSanitizer, under random delays; schedules sampled.", technique="runtime monitoring: recorded-history checker + ThreadSanitizer under stress")

P("C33", "Concurrent use of independent or const objects is race-free and repeatable",
"""Using distinct objects, or calling const operations documented as safe on shared ones, from several threads at once is free of data races and yields bit-for-bit the values that one thread computes.
Configuration that is documented as per-thread and random streams belong to the thread that uses them and never leak into another.""",
[S], "all interleavings of independent computations in several threads",
"The test-suite is single-threaded.",
["docs/THREADING.md", "mml/MMLBase.h", "mml/base/InterpolatedFunctions/InterpolatedRealFunction.h"], [("absence of hidden shared state", "mml/MMLBase.h thread_local contexts")], "ThreadSanitizer over a cross-module workload and comparison with a sequential run.", technique="runtime monitoring: ThreadSanitizer + sequential-equivalence oracle")

P("C34", "What is saved can be loaded back, and broken files are reported",
"""Saving a vector or matrix and loading it back restores dimensions and values (bit-exact, non-finite values included, for the binary formats; finite values to the printed digits for the text formats), and saved curve, function, surface, field, trajectory and simulation files contain exactly the data given, in the documented format. Missing, truncated or corrupted files are never loaded as data they do not hold, and saving to an unwritable target, a full disk or a failing stream, or from inconsistent or throwing data sources, never reports success.""",
[I, F], "all shapes and values incl. non-finite ones, every truncation point and byte corruption, failing writes",
"Tests write and read one good file.",
["mml/tools/serializer", "mml/tools/Serializer.h", "mml/base/Vector/Vector.h", "mml/base/Matrix/Matrix.h"], [("header validation and stream state checks", "mml/tools/serializer")], "Round-trip oracle plus exhaustive truncation of small files and byte corruption, write faults via /dev/full.", technique="runtime monitoring: round-trip oracle with enumerated file faults under ASan+UBSan", level="exploration")

P("C35", "Data loaders parse well-formed text faithfully and reject the rest",
"""Loading a well-formed delimited or JSON table yields exactly its cells: every value keeps its row and column, quoting, escapes, byte-order marks and line ends are decoded, missing markers are flagged, columns of one kind get that type, and a value that does not fit its column is flagged missing rather than altered (surrounding blanks of text cells are not kept). Malformed JSON, empty input, missing files and, in strict mode, rows of the wrong width are rejected with the documented error; selecting, filtering and displaying rows never changes or mixes up cells.""",
[I], "all tables and all byte strings",
"Tests load a few literal files.",
["mml/tools/DataLoader.h", "mml/tools/data_loader"], [("tokenizers", "mml/tools/data_loader")], "Generator-with-ground-truth and mutation fuzzing under sanitizers.")

P("C36", "Printed and exported tables show the values they hold",
"""Tables printed to the console or exported as CSV, TSV, HTML, Markdown or LaTeX contain every header and every cell exactly once in its place: console cells follow the column's format, precision, width (fixed or automatic) and alignment with rule lines of matching length, and exported cells survive any text because separators and markup are escaped.
Vectors and matrices print every element rounded to the requested precision, honouring width, zero threshold, compact mode and delimiters; every printer leaves the caller's stream settings as it found them, and a file that cannot be written is reported.""",
[I, C], "all table shapes, column formats, border styles, precisions, widths, hostile strings and foreign stream states",
"Tests look for a substring.",
["mml/tools/ConsolePrinter.h", "mml/base/MatrixPrintFormat.h"], [("formatters", "mml/tools/ConsolePrinter.h"), ("Print", "mml/base/Matrix/Matrix.h")], "Output parsed back by independent readers of each format.")

P("C37", "Interval sets behave as sets of real numbers",
"""Membership, intersection, union, difference and complement of open, closed, half-open, half-infinite and empty intervals agree with point-set semantics at every point including the endpoints, and so do the length, measure, hull, subset and overlap queries of simple and composite intervals.
Periodic point holes are excluded at every period; sample points generated for an interval lie inside it, ordered and equally spaced; reversed bounds behave as the empty set.""",
[I], "all endpoint types, orders, touching, nested, degenerate and infinite configurations",
"Endpoint-inclusion combinations are many; tests try few.",
["mml/base/Intervals.h", "mml/interfaces/IInterval.h"], [("endpoint case analysis", "mml/base/Intervals.h")], "Pointwise membership oracle at endpoints, their floating-point neighbours, midpoints and random points.")

P("C38", "Dynamical-system models and analyzers agree with theory",
"""Each built-in continuous or discrete system evaluates its published equations for every parameter and state, its Jacobian is the derivative of its flow, and its invariants are conserved along sampled trajectories, whose points lie on the true solution at the requested times.
Fixed points have a small residual at the reported location and the stability class their eigenvalues demand (or are reported as not found); Lyapunov spectra equal the eigenvalue real parts at an equilibrium, sum to the mean divergence, are sorted, and give the Kaplan-Yorke dimension; section crossings are found each once, in the requested direction, and a trajectory that stops crossing is reported.
Parameter sweeps visit exactly the requested values, record the attractor and restore the parameter even on failure; invalid steps, indices and parameter counts are rejected.""",
[I, C], "all systems, parameters, states and analyzer settings; trajectories over bounded horizons",
"Tests look at default parameters.",
["mml/systems", "mml/interfaces/IDynamicalSystem.h"], [("right-hand sides and analytic Jacobians", "mml/systems/ContinuousSystems.h"), ("fixed-point and section search", "mml/systems/DynamicalSystemAnalyzers.h")], "Independent long-double equations and integrator, prescribed spectra, closed-form exponents.")

P("C44", "The linear-system facade picks a correct route for every matrix",
"""Whatever structure, shape or scale the matrix has, the automatic solver and every explicit solver return the solution (least-squares for tall, minimum-norm for wide systems) to the accuracy its conditioning allows, and a singular system never yields silent infinities or NaN.
Returned LU (with its permutation), QR, SVD and Cholesky factors multiply back to the matrix with the promised shape; inverse, pseudo-inverse, null and column space, determinant and condition numbers meet their definitions.
Structure, rank, sparsity and stability queries answer for the tolerance they are given independently of earlier calls, and operations that do not fit the right-hand side or shape are refused.""",
[I, C], "all structures, shapes up to 7x7 and scales 1e-14 to 1e12",
"The facade branches on structure detection; tests use well-scaled textbook matrices.",
["mml/systems/LinearSystem.h"], [("solver selection by structure", "mml/systems/LinearSystem.h"), ("LU factor extraction", "mml/core/LinAlgEqSolvers/LinAlgDirect.h")], "Systems built from known solutions and prescribed singular values, in long double.")

P("C39", "Curve fits and orthogonal expansions are optimal and exact on their class",
"""Least-squares fits give the minimum-norm least-squares solution wherever the data lie and in whatever units, reproduce data generated by the model, and report residual norm, mean squared error, (adjusted) R-squared, rank and condition number as defined; empty, mismatched, too few or degenerate data are rejected (two equal abscissae give the mean).
A Chebyshev expansion, truncated or not, equals its series, is exact for polynomials below its number of nodes, interpolates at the nodes, rejects arguments outside its interval, and its derivative, integral (zero at the left end) and polynomial form are those of the terms in use.
Legendre, Hermite, Laguerre and Chebyshev families satisfy their published values, recurrences, weights and norms, are orthogonal, and return the expansion coefficients of any finite combination.""",
[I], "all data sets, degrees, weights and intervals",
"Tests fit one line.",
["mml/algorithms/CurveFitting.h", "mml/algorithms/ChebyshevApproximation.h", "mml/core/OrthogonalBasis"], [("normal equations / recurrences", "mml/algorithms/CurveFitting.h")], "Residual orthogonality and polynomial exactness oracles.")

P("C41", "Curves and surfaces have the differential geometry of their equations",
"""At every regular point, tangents, normals, binormals, curvature, torsion, moving frames and planes of plane, space and polar curves, and the tangents, normal, fundamental forms, Gaussian, mean and principal curvatures and directions of surfaces, agree with the exact derivatives of the curve's or surface's equation at every scale and position, within the error of the difference formulas used; arc length agrees with the exact integral.
Built-in curves and surfaces trace their documented equations, planes and tilted circles lie in the plane asked for whatever way they are built, and closed surfaces close up.
Where a surface has no tangent plane, the normal, second form, curvatures and directions are zero and the point is reported as not regular.""",
[I], "all built-in curves and surfaces, shape parameters and parameter values",
"Tests look at circles and spheres of moderate size.",
["mml/core/Curves.h", "mml/core/Surfaces.h", "mml/core/Derivation/DerivationParametricCurve.h", "mml/core/Derivation/DerivationParametricSurface.h"], [("derivative-based formulas", "mml/core/Curves.h")], "Long-double Taylor arithmetic on the documented parametrisation.")

P("C42", "Function and field analysis reports exactly the features that exist",
"""For a function with known features, the root scan returns each root wider apart than the scan step once and nothing that is not a root (no poles, jumps or repeated near-zero samples); extrema, their kind and inflection points are exactly those of a smooth function whatever its amplitude or offset; jumps that stand out from the change over one scan step, sign-changing poles and discontinuities at samples are found where they are, with the right kind, one-sided limits, sign of infinity and jump size, and continuous, however steep, functions have none.
Monotonicity and sampled extremes agree with all samples including both ends, the spacing of zeros is their true average spacing, and function-difference figures, function adaptors and Taylor polynomials agree with their definitions.
Field analysis reports gradient, Laplacian, divergence, curl, critical points, harmonic, solenoidal and irrotational fields and circulation in agreement with the exact field calculus.""",
[I, C], "all piecewise smooth functions, intervals and resolutions",
"Tests use sine, a parabola and jumps placed on sample points.",
["mml/algorithms/FunctionsAnalyzer.h", "mml/algorithms/FieldAnalyzers.h", "mml/core/FunctionHelpers.h"], [("scan and refine", "mml/algorithms/FunctionsAnalyzer.h")], "Functions constructed with known features.")

P("C43", "Random generators honour their ranges and distributions; timers their clock",
"""Random reals lie in [min, max), random integers in [min, max] and random directions have the requested length, each uniformly distributed and without dependence between successive draws, for every valid range; an invalid range is rejected.
A seeded stream repeats exactly and no thread's draws influence another's.
Timers report non-negative, monotone, additive durations that agree with the clock and deliver a scoped result exactly once when the scope ends, also during unwinding.""",
[I, C], "all ranges, seeds, sample sizes, thread counts and mark sequences",
"Tests draw a few numbers from ordinary ranges.",
["mml/base/Random.h", "mml/tools/Timer.h"], [("generator wrappers", "mml/base/Random.h")], "Range monitors, distribution tests with false-alarm probability below 1e-12, an independent clock around every timer call.")

P("C45", "The visualizer hands each viewer exactly the data given and touches nothing else",
"""Visualizing a function, field, curve, surface or trajectory writes exactly the file the serializer documents, inside the project's results folder whatever file name is given, and then runs the viewer for that kind from the selected backend once, with exactly those files, completely written, as its arguments; displaying existing files hands over those files.
The result says success only if the data was saved and the viewer ran to a normal end with exit code 0 (field lines have no viewer yet: saved); otherwise it says what failed, with the viewer's exit code.
Nothing outside the results folder is created, changed or removed, no child process is left behind and the caller's environment is unchanged. Failed saves, missing or unusable viewers, unsafe or unusable names, links leading out, mismatched legends and interrupted waits are reported as failure, without an exception or crash.""",
[I, H, C], "all data, file names, prior contents of the results folder, backends and viewer behaviours, with signals arriving during the wait",
"Tests only construct result objects; no test runs a viewer or gives a hostile name.",
["mml/tools/Visualizer.h", "mml/MMLVisualizators.h", "mml/tools/Serializer.h"], [("results-folder containment", "mml/tools/Visualizer.h MakeSafeOutputPath"), ("process launch and wait", "mml/tools/Visualizer.h ExecuteVisualizerPosix")], "Recording stand-in viewers and before/after snapshots of the tree, environment and children.")

P("C46", "Named functions, constants, comparisons and guards do what their names say",
"""Every elementary and special function wrapper returns the named function of its arguments, taken in the documented order, to working accuracy over its domain; the reciprocal functions (secant, cosecant, cotangent and their hyperbolic forms) raise a domain error exactly at their poles. Factorials are exact while they fit, overflow to infinity or an error beyond, and reject negative arguments. Delta-function kernels equal their formulas. Constants are the nearest representable numbers.
Comparison helpers decide exactly the stated tolerance relation, symmetrically; angles are compared modulo whole turns. Validation guards throw, naming their subject, exactly when the value violates the stated condition; a guarded quotient is the true quotient away from the singularity and otherwise obeys the chosen policy.
A per-thread default changed by a thread is seen by that thread and no other.""",
[I, C], "all arguments, orders, tolerances, policies and thread counts",
"Tests compare a few tabulated values at ordinary arguments.",
["mml/base/StandardFunctions.h", "mml/base/DiracDeltaFunction.h", "mml/base/BaseUtils/ComparisonUtils.h", "mml/core/NumericValidation.h", "mml/core/SingularityHandling.h", "mml/MMLBase.h"], [("function wrappers", "mml/base/StandardFunctions.h"), ("policies", "mml/core/SingularityHandling.h SafeDivide")], "Value monitors against boost::math and long double libm; exact condition monitors for guards and policies.")

P("C47", "Containers stay usable when memory runs out",
"""When memory runs out during an operation on a vector, matrix, polynomial, recorded solution or graph, the failure is reported as an exception and every object involved remains consistent: its dimensions agree with its storage, all its elements can be read and copied, and it can be used again.
An assignment, a resize that preserves the elements, an appended element, vertex or edge that fails this way leaves its target as it was.""",
[F, I], "every allocation of every such operation failing, for all shapes",
"Tests never run out of memory, and the damage shows only in a later access.",
["mml/base/Matrix/Matrix.h", "mml/base/Matrix/MatrixSym.h", "mml/base/Matrix/Matrix3D.h", "mml/base/Matrix/MatrixBandDiag.h", "mml/base/Matrix/MatrixTriDiag.h", "mml/base/ODESystemSolution.h", "mml/base/Graph.h", "mml/base/Vector/Vector.h", "mml/base/Polynom.h"], [("storage acquired before the shape changes", "mml/base/Matrix/Matrix.h operator=, Resize"), ("both halves of an edge or none", "mml/base/Graph.h addEdge")], "Fault injection into operator new at every allocation, state monitors under ASan+UBSan.", technique="runtime monitoring: allocation-fault injection under ASan+UBSan with state monitors")

P("C40", "No public call corrupts memory or has undefined behaviour on hostile input",
"""Calling any public numerical routine with empty, tiny, huge, non-finite, denormal, negative or mismatched but well-typed arguments either returns or throws a library or standard exception. It never reads or writes outside an object, overflows a signed integer, converts an unrepresentable number, or leaks memory.""",
[I], "all public routines with hostile arguments",
"Undefined behaviour usually passes unnoticed without instrumentation.",
["mml"], [("argument validation", "mml/core/NumericValidation.h")], "ASan+UBSan+LSan over a hostile-input sweep of the API.")
