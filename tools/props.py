#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: edit here, then run."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CLAIMED = set("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27".split())


def p(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))


p("C01", "Dense elements behave as independent values",
  "Copies of a point, vector or product of them share storage only as an optimisation: writing to one through any public operation never changes the value any other one shows. Every element always shows the value the same history gives when each copy is deep, and operations of incompatible shape stop instead of corrupting data.",
  ["histories", "inputs"], "every sequence of construction, copy, assignment, in-place operation, sub-element write, reshape and destruction over several elements, real or complex, plain or product, shared or not",
  "The existing tests use copies along the few paths the solvers take and look only at a final gradient norm; a history in which a shared element is written in place is never compared with a deep-copy model.",
  ["Manifolds/Element.cpp", "Manifolds/SmartSpace.cpp", "Manifolds/Element.h"],
  [("reference-counted copy-on-write storage", "Manifolds/SmartSpace.cpp"), ("product elements as views of one buffer", "Manifolds/Element.cpp NewMemoryOnWrite/CopyOnWrite/ResetMemoryofElementsAndSpace")],
  "stateful model-based property testing (deep-copy reference model), shrinking", "Random histories against a deep-copy model; trusts the reference arithmetic of the harness.")
p("C02", "Cached companion data never outlives the value it belongs to",
  "Temporary data attached to an element (gradients, decompositions, intermediate products) is present on a copy exactly as it was when the copy was made, and disappears whenever the element's value is overwritten. A decomposition requested from an element is therefore always one of its present value.",
  ["histories"], "every sequence of value changes, copies, attachments, removals and decomposition requests over several elements",
  "Staleness needs a decomposition or attachment followed by a particular kind of write; solver runs in the tests never check the attachments.",
  ["Manifolds/Element.cpp", "Manifolds/Element.h"],
  [("field map attached to elements", "Manifolds/Element.cpp AddToFields/Field/RemoveAllFromFields"), ("writes discard fields", "Manifolds/Element.cpp ObtainWriteEntireData/CopyOnWrite/NewMemoryOnWrite")],
  "stateful model-based property testing of the attachment map, shrinking", "Random histories against a model map.")
p("C03", "Dense linear algebra computes what its interface states",
  "For real and complex matrices and vectors of any conforming shape, sums, products, transposes, sub-matrix reads and writes, triangular solves, rank-one updates, reflections, norms, traces and element-wise functions equal their mathematical definition to rounding. QR, SVD, eigenvalue, Schur, Cholesky, LU, exponential, logarithm and Sylvester results satisfy their defining equations, leave their operand unchanged, and give consistent answers when repeated.",
  ["inputs"], "all conforming shapes (including one row or column), real and complex, transposed operands, shared or distinct operands, random, rank deficient, repeated-eigenvalue and badly scaled entries",
  "No test evaluates the linear algebra itself; complex and rectangular paths are not exercised at all by the reliable tests.",
  ["Manifolds/Element.cpp", "Manifolds/Element.h", "Others/def.h"],
  [("wrappers over BLAS and LAPACK", "Manifolds/Element.cpp"), ("factorisations cached as fields", "Manifolds/Element.cpp QRDecom/HHRDecom/SVDDecom/EigenDecomSym/SchurForm/CholDecom/LUDecom")],
  "property-based testing against a naive complex-arithmetic reference and defining equations", "Random shapes and conditionings; tolerance 1e-9 relative to the operands' scale; reference BLAS/LAPACK trusted.")
p("C04", "Sparse products, Fourier and Haar transforms are exact and invert",
  "A sparse matrix given by its triplets multiplies vectors and matrices, from either side and transposed or not, exactly as the dense matrix of those triplets does. The one and two dimensional Fourier and Haar transforms equal their definitions, are linear and (scaled as documented) isometric, and the inverse transforms undo them.",
  ["inputs"], "all shapes, sparsity patterns including empty rows and repeated or unordered triplets, real and complex values, power-of-two sizes for the wavelets",
  "The tests only reach these through three fixed instances and never compare them with a dense computation.",
  ["Others/SparseMatrix/BlasSparse/", "Others/SparseMatrix.cpp", "Others/wavelet/wavelet.cpp", "Manifolds/Element.cpp"],
  [("sparse BLAS handles", "Others/SparseMatrix.cpp"), ("FFTW plans and Haar recursion", "Manifolds/Element.cpp, Others/wavelet/wavelet.cpp")],
  "differential property-based testing against dense definitions, round trips", "Random triplets and signals; tolerance 1e-10 relative.")
p("C05", "Cubic spline interpolation is exact, smooth and reproduces cubics",
  "A cubic spline through given knots passes through every data value, has continuous first and second derivatives at every interior knot and satisfies its end conditions, for equally and unequally spaced knots. Evaluation of the spline and of its first, second and third derivatives agree with the piecewise cubic at every abscissa in range, and data sampled from a cubic (or line) admitted by the end conditions is reproduced.",
  ["inputs"], "all knot counts, spacings, origins, data and end conditions (natural, clamped by slopes, periodic), all evaluation points",
  "No existing test runs the spline code.",
  ["Others/Spline.cpp", "Others/Spline.h"],
  [("tridiagonal systems for second derivatives", "Others/Spline.cpp Spline*"), ("piece search and Horner evaluation", "Others/Spline.cpp ValSpline*")],
  "property-based testing of interpolation, continuity and end conditions, differential against a dense solve", "Random knots; tolerance scaled by knot ratio.")
p("C06", "Points produced on a manifold stay on it and retractions are retractions",
  "Random points, and the result of retracting any tangent vector from any point, satisfy the defining constraints of the manifold. Retracting the zero vector gives the point back, the derivative of the retraction at zero is the identity, an offered inverse retraction undoes it near zero, and an offered distance is symmetric, zero only between equal points and consistent with exponential-map steps.",
  ["inputs", "configurations"], "every manifold, shape and parameter set, all points, tangent vectors of all magnitudes including zero, intrinsic and ambient representations",
  "The tests run solvers from one random start per configuration and judge only the final gradient norm; a retraction that drifts, is not first order or fails for the zero vector or rare shapes passes.",
  ["Manifolds/"],
  [("retractions per manifold and parameter set", "Manifolds/*/*.cpp Retraction, PolarRetraction, qfRetraction, CayleyRetraction, ExpRetraction"), ("inverse retractions and distances", "Manifolds/*/*.cpp InvRetraction, Dist")],
  "property-based testing over all manifolds and parameter sets: constraint residuals, finite differences, round trips", "Random points and vectors; finite-difference tolerances stated per check.")
p("C07", "Tangent spaces are consistent linear spaces",
  "Projection onto a tangent space is linear, idempotent, leaves tangent vectors alone and is orthogonal in the metric used; the metric is symmetric, positive and bilinear. The short (intrinsic) and ambient representations of a tangent or normal vector convert into one another without loss and with the same metric values, and the vector-space operations equal their definitions in either representation.",
  ["inputs", "configurations"], "every manifold, shape, metric and parameter set, all points and pairs of vectors",
  "A solver converges with a slightly wrong projection or a non-isometric intrinsic basis, so a test that looks at the final gradient norm cannot tell.",
  ["Manifolds/"],
  [("projections and metrics", "Manifolds/*/*.cpp Projection, ExtrProjection, Metric"), ("intrinsic bases by Householder reflections", "Manifolds/*/*.cpp ObtainIntr, ObtainExtr, ObtainNorVerIntr, ObtainNorVerExtr")],
  "metamorphic property-based testing (algebraic laws, round trips, isometry)", "Random points and vectors on all manifolds.")
p("C08", "Derivatives of retractions and their adjoints are right",
  "Wherever a manifold offers the derivative of its retraction, it equals the rate of change of the retracted point; wherever it offers the adjoint, pairing it with any tangent vector gives the same number as pairing the derivative with the original covector. The offered length ratio of a step and its transported image equals the ratio of the actual norms.",
  ["inputs", "configurations"], "every manifold and parameter set that offers them, all points, steps (zero, equal to and different from the differentiated direction) and vectors",
  "Solvers use them inside line searches and locking conditions, where an error only slows convergence; no test differentiates a retraction.",
  ["Manifolds/"],
  [("differentiated retractions", "Manifolds/*/*.cpp DiffRetraction, DiffqfRetraction, DiffPolarRetraction, DiffCayley"), ("adjoints", "Manifolds/*/*.cpp coTangentVector"), ("step length ratio", "Manifolds/Manifold.cpp Beta")],
  "property-based testing against finite differences and the adjoint identity", "Finite-difference tolerance 1e-5 relative.")
p("C09", "Vector transports move vectors consistently",
  "Transporting a tangent vector along a step gives a tangent vector at the new point, linearly, and without change of metric values where the transport is declared isometric; the inverse transport undoes it. Transporting a linear operator (from either side or both) equals composing the operator with the transport or its inverse, with or without the locking correction, and the rank-one update and flat map equal their metric definitions.",
  ["inputs", "configurations"], "every manifold and parameter set, locking correction on and off, all points, steps, vectors and operators",
  "Quasi-Newton solvers still converge with a wrong operator transport, so convergence tests do not see it; most locking and inverse paths are never run.",
  ["Manifolds/"],
  [("transports", "Manifolds/*/*.cpp VectorTransport, InverseVectorTransport"), ("operator transports", "Manifolds/Manifold.cpp HInvTran, TranH, TranHInvTran, HaddScaledRank1OPE"), ("locking condition", "Manifolds/Manifold.cpp LCVectorTransport")],
  "metamorphic property-based testing (isometry, inverse, composition with explicit operators)", "Random points, steps, vectors and operators.")
p("C10", "Riemannian gradients and Hessians follow from Euclidean ones",
  "For any smooth function, the Riemannian gradient a manifold derives from the Euclidean gradient is tangent and represents the derivative in the manifold's metric. The Riemannian Hessian derived from Euclidean derivatives is self-adjoint in the metric and equals the covariant second derivative (second derivative of the function along second-order retractions or geodesics).",
  ["inputs", "configurations"], "every manifold, metric and parameter set, random smooth test functions, all points and directions",
  "The tests run each problem with one metric on one instance; a gradient with a wrong scale in a rarely used metric still descends.",
  ["Manifolds/"],
  [("gradient conversion", "Manifolds/*/*.cpp EucGradToGrad"), ("Hessian conversion", "Manifolds/*/*.cpp EucHvToHv")],
  "property-based testing against finite differences along curves, self-adjointness", "Random quadratic and quartic functions; stated tolerances.")
p("C11", "A product manifold acts as its factors do, component by component",
  "Every operation on a product of manifolds, including repeated factors and nested sizes, gives in each component what the factor's own operation gives on that component, and its metric, dimensions and step ratios are the sums or combinations of the factors'.",
  ["inputs", "configurations"], "all products of the library's manifolds with any multiplicities and parameter sets, all points and vectors",
  "One test problem uses a product of Stiefel manifolds only; mixed products and most operations are never run.",
  ["Manifolds/MultiManifolds.cpp"],
  [("factor loop over component elements", "Manifolds/MultiManifolds.cpp")],
  "differential property-based testing of the product against its factors", "Random products of up to four factors.")
p("C12", "Manifold operations leave inputs alone and permit documented aliasing",
  "No manifold operation changes the value of an input point, direction or vector, and calling an operation with its result stored in the argument it is documented to allow gives the same value as storing it elsewhere. Results do not depend on which companion data earlier operations left on the points.",
  ["inputs", "histories", "configurations"], "every manifold, parameter set and operation, with results aliased to inputs, inputs sharing storage with other elements, and any earlier operations on the same points",
  "The solvers use a few fixed aliasing patterns, and wrong intermediate values only slow convergence.",
  ["Manifolds/"],
  [("copy-on-write results", "Manifolds/*/*.cpp"), ("companion data reused between operations", "Manifolds/*/*.cpp fields HHR, EGrad, ...")],
  "metamorphic property-based testing (aliased versus fresh call, warm versus cold companion data)", "Random operation choices on all manifolds.")
p("C13", "Shipped objectives and their derivatives agree",
  "For every shipped problem the objective equals its stated formula, its gradient is the derivative of the objective and its Hessian action the derivative of the gradient, at every point and for every admissible data set. The derivative-free (numerical) gradients and Hessian actions agree with the analytic ones, and evaluating them in any order or repeatedly gives the same values.",
  ["inputs", "histories", "configurations"], "all problem data of all admissible sizes, all feasible points and directions, any order of objective, gradient and Hessian evaluation",
  "Tests run each problem on one fixed instance and check only that a solver ends with a small gradient.",
  ["Problems/"],
  [("objectives and Euclidean derivatives", "Problems/*/*.cpp f, EucGrad, EucHessianEta"), ("numerical differentiation", "Problems/Problem.cpp")],
  "property-based testing against direct formulas and finite differences", "Random instances of every problem.")
p("C14", "Results on quotient manifolds do not depend on the representative",
  "For problems posed on quotient manifolds (subspaces, fixed-rank matrices by factors, phase-invariant factors) the objective, the norm of the Riemannian gradient, the metric between corresponding vectors and the retracted class are the same for every representative of the same class.",
  ["inputs", "configurations"], "all points, group actions, tangent vectors and parameter sets of the quotient manifolds",
  "Needs comparing two representatives of the same class; tests only use one.",
  ["Manifolds/"],
  [("horizontal projections and quotient metrics", "Manifolds/Grassmann.cpp, SymFixedRankQ.cpp, CSymFixedRankQ.cpp, FixedRankQ2F.cpp, CFixedRankQ2F.cpp")],
  "metamorphic property-based testing under the group action", "Random group elements.")
p("C15", "Proximal steps of composite problems are optimal",
  "The proximal mapping of a composite problem returns the minimiser of its defining strongly convex problem, its generalised Jacobian is a derivative of it, and the nonsmooth term and its pieces evaluate to their stated formulas.",
  ["inputs"], "all points, positive weights and regularisation parameters, including zeros, ties and thresholds, and wavelet-domain variants",
  "The composite problems' tests only check the end of a run; prox mistakes at thresholds are invisible there.",
  ["Problems/StieSPCA.cpp", "Problems/FRankESparseApprox.cpp", "Problems/Problem.cpp"],
  [("soft thresholding and its Jacobian", "Problems/*/*.cpp ProxW, CalJW")],
  "property-based testing of optimality (subgradient conditions, competing points) and finite differences", "Random thresholds.")
p("C16", "Line searches accept only steps that satisfy their stated conditions",
  "Every iteration of a line-search solver moves along a descent direction with the correct slope, and its next iterate, objective and gradient are those of the retraction of that direction by the step. A search that reports success meets its chosen condition (sufficient decrease against the configured window of earlier values, weak or strong curvature, exact minimisation). Backtracked steps are the safeguarded interpolations within the configured ratios, and the first step tried follows the chosen initial-step rule.",
  ["inputs", "histories", "configurations"], "all line-search solvers, line-search algorithms, window lengths, initial-step rules, constants, problems and start points",
  "Tests look at the last gradient norm; a search that accepts non-decreasing steps or wrong curvature still usually converges on the fixed instances.",
  ["Solvers/SolversSMLS.cpp", "Solvers/SolversNSMLS.cpp"],
  [("line-search algorithms", "Solvers/SolversSMLS.cpp LinesearchArmijo, LinesearchWolfe, LinesearchStrongWolfe, LinesearchExact"), ("initial step rules", "Solvers/SolversSMLS.cpp InitialStepSize")],
  "property-based testing of a per-iteration monitor over random problems and parameters", "Monitors every iteration of generated runs.")
p("C17", "Trust-region solvers stay in the region and never accept bad steps",
  "Every trial step lies within the current radius and reduces the quadratic model at least as much as the steepest-descent step does; a step is accepted only when the actual-to-predicted reduction passes the configured threshold, otherwise the iterate is unchanged. The radius grows and shrinks as configured within its bounds and the objective never increases over accepted steps.",
  ["inputs", "histories", "configurations"], "all trust-region solvers, problems, starts and constants, including indefinite Hessians",
  "Only the end of a successful run is tested; radius mistakes and rejected steps are not observed.",
  ["Solvers/SolversSMTR.cpp", "Solvers/RTRNewton.cpp", "Solvers/RTRSR1.cpp", "Solvers/LRTRSR1.cpp", "Solvers/RTRSD.cpp"],
  [("truncated conjugate gradient", "Solvers/SolversSMTR.cpp tCG_TR"), ("radius update and acceptance", "Solvers/SolversSMTR.cpp Run")],
  "property-based testing of a per-iteration monitor over random problems and parameters", "Monitors every iteration of generated runs.")
p("C18", "What a solver reports is what happened",
  "After any run the reported solution has the reported objective value and gradient norm, the reported series have the reported lengths and values that belong to the iterates, and the counts of objective, gradient, retraction, Hessian and vector-transport operations match those made. The run leaves the given start point unchanged, is a deterministic function of its inputs, and a second run on the same object behaves as a fresh object started at the first one's solution would (methods that keep a full-memory Hessian approximation keep it).",
  ["inputs", "histories", "configurations"], "all solvers, problems, start points, verbosity levels and stopping settings, first and repeated runs",
  "The tests never compare the reported data with an independent evaluation and never run an object twice.",
  ["Solvers/Solvers.cpp", "Solvers/SolversSM.cpp", "Solvers/SolversSMLS.cpp", "Solvers/SolversSMTR.cpp", "Solvers/SolversNSM.cpp"],
  [("run loop bookkeeping", "Solvers/*.cpp Run, UpdateData, PrintFinalInfo")],
  "property-based testing of recorded histories against independent evaluation, differential reruns", "Counting problem wrapper observes every evaluation.")
p("C19", "Runs stop when and only when the configured criterion says so",
  "A run ends at the first iteration, not earlier than the minimum number of iterations, at which the configured criterion (relative decrease, gradient norm, relative gradient norm, user-supplied) is met, the maximum number of iterations or the time limit is reached, or the search reports failure; a run started at a solution stops at once.",
  ["inputs", "histories", "configurations"], "all solvers, criteria, tolerances and iteration bounds including zero, start points including solutions",
  "Each test uses one criterion with one tolerance.",
  ["Solvers/SolversSM.cpp", "Solvers/Solvers.cpp", "Solvers/SolversNSM.cpp"],
  [("stopping tests", "Solvers/SolversSM.cpp IsStopped")],
  "property-based testing of recorded histories against the criterion", "Recorded series of generated runs.")
p("C20", "Search directions and quasi-Newton updates keep their defining algebra",
  "Quasi-Newton approximations keep the secant equation when they are updated, stay self-adjoint, and (for the Broyden-class and BFGS updates) positive definite. Limited-memory methods apply the operator their stored pairs define and, with memory at least the number of iterations, produce the same iterates as their full-memory versions. Conjugate gradient directions follow the chosen formula (with the preconditioner when one is given), the truncated conjugate gradient of Newton's method returns a direction of descent meeting the residual tolerance it reports, and on strictly convex quadratics with exact line searches the methods terminate as conjugate gradients does.",
  ["inputs", "histories", "configurations"], "all quasi-Newton solvers, update variants, memory lengths, problems and starts",
  "A wrong update only slows convergence; the tests do not compare variants with each other.",
  ["Solvers/SolversSM.cpp", "Solvers/RBFGS.cpp", "Solvers/LRBFGS.cpp", "Solvers/RBroydenFamily.cpp", "Solvers/RTRSR1.cpp", "Solvers/LRTRSR1.cpp"],
  [("updates", "Solvers/*.cpp UpdateData"), ("limited-memory recursion", "Solvers/LRBFGS.cpp HvLRBFGS")],
  "property-based testing: algebraic invariants per iteration and differential limited versus full memory", "Random problems.")
p("C21", "Solvers reach the known optimum of problems that have one, and Hessian eigenvalues are found",
  "On generated problems whose minimum is known in closed form (strictly convex quadratics, extreme eigenvalues and subspaces, Brockett functions, Karcher means of commuting matrices, best low-rank approximations) the solvers that use second-order information (Newton, quasi-Newton, trust-region, with a line search that does not give up) reach a critical point of the documented objective that is the global minimum from a generic start (or, should a rule stall, from one of two others); whenever any solver reports convergence, the objective's slope is as small as reported and its value the known minimum; monotone methods never end above their start, the reported value is the objective's value at the reported point and never below the true minimum. The smallest and largest eigenvalue that Problem::MinMaxEigValHess reports are those of the Riemannian Hessian on the tangent space.",
  ["inputs", "configurations"], "all solvers, problem data, sizes and starts of those families",
  "The tests cover one seed per problem and do not know the optimal value.",
  ["Solvers/", "Problems/"],
  [("solver run loops", "Solvers/*.cpp"), ("Hessian eigenvalues", "Problems/SphereTxRQ.cpp MinMaxEigValHessian, Manifolds/SphereTx.cpp")],
  "differential property-based testing against closed-form optima and dense eigenvalues", "Random instances; dimensions up to about 30.")
p("C22", "Every documented parameter takes effect exactly as set",
  "Setting parameters through the name-value map has the same effect as assigning the parameters directly, for every documented name of every solver and manifold; names that do not belong to a solver change nothing. When the parameters are checked, exactly the values outside their documented range are reported, and checking changes no parameter. A manifold's parameter sets and switches put it in the same state whether chosen by name or by call, in any order.",
  ["inputs", "configurations"], "all parameter names, values including non-integers, solvers and manifolds",
  "The tests only assign a few parameters directly and never use the map.",
  ["Solvers/", "Manifolds/"],
  [("parameter maps", "Solvers/*.cpp SetParams, Manifolds/*.cpp SetParams"), ("parameter checks", "Solvers/*.cpp CheckParams")],
  "differential property-based testing of map versus direct assignment", "Random maps.")
p("C23", "Nonsmooth solvers descend and end at approximate stationary points",
  "Nonsmooth solvers never report a worse point than the start, keep their iterates feasible, move only along the direction made of the shortest vector of the collected subgradients' hull (proximal gradient: along the minimiser of the proximal model on the tangent space), accept only steps meeting their decrease condition, report the history they made, and end (when they report convergence) at a point whose stationarity measure is below the tolerance. On convex instances with known minimum the final value is above it by no more than that measure and the sampling radius allow; with a vanishing nonsmooth term the proximal methods end at a critical point of the smooth one.",
  ["inputs", "histories", "configurations"], "all nonsmooth and proximal-gradient solvers, problems, regularisation weights and starts",
  "One instance per problem is run, and the nonsmooth solvers' results are not judged against known solutions.",
  ["Solvers/RGS.cpp", "Solvers/RBFGSSub.cpp", "Solvers/LRBFGSSub.cpp", "Solvers/ManPG.cpp", "Solvers/AManPG.cpp", "Solvers/SolversNSMSub.cpp"],
  [("gradient sampling and subgradient methods", "Solvers/RGS.cpp, RBFGSSub.cpp, LRBFGSSub.cpp"), ("manifold proximal gradient", "Solvers/ManPG.cpp, AManPG.cpp, SolversNSMPGLS.cpp")],
  "property-based testing of recorded histories and known solutions", "Random instances.")
p("C24", "No operation reads or writes memory it does not own",
  "No sequence of valid calls reads or writes outside allocated storage, uses released storage, overflows integers, converts values out of range, asserts, or keeps more memory with every repetition, in elements, linear algebra, manifolds, problems or solvers; and no result depends on what freshly allocated memory happens to contain.",
  ["inputs", "histories", "configurations"], "all valid calls over all shapes, parameter sets and solvers",
  "The tests are built without sanitizers and stray accesses mostly go unnoticed.",
  ["Manifolds/", "Problems/", "Solvers/", "Others/"],
  [("manual buffers and pointer arithmetic", "Manifolds/*.cpp, Others/*.cpp")],
  "generated-input fuzzing under AddressSanitizer and UBSan, and metamorphic runs with differently filled fresh memory", "Sanitizer-instrumented replays of the other checks' generators.")
p("C25", "Random numbers are reproducible and have the documented laws",
  "After seeding, everything drawn (numbers, fills of elements, random points of every manifold) is a function of the seed alone, whatever was drawn or allocated before, and different seeds give different streams. Uniform draws lie in and fill the documented interval, normal draws follow the normal law with the documented mean and variance, draws are unrelated to the ones before. Filling an element draws every entry of every component afresh, discards its fields and leaves copies unchanged.",
  ["inputs"], "all seeds, shapes and call interleavings",
  "Tests fix one seed and never look at the numbers.",
  ["Others/randgen.cpp", "Manifolds/Element.cpp"],
  [("Mersenne twister", "Others/randgen.cpp"), ("element fills", "Manifolds/Element.cpp RandGaussian, RandUnform")],
  "property-based testing against the reference generator and statistical bounds", "Statistical bounds (Dvoretzky-Kiefer-Wolfowitz, Hoeffding) with false-alarm probability about 2e-13 each.")
p("C26", "The smallest-norm vector of a convex hull is found",
  "For any finite set of tangent vectors at a point, the returned vector lies in their convex hull, its reported squared norm is its squared norm, no vector of the hull is shorter by more than a small fraction of the longest given vector, and the given vectors are unchanged; both for the 2-norm of the vectors' coordinates and for the norm of a symmetric positive definite operator.",
  ["inputs"], "all sets of vectors, including repeated, collinear, zero and hull-containing-the-origin sets, metrics and operators",
  "No reliable test calls it.",
  ["Others/MinPNormConHull.cpp", "Problems/SphereConvexHull.cpp"],
  [("Riemannian formulation over the sphere of square roots of the weights", "Others/MinPNormConHull.cpp")],
  "property-based testing against an exhaustive reference over all faces of the hull", "Random sets in known position.")

p("C27", "What the library prints about itself is true",
  "Printing an element (also a tuple of elements, a complex element, an element with attached fields) shows its dimensions and every entry of its present value. A run reports, at the configured verbosity and gap, the iterations it made with the cost, gradient norm, step and counters that the accessors return at that moment, and its closing line repeats the final values; reporting does not change the run: the iterates are those of the silent run. The built-in derivative diagnostic prints ratios that equal the true difference quotients, comes close to one for a right gradient and does not for a wrong one; the built-in manifold diagnostics print pairs that agree on a manifold whose operations are consistent. No report changes the point, the problem or the manifold's mode.",
  ["inputs", "config"], "all values, nesting and field spaces; all solvers, problems, verbosities and gaps; all problems and manifolds shipped",
  "The tests only read the final relative gradient norm from one printed line.",
  ["Manifolds/Element.cpp", "Manifolds/SmartSpace.cpp", "Solvers/Solvers.cpp", "Solvers/SolversSMLS.cpp", "Solvers/SolversSMTR.cpp", "Solvers/SolversNSM.cpp", "Problems/Problem.cpp", "Manifolds/Manifold.cpp"],
  [("Print of elements", "Manifolds/Element.cpp"), ("PrintInfo / PrintFinalInfo / CheckParams of the solvers", "Solvers/"), ("CheckGradHessian", "Problems/Problem.cpp"), ("CheckRetraction, CheckDiffRetraction, CheckIntrExtr, ...", "Manifolds/Manifold.cpp")],
  "property-based testing: captured output parsed back and compared with accessors, with a silent twin run and with difference quotients computed independently", "Random data, points and configurations.")

if __name__ == "__main__":
    import sys
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            a = dict(files=q["files"], mechanism=[dict(name=n, where=w) for n, w in q["mech"]], hook_needed=None)
            if q["observe"]:
                a["observe_at"] = q["observe"]
            f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
                                    quantifier=dict(over=q["over"], text=q["text"]),
                                    why_tests_cant=q["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py build plain asan",
             hooks=dict(guard="ROPTLIB_VP_HOOKS", enable="no hooks are needed; the checks compile /repo's sources unchanged", source_commits=[]),
             checks=[], not_applicable=[],
             notes="All checks: ./run.py check <ID>; replay with ./run.py replay <file>.")
    for q in P:
        if q["id"] in CLAIMED:
            m["checks"].append(dict(property=q["id"], quick_cmd="python3 run.py check %s --tier quick" % q["id"],
                                    thorough_cmd="python3 run.py check %s --tier thorough" % q["id"],
                                    technique=q["technique"], level="exploration", level_note=q["note"]))
        else:
            m["not_applicable"].append(dict(property=q["id"], reason="its check is not built yet"))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
