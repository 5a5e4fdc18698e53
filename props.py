"""The properties; gen.py turns this into properties.jsonl and MANIFEST.json."""
SM, KIN = "Schweizer-Messer/", "Schweizer-Messer/sm_kinematics/"
AB, ABX, SBM = "aslam_optimizer/aslam_backend/", "aslam_optimizer/aslam_backend_expressions/", "aslam_optimizer/aslam_sparse_block_matrix/"
CAM = "aslam_cv/aslam_cameras/"
BS, SP = "aslam_nonparametric_estimation/aslam_bsplines/", "aslam_nonparametric_estimation/aslam_splines/"
KP = "aslam_offline_calibration/kalibr/python/"
IC = "aslam_incremental_calibration/aslam_incremental_calibration/"

def P(id, title, statement, over, quant, why, files, mech, observe, level_note):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, note=level_note)

PROPS = [
P("C01", "All rotation representations describe the same rotation",
  "Quaternions, rotation matrices, axis-angle vectors, Euler angles and Rodriguez parameters convert into one another without changing the rotation they describe, every rotation matrix produced is a proper rotation, and composition, inversion, exponential and logarithm agree across representations. The reported derivatives (of rotations, of products, of angular velocity with respect to parameters) equal the true derivatives. This holds for every finite input, including zero, tiny, half-turn and gimbal-lock rotations.",
  ["inputs"], "All finite rotation parameters of every representation, with singular and near-singular neighbourhoods.",
  "Tests use a few random rotations away from the singular cases; the branches for tiny angles, half turns and gimbal lock are reached by essentially no random sample.",
  [KIN+"src/quaternion_algebra.cpp", KIN+"src/rotations.cpp", KIN+"src/RotationVector.cpp", KIN+"src/EulerRodriguez.cpp", KIN+"src/EulerAnglesZYX.cpp", KIN+"src/EulerAnglesYawPitchRoll.cpp", KIN+"src/EulerAnglesZXY.cpp", KIN+"src/three_point_methods.cpp"],
  [("branch selection in matrix/axis-angle/quaternion conversion", KIN+"src/quaternion_algebra.cpp"), ("analytic S-matrices and their derivatives", KIN+"src/RotationVector.cpp")],
  ["returned matrices, quaternions, vectors and Jacobians"],
  "Tolerances are scaled to double rounding; rotations are compared as matrices computed independently by the harness."),
P("C02", "Rigid transforms, homogeneous points and their uncertainty compose consistently",
  "Composition, inversion, application to points and vectors, and incremental updates of rigid transformations agree with 4x4 matrix algebra, and all their reported derivatives equal the true ones. Uncertainties propagated through transformations and points equal the first-order covariance of the operation, staying symmetric positive semidefinite. Equality tests compare every part. Interpolation hits both endpoints and stays a rigid transformation in between.",
  ["inputs"], "All poses, covariances, homogeneous points (any scale) and increments.",
  "Existing tests check a handful of random poses at unit scale; covariance propagation is sampled only at unit scale and small angle.",
  [KIN+"src/Transformation.cpp", KIN+"src/transformations.cpp", KIN+"src/UncertainTransformation.cpp", KIN+"src/HomogeneousPoint.cpp", KIN+"src/UncertainHomogeneousPoint.cpp", KIN+"src/homogeneous_coordinates.cpp"],
  [("first-order propagation through box-plus Jacobians", KIN+"src/UncertainTransformation.cpp")],
  ["returned transformations, points, covariances, Jacobians"],
  "Derivatives are compared with central differences; interpolation laws with the harness's own slerp."),
P("C03", "Camera projection and back-projection are inverse to each other",
  "For every camera model (pinhole, omni, extended unified, double sphere), distortion (none, radial-tangential, equidistant, field-of-view) and mask, a point projects to the pixel the model's formula gives; back-projecting the pixel of a visible point inside the range where the distortion is invertible returns the point's direction, and projecting that again returns the pixel. A projection is reported valid exactly when the pixel lies in the image, is not masked out, and the point can be seen by the model; the euclidean, homogeneous (either sign of the fourth coordinate), with-Jacobian and virtual variants agree, and a resized camera projects like one with rescaled intrinsics. No input produces a value reported valid that is not finite, and no pixel is looked up outside the mask.",
  ["inputs", "configurations"], "All intrinsics, distortion coefficients, resolutions, pixels and 3D points, for all model combinations built by the library.",
  "Tests sample one fixed set of intrinsics per model and random points well inside the image; borders, points behind the camera, strong distortion and other resolutions are not reached.",
  [CAM+"include/aslam_cameras/cameras/implementation", CAM+"src/EquidistantDistortion.cpp", CAM+"src/FovDistortion.cpp", CAM+"src/RadialTangentialDistortion.cpp", CAM+"src/BackProjection.cpp"],
  [("keypoint/euclidean/homogeneous conversion of every projection", CAM+"include"), ("iterative undistortion", CAM+"src")],
  ["return value and outputs of the conversions"],
  "Distortion coefficients are drawn from the range for which the model itself is monotone over the field of view."),
P("C04", "Camera and distortion derivatives and parameter vectors are exact",
  "Every Jacobian returned by a camera, projection or distortion (with respect to the point, the pixel, the projection, distortion and shutter parameters, for every selection of them) equals the derivative of the value returned by the same object. Reading parameters, updating them and writing them back changes exactly the selected parameters, and a camera changed this way behaves like one constructed with the new values.",
  ["inputs", "histories", "configurations"], "All model combinations, parameter values, points and update sequences.",
  "Tests compare Jacobians at a few points with one default parameter set; wrong terms that vanish at default parameters or on symmetric pixels stay hidden.",
  [CAM+"include/aslam_cameras/cameras/implementation", CAM+"src/EquidistantDistortion.cpp", CAM+"src/FovDistortion.cpp", CAM+"src/RadialTangentialDistortion.cpp"],
  [("hand-written Jacobians of projection and distortion", CAM+"include")],
  ["returned Jacobians against central differences of returned values"],
  "Compared with central differences to a relative accuracy near 1e-5; random parameters make every term visible."),
P("C05", "Every linear solver returns the solution of the same weighted normal equations",
  "For one problem, the block Cholesky, sparse Cholesky, sparse QR and dense QR solvers report the same gradient and cost and return the same step: the minimiser of the robustly weighted linearised least-squares problem, augmented by the diagonal conditioner where the solver supports one. This holds for every problem structure, after any sequence of rebuilds, re-solves and conditioner changes, and covariance blocks they report equal blocks of the inverse information matrix. A solve does not alter the system, and for a singular system a solver either reports failure or returns a minimiser.",
  ["inputs", "histories", "configurations"], "All mixtures of design variable sizes, error terms, weights, robust policies, thread counts, conditioner histories.",
  "Tests solve one or two fixed systems once per solver; interactions of conditioner, M-estimators, structure changes and repeated solves need many combinations and an independent dense oracle.",
  [AB+"src/BlockCholeskyLinearSystemSolver.cpp", AB+"src/SparseCholeskyLinearSystemSolver.cpp", AB+"src/SparseQrLinearSystemSolver.cpp", AB+"src/DenseQrLinearSystemSolver.cpp", AB+"src/LinearSystemSolver.cpp", AB+"src/ErrorTerm.cpp", AB+"src/MEstimatorPolicies.cpp"],
  [("column-compressed / block Jacobian assembly", AB+"src"), ("diagonal conditioner augmentation and removal", AB+"src")],
  ["dx, rhs, cost, covariance blocks against a dense oracle"],
  "Oracle: harness-side dense Eigen solution built from its own copy of residuals and Jacobians; tolerance scales with conditioning."),
P("C06", "Optimization never ends worse than it started and reports what happened",
  "For every problem and option set, optimization terminates within the iteration bound, the cost it reports is the cost of the state it leaves behind, and under the policies that revert rejected steps (Levenberg-Marquardt, Dog-Leg) that state is never worse than the initial one. Linear problems are brought to their global minimiser, and a retry after a rejected step does not take a longer step. Inactive variables are untouched, and the reported counts of iterations and failures match those observed from outside.",
  ["inputs", "configurations", "fault_sequences"], "All problems, trust-region policies, linear solvers, thread counts, callbacks and injected numerical failures.",
  "Tests run single well-conditioned problems to convergence; rejected steps, failures of the linear solver and revert paths are rarely reached.",
  [AB+"src/Optimizer.cpp", AB+"src/Optimizer2.cpp", AB+"src/DogLegTrustRegionPolicy.cpp", AB+"src/LevenbergMarquardtTrustRegionPolicy.cpp", AB+"src/GaussNewtonTrustRegionPolicy.cpp"],
  [("revert of the last state update on cost increase", AB+"src"), ("trust region policies", AB+"src")],
  ["returned summary, design variable state, event log of updates/reverts/evaluations"],
  "Cost oracle evaluates the harness's own residual formulas; non-linear problems are drawn from families with and without multiple minima."),
P("C07", "Multi-threaded evaluation and assembly give the single-threaded result",
  "Evaluating the cost and assembling the linear system with any number of threads touches every error term exactly once and gives the same cost, gradient, Jacobian and step as with one thread, without data races. If an error term fails in a worker the failure reaches the caller; it neither kills the process nor is lost.",
  ["schedules", "configurations", "fault_sequences"], "All thread counts (also more than error terms), schedules, and error terms that throw.",
  "Unit tests use one schedule per run and mostly one thread; data races and lost or doubled work at partition borders need instrumented schedules and a race detector.",
  [AB+"src/LinearSystemSolver.cpp", AB+"src/BlockCholeskyLinearSystemSolver.cpp", AB+"src/JacobianBuilder.cpp", AB+"include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp", AB+"src/DenseQrLinearSystemSolver.cpp"],
  [("partition of error terms over worker threads", AB+"src/LinearSystemSolver.cpp")],
  ["per-error-term call log, ThreadSanitizer reports, resulting system"],
  "Schedules are perturbed by injected delays in error terms; race freedom is claimed for the schedules executed (ThreadSanitizer happens-before)."),
P("C08", "Problem bookkeeping: variables, error terms, containers stay consistent",
  "An optimization problem contains exactly the variables (each at most once) and error terms added and not removed, with every error term reachable from the variables it depends on and from no others. Setting, updating, reverting and saving or restoring design variable parameters behave as a state machine: revert restores exactly the state before the last update, and minimal differences invert updates. Jacobian containers accumulate chain-rule products exactly as dense matrices would.",
  ["histories", "inputs"], "All sequences of add/remove/update/revert operations and all chain-rule compositions.",
  "Tests cover one short fixed sequence; consistency after removal, repeated addition and nested chain rules depends on history.",
  [AB+"src/OptimizationProblem.cpp", AB+"src/SimpleOptimizationProblem.cpp", AB+"src/OptimizationProblemBase.cpp", AB+"src/DesignVariable.cpp", AB+"src/JacobianContainer.cpp", AB+"src/ErrorTerm.cpp"],
  [("error-term multimap keyed by design variable", AB+"src/OptimizationProblem.cpp"), ("map of design variable to accumulated Jacobian", AB+"src/JacobianContainer.cpp")],
  ["public accessors after every operation against a reference model"],
  "Reference models are sets/vectors/dense matrices in the harness."),
P("C09", "Marginalization keeps exactly the information about the remaining variables",
  "Marginalizing variables out of a problem yields a prior on the remaining ones whose cost, gradient and information equal (the cost up to a constant) those of the full problem minimised over the removed variables (its Schur complement). The prior's residual and derivative keep this relation at any later state of the remaining variables.",
  ["inputs", "histories"], "All linear-Gaussian problems, splits of variables, orders, and later states.",
  "Tests marginalize one small hand-made system; rank-deficient blocks, ordering and later relinearisation are not covered.",
  [AB+"src/Marginalizer.cpp", AB+"src/MarginalizationPriorErrorTerm.cpp", AB+"src/sparse_matrix_functions.cpp"],
  [("QR elimination of marginalized columns", AB+"src/Marginalizer.cpp")],
  ["prior error term value, Jacobian, covariance against dense Schur complement"],
  "Linear problems (marginalization is exact there); vector-valued variables."),
P("C10", "Sparse block matrices behave like the dense matrices they represent",
  "Every operation on sparse block matrices - block access, clone, transpose, addition, products with matrices, vectors and their upper-triangular variants, slicing, conversion - yields exactly what the same operation gives on the represented dense matrix, for any block structure and whatever the destination held before; the compressed column matrix follows the same rule through its appended Jacobians and diagonal. The Cholmod, QR and dense solvers return the solution of the symmetric system they are given, also when reused, report failure for a system with a zero pivot, and return the requested blocks of its inverse.",
  ["inputs", "histories"], "All block layouts (including empty rows, 1x1 blocks, rectangular) and operation sequences.",
  "Tests use three fixed layouts; wrong offsets for uneven or empty blocks and stale cached structure after repeated use need varied layouts.",
  [SBM+"include/aslam_sparse_block_matrix/implementation", SBM+"include/aslam_sparse_block_matrix"],
  [("row/column block index arithmetic", SBM+"include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp")],
  ["dense image after each operation"],
  "Dense oracle in the harness after every operation; AddressSanitizer watches block ownership."),
P("C11", "Expressions evaluate correctly and report exact derivatives",
  "Every expression built from scalar, vector, rotation, transformation, homogeneous-point and matrix design variables has the value of the mathematical expression it denotes. Its Jacobian with respect to every active design variable equals the derivative of that value along the variable's own update, also when a variable occurs several times or sits behind a chain-rule factor, and its set of design variables is exactly those occurring in it.",
  ["programs", "inputs"], "All expression trees over all node types and all operand values.",
  "Tests differentiate individual nodes at one random value; composed trees, shared sub-expressions and special values form an unbounded set of programs.",
  [ABX+"src", ABX+"include/aslam_backend_expressions"],
  [("evaluateJacobians of every node", ABX+"src")],
  ["toX values, JacobianContainer contents, design variable sets"],
  "Oracle: the harness evaluates a parallel tree with Eigen and central differences over design variable updates."),
P("C12", "B-spline evaluation, derivatives and integrals are exact",
  "A B-spline returns the value and derivatives of the piecewise polynomial defined by its knots and coefficients at every time of its domain, with continuity of all derivatives below the order at the knots. Coefficient Jacobians, local coefficient supports, integrals and quadratic motion-energy integrals equal those of that polynomial. Times outside the domain are refused.",
  ["inputs"], "All orders, knot sequences (non-uniform), coefficients, times including knots and end points, derivative orders.",
  "Tests compare against stored values for few uniform splines; knot boundaries, the final time and non-uniform knots are where indexing goes wrong.",
  [BS+"src/BSpline.cpp", BS+"include/aslam_bsplines/BSpline.hpp", BS+"src/DiffManifoldBSpline.cpp"],
  [("basis matrices and time-to-segment lookup", BS+"src/BSpline.cpp")],
  ["returned values, Jacobians, integrals against an independent de Boor evaluation"],
  "Oracle: recursive Cox-de Boor basis in the harness (long double), Gauss quadrature for integrals."),
P("C13", "B-spline construction and growth interpolate and never change the past",
  "Initialising a spline from two samples gives the straight line between them; initialising from many samples gives the least-squares curve for the documented cost (sample residuals plus the weighted smoothness term). Adding a segment meets the new sample at the new end time and the old end value at the old end time, and leaves every coefficient but the last, and all earlier knots, unchanged (so on uniform knots the past curve is unchanged); removing a segment keeps the rest of the curve; the smoothing variant of growth minimises its documented weighted cost. Setting coefficients changes only the part of the curve they support, and invalid knot sequences, times, sizes or indices are refused with the spline left as it was.",
  ["histories", "inputs"], "All construction data and sequences of add/remove/set operations.",
  "Tests build a spline once and look at two points; preservation of the past must hold for every history of extensions.",
  [BS+"src/BSpline.cpp", BS+"include/aslam_bsplines"],
  [("constrained solve for new control vertices", BS+"src/BSpline.cpp")],
  ["evaluations on dense grids before and after every operation"],
  "Sampling grid of the domain; reference values recorded before every operation."),
P("C14", "Pose splines and spline expressions describe one consistent motion",
  "A pose spline's position, orientation, velocities, accelerations and angular rates are the derivatives of the pose it returns, and its Jacobians with respect to coefficients are exact. Spline design variables give expressions with the same values and exact derivatives, for every time in the domain, including time-offset-dependent expressions within their buffer; times outside are refused. Motion error terms cost exactly the weighted integral of the squared spline derivative, as one term (with its Hessian and gradient) or split over segments.",
  ["inputs", "histories"], "All pose splines, rotation parameterizations, times and updates of coefficients.",
  "Tests check one spline at a few times; frame conventions and sign errors show only when rotation and rates are both generic.",
  [BS+"src/BSplinePose.cpp", SP+"src", SP+"include/aslam_splines"],
  [("analytic rate formulas in terms of rotation parameters", BS+"src/BSplinePose.cpp")],
  ["returned quantities against numeric differentiation in time and coefficients"],
  "Central differences in time and coefficients; smooth generic motions away from rotation-vector wrap."),
P("C15", "Time arithmetic is exact and clock correction never lies about ordering",
  "Times and durations behave as integers of nanoseconds: addition, subtraction, comparison, conversion and normalisation agree with exact arithmetic over the whole representable range, and out-of-range values are refused, not wrapped. Conversions between seconds and nanoseconds round-trip to the nearest nanosecond. Remote timestamps corrected to the local clock lie on the line that supports the lower convex hull of all observations at the middle of the observed remote interval: never after local receipt, never above any observation, in the order of the remote times, and exact for a constant offset and drift; remote times that do not increase are refused. Timers report the number, total, mean and extremes of exactly the intervals they measured.",
  ["inputs", "histories"], "All time values, sequences of operations and sequences of received timestamps.",
  "Tests check a few values near zero; carries, negative durations, range limits and long timestamp histories are not sampled.",
  ["aslam_cv/aslam_time/src", "aslam_cv/aslam_time/include/aslam_time", SM+"sm_timing/src", SM+"sm_timing/include/sm_timing"],
  [("sec/nsec normalisation", "aslam_cv/aslam_time/src"), ("convex hull of timestamps", SM+"sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp")],
  ["returned values against 128-bit integer arithmetic / brute-force hull"],
  "Oracle: __int128 arithmetic; O(n^2) hull in the harness."),
P("C16", "Serialized objects come back equal",
  "Saving any calibration-related object - cameras, frames, keypoints, transformations, uncertain points, splines, times, matrices - and loading it again gives an object equal to the original in every observable value, through every supported archive format (text and XML may refuse non-finite numbers), whatever the loaded-into object held before. Loading a truncated archive, or one whose stored sizes, types or enumerations are impossible, fails with an error and never crashes or reads out of bounds.",
  ["inputs", "crash_points"], "All object values (special floating point values included), archive formats and truncation points.",
  "Tests save and load one default object per type; missing or swapped fields with equal default values and truncated files stay invisible.",
  [SM+"sm_boost/src", SM+"sm_boost/include/sm_boost", SM+"sm_eigen/include/sm_eigen/serialization.hpp", CAM+"include", "aslam_cv/aslam_time/include/aslam_time"],
  [("serialize member functions", CAM+"include"), ("portable binary archive encoding", SM+"sm_boost/src")],
  ["objects after load, exceptions on corrupted bytes"],
  "Field-wise comparison through public accessors; archives are truncated/mutated in memory."),
P("C17", "Matrix archives and property trees store and return exactly what was put in",
  "A matrix archive written to disk and read back contains exactly the same names and matrices, amended archives keep the untouched entries, a name refers to one entry, and truncated files or files with malformed markers, names or sizes are refused with an exception, without crashing and without damaging entries the file does not name; incomplete writes are reported. Property trees return every value under the key it was set with its type, across save and load, children and prefixes; missing or ill-typed values are errors or give the stated default, reading a constant tree never changes it, and objects configured from a tree (cameras, optimizers) have exactly the values of the tree.",
  ["inputs", "crash_points", "histories"], "All names, matrix sizes and values, operation sequences, and corrupted or truncated files.",
  "Tests write one file; corrupted lengths, truncation at every byte and unusual names need systematic fault injection.",
  [SM+"sm_matrix_archive/src/MatrixArchive.cpp", SM+"sm_property_tree/src"],
  [("block magic, sizes and end markers", SM+"sm_matrix_archive/src/MatrixArchive.cpp"), ("key namespace resolution", SM+"sm_property_tree/src")],
  ["contents after load; exceptions"],
  "Faults: truncation at every byte and single-byte corruption of small files, in a scratch directory."),
P("C18", "Job queue and logging neither lose, duplicate nor tear work under threads",
  "Every job handed to the job queue runs exactly once, waiting returns only after all scheduled jobs (and the jobs they scheduled) finished, their effects are visible to the waiter, a future returns its job's value or exception, and stopping, joining or destroying the queue always terminates, after the running jobs and without running a pending one twice. Log messages from concurrent threads are each delivered exactly once, untorn and one at a time, with their level, stream, origin and time; level, stream, condition, once and throttle filters decide exactly which are delivered, formats print exactly their tokens, and all of it is free of data races and deadlocks, also while levels, streams and the logger change.",
  ["schedules", "histories", "configurations"], "All thread counts, interleavings of schedule/wait/finish, log levels and streams.",
  "Tests run single-threaded; lost wake-ups, deadlock at shutdown and races need many schedules under a race detector.",
  [SM+"sm_boost/src/JobQueue.cpp", SM+"sm_boost/include/sm_boost/JobQueue.hpp", SM+"sm_logging/src"],
  [("queue mutex and condition variables", SM+"sm_boost/src/JobQueue.cpp"), ("static registration of log locations under a mutex", SM+"sm_logging/src/LoggingGlobals.cpp")],
  ["event log of job execution; captured log events; ThreadSanitizer"],
  "Race freedom for executed schedules; delays injected in jobs."),
P("C19", "Calibration targets: geometry is right and detections name the right corners",
  "Each calibration target gives grid points at the configured geometry, with consistent index and coordinate mappings, and observations report exactly the corners observed in their own image. Pose estimation and camera initialisation from exact corners recover the pose and the intrinsics, and corner filtering drops exactly the outliers its documented threshold names. Tags rendered from any code of the family at any pose are detected with the right identity, and corners are located to sub-pixel accuracy; no code is decoded as another, up to the family's error-correction distance, and images without tags yield none.",
  ["inputs", "configurations"], "All target sizes and spacings, all tag identities, viewing poses, noise and corrupted bits.",
  "Tests decode a couple of stored situations; identity confusion shows only for specific codes, rotations or bit errors.",
  [CAM+"src/GridCalibrationTargetBase.cpp", CAM+"src/GridCalibrationTargetObservation.cpp", "aslam_cv/aslam_cameras_april/src", "aslam_offline_calibration/aslam_apriltag2"],
  [("tag family code search with Hamming distance", "aslam_offline_calibration/aslam_apriltag2/src")],
  ["ids and corners against the rendering ground truth"],
  "Synthetic images rendered by the harness; accuracy bounds chosen from image resolution."),
P("C20", "Undistortion maps every pixel to the ray the camera model says",
  "An undistorted image produced for any camera model contains, at every output pixel, the intensity the original camera sees along the ray the idealised output camera assigns to that pixel. The output camera's intrinsics and resolution follow the requested scale and field options: alpha 0 keeps only valid pixels, alpha 1 keeps every source pixel. Undistorters made from a configuration are of the type named; overlap masks mark exactly the pixels the other camera sees.",
  ["inputs", "configurations"], "All cameras, distortions, resolutions and scaling options.",
  "Tests construct undistorters for one camera; off-by-one, swapped axes and scale errors show only with asymmetric cameras.",
  ["aslam_cv/aslam_imgproc/src", "aslam_cv/aslam_imgproc/include"],
  [("remap tables from idealised to distorted pixels", "aslam_cv/aslam_imgproc/include")],
  ["remapped images against direct ray projection"],
  "Intensity patterns that encode pixel coordinates."),
P("C21", "Incremental calibration keeps its problem equal to the batches accepted",
  "After any sequence of adding and removing batches, the incremental problem contains exactly the variables and error terms of the batches present, each shared variable once, with groups and orderings consistent. A refused batch, and a saved and restored problem, leave every variable and term as it was; permuting containers does exactly what the permutation says. The statistics and geometry helpers (grids, histograms, distributions, estimators, matrix covariance, transformations) return the values their mathematical definitions prescribe, and invalid arguments are refused.",
  ["histories", "inputs"], "All sequences of batch operations, and all parameters of the statistical functions.",
  "Tests add and remove two batches; consistency for shared variables under arbitrary removal order needs random histories.",
  [IC+"src", IC+"include/aslam_incremental_calibration"],
  [("reference counts of shared design variables", IC+"src/core/IncrementalOptimizationProblem.cpp")],
  ["public accessors after every operation"],
  "Reference model in the harness; the estimator front end itself is not compiled in this sandbox."),
P("C22", "Measurement error terms compute the right residual, weight and derivative",
  "Each sensor measurement error term - reprojection in its variants (with and without camera variables, rolling-shutter covariance), gyroscope, accelerometer (including misalignment, scale and lever arms), Euclidean - reports the difference of measurement and prediction the sensor model prescribes, a squared error weighted by exactly the configured inverse covariance and robust weight, lists exactly the variables it depends on, and gives Jacobians (raw and weighted) equal to the derivative of that residual with respect to all of them.",
  ["inputs", "configurations"], "All states, measurements, covariances, camera models and robust policies.",
  "Tests check derivatives for one camera with identity covariance; weighting, sign and asymmetric covariance errors do not show.",
  ["aslam_cv/aslam_cv_error_terms", "aslam_cv/aslam_cv_backend", "aslam_offline_calibration/kalibr/include", "aslam_offline_calibration/kalibr/src", AB+"include/aslam_backend/backend/ErrorTerm.hpp", SP+"include"],
  [("square-root inverse covariance weighting", AB+"include/aslam_backend/backend/implementation")],
  ["error vector, evaluated squared error, Jacobian container"],
  "Independent recomputation of the prediction with the harness's own formulas."),
P("C23", "Matrices cross between Python and C++ unchanged",
  "Every matrix or vector passed from Python to C++ or back through the exported modules keeps its shape, element order and values, for every supported element type, memory layout and stride; arrays of incompatible shape or type are refused with a TypeError. Arguments are left untouched and results own their memory. Every exported function, constructor, operator and accessor of the kinematics module - each of its overloads - can be called from Python and returns what the C++ counterpart returns, of the same kind and with its uncertainty.",
  ["inputs", "configurations"], "All exported matrix types, shapes, strides, memory orders, element types.",
  "Tests pass contiguous random arrays; strided, transposed, reversed, zero-size and mixed-type arrays need systematic enumeration.",
  [SM+"sm_numpy_eigen/include", SM+"sm_numpy_eigen/src", SM+"sm_python"],
  [("type and stride checks of the converter", SM+"sm_numpy_eigen/include")],
  ["arrays returned by identity-like exported functions"],
  "The modules are compiled from the tree into a sanitized process with an embedded interpreter; only the conversion and kinematics modules are exercised. Integers beyond the range of the target type, arrays of more than 2^31 elements per axis and bounded-size (MaxRows) types are outside."),
P("C24", "Configuration files describe exactly the sensors calibrated",
  "A camera, IMU, target or camera-chain description written to a file and read back is the same description, and the cameras, noise figures and calibration targets built from it have exactly the models, parameters and sizes it states (discrete noise is density times the square root of the rate). A missing, unreadable or malformed file and an invalid or missing value are refused with an error that names it, and a refused change leaves the description as it was. Extrinsics, time shifts and overlaps belong to the camera they were set for; printed reports go where they were directed; the result file of a calibration describes the calibrated cameras.",
  ["inputs", "configurations", "histories"], "All camera and distortion models, targets, IMU noise figures, chain lengths, and invalid values of every field.",
  "No test runs the Python front end; it is imported by nothing the tests execute.",
  [KP+"kalibr_common/ConfigReader.py", KP+"kalibr_common/TargetExtractor.py", KP+"kalibr_camera_calibration/CameraUtils.py"],
  [("YAML fields validated on read and write", KP+"kalibr_common/ConfigReader.py")],
  ["public accessors, files, and the constructor arguments received by stand-ins of the compiled camera classes"],
  "The compiled modules cannot be imported here: the harness replaces them by stand-ins that only offer the names the real modules export and record what they are given.")
]
