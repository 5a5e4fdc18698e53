"""Per property: workload parts (harness, repository packages, sanitizer variant) and what makes a case non-trivial."""
KIN = ["sm_kinematics", "sm_random"]
BE = ["sm_random", "sm_timing", "sm_logging", "sm_property_tree", "aslam_sparse_block_matrix", "aslam_backend"]
import os
SPL = BE + ["aslam_backend_expressions", "sm_kinematics", "aslam_bsplines", "aslam_splines"]
BS = ["sm_random", "sm_timing", "sm_logging", "sm_kinematics", "aslam_sparse_block_matrix", "aslam_bsplines"]
SHIM = ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "shim")]   # forwarding headers for include paths that no longer exist
BEX = BE + ["aslam_backend_expressions", "sm_kinematics"]
APRIL = ["aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp"] + ["aslam_offline_calibration/aslam_apriltag2/src/%s.cc" % x for x in ['Edge', 'FloatImage', 'GLine2D', 'GLineSegment2D', 'Gaussian', 'GrayModel', 'Homography33', 'MathUtil', 'Quad', 'Segment', 'TagDetection', 'TagDetector', 'TagFamily', 'UnionFindSimple']]
CAMS = ["sm_random", "sm_timing", "sm_logging", "sm_property_tree", "sm_kinematics", "sm_boost", "sm_opencv", "aslam_time", "aslam_cameras"]
_SM = os.path.join(os.environ.get("VF_REPO", "/repo"), "Schweizer-Messer")
PY = ["-I/usr/include/python3.12", "-I/usr/lib/python3/dist-packages/numpy/core/include", "-I%s/sm_numpy_eigen/include/sm_numpy_eigen" % _SM, "-I%s/sm_numpy_eigen/src/autogen_module" % _SM, "-I%s/sm_python/src" % _SM]
CHECKS = {
 "C01": {"parts": [{"name": "rot", "harness": ["kin_rot.cpp"], "packages": KIN}],
  "rule": "Seeded generators draw quaternions, rotation vectors (zero, tiny, series switch-over, quarter turn, near and at half turn), Euler angles (near and at gimbal lock), composed matrices with rounding, and point sets; a case is non-trivial when its input differs bit-wise from every earlier one and is not the zero rotation."},
 "C02": {"parts": [{"name": "tf", "harness": ["kin_tf.cpp"], "packages": KIN}],
  "rule": "Seeded random poses (generic, near-identity and half-turn rotations, large translations), increments, covariances (including near-singular), homogeneous points (w of either sign, zero, one) and interpolation parameters inside and outside the interval; a case is non-trivial when its input differs bit-wise from every earlier one."},
 "C05": {"parts": [{"name": "solvers", "harness": ["be_solvers.cpp"], "packages": BE}],
  "rule": "Seeded random sparse problems (1-14 vector variables, some inactive or scaled, full-covariance linear/non-linear error terms with robust policies) and histories of evaluate/build/solve/condition/re-initialise with 0-9 threads per solver; a case is non-trivial when its problem differs bit-wise from every earlier one."},
 "C06": {"parts": [{"name": "optimizers", "harness": ["be_optim.cpp"], "packages": BE}],
  "rule": "Seeded random problems as for C05 (with starts far from the solution and amplified non-linearity to provoke rejected steps), every solver x policy pair, thread counts, tolerances and iteration limits, injected solver failures, unobserved variables, undefined cost regions, starts at the optimum, and the original optimizer with and without the Schur complement; a case is non-trivial when its problem differs bit-wise from every earlier one."},
 "C07": {"parts": [{"name": "tsan", "harness": ["be_threads.cpp"], "packages": BE, "variant": "tsan"},
                     {"name": "asan", "harness": ["be_threads.cpp"], "packages": BE}],
  "rule": "Seeded random problems evaluated and assembled with 0 to 16 threads (and more threads than error terms) by every solver under injected delays (none, uniform, stragglers, yields), with failing error terms in the error or Jacobian phase, without error terms, and whole optimizations; built with ThreadSanitizer and with AddressSanitizer. A case is non-trivial when its problem differs bit-wise from every earlier one; distinct assignments of error terms to threads are counted."},
 "C08": {"parts": [{"name": "bookkeeping", "harness": ["be_problem.cpp"], "packages": BEX, "extra": SHIM}],
  "rule": "Seeded random histories of add/remove/clear/activate on both problem classes with owned, shared and borrowed objects; of add/merge/chain-rule/clear on Jacobian containers with up to 8 variables; and of update/revert/set/save/restore on all 18 design variable kinds; a case is non-trivial when its history differs from every earlier one."},
 "C09": {"parts": [{"name": "marginalization", "harness": ["be_marg.cpp"], "packages": BEX, "extra": SHIM}],
  "rule": "Seeded random linear, non-linear, robust and manifold problems (2-7 variables, scaled variables, unobserved parts), every split point, later states, chained marginalizations and optimizations with the prior; sparse Schur complements with and without damping; a case is non-trivial when its problem differs bit-wise from every earlier one."},
 "C10": {"parts": [{"name": "blockmatrix", "harness": ["sbm.cpp"], "packages": BE}],
  "rule": "Seeded random block layouts (1-7 blocks of 1-6, fixed 3x3 and 2x3 blocks, empty rows and columns, all densities) under random histories of 18 operations, systems (definite, indefinite, exactly singular, badly scaled) solved by every solver with repeated use, and histories on the compressed column matrix; a case is non-trivial when its matrices and operations differ bit-wise from every earlier one."},
 "C11": {"parts": [{"name": "expressions", "harness": ["expr.cpp", "expr_gen.cpp", "expr_quat.cpp"], "packages": BEX, "extra": SHIM}],
  "rule": "Seeded random trees (up to 24 operations over shared sub-expressions, repeated and inactive variables, random chain-rule matrices) over every compiled node type of scalar, Euclidean, rotation, transformation, homogeneous, matrix, generic matrix (9 shapes), quaternion (4 conventions, 2 geometries) and generic scalar expressions, re-checked after the variables moved; error terms on them; fixed-point numbers; a case is non-trivial when its variables and expressions differ from every earlier one."},
 "C12": {"parts": [{"name": "evaluation", "harness": ["bspline_eval.cpp"], "packages": BS}],
  "rule": "Seeded random splines (orders 2-7, 1-13 segments, uniform, uneven, strongly uneven, clamped and repeated knots, shifted and scaled times) evaluated at interior times, knots, their floating-point neighbours and both ends for all derivatives up to order+1, integrated between random bounds, and probed outside their domain; a case is non-trivial when knots and coefficients differ bit-wise from every earlier one."},
 "C13": {"parts": [{"name": "construction", "harness": ["bspline_build.cpp"], "packages": BS}],
  "rule": "Seeded random constructor calls (orders 2-6, all six constructors, interpolating and over-/under-sampled smoothing, uneven sample times and knots, onto fresh and used splines) and random histories of growing, shrinking, coefficient writes and refused operations; a case is non-trivial when its samples or spline differ bit-wise from every earlier one."},
 "C14": {"parts": [{"name": "posespline", "harness": ["pose_spline.cpp"], "packages": SPL, "extra": SHIM}],
  "rule": "Seeded random pose splines (orders 2-6, three rotation parameterisations, identity and moderate rotations, uniform and uneven knots) at interior times, knots and both ends; pose, vector and Euclidean spline design variables before and after growing and shrinking with inactive variables, expressions of unknown time inside and outside their buffers; motion errors of random weight and order with permuted and inactive variables; a case is non-trivial when knots and coefficients differ bit-wise from every earlier one."},
 "C03": {"parts": [{"name": "projection", "harness": ["cam_proj.cpp"], "packages": CAMS}],
  "rule": "Seeded random cameras (10 projection x distortion combinations; intrinsics, principal point, resolution and distortion strength drawn at random, coefficients also zero) with points on the axis, near it, in axis planes, anywhere on the sphere and at chosen radii up to the folding limit of the distortion; border, non-finite and extreme pixels and points; resized cameras; random masks with random scales; a case is non-trivial when its camera differs bit-wise from every earlier one."},
 "C04": {"parts": [{"name": "jacobians", "harness": ["cam_jac.cpp"], "packages": CAMS}],
  "rule": "Seeded random cameras (10 projection x distortion combinations, global and rolling shutter) and points as for C03; every Jacobian in its fixed-size and virtual form, for all eight selections of projection, distortion and shutter; histories of six reads, updates and writes of the selected parameters, after which the camera is compared with one constructed with the new values; distortions on their own including their centre; a case is non-trivial when its camera differs bit-wise from every earlier one."},
 "C15": {"parts": [{"name": "time", "harness": ["c15_time.cpp"], "packages": ["aslam_time", "sm_timing"]}],
  "rule": "Seeded random times, durations, factors and decimal seconds over the whole range (limits, carries, negatives, non-finite and out-of-range values included); histories of up to 60 remote timestamps (exact lines, one-sided and heavy-tailed delays, arbitrary) in double and 64-bit integer time, checked after every observation against a brute-force hull; histories of timers; a case is non-trivial when its values differ from every earlier one."},
 "C16": {"parts": [{"name": "serial", "harness": ["serial_basic.cpp", "serial_cam.cpp", "serial_frame.cpp"], "packages": CAMS,
   "repo_files": ["aslam_cv/aslam_cv_serialization/src/autogen/Camera-%sCameraGeometry.cpp" % c for c in ("DistortedPinhole", "MaskedEquidistantDistortedPinholeRs", "ExtendedUnified", "MaskedDistortedOmni", "DoubleSphere")]}],
  "rule": "objects are observed through public accessors (bit-exact values, shapes, flags, ids), saved to text, XML and binary Boost archives and (Eigen, basic types, frames) the portable binary archive, loaded into fresh and into used objects, and observed again; truncated archives at every/random byte must throw; field-corrupted shapes, images and enums must be refused; file helpers round trip through a scratch directory. Evaluations are hashes of the saved archive; distinct values counted."},
"C17": {"parts": [{"name": "archive", "harness": ["c17_archive.cpp", "c17_config.cpp"], "packages": CAMS + ["aslam_sparse_block_matrix", "aslam_backend", "sm_matrix_archive"]}],
  "rule": "Random histories of archive operations mirrored in reference maps and compared through every accessor; saved bytes against an independently written encoder; archives cut at every byte, with corrupted markers, names, sizes and random bytes; random property trees (namespaces, children, defaults, typed reads) in memory and through XML, INFO and INI files, truncated and corrupted; cameras of all 27 configurable types and optimizer options built from trees with and without each key. A case is non-trivial when its content hash differs from every earlier one."},
"C18": {"parts": [{"name": "tsan", "harness": ["c18_log.cpp", "c18_jobs.cpp"], "packages": ["sm_common", "sm_boost", "sm_logging"], "variant": "tsan", "timeout": 100}, {"name": "asan", "harness": ["c18_log.cpp", "c18_jobs.cpp"], "packages": ["sm_common", "sm_boost", "sm_logging"], "timeout": 100}],
  "technique": "ThreadSanitizer and AddressSanitizer runs of the real job queue and logging macros with random thread counts, injected delays, nested producers and reconfiguration, judged by online monitors over the recorded start/finish and delivery events (exactly-once, visibility, serialisation, filtering model)",
  "rule": "Job queues with 1-8 workers, 1-4 producers, nested and late scheduling, futures, and the shutdown paths; every job records start and end on a shared clock; TSan reports unsynchronised effects and a stalled run is reported as a hang. Logging: every generated macro of every level against a filtering model, formats against an independent rendering, concurrent logging with reconfiguration."},
 "C20": {"parts": [{"name": "undistort", "harness": ["c20_undistort.cpp"], "packages": CAMS + ["aslam_imgproc"], "repo_files": ["aslam_cv/aslam_imgproc/src/calculateOverlappingFov.cpp"]}],
  "rule": "random asymmetric cameras (pinhole with three distortions, omnidirectional, plain) undistort an image whose pixels hold their own coordinates; every output pixel is compared with the long double projection, by the original camera, of the ray the ideal camera assigns to it, for five interpolations, alpha in [0,1] and scales 0.3 to 2.2; black outside; the intrinsics are compared with inscribed and circumscribed rectangles found by inverting the distortion along the image border; scaled copies, factory types, frames and overlap masks likewise"},
"C21": {"parts": [{"name": "problem", "harness": ["c21_problem.cpp"], "packages": BE + ["aslam_incremental_calibration"]},
                      {"name": "statistics", "harness": ["c21_stats.cpp"], "packages": BE + ["aslam_incremental_calibration"]}],
  "rule": "histories of adding, removing, refusing, saving, restoring, permuting and clearing batches of randomly shared variables are replayed on a reference model which is compared through the public accessors after every step; grids, histograms, distributions, estimators, special functions, samplers, covariance from a triangular factor and transformations are compared with long double definitions, quadrature, moments and algebraic laws; everything runs under address and undefined-behaviour sanitizers"},
 "C19": {"parts": [{"name": "target", "harness": ["c19_target.cpp"], "packages": sorted(set(BEX + CAMS)), "repo_files": APRIL + ["aslam_cv/aslam_cv_backend/src/GridCalibrationTargetDesignVariableContainer.cpp"]}, {"name": "tags", "harness": ["c19_tags.cpp"], "packages": sorted(set(CAMS)), "repo_files": APRIL}],
  "rule": "Part target: random boards (checkerboard, circle grids, aprilgrid), observations, target containers, eight camera models: grid geometry and index maps, the corners an observation holds, pose estimation and corner filtering of the grid detector on projected corners, intrinsics initialisation of every projection, circle intersection. Part tags: every code of the five tag families turned four ways with single-bit and multi-bit damage, code separation, decoding of random words, and tags, blank scenes, aprilgrids, checkerboards and circle grids rendered by the harness at random poses, sizes, noise and lighting (also inside a larger image), with detected identities and corners compared with the rendering; the detector's geometric helpers against closed forms."},
"C22": {"parts": [{"name": "terms", "harness": ["c22_err.cpp"], "packages": sorted(set(SPL + CAMS)), "extra": SHIM, "repo_files": ["aslam_offline_calibration/kalibr/src/%s.cpp" % x for x in ("EuclideanError", "AccelerometerError", "GyroscopeError")]}],
  "rule": "Random states, measurements, covariances, camera models (pinhole, omni, EUCM, double sphere with all distortions, global and rolling shutter), activity patterns and aliased variables; every error term is evaluated and compared with an independent long-double sensor model: residual, squared error under the configured weight, set of variables, derivative by differences along each variable's own update; the rolling-shutter weight with the differentiated trajectory."},
 "C23": {"parts": [{"name": "python", "harness": ["c23_numpy.cpp"] + ["c23_conv_%s.cpp" % r for r in "123456D"] + ["c23_sm%d.cpp" % i for i in (1, 2, 3, 4)], "packages": ["sm_random", "sm_timing", "sm_logging", "sm_property_tree", "sm_kinematics", "sm_matrix_archive", "sm_boost"], "extra": PY, "libs": ["-lboost_python312", "-lpython3.12"], "env": {"PYTHONMALLOC": "malloc"}}],
  "rule": "An interpreter embedded in a sanitized process loads the conversion module and the kinematics module compiled from the tree. Part one hands arrays of every element type to an identity function of each of the 245 registered matrix types, in thirteen memory layouts (C and Fortran order, strided, reversed, repeated, transposed, record fields, misaligned, foreign byte order, read-only, subclasses, sub-blocks), and compares what C++ received and what came back with numpy's own view of the array; wrong shapes, ranks, element types and objects must raise TypeError; reference counts and inputs must not change. Part two calls every exported function, constructor, operator and accessor and compares with the C++ counterpart."},
 "C24": {"parts": [{"name": "config", "python": "pyfront", "harness": "c24_config.py"}],
  "technique": "runtime monitoring of the real Python front end, executed with recording stand-ins for its compiled modules under seeded random, invalid and adversarial configurations; every accessor, file and constructor call is compared online with an independent model",
  "rule": "Random camera, IMU, target and chain descriptions of every model and target type, valid and with each field missing, of the wrong type or out of range; histories of reads and writes of each field; files that are missing, empty, not mappings or unwritable; result files of random chains; a case is non-trivial when its description differs from every earlier one."},
}
