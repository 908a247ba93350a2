"""What each check compiles and how its evidence describes the cases."""

NON_LIB = {"dummy.cpp", "run_simulation.cpp", "run_subscribe_msckf.cpp", "ros1_serial_msckf.cpp", "test_sim_meas.cpp", "test_sim_repeat.cpp",
           "test_dynamic_init.cpp", "test_dynamic_mle.cpp", "test_simulation.cpp", "test_profile.cpp", "test_webcam.cpp", "test_tracking.cpp",
           "error_comparison.cpp", "error_dataset.cpp", "error_simulation.cpp", "error_singlerun.cpp", "format_converter.cpp",
           "plot_trajectories.cpp", "pose_to_file.cpp", "live_align_trajectory.cpp", "timing_comparison.cpp", "timing_flamegraph.cpp",
           "timing_histogram.cpp", "timing_percentages.cpp"}

_C = "ov_core/src/"
_M = "ov_msckf/src/"
_I = "ov_init/src/"
_E = "ov_eval/src/"
REPO_GROUPS = {
    "print": [_C + "utils/print.cpp"],
    "types": [_C + "types/Landmark.cpp"],
    "feat": [_C + "feat/Feature.cpp", _C + "feat/FeatureDatabase.cpp"],
    "finit": [_C + "feat/FeatureInitializer.cpp"],
    "cpi": [_C + "cpi/CpiV1.cpp", _C + "cpi/CpiV2.cpp"],
    "bspline": [_C + "sim/BsplineSE3.cpp"],
    "track": [_C + "track/TrackBase.cpp", _C + "track/TrackKLT.cpp", _C + "track/TrackDescriptor.cpp", _C + "track/TrackAruco.cpp",
              _C + "track/TrackSIM.cpp"],
    "state": [_M + "state/State.cpp", _M + "state/StateHelper.cpp"],
    "prop": [_M + "state/Propagator.cpp"],
    "uhelper": [_M + "update/UpdaterHelper.cpp"],
    "uvis": [_M + "update/UpdaterMSCKF.cpp", _M + "update/UpdaterSLAM.cpp"],
    "uzupt": [_M + "update/UpdaterZeroVelocity.cpp"],
    "sim": [_M + "sim/Simulator.cpp"],
    "vio": [_M + "core/VioManager.cpp", _M + "core/VioManagerHelper.cpp"],
    "init": [_I + "dynamic/DynamicInitializer.cpp", _I + "static/StaticInitializer.cpp", _I + "init/InertialInitializer.cpp",
             _I + "ceres/Factor_ImuCPIv1.cpp", _I + "ceres/Factor_GenericPrior.cpp", _I + "ceres/Factor_ImageReprojCalib.cpp",
             _I + "ceres/State_JPLQuatLocal.cpp"],
    "ceresf": [_I + "ceres/Factor_ImuCPIv1.cpp", _I + "ceres/Factor_GenericPrior.cpp", _I + "ceres/Factor_ImageReprojCalib.cpp", _I + "ceres/State_JPLQuatLocal.cpp"],
    "eval": [_E + "alignment/AlignTrajectory.cpp", _E + "alignment/AlignUtils.cpp", _E + "calc/ResultTrajectory.cpp", _E + "utils/Loader.cpp"],
}

CHECKS = {}
CHECKS["C07"] = dict(harness=["C07.cpp"], repo=[], libs=[],
    rule="rotation vectors from five angle classes (ordinary, tiny log-uniform 1e-12..1e-2, near half-turn, quarter turns, beyond pi) about random and axis directions, "
         "both quaternion signs, rigid translations up to 20 m, Euler angles incl. near and exact gimbal lock; non-trivial = rotation differs from identity")
CHECKS["C06"] = dict(harness=["C06.cpp"], repo=[], libs=["core"],
    rule="intrinsics from the calibrations shipped with the repository (exact or perturbed) or random realistic ones, both lens models, optionally re-set online; rays over the "
         "invertible field of view incl. exactly and nearly at the image centre and at the border; non-trivial = ray off the centre",
    assumptions=["field of view limited to radial stretch >= 0.25 (fisheye 0.5), fisheye angle <= 1.2 rad and distorted radius <= 1.55, pinhole radius <= 1.25",
                 "inverse of the radial-tangential model is only required to be as accurate as five fixed-point steps"])
CHECKS["C08"] = dict(harness=["C08.cpp"], repo=["types"], libs=[],
    technique="stateful property-based testing (rapidcheck) against a model of the variable types",
    rule="histories of 1-40 set / set-first-estimate / correct / index / clone / clone-of-part operations over 1-8 live variables of every type, all views of all variables compared "
         "with a model after each step (non-trivial = a correction after a clone); landmark positions over 0.3-100 m in all six representations")
CHECKS["C12"] = dict(harness=["C12.cpp"], repo=["feat", "print"], libs=["core"],
    technique="stateful property-based testing (rapidcheck) against a map model of the feature store",
    rule="histories of 1-60 operations (insert frames, look up, three time queries with/without removal and skip flags, mark, clean-up, trimming, per-feature trimming, merge of a second "
         "store) over 7 ids x 3 cameras; whole content compared after each step; non-trivial = at least one removal, one query hit and one trimmed measurement")
CHECKS["C13"] = dict(harness=["C13.cpp"], repo=["feat", "print"], libs=["core"],
    rule="random sparse tracks of 0-21 features in 1-3 cameras over up to 8 times; two-frame disparity for random frame pairs and track disparity for random open/closed bounds; "
         "non-trivial = at least two displacements in one of the two statistics")
CHECKS["C16"] = dict(harness=["C16.cpp"], repo=["uhelper", "state", "types", "print"], libs=["core"],
    rule="feature Jacobians with 1-4 columns and up to 40 extra rows (weak directions, zero rows, rank-deficient), state Jacobians dense / block-sparse / zero rows and columns / low rank / "
         "already triangular with column scales over six decades; compression of systems with fewer, equal and more rows than columns; non-trivial = rows were removed")
CHECKS["C14"] = dict(harness=["C14.cpp"], repo=["bspline", "print"], libs=["core"],
    rule="trajectories of 2-40 poses (random walk, constant twist, standing still; even or uneven spacing 5 ms - 3 s; start time 0, negative, ordinary or unix time) queried inside, at knots, at "
         "and beyond both ends; non-trivial = at least one answered query compared with the reference spline",
    assumptions=["rotation between consecutive control poses at most 2.6 rad (the logarithm's domain)"])
CHECKS["C04"] = dict(harness=["C04.cpp"], repo=["prop", "state", "types", "print"], libs=["core"],
    rule="streams of 2-120 readings at 20-400 Hz (regular, jittered, with dropped and with duplicated readings, times from 0.5 s to unix time); intervals inside the stream with ends on, next to and "
         "between readings, incl. the first and last reading; discard histories with a non-decreasing oldest needed time; non-trivial = at least one stored reading inside the interval / at least "
         "one reading discarded",
    assumptions=["interval ends are exactly on a reading or more than 2e-12 s away from one", "readings are fed in time order; for discarding, gaps stay below the 0.1 s of slack the code keeps"])
CHECKS["C28"] = dict(harness=["C28.cpp"], repo=[], libs=[],
    technique="stateful property-based testing (rapidcheck) against long-double definitions",
    rule="histories of 1-8 append / clear / reorder / recompute steps over series of 0-200 values (signed, absolute, small integers with ties, constant, outliers, sorted; scales 1e-3 to 1e4 with "
         "offsets); non-trivial = several values and more than one computation",
    assumptions=["the percentile summary is the documented normal approximation mean + 2.326 standard deviations", "values are finite", "the standard deviation of a single value is 0"])
CHECKS["C26"] = dict(harness=["C26.cpp"], repo=["eval", "print"], libs=["core"],
    rule="trajectories of 1-60 poses (random, walk, planar, horizontal, nearly collinear; far from the origin), six methods incl. one-pose calls, exact or noisy transformed copies with either "
         "quaternion sign; associations of 0-40 jittered, denser or sparser time series with offsets; non-trivial = transform not the identity / some but not all poses paired",
    assumptions=["'number of poses to use' is only exercised as all and one"])
CHECKS["C27"] = dict(harness=["C27.cpp"], repo=["eval", "print"], libs=["core"],
    rule="estimate and ground-truth files of 4-60 poses (walks in 3d or in a plane, pauses; rates with missing and unpaired poses; noise 0 to 1 m and up to 3 rad; optional covariances) under six "
         "alignment methods, three segment lengths each; all reported series and bounds compared with an independent evaluation; non-trivial = noisy estimate",
    assumptions=["alignments whose rotation is not determined by the data are skipped", "angle series near a half turn and roll/yaw near gimbal lock are compared loosely or not at all",
                 "segments with several equally good ends are skipped"])
CHECKS["C25"] = dict(harness=["C25.cpp"], repo=["eval", "print"], libs=["core"],
    technique="property-based testing (rapidcheck): generated files read back against the generated table",
    rule="generated files for every loader: 0-10 rows in six number formats, extra separators, comments, blank and too short rows, CRLF, missing final newline, mixed widths, time bases 0 and unix "
         "nanoseconds; ground-truth look-ups on, between and away from entries; csv to txt conversion by file and folder; non-trivial = file has rows to skip, several rows or look-up hits",
    assumptions=["ground-truth files start with a header line", "time keys of a ground-truth file are distinct", "look-ups within 1 us of a tie or of the 0.1 s limit are not judged"])
CHECKS["C11"] = dict(harness=["C11.cpp"], repo=["finit", "feat", "print"], libs=["core"],
    rule="points 0.03-200 m away seen by 1-3 cameras at 1-15 poses with baselines from none to the depth (random, along a line, stereo only), in world frames up to 1 km away; exact or noisy bearings; "
         "cameras turned away from the point; random limits; refinement started from the linear solution or up to 40% off; non-trivial = point recovered, refined from a wrong start or optimum compared",
    assumptions=["bearings are stored in single precision", "decisions within a small margin of a limit are not judged", "recovery is required when the geometry determines the point"])
CHECKS["C15"] = dict(harness=["C15.cpp"], repo=["cpi"], libs=[],
    rule="1-40 intervals at 20-1000 Hz (uneven and empty ones included), rotation rates zero, 1e-5 to 0.02 and up to 6 rad/s, accelerations to 40 m/s2, biases, gravity and orientations; both models, "
         "averaging on and off, closed-form and integrated Jacobians, intervals split 2-8 times; non-trivial = several intervals with rotation",
    assumptions=["derivatives and covariance of the second model with averaging are required to first order in the interval length (the code linearises gravity at the start of the interval)",
                 "the covariance, and Jacobians taken from the integrated transition matrix, are required to be as accurate as one fourth-order step per interval",
                 "closed forms lose digits for slow rotation above 0.5 deg/s; that loss is part of the tolerance"])
CHECKS["C31"] = dict(harness=["C31.cpp"], flags=["-std=c++17"], repo=["ceresf", "cpi"], libs=["core", "init"],
    rule="tangent steps from zero to a half turn; priors over 1-6 variables of all five kinds with diagonal or full information, zero or random gradient, errors up to 2.6 rad; reprojections through "
         "shipped and random calibrations of both lens models with gates; preintegrated factors from 1-20 readings with changed biases and disagreement; all quaternion signs; Jacobians requested "
         "one by one or together; non-trivial = step, error, open gate or disagreement not zero",
    assumptions=["rotation errors of a prior stay below 3 rad", "the preintegration factor's gyroscope bias correction is first order in the bias change"])
CHECKS["C01"] = dict(harness=["C01.cpp"], repo=["state", "types", "print"], libs=["core"],
    technique="stateful property-based testing (rapidcheck) against a dense Kalman filter model",
    rule="histories of 1-40 operations (measurement updates and propagations over variables and parts of variables in any order, window clones with and without time offset, clones of any variable, "
         "over-determined and invertible initialisations with outliers, marginalisations by hand and by the window and landmark policies, initial covariances, marginal queries) over every "
         "combination of calibration options with 1-3 cameras; whole mean and covariance compared after every step; non-trivial = an update and a change of the state vector",
    assumptions=["variables are consecutive in the state where the interface requires it", "initial covariances are set while the variables are uncorrelated with the others",
                 "initialisation decisions between the thresholds for all rows and for the redundant rows are not judged"])
CHECKS["C02"] = dict(harness=["C02.cpp"], repo=["prop", "state", "types", "print"], libs=["core"],
    rule="streams of 12-60 readings at 50-1000 Hz (regular, jittered, dropped readings; constant, smooth or rough signals; still, very slow and up to 4 rad/s) through random intrinsics, sensor "
         "frames, gravity sensitivity, biases and time offsets of both inertial models; 1-4 consecutive propagations by each method with updates of state, bias and offset in between; non-trivial = "
         "rotating stream with a reading inside the interval",
    assumptions=["the discrete and the analytic method hold the average of two readings over their interval, the Runge-Kutta method interpolates linearly",
                 "for rotation below 0.5 deg/s the analytic method is only required to be as accurate as the discrete one", "intervals lie inside the stream with ends on a reading or at least 2e-7 s away"])
CHECKS["C03"] = dict(harness=["C03.cpp"], repo=["prop", "state", "types", "print"], libs=["core"],
    rule="states with every combination of calibration options, both inertial intrinsic models, 0-3 clones, optional landmark and dense covariance over several scales; intervals with 1-12 readings "
         "as in C02 by each method; the reference transition is the numerical derivative of the library's own mean propagation per interval, the noise enters like a bias over an interval; also "
         "split at a reading; non-trivial = rotating stream with a reading inside the interval",
    assumptions=["the Runge-Kutta method may use the transition of the readings averaged over each interval: its tolerance is twice the difference that makes",
                 "below 0.5 deg/s the closed forms are required to be accurate to the relative angle turned in one interval",
                 "with first-estimate Jacobians the state equals its first estimate here (C10 covers the rest)"])
CHECKS["C05"] = dict(harness=["C05.cpp"], repo=["prop", "state", "types", "print", "feat", "finit", "track", "uhelper", "uvis", "uzupt", "vio", "init"], libs=["core", "init"], flags=["-std=c++17"],
    technique="stateful property-based testing (rapidcheck) against a reference propagation of the inertial state",
    rule="streams as in C02 through random intrinsics, sensor frames, gravity sensitivity, biases and time offsets; 1-3 filter states (separated by propagation, correction and offset change) each with "
         "1-4 predictions at increasing times on or between readings, live or with readings running ahead; mean and covariance against own discrete propagation with numerical derivatives; non-trivial = "
         "rotating stream with a follow-up request",
    assumptions=["requests from one filter state are at increasing inertial-clock times covered by readings",
                 "predictions may start from the previous prediction or from the filter state: tolerance is 1.5 times the difference",
                 "the prediction integrates discretely with averaged readings and treats calibration as known, as documented"])
CHECKS["C09"] = dict(harness=["C09.cpp"], repo=["uhelper", "state", "types", "print"], libs=["core"],
    rule="rigs of 1-3 cameras of both lens models with 1-6 pose clones and every combination of calibration options; points 3-12 m ahead in each of the six representations, seen from random "
         "camera-clone subsets, anchored at a measuring or at another frame; residual, every Jacobian block and the set of variables against a double-precision model differentiated numerically; a second "
         "part moves first estimates away; non-trivial = at least two measurements / first-estimate mode",
    assumptions=["image distortion is evaluated in single precision: residuals agree to 1e-3 pixel", "spherical inverse-depth parameters are at least 1e-3 rad off their pole",
                 "in first-estimate mode the lens derivative may be taken at either estimate"])
VIO_GROUPS = ["prop", "state", "types", "print", "feat", "finit", "track", "uhelper", "uvis", "uzupt", "vio", "init"]
CHECKS["C10"] = dict(harness=["C10.cpp"], repo=VIO_GROUPS, libs=["core", "init"], flags=["-std=c++17"],
    technique="metamorphic property-based testing (rapidcheck): sensitivity to gauge directions per measurement, per propagation and of the whole estimator",
    rule="measurement Jacobians of rigs as in C09 with first estimates moved away, before and after marginalising the feature; propagations of states whose value was updated since; pairs of estimators on "
         "3 s synthetic sequences which differ only in initial uncertainty along a random gauge direction (all representations, calibrations, integration methods); non-trivial = first estimates in use / "
         "estimates moved away from first estimates over more than 15 frames",
    assumptions=["estimates may differ by 0.2 of a standard deviation (stopping of feature refinements is tipped by rounding); covariances by 1e-4 relative and 0.3 of that"])
CHECKS["C24"] = dict(harness=["C24.cpp"], repo=["print"], libs=["core"], flags=["-std=c++17", "-DROS_AVAILABLE=1", "-I@VERIF@/harness/rosmock", '-DVERIF_REPO_DIR="@REPO@"'],
    rule="complete assignments of all about 100 options of the three files in several notations, with options left out and values overridden by run-time parameters (a stand-in for the ROS interface), "
         "1-3 cameras of both lens models, either extrinsic direction, halved images, masks, all inertial models; assignments with one malformed option, matrix, list, file or sensor, or a value documented as "
         "out of range, which must be reported by flag, exception or exit status; all shipped configurations; non-trivial = every case",
    assumptions=["entries beyond the expected number in a list are not judged", "run-time parameters have the type of the option"])

CHECKS["C21"] = dict(harness=["C21.cpp"], repo=VIO_GROUPS, libs=["core", "init"], flags=["-std=c++17"],
    technique="stateful property-based testing (rapidcheck): invariants of the whole estimator after every delivery of generated histories",
    rule="histories of inertial readings and images of generated worlds (motion and standstill, 1-3 cameras together or in turn, all options) with stretches of dropped, empty, thinned, repeated, late or nonsense "
         "images, failing cameras and lost tracking; non-trivial = more than 20 images and more than 3 poses dropped from the window",
    assumptions=["time stamps of readings increase; filter initialised from a given state"])

CHECKS["C23"] = dict(harness=["C23.cpp"], repo=VIO_GROUPS, libs=["core", "init"], flags=["-std=c++17"],
    technique="differential property-based testing (rapidcheck): the same content under generated deliveries must give bitwise equal filters",
    rule="generated worlds and configurations fed twice: plainly, and again, with stale images in between, with bursts of readings ahead of images, with random output queries, or all of these; point tracks and "
         "rendered pictures through both feature trackers, started from a given state or by their own stationary initialisation; after every image all values, first estimates, covariance and reported points are "
         "compared bitwise; non-trivial = more than 15 images with the delivery really different / filter running with poses",
    assumptions=["bursts only while initialised; use_multi_threading_subs off (its result depends on thread timing)"])
