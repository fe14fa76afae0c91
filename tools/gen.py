#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "eskf_vio_backend/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)), technique, note))

PBT = "property-based testing"
prop("C01", "The data loader accepts, orders and bundles messages without losing any",
     "A message is accepted exactly when its time stamp is newer than the last accepted one of its kind in that loader (since the last clear); stamps are re-based so that the first message accepted after construction or a clear is at time zero, and two loaders never influence each other. "
     "Accepted messages come out once each, in time order: an image not later than the oldest inertial measurement (or with no measurement waiting) comes first, with the measurement bundled when they are closer than one inertial period, otherwise the measurement comes alone. "
     "Message and observation containers report a size and hand out elements only where all of their parallel arrays have one, null or empty requests are refused without changing anything, and printing a message, whatever it holds, works and leaves it as it is.",
     ["histories", "inputs"], "all interleavings of pushing, popping and clearing on any number of loaders, with any time stamps and rates",
     "The three test programs push one recorded, well-ordered stream into one loader; repeated, late, simultaneous and interleaved messages and clears never occur.",
     [B + "data_manager/data_loader.cpp", B + "data_manager/data_typedef.cpp", "eskf_vio_backend/include/data_manager/data_loader.hpp"],
     [("time-stamp gate and re-basing", B + "data_manager/data_loader.cpp DataLoader::PushIMUMessage, PushFeaturesMessage"), ("bundling", B + "data_manager/data_loader.cpp DataLoader::PopOneMessage")],
     [("waiting messages", "two queues ordered by time", "eskf_vio_backend/include/data_manager/data_loader.hpp")], ["returned flags, queue sizes, contents of popped messages"],
     "model-based stateful property testing", "Random histories against a queue model; stamps that rounding alone decides are left out.")
prop("C02", "Packed popping gives every image its gapless run of inertial samples",
     "Packed popping succeeds exactly when the oldest waiting image has waiting samples before and after it, and then returns the oldest image with all samples not yet handed out up to its time, in time order. "
     "If no sample lies at the image time, the last one returned is a sample interpolated linearly to it from its two neighbours, and the next bundle starts there, so that consecutive bundles tile the time line without gap or overlap. "
     "An image that no waiting sample precedes is dropped; otherwise a refused pop leaves the queues as they are.",
     ["histories", "inputs"], "all arrival interleavings of samples and images at any rate ratio", "No test calls packed popping at all.",
     [B + "data_manager/data_loader.cpp"], [("packing and interpolation", B + "data_manager/data_loader.cpp DataLoader::PopPackedMessage")], (), ["returned bundle, queue sizes"],
     "model-based stateful property testing", "Random histories against a list model in double precision.")
prop("C03", "Configuration takes values from complete files and keeps all others",
     "Reading a configuration folder sets each parameter to the numbers of its file exactly when the file exists and holds all of the wanted numbers; a missing, truncated or garbled file leaves the previous value, and never touches memory beyond the parameter. "
     "Camera mountings are read from consecutively numbered files up to the first missing one, giving as many cameras as there are files, with the rotation as a unit quaternion and the translation as written. "
     "Configuring the estimator passes all of them on to the parts that use them.",
     ["inputs", "configurations"], "all configuration folders: any mix of valid, over-long, truncated, garbled, empty and missing files, read any number of times",
     "Tests read one valid folder.", [B + "config/config.cpp", B + "backend/backend_config.cpp"],
     [("matrix loading", B + "config/config.cpp Configurator::LoadMatrix"), ("distribution to the parts", B + "backend/backend_config.cpp Backend::ConfigParams")], (), ["parameter values after reading; members of the configured estimator"],
     PBT + " with an independent parser as oracle", "Grammar-generated files, an independent reading as oracle.")
prop("C04", "The sliding window keeps frames, tracks and observations consistent",
     "After any sequence of images and dropped frames, the window holds its frames in order of time with consecutive numbers, every track holds exactly the observations made of it in the frames of the window, each with the frame it was made in (also for tracks interrupted and found again), and every frame lists exactly the tracks it observes. "
     "Dropping any frame removes exactly that frame and its observations; a new frame starts from the pose of the one before it. "
     "Queries (frame by number, shared tracks, number and last frame of observations) report what the window holds and refuse what it does not; features whose ids and observations do not match in number are refused without effect.",
     ["histories"], "all sequences of images (tracks appearing, lost, interrupted, repeated) and of marginalisations of either kind at every window size",
     "Tests run one recorded sequence and only look at the final pose error; bookkeeping errors that cost a few observations go unnoticed.",
     [B + "data_manager/vision_data/feature_manager.cpp", B + "data_manager/vision_data/frame_manager.cpp", B + "backend/backend.cpp"],
     [("adding and removing observations", B + "data_manager/vision_data/feature_manager.cpp"), ("window", B + "data_manager/vision_data/frame_manager.cpp")],
     [("tracks", "map from id to first frame and observations", "eskf_vio_backend/include/data_manager/vision_data/feature_manager.hpp"), ("frames", "ordered list of frames with their tracks", "eskf_vio_backend/include/data_manager/vision_data/frame_manager.hpp")],
     ["managers' contents after every step"], "model-based stateful property testing", "Every history is compared with a model after every step.")
prop("C05", "Key frames are chosen by the documented thresholds, and decide what is dropped",
     "A frame is a key frame exactly when it is the oldest of the window, or shares fewer tracks seen by the first camera with the frame before it than the configured minimum, or its mean parallax to that frame in that camera, or the distance between their positions, exceeds the configured threshold. "
     "While the window is not full nothing is dropped; when it is full the oldest frame is dropped if the second-newest frame is a key frame, otherwise the second-newest.",
     ["inputs", "configurations"], "all windows, tracks, poses and thresholds", "One recorded sequence with one set of thresholds; a wrong decision costs accuracy far below the tests' 3 m limit.",
     [B + "data_manager/vision_data/frame_manager.cpp", B + "update/multi_view_vision_update.cpp"],
     [("decision", B + "data_manager/vision_data/frame_manager.cpp FrameManager::IsKeyFrame"), ("policy", B + "update/multi_view_vision_update.cpp MultiViewVisionUpdate::DecideMargPolicy")], (), ["decision and policy"],
     PBT + " against a reference decision", "Generated around the thresholds from both sides.")
prop("C06", "Propagation integrates the inertial kinematics",
     "Between images the state follows the kinematics of a strapdown inertial unit: from any start, for any sequence of measurements (any rate, spacing and biases) attitude, velocity and position equal the integral of the bias-corrected rate and specific force minus gravity, to the accuracy of a mid-point scheme and single precision. "
     "Biases stay constant, the attitude stays a unit rotation, and every measurement yields one state with its time stamp. "
     "The result does not depend on the choice of the world frame: turning about gravity, shifting or boosting the start turns, shifts and boosts all results.",
     ["inputs", "histories"], "all start states and measurement sequences", "Tests check the final trajectory of three simulated flights against a 3 m bound, where vision hides propagation errors.",
     [B + "propagate/sequence_propagator.cpp"], [("nominal state", B + "propagate/sequence_propagator.cpp PropagateMotionNominalState")], [("propagated states", "one item per measurement since the last image", "eskf_vio_backend/include/propagate/sequence_propagator.hpp")], ["items after every measurement"],
     PBT + " against a high-resolution integration and metamorphic relations", "Error bounds follow from the scheme's order and the signals' derivatives.")
prop("C07", "The propagated covariance is the linearisation of the kinematics",
     "Every propagation step maps the error covariance P to F P F^T + G Q G^T, where F is the derivative of the error kinematics used for the state and Q the configured noise over the step. "
     "The covariance stays symmetric and without negative directions, uncertainty of the biases grows exactly by their random walk, and cross-covariances to window poses are carried along by F.",
     ["inputs", "histories"], "all states, covariances, noise settings and measurement sequences", "A wrong covariance only changes the weighting of vision, which the tests' 3 m bound does not see.",
     [B + "propagate/sequence_propagator.cpp"], [("covariance", B + "propagate/sequence_propagator.cpp PropagateFullErrorStateCovariance"), ("noise", B + "propagate/sequence_propagator.cpp InitializeProcessNoiseMatrix")], (), ["covariances of all items"],
     PBT + " against a double-precision reference and numerical differentiation", "Analytic reference plus an independent numerical derivative of the kinematics.")
prop("C08", "Restarting propagation at a corrected state equals never having been wrong",
     "Moving the propagation origin to a time keeps the state nearest to that time and everything after it, and drops exactly what is before it; without any state within the tolerance the request is refused and nothing changes. "
     "After a correction of the oldest state, propagating again yields for every kept measurement the same state and covariance as propagating the measurements from the corrected state in the first place, keeping count, order and time stamps.",
     ["histories"], "all sequences of measurements, origin moves and corrections", "No test calls these operations apart from the full estimator, whose bound is 3 m.",
     [B + "propagate/sequence_propagator.cpp"], [("origin", B + "propagate/sequence_propagator.cpp PropagateQueue::ResetOrigin"), ("again", B + "propagate/sequence_propagator.cpp PropagateQueue::Repropagate")], (), ["items after every operation"],
     "model-based stateful property testing, differential", "Item-by-item comparison with a queue started from the corrected state.")
prop("C09", "The attitude estimator levels itself on gravity and follows the body rate",
     "The first measurement whose bias-corrected specific force has the norm of gravity (to 0.04 m/s^2) and no other starts the estimator, with that specific force pointing straight up in the world; afterwards the attitude follows the bias-corrected body rate, corrected by proportional and integral feedback of its tilt with the configured gains, and a tilt error shrinks while at rest. "
     "Looking up an attitude returns the stored one nearest in time within the tolerance and fails exactly if there is none; cleaning removes exactly the entries older than the given time by more than the tolerance; measurements older than the newest are refused. "
     "The attitude is always a finite unit rotation.",
     ["inputs", "histories"], "all first measurements, rotations, biases, rates; all histories of measurements, look-ups and cleaning", "Tests start level-ish at three fixed poses.",
     [B + "propagate/attitude_estimate.cpp"], [("levelling and integration", B + "propagate/attitude_estimate.cpp AttitudeEstimate::Propagate"), ("look-up", B + "propagate/attitude_estimate.cpp AttitudeEstimate::GetAttitude")], [("stored attitudes", "time-ordered list", "eskf_vio_backend/include/propagate/attitude_estimate.hpp")], ["stored attitudes; look-up results"],
     "model-based property testing", "Analytic references for levelling, turning and settling; a list model for look-up.")
prop("C10", "Linear triangulation finds the point and accepts only points in front",
     "From two or more views with parallax, linear triangulation returns the point whose projections are the observations, exact for exact observations and with errors proportional to observation noise over parallax otherwise, whatever the poses, world frame and number of views. "
     "It succeeds exactly when that point is in front of every camera and not at infinity, refuses fewer than two views, and does not depend on the order of the views.",
     ["inputs"], "all sets of at least two poses and observations", "The test tries a handful of scenes with one pose layout.",
     [B + "geometry/trianglation.cpp"], [("DLT by SVD", B + "geometry/trianglation.cpp Trianglator::TrianglateAnalytic")], (), ["returned flag and point"],
     PBT + " with ground truth and a double-precision reference", "Ground truth plus an independent double-precision solution.")
prop("C11", "Iterative triangulation never worsens the point and reaches the optimum",
     "Started from any point in front of the cameras, iterative triangulation ends with a point whose squared reprojection error over all views is not larger than at the start and, with parallax and small observation noise, is the least-squares point: the true one for exact observations. "
     "The result does not depend on the choice of the world frame, also for points near the origin or its planes.",
     ["inputs"], "all poses, observations and starts", "The test tries a few scenes anchored at the world origin.", [B + "geometry/trianglation.cpp"],
     [("inverse-depth Gauss-Newton", B + "geometry/trianglation.cpp Trianglator::TrianglateIterative")], (), ["returned flag and point"], PBT + " with optimality and metamorphic oracles", "Cost monotonicity, optimality and frame invariance.")
prop("C12", "Pose estimation from points reaches the least-squares pose",
     "From a start in the basin of attraction, estimating a camera pose from enough points in front of it to determine it returns the pose minimising the squared reprojection error (with the robust variant: the robustly weighted one, unaffected by gross errors), exact for exact observations. "
     "The returned rotation is always a unit quaternion and the pose finite; empty inputs or different numbers of points and observations are refused and leave the pose as it was.",
     ["inputs"], "all point sets, poses, starts, noise and gross errors", "The test tries one scene.", [B + "geometry/perspective_n_point.cpp"],
     [("Gauss-Newton", B + "geometry/perspective_n_point.cpp PnPSolver::EstimatePose"), ("robust kernel", B + "geometry/perspective_n_point.cpp PnPSolver::EstimatePoseKernel")], (), ["returned flag and pose"], PBT + " against a double-precision solver", "Differential against an independent double-precision solver.")
prop("C13", "Robust pose estimation reports the pose and exactly the inliers of that pose",
     "Random-sample pose estimation flags exactly the points whose reprojection error under the pose it returns is below the threshold, one flag per point whatever the flag array held before. "
     "Given enough rounds, a start near the truth and a clear majority of good points that determine the pose, the returned pose is one they agree with, whatever the gross errors are; fewer than three points or different numbers of points and observations are refused, and it always ends.",
     ["inputs"], "all point sets with any share of gross errors, any earlier flags, any random seeds", "The test tries one scene with one seed.", [B + "geometry/perspective_n_point.cpp"],
     [("RANSAC", B + "geometry/perspective_n_point.cpp PnPSolver::EstimatePoseRANSAC")], (), ["returned flag, pose and flags"], PBT + " with consistency and ground-truth oracles", "Flags recomputed from the returned pose.")
prop("C14", "A vision update is the extended Kalman filter update of the window",
     "An update changes the inertial state, every window pose, every camera mounting and the joint covariance exactly as the extended Kalman filter with all usable feature tracks does after eliminating the feature positions, with the configured measurement noise. "
     "Usable are tracks that are seen more than once and triangulate in front of their cameras, at most the configured number of them; after the update the covariance is symmetric and has no negative direction, rotations are unit, and without a usable track the state is as predicted. "
     "An update that cannot be done reports failure.",
     ["inputs", "histories"], "all windows, camera rigs, tracks and covariances", "Tests bound the final position error of three flights by 3 m; wrong Jacobian blocks, weights or cross-covariances stay below it.",
     [B + "update/multi_view_vision_update.cpp"], [("measurement and null space", B + "update/multi_view_vision_update.cpp ConstructMeasurementFunction"), ("gain and update", B + "update/multi_view_vision_update.cpp UpdateState, UpdateCovariance")],
     [("joint covariance", "inertial state, camera mountings, window poses", B + "update/multi_view_vision_update.cpp")], ["state, poses, mountings, covariance after the update"], "model-based property testing (differential against a reference filter)", "Independent double-precision filter as oracle.")
prop("C15", "The joint covariance follows frames entering and leaving the window",
     "A new frame enters the joint covariance as a copy of the pose part of the inertial state with all of its correlations; dropping a frame removes exactly its rows and columns and leaves all other entries, in the same order as the frames of the window. "
     "This holds after any sequence of images, whichever frame is dropped, for any number of cameras.",
     ["histories"], "all sequences of images and dropped frames, window sizes and rigs", "A mix-up between poses still gives a running filter within the tests' 3 m bound.", [B + "update/multi_view_vision_update.cpp"],
     [("expansion and reduction", B + "update/multi_view_vision_update.cpp ExpandCameraCovariance, ReduceCameraCovariance")], [("joint covariance", "inertial state, camera mountings, window poses", B + "update/multi_view_vision_update.cpp")], ["covariance after every image"], "model-based stateful property testing", "Labelled double-precision covariance as model.")
prop("C16", "On well-observed motion the published states track the truth",
     "Whenever the rig starts without acceleration and at least fourteen landmarks are seen by two or more cameras from image to image, the estimator initialises, never loses track again, and its published position, velocity and attitude follow the true motion up to the unobservable heading and origin: within millimetres for exact data, and within the scale of the noise or bias otherwise. "
     "This holds for every motion, camera rig, rate, window size, key-frame threshold, gravity, initial attitude and known or unknown bias, and biases that change are found when the configured random walk allows it.",
     ["inputs", "histories", "configurations"], "all smooth motions, rigs, landmark layouts and configurations", "Three recorded flights, one configuration, a 3 m bound.",
     [B + "backend/backend.cpp", B + "backend/backend_initialize.cpp", B + "update/multi_view_vision_update.cpp", B + "propagate/sequence_propagator.cpp"],
     [("whole estimator", B + "backend/backend.cpp Backend::RunOnce")], (), ["published states and time stamps"], PBT + " of the whole estimator against simulated ground truth", "Bounds were calibrated on thousands of runs of the unchanged tree.")
prop("C17", "Results do not depend on when processing runs, nor on the origin of time",
     "The published states are a function of the message stream alone: running a processing step after every message, rarely, or only when everything has arrived gives the same states for the same images. "
     "Shifting all time stamps by a constant changes nothing but rounding.",
     ["schedules", "histories"], "all schedules of message arrival and processing in which an image arrives after the measurements up to its time", "Tests use one schedule and one time origin.",
     [B + "backend/backend.cpp", B + "data_manager/data_loader.cpp"], [("loader queues", B + "data_manager/data_loader.cpp"), ("processing step", B + "backend/backend.cpp Backend::RunOnce")], (), ["published updated and propagated states"], "metamorphic property testing over schedules", "Two runs of the same stream are compared.")
prop("C18", "No message stream crashes the estimator or makes it publish nonsense",
     "Whatever is fed - dropped, repeated, late, sparse, noisy or inconsistent messages, arrays of different lengths, empty images, gross errors, resets at any time - every call returns without touching memory it does not own. "
     "Whatever is published is finite with unit attitude, carries the time stamp of a message received since the start, and published time does not run backwards while tracking goes on.",
     ["inputs", "histories", "fault_sequences"], "all streams of finite messages", "Tests feed three clean recorded streams without sanitizers.",
     [B + "backend/backend.cpp", B + "backend/backend_initialize.cpp", B + "data_manager/data_loader.cpp", B + "update/multi_view_vision_update.cpp"], [("status checks at every stage", B + "backend/backend.cpp Backend::RunOnce")], (), ["sanitizer reports; published states"],
     "structured stream fuzzing under AddressSanitizer and UBSan with invariants", "Fault-injecting stream generator under sanitizers.")
prop("C19", "After a reset or disturbance the estimator restarts and tracks as well as before",
     "After a reset, a gap in either stream (while the rig does not turn), a blackout or images that make the update fail, the estimator needs nothing but good messages and a moment without acceleration to initialise again, and from then on it tracks as accurately as a freshly started one. "
     "Nothing left from before the disturbance influences the states published afterwards.",
     ["histories", "fault_sequences"], "all disturbances at any time of any motion, also repeated ones", "No test resets or disturbs the stream.",
     [B + "backend/backend.cpp", B + "backend/backend_initialize.cpp"], [("re-initialisation", B + "backend/backend_initialize.cpp Backend::Initialize, InitializePropagator"), ("reset", B + "backend/backend.cpp Backend::Reset")], (), ["status and published states"], "fault-injection property testing of the whole estimator", "Simulated truth as oracle.")
prop("C20", "Initialisation happens when it can, and publishing says what is known",
     "Before initialisation nothing is published. The estimator initialises at the first image for which the attitude is known, the previous image is still in the window alone and the two share at least fourteen landmarks seen from two cameras, and not while the shared landmarks are fewer than ten or only one camera sees them; the first of the two frames becomes the level origin, at zero position with the configured biases. "
     "Once initialised, every inertial measurement is followed by a published propagated state with its time stamp, and every image by a published updated state at the measurement nearest to the image.",
     ["inputs", "histories", "configurations"], "all starts: motions, rates, delays of images, numbers of shared tracks, camera counts", "Tests initialise three times, always at the second image.",
     [B + "backend/backend_initialize.cpp", B + "backend/backend.cpp"], [("initialisation", B + "backend/backend_initialize.cpp"), ("publishing", B + "backend/backend.cpp PublishPropagateState, PublishUpdateState")], (), ["status, returned flags, published states and stamps after every message"], "model-based property testing of the start-up", "A small model predicts the image that initialises.")
prop("C21", "The rotation and matrix utilities satisfy their algebra",
     "Skew-symmetric matrices act as cross products, left and right quaternion matrices as quaternion products, rotation increments as exponentials of half angles, conversions between Euler angles, rotations and quaternions are inverse to each other, and the general inverse inverts well-conditioned symmetric matrices. "
     "Rotation magnitude and Euler angles are finite everywhere, including no rotation, half turns and the pitch singularity, and are accurate to single precision.",
     ["inputs"], "all vectors, rotations, angles and matrices, including the singular ones", "No test exercises them apart from generic poses.", ["eskf_vio_backend/include/utility/math_lib.hpp"],
     [("utility functions", "eskf_vio_backend/include/utility/math_lib.hpp Utility")], (), ["returned values"], PBT + " of algebraic laws", "Double-precision references and inverse laws.")
prop("C22", "Two estimators in one process do not influence each other",
     "With several estimators in a process, each with its own configuration (rig, rates, gravity, noise) and streams, every one publishes the states it would publish alone, whatever the interleaving of their calls.",
     ["schedules", "histories", "configurations"], "all interleavings of the calls of two estimators with different rigs, rates, gravity, noise settings, origins of time and resets", "Tests run one estimator per process.",
     [B + "backend/backend.cpp", B + "data_manager/data_loader.cpp", B + "config/config.cpp"], [("state held per instance", "eskf_vio_backend/include/backend/backend.hpp")], (), ["published states of both"], "metamorphic property testing over call interleavings", "Alone against together.")
prop("C23", "Naming, listing order, camera numbers and body axes do not matter",
     "The published states do not depend on which numbers tracks carry, in which order an image lists them, or how the cameras other than the first are numbered, and observations by cameras that are not configured make no difference. "
     "Turning the axes of the body against the rig (measurements, biases and camera mountings turned alike) turns the published attitude and biases by the same rotation and leaves positions and velocities as they are, up to the heading of the start.",
     ["inputs", "histories", "configurations"], "all streams, renamings, permutations and turns of the body frame", "Tests use one numbering and one body frame, in which the axes of the noise and the order of the cameras never vary.",
     [B + "backend/backend.cpp", B + "backend/backend_initialize.cpp", B + "update/multi_view_vision_update.cpp", B + "propagate/sequence_propagator.cpp", B + "data_manager/vision_data/feature_manager.cpp"],
     [("tracks by id", B + "data_manager/vision_data/feature_manager.cpp"), ("mountings by camera number", B + "update/multi_view_vision_update.cpp")], (), ["published states"], "metamorphic property testing of the whole estimator", "Two runs related by a symmetry are compared.")
prop("C24", "A whole run is that of the filter its parts make up",
     "On any stream of measurements the published states, estimated biases and the moments of starting and losing track are those of one multi-state constraint Kalman filter: levelling, start from two frames, strapdown propagation, key-frame choice, window, and an update with every track of two or more observations at every image, with the configured noises. "
     "This holds message by message to single precision, through resets and new starts, for every rig, window, threshold and noise setting.",
     ["inputs", "histories", "configurations"], "all streams, rigs, windows, thresholds, noise settings and resets", "Tests compare the final position with the truth to 3 m; two parts that disagree (order of steps, stale window, wrong anchor, forgotten reset) still converge to within that.",
     [B + "backend/backend.cpp", B + "backend/backend_initialize.cpp", B + "update/multi_view_vision_update.cpp", B + "propagate/sequence_propagator.cpp", B + "data_manager/vision_data/frame_manager.cpp"],
     [("whole estimator", B + "backend/backend.cpp Backend::RunOnce")], (), ["status, published states and biases after every message"], "model-based property testing (differential against a reference estimator)", "Independent double-precision estimator in information form as oracle; runs in which single precision may decide a threshold otherwise are left out.")

prop("C25", "The uncertainty held is a valid, shrinking and honest covariance",
     "Through any history of measurements and images the joint covariance has one block per inertial state, camera and window frame, stays symmetric without a negative direction, and agrees with that of the filter; no image update makes any direction of the state more uncertain, and the state follows. "
     "This includes a start so uncertain that the vision noise is negligible beside it. Over many runs with the configured noises the actual errors are of the size the covariance says, neither far above nor far below.",
     ["histories", "inputs", "configurations"], "all histories, rigs, noise settings and ratios of uncertainty to noise", "No test reads the covariance; a filter that is far too sure or not sure enough, or whose covariance has turned indefinite, still ends within 3 m.",
     [B + "update/multi_view_vision_update.cpp", B + "propagate/sequence_propagator.cpp"],
     [("covariance update", B + "update/multi_view_vision_update.cpp MultiViewVisionUpdate::UpdateState"), ("covariance propagation and joining", B + "propagate/sequence_propagator.cpp")],
     [("joint covariance", "single-precision matrix over inertial unit, cameras and window", "eskf_vio_backend/include/update/multi_view_vision_update.hpp")], ["joint covariance and state after every update; normalized errors over many runs"], "model-based property testing (differential, invariant and statistical oracles)", "Double-precision filter, eigenvalue bounds, and normalized errors of repeated noisy runs; bounds calibrated on the correct code.")

done = [p for p, _, _ in P if any(f.startswith(p["id"].lower() + "_") for f in os.listdir(os.path.join(ROOT, "harness")))]
ids = {p["id"] for p in done}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
    for p in done:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        o.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="true",
           checks=[dict(property=p["id"], quick_cmd=f"python3 check.py run {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py run {p['id']}", technique=t, level="exploration",
                        level_note=n + " Generated-input search: shows no absence of violations beyond the cases explored; see assumptions in the evidence.") for p, t, n in P if p["id"] in ids],
           not_applicable=[], notes="No hooks: the harnesses compile /repo's sources as they are. Known and repaired defects: known_findings.txt. Design: DESIGN.md.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(done), "properties")
