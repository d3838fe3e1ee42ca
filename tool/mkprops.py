import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":s,"where":files[0]} for s in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
M="McCalib/src/McCalib.cpp"; CG="McCalib/src/CameraGroup.cpp"; O3="McCalib/src/Object3D.cpp"
p("C01","Rigid poses are composed in consistent reference frames",
 "Every pose the system derives from other poses (board-to-board, camera-to-camera, object-to-object, object in camera group, camera or board in a merged group or object) is a product of transforms whose adjacent reference frames match, whose end frames are those of the slot it is stored in, and whose operands are looked up under the matching camera, board, object or group key. This holds for every chain of intermediate boards, cameras, groups or objects, whatever its length.",
 ["inputs","histories"],"for every rig, every co-visibility graph and every chain length",
 "An inverted or swapped factor is invisible in a rig where the chain has one hop or poses commute; the number of co-visibility topologies is unbounded.",
 [M,CG,"McCalib/src/CameraGroupObs.cpp",O3,"McCalib/src/Object3DObs.cpp"],
 [("pair poses",M+" computeBoardsPairPose/computeCamerasPairPose/computeObjectsPairPose"),("chains along shortest paths",M+" init3DObjects/initCameraGroup/mergeCameraGroup/mergeObjects"),("pose in group",CG+" computeObjPoseInCameraGroup; CameraGroupObs.cpp computeObjectsPose")],
 ["relative_camera_pose_","relative_board_pose_","object_pose_","group_pose_","pose_"])
p("C02","Every refinement minimises the documented reprojection error",
 "In each non-linear refinement stage the residual of an observation is the projection of the 3D point, carried through the board, object, group and camera poses in that order and through the camera model of that camera (Brown or Kannala), minus the detected image point. All stages use the same model formula, parameter order and units as the projection used elsewhere, and every parameter block handed to the optimiser is the pose or intrinsic vector the residual expects at that position.",
 ["inputs"],"for every point, pose and intrinsic vector, in all five refinement stages",
 "A swapped coefficient or block still converges on most data with low distortion; equality of formulas cannot be sampled.",
 ["McCalib/include/OptimizationCeres.h",CG,O3,"McCalib/src/Camera.cpp"],
 [("cost functors","McCalib/include/OptimizationCeres.h operator()"),("residual construction",CG+" refine*; Object3D.cpp refineObject; Camera.cpp refineIntrinsicCalibration")])
p("C03","Pose and intrinsic storage is read back exactly as it was written",
 "Every vector or matrix setter of a pose or of a camera's intrinsics and every getter of the same entity agree on one layout: rotation vector first and translation second, focal lengths and principal point in their matrix positions, and distortion coefficients in the order used by the camera model, for both camera models. Reading a stored pose or intrinsic parameter as vectors or as a matrix therefore yields the value that was stored under that same key.",
 ["inputs"],"for every stored value and every key",
 "Symmetric or zero entries hide swaps; a value-by-value comparison samples only a few.",
 ["McCalib/src/BoardObs.cpp","McCalib/src/Object3DObs.cpp",O3,CG,"McCalib/src/CameraGroupObs.cpp","McCalib/src/Camera.cpp","McCalib/src/geometrytools.cpp"],
 [("accessors","get/set*Pose{Vec,Mat}, get/setIntrinsics, getCameraMat, getDistortionVectorVector"),("packing","geometrytools.cpp RT2Proj, RVecT2Proj, Proj2RT")])
p("C04","The reference camera and reference board stay fixed in refinement",
 "In every joint refinement the pose of the reference camera of the group and of the reference board of the object are held at identity: the residual ignores them exactly when the camera or board being observed is the reference, and uses them for every other camera or board. The reference pose itself is initialised to the identity.",
 ["inputs","histories"],"for every group, object and observation",
 "Gauge drift produces the same reprojection error as the fixed-gauge solution, so an end-to-end error threshold cannot see it.",
 [CG,O3,"McCalib/include/OptimizationCeres.h",M],[("refine flags",CG+" refineCameraGroup*, Object3D.cpp refineObject"),("reference choice",M+" init3DObjects/initCameraGroup/mergeCameraGroup/mergeObjects")])
p("C05","Fixed intrinsics are never modified",
 "When the configuration asks for fixed intrinsics, no code reached after the intrinsics are loaded or initialised writes them or hands them to an optimiser as a free parameter; when it does not, both the per-camera and the final refinement stages run.",
 ["inputs","histories"],"for every configuration and pipeline path",
 "The violation is a path of the pipeline, visible only when the option is combined with that path.",
 [M,"apps/calibrate/src/calibrate.cpp","McCalib/src/Camera.cpp",CG],[("gates",M+" initIntrinsic; apps/calibrate/src/calibrate.cpp runCalibrationWorkflow")],["Camera::intrinsics_"])
p("C06","Each configuration key reaches the parameter it documents",
 "Every key of the documented configuration file is read under exactly its documented name, and its value is stored in, and only in, the parameter that the key documents, without being overwritten afterwards by another key. A key present in the file is never silently ignored.",
 ["inputs"],"for every configuration file",
 "A mis-read key falls back to a default that most test configurations share.",
 [M,"McCalib/src/Board.cpp","apps/create_charuco_boards/src/create_charuco_boards.cpp","configs/"],[("key table",M+" Calibration::Calibration; Board.cpp Board::Board")])
p("C07","Result files contain every calibrated entity, under the keys readers use",
 "The saved camera, object, object-pose, keypoint and reprojection-error files contain one record for every calibrated camera of every group, every object, every observed object pose and every detected board; a file is closed only after the last record was written, and lists describing one group, frame or camera contain only that group's, frame's or camera's entries. The keys written are the keys with which the toolbox itself and its Python tools read the files back, and each key carries the quantity its name documents.",
 ["inputs","histories"],"for every number of cameras, groups, objects and frames",
 "Loss appears only with several groups or objects, configurations that unit tests cannot enumerate.",
 [M,"python_utils/","README.md"],[("writers",M+" saveCamerasParams/save3DObj/save3DObjPose/saveDetectedKeypoints/saveReprojectionErrorToFile"),("readers",M+" loadDetectedKeypoints/initializeCalibrationAllCam")])
p("C08","Parallel board detection is free of data races",
 "While detection workers run, every object they share that any of them may modify is accessed only while holding the insertion lock, and what a worker decides from such an object it acts upon before giving the lock up; all else they touch is local to the worker or read-only, and the coordinating thread touches shared state again only after all workers have finished. Every posted image is processed before detection of the camera returns.",
 ["schedules"],"for every interleaving of detection workers",
 "A race shows only in particular schedules.",
 [M],[("worker",M+" detectBoardsInImageWithCamera"),("pool",M+" detectBoardsWithCamera")],["board_observations_","cams_","boards_3d_","frames_","cams_obs_","charuco_params_"])
p("C09","Only detections that pass every acceptance test are used",
 "A board found in an image is recorded only if its number of detected corners exceeds the configured fraction of that board's corner count, it has more than four corners, and its corners are not collinear relative to that board's square size. Corner refinement runs when and only when it is configured, before recording, and each refined corner, the saddle point of the surface fitted to the image around the detected corner, replaces the detected corner of the same index.",
 ["inputs"],"for every image, board and configuration",
 "The acceptance boundary is a conjunction over detector output, which a handful of images does not exercise.",
 [M],[("gates",M+" detectBoardsInImageWithCamera"),("only inserter",M+" insertNewBoard")])
p("C10","Each observation is registered exactly once in every index",
 "When a board or object observation is created it is recorded exactly once in every index that later stages traverse: the global list, its camera, its board or object, its frame and its per-camera-per-frame record, under the ids of that observation; every frame in which a camera, board or group has an observation is known to it. Rebuilding the observations after a merge first clears every index that is rebuilt and then registers each observation once.",
 ["histories"],"for every order of insertions and every merge history",
 "A missing or repeated registration changes later averages and residual counts but no single accessor result.",
 [M,"McCalib/src/Camera.cpp","McCalib/src/Board.cpp","McCalib/src/Frame.cpp","McCalib/src/CameraObs.cpp",O3],[("insertion",M+" insertNewBoard, init3DObjectObs, initCameraGroupObs"),("rebuild",M+" mergeAllObjectObs, mergeAllCameraGroupObs")])
p("C11","Derived state is never stale",
 "After a refinement changed board poses or object poses, the object point clouds and the per-observation poses derived from them are recomputed for every object and observation before anything reads them. State keyed by group or object ids that a merge has renumbered or replaced is discarded or rebuilt before it is used again.",
 ["histories"],"for every pipeline history",
 "Stale values are plausible values: results change only slightly.",
 [M,O3,"McCalib/src/CameraGroupObs.cpp"],[("refresh",M+" refineAllCameraGroupAndObjects*, refineAllCameraGroup; Object3D.cpp refineObject"),("invalidation",M+" mergeCameraGroup, mergeObjects, init*Graph, compute*PairPose")])
p("C12","Co-visibility graph answers are exact and terminate",
 "For every graph, the path returned between two vertices is one of minimum total weight with weights compared in full precision, runs from the first to the second vertex through existing edges, and is empty when the vertices are unknown or not connected; the connected components partition the vertices. Every board, camera, object and camera group with at least one observation is a vertex of its co-visibility graph. Adding an edge or a vertex never creates two vertices for one id, and every query terminates.",
 ["inputs","histories"],"for every sequence of insertions and every query",
 "Weights are 1/n with arbitrary n; tests use a few integer weights.",
 ["McCalib/src/Graph.cpp"],[("graph","McCalib/src/Graph.cpp shortestPathBetween/getPath/connectedComponents/addEdge")])
p("C13","2D points, 3D points and ids stay in correspondence",
 "Wherever image points are paired with model points (pose estimation, intrinsic initialisation, refinement, reprojection error, result images), element i of one list and element i of the other belong to the same corner of the same board or object observation, and parallel lists of an observation are always extended together in the same order.",
 ["inputs"],"for every observation with any subset of visible corners",
 "Misalignment needs partially visible boards and particular id orders.",
 ["McCalib/src/BoardObs.cpp","McCalib/src/Object3DObs.cpp","McCalib/src/Camera.cpp",CG,O3,M],[("pairing","estimatePose, initializeCalibration, refine*, computeReprojectionError, insertNewBoardObs")])
p("C14","Expired or missing handles are never dereferenced",
 "A non-owning handle (to a camera, board, object, frame or observation) is dereferenced only on paths where it has been checked to be alive.",
 ["histories"],"for every lifetime history of the referenced entities",
 "Requires destroying entities at particular points of the pipeline.",
 [M,CG,O3,"McCalib/src/Object3DObs.cpp","McCalib/src/BoardObs.cpp","McCalib/src/CameraGroupObs.cpp","McCalib/src/CameraObs.cpp","McCalib/src/Camera.cpp"],[("weak handles","all std::weak_ptr::lock uses")])
p("C15","No computation reads an indeterminate value",
 "Every numeric field of the model objects (intrinsics, poses, image size, error, counts) and every local variable holds a determined value before it is read, whatever the camera model, configuration or number of detections; a loop over the positions of a list stays within it.",
 ["inputs","histories"],"for every configuration and detection history",
 "Indeterminate memory often contains zeros in a test process.",
 ["McCalib/include/","McCalib/src/"],[("fields","McCalib/include/*.hpp"),("locals","McCalib/include/point_refinement.h and McCalib/src")])
p("C16","Pose estimation is attempted only with enough points and defined results",
 "The RANSAC and sampling routines never index a sample they do not have; the PnP RANSAC always leaves a determined rotation and translation, that of the best sample, for any number of input points; a board observation with too few inliers is not used, and hand-eye estimation only with enough common poses. A RANSAC loop ends after the given number of iterations at the latest.",
 ["inputs"],"for every number of points and of common frames",
 "The failing sizes are boundary inputs that the detector rarely produces.",
 ["McCalib/src/geometrytools.cpp",M],[("ransac","geometrytools.cpp ransacP3P, ransacP3PDistortion"),("gate",M+" detectBoardsInImageWithCamera, initNonOverlapPair")])
p("C17","Rejected observations do not influence the calibration",
 "A board observation whose pose estimation was rejected for too few inliers is never used afterwards as a pose measurement: not in intrinsic refinement, not in relative board poses, not in objects and not in object refinement. The rejection test counts inliers of that observation, and only inlier points are kept when it is accepted.",
 ["inputs"],"for every observation and every stage",
 "Needs an observation with few inliers reaching each stage.",
 ["McCalib/src/BoardObs.cpp","McCalib/src/Camera.cpp",O3,M],[("flag","BoardObs::valid_"),("filters","Camera.cpp refineIntrinsicCalibration; Object3D.cpp refineObject; McCalib.cpp computeBoardsPairPose, init3DObjectObs")])
p("C18","Boards have disjoint markers and their own dimensions",
 "For any number of boards, the marker ids of different boards are pairwise disjoint and contiguous in board order; each board uses the square counts, square size and index configured for it, falling back to the common settings only when no per-board setting is given, and the number of corners and their 3D coordinates are those of that board. The board-image generator and the calibrator derive identical boards from the same configuration.",
 ["inputs"],"for every number of boards and per-board settings",
 "Depends on combinations of per-board lists and board index lists.",
 ["McCalib/src/utilities.cpp","McCalib/src/Board.cpp",M,"apps/create_charuco_boards/src/create_charuco_boards.cpp"],[("id offsets","utilities.cpp createCharucoBoards"),("geometry","Board.cpp Board::Board")])
p("C20","Reported reprojection error is the mean distance of detected to projected points",
 "The saved and printed reprojection errors are Euclidean pixel distances between each detected point and the projection of its own 3D point with the object, group and camera poses and the camera model of that observation, averaged over exactly the points or observations counted.",
 ["inputs"],"for every observation",
 "An error metric wrong by a pairing or by a factor still looks plausible.",
 [M,CG,"McCalib/src/BoardObs.cpp","McCalib/src/Object3DObs.cpp"],[("error",M+" computeAvgReprojectionError, saveReprojectionErrorToFile, computeDistanceBetweenPoints; CameraGroup.cpp reproErrorCameraGroup; *Obs.cpp computeReprojectionError")])
p("C21","Each camera is always processed with its own camera model",
 "Wherever a distortion model matters (initial calibration, pose estimation, projection, undistortion, refinement), the model selected is the one configured for that camera, the same selector value means the same model everywhere, and the intrinsics used are those of the same camera as the model.",
 ["inputs"],"for every mix of camera models",
 "Needs a rig mixing both models, in every stage.",
 ["McCalib/src/geometrytools.cpp","McCalib/src/Camera.cpp","McCalib/include/OptimizationCeres.h",M],[("dispatch","geometrytools.cpp projectPointsWithDistortion, ransacP3PDistortion; OptimizationCeres.h; Camera.cpp")])
p("C22","Averaged transforms use every sample, component by component, under their key",
 "The transform stored for a pair is computed from all the measurements of that same pair and from nothing else, each component of the average from the same component of the samples, and the configured rotation-averaging method is the one used, with conversions between quaternions and rotation matrices that are those of unit quaternions. Graph edge weights are the inverse of the number of measurements of that pair.",
 ["inputs"],"for every set of measurements",
 "With one or two similar samples every average looks right.",
 [M,"McCalib/src/CameraGroupObs.cpp","McCalib/src/geometrytools.cpp"],[("average",M+" initInterTransform; CameraGroupObs.cpp computeObjectsPose"),("weights",M+" initInter*Graph")])
p("C23","Object and board point indices are mutually inverse",
 "For every object, the map from object point to (board, point) and the map from (board, point) to object point are mutually inverse, cover every point of every board of the object once, and the coordinates stored at an object point are that board point transformed by that board's pose, also after merging objects and after refinement.",
 ["histories"],"for every object, merge and refinement history",
 "Needs multi-board objects merged in particular orders.",
 [M,O3,"McCalib/src/Object3DObs.cpp"],[("index maps",M+" init3DObjects, mergeObjects"),("refresh",O3+" updateObjectPts")],["pts_board_2_obj_","pts_obj_2_board_","Object3D::pts_3d_"])
p("C26","Missing or unusable inputs are reported, not used",
 "A missing command-line argument, configuration file, camera-parameter file or image leads to an error message and to no use of the missing data; in particular nothing is read from a file that could not be opened and an unreadable image contributes no observation and does not keep the other images from being used. A command line that gives every argument is not refused.",
 ["inputs","fault_sequences"],"for every missing or unreadable input",
 "The failing inputs are faults of the environment.",
 ["apps/calibrate/src/calibrate.cpp",M],[("guards","main; Calibration::Calibration; initializeCalibrationAllCam; detectBoardsInImageWithCamera")])
p("C27","Non-overlapping groups are related by synchronised pose pairs",
 "The hand-eye estimation between two camera groups receives poses of the first group and of the second group in two lists of equal length whose i-th entries come from the same frame and from the objects selected for the two groups (the pair of objects they see together most often), selected by the same subset on both sides, including in the fallback of the bootstrapped estimation. An estimate is accepted by a test in which the motions of the two groups, related by that estimate, cancel. The relative pose is stored under the pair it was computed for together with the number of pose pairs used.",
 ["inputs"],"for every rig with non-overlapping groups",
 "Needs rigs without overlap, on the fall-back path of a randomised routine.",
 [M,"McCalib/src/geometrytools.cpp"],[("collection",M+" initNonOverlapPair"),("bootstrap","geometrytools.cpp handeyeBootstraptTranslationCalibration, handeyeCalibration")])
p("C28","Calibration stages run in dependency order",
 "In every execution of the calibration program each stage runs after the stages whose results it reads: detection before intrinsics, intrinsics before objects, objects before groups, relative poses before their averages, averages and graphs before the structures built from them, merged structures before their observations, poses before refinement, and refinement before results are saved.",
 ["histories"],"on every path through the program",
 "An order violation silently uses empty or old tables.",
 ["apps/calibrate/src/calibrate.cpp",M],[("pipeline","calibrate.cpp runCalibrationWorkflow; McCalib.cpp initIntrinsic/calibrate3DObjects/calibrateCameraGroup/merge3DObjects")])
# outside static reach
p("C90","Calibration converges to the true rig",
 "Given enough noise-bounded observations of a rigid multi-camera rig, the estimated intrinsics and relative poses converge to the true ones within a tolerance determined by the noise.",
 ["inputs"],"for every rig and noise level","Depends on numerical optimisation over continuous data.",
 [M,CG],[("pipeline","whole")])
p("C91","The same images always give the same calibration",
 "Two runs on the same images and configuration give the same result, whatever the order in which the detection workers finish.",
 ["schedules"],"for every schedule of the detection workers","Depends on the numerical effect of insertion order.",
 [M],[("detection order",M+" insertNewBoard")])
p("C92","Rotation averaging returns the mean rotation",
 "The averaged rotation is the rotation minimising the summed squared quaternion distance to the samples, and is insensitive to the sign of the quaternions.",
 ["inputs"],"for every set of rotations","Eigenvector of a runtime matrix.",
 ["McCalib/src/geometrytools.cpp"],[("averaging","getAverageRotation")])
p("C93","RANSAC pose estimation rejects outliers",
 "With at least half of the points correct, the robust pose estimate is based on a sample without outliers with the documented probability and its inlier set contains exactly the points within the threshold.",
 ["inputs"],"for every outlier configuration","Probabilistic.",
 ["McCalib/src/geometrytools.cpp"],[("ransac","ransacP3P")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
print(len(P),max(len(x['title']) for x in P))
