"""Entry points analysed on their own: the functions of the pinned tree.

A function that is not listed here and has callers is a helper: it is judged
in the context of its callers only.  A listed function that no longer exists
is no error: its code is judged wherever it now is.
"""
KNOWN = frozenset("""
Graph::addEdge
Graph::addVertex
Graph::clearGraph
Graph::connectedComponents
Graph::getGraph
Graph::getPath
Graph::shortestPathBetween
McCalib::Board::Board
McCalib::Board::insertNewBoard
McCalib::Board::insertNewFrame
McCalib::Board::~Board
McCalib::BoardObs::BoardObs
McCalib::BoardObs::computeReprojectionError
McCalib::BoardObs::estimatePose
McCalib::BoardObs::getPoseMat
McCalib::BoardObs::getPoseVec
McCalib::BoardObs::getRotVec
McCalib::BoardObs::getTransVec
McCalib::BoardObs::setPoseMat
McCalib::BoardObs::setPoseVec
McCalib::BoardObs::~BoardObs
McCalib::Calibration::Calibration
McCalib::Calibration::boardExtraction
McCalib::Calibration::calibrate3DObjects
McCalib::Calibration::calibrateCameraGroup
McCalib::Calibration::computeAllObjPoseInCameraGroup
McCalib::Calibration::computeAvgReprojectionError
McCalib::Calibration::computeBoardsPairPose
McCalib::Calibration::computeCamerasPairPose
McCalib::Calibration::computeDistanceBetweenPoints
McCalib::Calibration::computeObjectsPairPose
McCalib::Calibration::computeReproErrAllBoard
McCalib::Calibration::computeReproErrAllObject
McCalib::Calibration::detectBoards
McCalib::Calibration::detectBoardsInImageWithCamera
McCalib::Calibration::detectBoardsWithCamera
McCalib::Calibration::displayBoards
McCalib::Calibration::estimatePoseAllBoards
McCalib::Calibration::estimatePoseAllObjects
McCalib::Calibration::findPairObjectForNonOverlap
McCalib::Calibration::findPoseNoOverlapAllCamGroup
McCalib::Calibration::init3DObjectObs
McCalib::Calibration::init3DObjects
McCalib::Calibration::initAll3DObjectObs
McCalib::Calibration::initAllCameraGroupObs
McCalib::Calibration::initCameraGroup
McCalib::Calibration::initCameraGroupObs
McCalib::Calibration::initInterBoardsGraph
McCalib::Calibration::initInterCamGroupGraph
McCalib::Calibration::initInterCamerasGraph
McCalib::Calibration::initInterObjectsGraph
McCalib::Calibration::initInterTransform
McCalib::Calibration::initIntrinsic
McCalib::Calibration::initNonOverlapPair
McCalib::Calibration::initializeCalibrationAllCam
McCalib::Calibration::insertNewBoard
McCalib::Calibration::insertNewObjectObservation
McCalib::Calibration::loadDetectedKeypoints
McCalib::Calibration::merge3DObjects
McCalib::Calibration::mergeAllCameraGroupObs
McCalib::Calibration::mergeAllObjectObs
McCalib::Calibration::mergeCameraGroup
McCalib::Calibration::mergeObjects
McCalib::Calibration::refineAllCameraGroup
McCalib::Calibration::refineAllCameraGroupAndObjects
McCalib::Calibration::refineAllCameraGroupAndObjectsAndIntrinsic
McCalib::Calibration::refineAllObject3D
McCalib::Calibration::refineIntrinsicAndPoseAllCam
McCalib::Calibration::reproErrorAllCamGroup
McCalib::Calibration::save3DObj
McCalib::Calibration::save3DObjPose
McCalib::Calibration::saveCamerasParams
McCalib::Calibration::saveDetectedKeypoints
McCalib::Calibration::saveDetectionImages
McCalib::Calibration::saveDetectionImagesAllCam
McCalib::Calibration::saveReprojectionErrorToFile
McCalib::Calibration::saveReprojectionImages
McCalib::Calibration::saveReprojectionImagesAllCam
McCalib::Calibration::~Calibration
McCalib::Camera::Camera
McCalib::Camera::checkBorderToleranceFisheye
McCalib::Camera::getCameraMat
McCalib::Camera::getDistortionVectorVector
McCalib::Camera::getIntrinsics
McCalib::Camera::initializeCalibration
McCalib::Camera::insertNewBoard
McCalib::Camera::insertNewFrame
McCalib::Camera::insertNewObject
McCalib::Camera::refineIntrinsicCalibration
McCalib::Camera::setCameraMat
McCalib::Camera::setDistortionVector
McCalib::Camera::setIntrinsics
McCalib::Camera::~Camera
McCalib::CameraGroup::CameraGroup
McCalib::CameraGroup::computeObjPoseInCameraGroup
McCalib::CameraGroup::getCameraPoseMat
McCalib::CameraGroup::getCameraPoseVec
McCalib::CameraGroup::getCameraRotVec
McCalib::CameraGroup::getCameraTransVec
McCalib::CameraGroup::insertCamera
McCalib::CameraGroup::insertNewFrame
McCalib::CameraGroup::insertNewObjectObservation
McCalib::CameraGroup::refineCameraGroup
McCalib::CameraGroup::refineCameraGroupAndObjects
McCalib::CameraGroup::refineCameraGroupAndObjectsAndIntrinsics
McCalib::CameraGroup::reproErrorCameraGroup
McCalib::CameraGroup::setCameraPoseMat
McCalib::CameraGroup::setCameraPoseVec
McCalib::CameraGroup::~CameraGroup
McCalib::CameraGroupObs::CameraGroupObs
McCalib::CameraGroupObs::computeObjectsPose
McCalib::CameraGroupObs::getObjectPoseMat
McCalib::CameraGroupObs::getObjectPoseVec
McCalib::CameraGroupObs::getObjectRotVec
McCalib::CameraGroupObs::getObjectTransVec
McCalib::CameraGroupObs::insertObjectObservation
McCalib::CameraGroupObs::setObjectPoseMat
McCalib::CameraGroupObs::setObjectPoseVec
McCalib::CameraGroupObs::updateObjObsPose
McCalib::CameraGroupObs::~CameraGroupObs
McCalib::CameraObs::CameraObs
McCalib::CameraObs::insertNewBoard
McCalib::CameraObs::insertNewObject
McCalib::CameraObs::~CameraObs
McCalib::Frame::Frame
McCalib::Frame::insertNewBoard
McCalib::Frame::insertNewCamObs
McCalib::Frame::insertNewCameraGroupObs
McCalib::Frame::insertNewObject
McCalib::Frame::~Frame
McCalib::Object3D::Object3D
McCalib::Object3D::getBoardPoseMat
McCalib::Object3D::getBoardPoseVec
McCalib::Object3D::getBoardRotVec
McCalib::Object3D::getBoardTransVec
McCalib::Object3D::insertBoardInObject
McCalib::Object3D::insertNewFrame
McCalib::Object3D::insertNewObject
McCalib::Object3D::refineObject
McCalib::Object3D::setBoardPoseMat
McCalib::Object3D::setBoardPoseVec
McCalib::Object3D::updateObjectPts
McCalib::Object3D::~Object3D
McCalib::Object3DObs::Object3DObs
McCalib::Object3DObs::computeReprojectionError
McCalib::Object3DObs::estimatePose
McCalib::Object3DObs::getPoseInGroupMat
McCalib::Object3DObs::getPoseInGroupVec
McCalib::Object3DObs::getPoseMat
McCalib::Object3DObs::getPoseVec
McCalib::Object3DObs::getRotInGroupVec
McCalib::Object3DObs::getRotVec
McCalib::Object3DObs::getTransInGroupVec
McCalib::Object3DObs::getTransVec
McCalib::Object3DObs::insertNewBoardObs
McCalib::Object3DObs::setPoseInGroupMat
McCalib::Object3DObs::setPoseInGroupVec
McCalib::Object3DObs::setPoseMat
McCalib::Object3DObs::setPoseVec
McCalib::Object3DObs::~Object3DObs
McCalib::Proj2RT
McCalib::ProjToVec
McCalib::RT2Proj
McCalib::RVecT2Proj
McCalib::RVecT2ProjInt
McCalib::SaddlePoint::SaddlePoint
McCalib::calcLinePara
McCalib::checkSetConsistency
McCalib::clusterTranslations
McCalib::convertQuaternionToRotationMatrix
McCalib::convertRotationMatrixToQuaternion
McCalib::convertStrToPath
McCalib::convertVecStrToVecPath
McCalib::createCharucoBoards
McCalib::createCharucoBoardsImages
McCalib::getAverageRotation
McCalib::getPosesForHandeyeCalibration
McCalib::getTranslationsForClustering
McCalib::handeyeBootstraptTranslationCalibration
McCalib::handeyeCalibration
McCalib::initConeSmoothingKernel
McCalib::initSaddleFitting
McCalib::interpolatePatch
McCalib::invertRvecT
McCalib::median
McCalib::preparePosesForHandEyeCalibration
McCalib::projectPointsWithDistortion
McCalib::ransacP3P
McCalib::ransacP3PDistortion
McCalib::ransacTriangulation
McCalib::saddleSubpixelRefinement
McCalib::selectClusters
McCalib::selectPoses
McCalib::transform3DPts
McCalib::triangulateNViewLinearEigen
McCalib::vectorProj
ReprojectionError::Create
ReprojectionError::ReprojectionError
ReprojectionError::operator()
ReprojectionError_3DObjRef::Create
ReprojectionError_3DObjRef::ReprojectionError_3DObjRef
ReprojectionError_3DObjRef::operator()
ReprojectionError_CameraGroupAndObjectRef::Create
ReprojectionError_CameraGroupAndObjectRef::ReprojectionError_CameraGroupAndObjectRef
ReprojectionError_CameraGroupAndObjectRef::operator()
ReprojectionError_CameraGroupAndObjectRefAndIntrinsics::Create
ReprojectionError_CameraGroupAndObjectRefAndIntrinsics::ReprojectionError_CameraGroupAndObjectRefAndIntrinsics
ReprojectionError_CameraGroupAndObjectRefAndIntrinsics::operator()
ReprojectionError_CameraGroupRef::Create
ReprojectionError_CameraGroupRef::ReprojectionError_CameraGroupRef
ReprojectionError_CameraGroupRef::operator()
logger::construct_logger
logger::get
logger::registration_file
main
runCalibrationWorkflow
saveBoards
tag::line_id::get_name
tag::severity::get_name
tag::timestamp::get_name
""".split("\n"))
