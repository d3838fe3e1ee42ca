Q = {}
CHAINB = '''      cv::Mat transform = (cv::Mat_<double>(4, 4) << 1, 0, 0, 0, 0, 1, 0, 0, 0,
                           0, 1, 0, 0, 0, 0,
                           1); // initialize the transformation to identity

      if (short_path.size() >= 1u) {
        for (std::size_t k = 0; k < short_path.size() - 1; k++) {
          int current_board = short_path[k];
          int next_board = short_path[k + 1];
          std::pair<int, int> board_pair_idx =
              std::make_pair(current_board, next_board);
          cv::Mat current_trans = inter_board_transform_[board_pair_idx];
          transform = transform * current_trans.inv();
        }
      }
'''
CHAINC = '''      cv::Mat transform =
          (cv::Mat_<double>(4, 4) << 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0,
           0, 1); // initialize the transformation to identity

      if (short_path.size() >= 1u) {
        for (std::size_t k = 0; k < short_path.size() - 1; k++) {
          int current_cam = short_path[k];
          int next_cam = short_path[k + 1];
          std::pair<int, int> cam_pair_idx =
              std::make_pair(current_cam, next_cam);
          cv::Mat current_trans = inter_camera_transform_[cam_pair_idx];
          transform = current_trans * transform;
        }
      }
'''
Q["chain-from-one"] = [(B, CHAINB, '''      cv::Mat transform = cv::Mat::eye(4, 4, CV_64F);
      for (std::size_t k = 1; k < short_path.size(); k++) {
        const auto key = std::make_pair(short_path[k - 1], short_path[k]);
        transform = transform * inter_board_transform_[key].inv();
      }
''')]
Q["chain-helper"] = [(B, CHAINC, '''      cv::Mat transform = chainPoses(short_path, inter_camera_transform_);
'''), (B, '''/**
 * @brief Initialize camera group based on co-visibility pair between cameras
''', '''static cv::Mat chainPoses(const std::vector<int> &path,
                          std::map<std::pair<int, int>, cv::Mat> &steps) {
  cv::Mat result = cv::Mat::eye(4, 4, CV_64F);
  if (path.empty())
    return result;
  for (std::size_t k = 0; k + 1 < path.size(); ++k) {
    cv::Mat step = steps[std::make_pair(path[k], path[k + 1])];
    result = step * result;
  }
  return result;
}

/**
 * @brief Initialize camera group based on co-visibility pair between cameras
''')]
Q["chain-while"] = [(B, CHAINC, '''      cv::Mat transform = cv::Mat::eye(4, 4, CV_64F);
      std::size_t k = 0;
      while (k + 1 < short_path.size()) {
        cv::Mat current_trans =
            inter_camera_transform_[{short_path[k], short_path[k + 1]}];
        transform = current_trans * transform;
        ++k;
      }
''')]
Q["pair-guards-early"] = [(B, '''        if (obj_obs_1_ptr) {
          int cam_id_1 = obj_obs_1_ptr->camera_id_;''', '''        if (!obj_obs_1_ptr)
          continue;
        {
          int cam_id_1 = obj_obs_1_ptr->camera_id_;'''), (B, '''              if (cam_id_1 != cam_id_2) // if the camera is not the same
              {
                // if the same object is visible from the two cameras
                if (obj_id_1 == obj_id_2) {
                  // Compute the relative pose between the cameras
                  cv::Mat inter_cam_pose =
                      pose_cam_2 * pose_cam_1.inv(); // not sure here ...

                  // Store in a database
                  camera_pose_pairs_[std::make_pair(cam_id_1, cam_id_2)]
                      .push_back(inter_cam_pose);
                }
              }''', '''              if (cam_id_1 == cam_id_2 || obj_id_1 != obj_id_2)
                continue;
              const std::pair<int, int> key(cam_id_1, cam_id_2);
              camera_pose_pairs_[key].push_back(pose_cam_2 *
                                                pose_cam_1.inv());''')]
Q["pair-helper"] = [(B, '''                cv::Mat inter_board_pose = proj_2.inv() * proj_1;
                std::pair<int, int> cam_idx_pair =
                    std::make_pair(boardid1, boardid2);
                board_pose_pairs_[cam_idx_pair].push_back(inter_board_pose);''',
'''                board_pose_pairs_[std::make_pair(boardid1, boardid2)].push_back(
                    relativePose(proj_1, proj_2));'''), (B, '''void Calibration::computeBoardsPairPose() {''', '''static cv::Mat relativePose(const cv::Mat &from, const cv::Mat &to) {
  return to.inv() * from;
}

void Calibration::computeBoardsPairPose() {''')]
Q["inter-loop-index"] = [(B, '''    for (const auto &pose_temp : poses_temp) {
      cv::Mat R, T;
      Proj2RT(pose_temp, R, T);''', '''    for (std::size_t p = 0; p < poses_temp.size(); ++p) {
      cv::Mat R, T;
      Proj2RT(poses_temp[p], R, T);''')]
Q["inter-iterator-while"] = [(B, '''    for (const auto &pose_temp : poses_temp) {
      cv::Mat R, T;
      Proj2RT(pose_temp, R, T);''', '''    auto pose_it = poses_temp.begin();
    while (pose_it != poses_temp.end()) {
      cv::Mat R, T;
      Proj2RT(*pose_it, R, T);'''), (B, '''      t3.push_back(T.at<double>(2));
    }
''', '''      t3.push_back(T.at<double>(2));
      ++pose_it;
    }
''')]
Q["estimate-hoist"] = [(S + 'BoardObs.cpp', '''  for (const int &charuco_id : charuco_id_) {
    std::shared_ptr<Board> board_3d_ptr = board_3d_.lock();
    if (board_3d_ptr)
      board_pts_temp.emplace_back(board_3d_ptr->pts_3d_[charuco_id]);
  }
''', '''  if (auto board = board_3d_.lock()) {
    for (std::size_t i = 0; i < charuco_id_.size(); ++i)
      board_pts_temp.push_back(board->pts_3d_[charuco_id_[i]]);
  }
''', 0), (S + 'BoardObs.cpp', '''  for (const int &charuco_id : charuco_id_) {
    std::shared_ptr<Board> board_3d_ptr = board_3d_.lock();
    if (board_3d_ptr)
      board_pts_temp.emplace_back(board_3d_ptr->pts_3d_[charuco_id]);
  }
''', '''  if (auto board = board_3d_.lock()) {
    for (std::size_t i = 0; i < charuco_id_.size(); ++i)
      board_pts_temp.push_back(board->pts_3d_[charuco_id_[i]]);
  }
''', 0)]
Q["estimate-early-return"] = [(S + 'BoardObs.cpp', '''  if (cam_ptr) {
    cv::Mat inliers = ransacP3PDistortion(''', '''  if (!cam_ptr)
    return;
  {
    cv::Mat inliers = ransacP3PDistortion('''), (S + 'BoardObs.cpp', '''    // remove outliers
    std::vector<cv::Point2f> new_pts_vec(inliers.rows);
    std::vector<int> new_charuco_id(inliers.rows);
    for (int i = 0; i < inliers.rows; i++) {
      new_pts_vec[i] = pts_2d_[inliers.at<int>(i)];
      new_charuco_id[i] = charuco_id_[inliers.at<int>(i)];
    }
''', '''    // remove outliers
    std::vector<cv::Point2f> new_pts_vec;
    std::vector<int> new_charuco_id;
    for (int i = 0; i < inliers.rows; i++) {
      const int id = inliers.at<int>(i);
      new_pts_vec.push_back(pts_2d_[id]);
      new_charuco_id.push_back(charuco_id_[id]);
    }
''')]
Q["insert-board-reorder"] = [(B, '''  // Add board in the camera
  cams_[cam_idx]->insertNewBoard(new_board);

  // Add board in the Board3D
  boards_3d_[board_idx]->insertNewBoard(new_board);
''', '''  const auto &board = boards_3d_[board_idx];
  board->insertNewBoard(new_board);
  const auto &cam = cams_[cam_idx];
  cam->insertNewBoard(new_board);
'''), (B, '''  if (it != frames_.end()) {
    frames_[frame_idx]->insertNewBoard(
        new_board); // If the key already exist just push a new board in there
    frames_[frame_idx]->frame_path_[cam_idx] = frame_path;
  } else {
    std::shared_ptr<Frame> newFrame =
        std::make_shared<Frame>(frame_idx, cam_idx, frame_path);
    frames_[frame_idx] = newFrame; // Initialize the Frame if key does not exist
    frames_[frame_idx]->insertNewBoard(new_board);
  }
''', '''  if (it == frames_.end()) {
    frames_[frame_idx] =
        std::make_shared<Frame>(frame_idx, cam_idx, frame_path);
  } else {
    it->second->frame_path_[cam_idx] = frame_path;
  }
  frames_[frame_idx]->insertNewBoard(new_board);
''')]
Q["objobs-reorder"] = [(B, '''    if (object_obs->pts_id_.size() > 0) {
      // Update the camobs//frame//camera//3DObject
      cams_obs_[cam_id_frame_id]->insertNewObject(object_obs);
      frames_[cam_id_frame_id.second]->insertNewObject(object_obs);
      cams_[it_cam_obs.first.first]->insertNewObject(object_obs);
      object_3d_[object_idx]->insertNewObject(object_obs);
      object_3d_[object_idx]->insertNewFrame(frames_[cam_id_frame_id.second]);
      insertNewObjectObservation(object_obs);
    }
''', '''    if (object_obs->pts_id_.empty())
      continue;
    const int frame_id = cam_id_frame_id.second;
    insertNewObjectObservation(object_obs);
    const auto &object = object_3d_[object_idx];
    object->insertNewObject(object_obs);
    object->insertNewFrame(frames_[frame_id]);
    cams_[cam_id_frame_id.first]->insertNewObject(object_obs);
    frames_[frame_id]->insertNewObject(object_obs);
    current_camobs->insertNewObject(object_obs);
'''), (B, '''        std::map<int, std::weak_ptr<Board>>::iterator it =
            object_3d_[object_idx]->boards_.find(board_obs_ptr->board_id_);
        if (it != object_3d_[object_idx]
                      ->boards_.end()) // if the board belong to the object
        {
          object_obs->insertNewBoardObs(board_obs_ptr);
        }
''', '''        if (object_3d_[object_idx]->boards_.count(board_obs_ptr->board_id_) > 0)
          object_obs->insertNewBoardObs(board_obs_ptr);
''')]
Q["objpair-inline"] = [(B, '''                cv::Mat inter_object_pose = obj_pose_2.inv() * obj_pose_1;
                std::pair<int, int> object_idx_pair =
                    std::make_pair(object_3d_id_1, object_3d_id_2);
                object_pose_pairs_[object_idx_pair].push_back(
                    inter_object_pose);''', '''                auto &poses = object_pose_pairs_[std::make_pair(
                    object_3d_id_1, object_3d_id_2)];
                poses.push_back(obj_pose_2.inv() * obj_pose_1);'''), (B, '''          cv::Mat obj_pose_1 =
              it_cam_group_obs.second->getObjectPoseMat(object_3d_id_1);
''', '''          const auto &group_obs = it_cam_group_obs.second;
          cv::Mat obj_pose_1 = group_obs->getObjectPoseMat(object_3d_id_1);
''')]
Q["graph-rangefor"] = [(B, '''    const std::pair<int, int> &object_pair_idx = it.first;
    const std::vector<cv::Mat> &object_poses_temp = it.second;
    covis_objects_graph_.addEdge(object_pair_idx.first, object_pair_idx.second,
                                 ((double)1 / (object_poses_temp.size())));
''', '''    const double weight = 1.0 / it.second.size();
    covis_objects_graph_.addEdge(it.first.first, it.first.second, weight);
'''), (B, '''  for (const auto &it : object_3d_) {
    if (it.second->object_observations_.size() > 0) {
      covis_objects_graph_.addVertex(it.second->obj_id_);
    }
  }
''', '''  for (const auto &[id, object] : object_3d_) {
    if (object->object_observations_.empty())
      continue;
    covis_objects_graph_.addVertex(object->obj_id_);
  }
''')]
Q["graph-find"] = [(S + 'Graph.cpp', '''  if (idx_to_vertex_.find(vertex) != idx_to_vertex_.end()) {
    LOG_WARNING << "Vertex {" << vertex
                << "} is not added because it exists in the graph";
  } else {
    Vertex created_vertex = boost::add_vertex(std::to_string(vertex), graph_);
    idx_to_vertex_[vertex] = created_vertex;
  }
''', '''  const auto found = idx_to_vertex_.find(vertex);
  if (found == idx_to_vertex_.end()) {
    idx_to_vertex_[vertex] =
        boost::add_vertex(std::to_string(vertex), graph_);
    return;
  }
  LOG_WARNING << "Vertex {" << vertex
              << "} is not added because it exists in the graph";
''')]
Q["err-loop"] = [(S + 'BoardObs.cpp', '''    for (std::size_t j = 0; j < repro_pts.size(); j++) {
      float rep_err = std::sqrt(std::pow((pts_2d_[j].x - repro_pts[j].x), 2) +
                                std::pow((pts_2d_[j].y - repro_pts[j].y), 2));
''', '''    std::size_t j = 0;
    for (const cv::Point2f &projected : repro_pts) {
      const float dx = projected.x - pts_2d_[j].x;
      const float dy = projected.y - pts_2d_[j].y;
      const float rep_err = std::sqrt(dx * dx + dy * dy);
      ++j;
''')]
Q["posevec-helper"] = [(S + 'BoardObs.cpp', '''  cv::Mat r_vec, t_vec;
  Proj2RT(pose, r_vec, t_vec);
  pose_ = {r_vec.at<double>(0), r_vec.at<double>(1), r_vec.at<double>(2),
           t_vec.at<double>(0), t_vec.at<double>(1), t_vec.at<double>(2)};
''', '''  cv::Mat r_vec, t_vec;
  Proj2RT(pose, r_vec, t_vec);
  setPoseVec(r_vec, t_vec);
''')]
Q["comment-end"] = [(B, "\n// end of file\n"), (S + 'BoardObs.cpp', "\n// end of file\n"), (S + 'CameraGroup.cpp', "\n// end\n"), (S + 'geometrytools.cpp', "\n// end\n")]
# standard algorithms
PTS = '''  for (const int &charuco_id : charuco_id_) {
    std::shared_ptr<Board> board_3d_ptr = board_3d_.lock();
    if (board_3d_ptr)
      board_pts_temp.emplace_back(board_3d_ptr->pts_3d_[charuco_id]);
  }
'''
Q["alg-transform-pts"] = [(S + 'BoardObs.cpp', PTS, '''  const std::shared_ptr<Board> board_locked = board_3d_.lock();
  if (board_locked)
    std::transform(charuco_id_.begin(), charuco_id_.end(),
                   std::back_inserter(board_pts_temp),
                   [&](const int id) { return board_locked->pts_3d_[id]; });
''', "all"), (S + 'BoardObs.cpp', '#include "BoardObs.hpp"', '#include <algorithm>\n#include <iterator>\n#include "BoardObs.hpp"')]
Q["alg-foreach-pts"] = [(S + 'Object3DObs.cpp', '''  for (const auto &pt_id : pts_id_) {
    auto object_3d_ptr = object_3d_.lock();
    if (object_3d_ptr)
      object_pts_temp.emplace_back(object_3d_ptr->pts_3d_[pt_id]);
  }
''', '''  std::for_each(pts_id_.cbegin(), pts_id_.cend(), [&](const int &pt_id) {
    auto object_3d_ptr = object_3d_.lock();
    if (!object_3d_ptr)
      return;
    object_pts_temp.push_back(object_3d_ptr->pts_3d_[pt_id]);
  });
''', "all"), (S + 'Object3DObs.cpp', '#include "Object3DObs.hpp"', '#include <algorithm>\n#include "Object3DObs.hpp"')]
Q["alg-accumulate-err"] = [(S + 'BoardObs.cpp', '''      error_board_vec.push_back(rep_err);
      sum_err_board += rep_err;
    }
''', '''      error_board_vec.push_back(rep_err);
    }
    sum_err_board = std::accumulate(error_board_vec.begin(), error_board_vec.end(), 0.0f);
'''), (S + 'BoardObs.cpp', '#include "BoardObs.hpp"', '#include <numeric>\n#include "BoardObs.hpp"')]
Q["alg-foreach-stage"] = [(B, '''  for (const auto &it : object_observations_)
    it.second->estimatePose(ransac_thresh_, nb_iterations_);
''', '''  std::for_each(object_observations_.begin(), object_observations_.end(),
                [this](const auto &it) {
                  it.second->estimatePose(ransac_thresh_, nb_iterations_);
                });
''')]
Q["stage-iterator"] = [(B, '''  for (const auto &it : object_3d_)
    it.second->refineObject(nb_iterations_);
''', '''  for (auto it = object_3d_.begin(); it != object_3d_.end(); ++it) {
    const std::shared_ptr<Object3D> &object = it->second;
    object->refineObject(nb_iterations_);
  }
''')]
Q["posevec-loop"] = [(S + 'CameraGroupObs.cpp', '''  rot_v.at<double>(0) = object_pose_[object_id][0];
  rot_v.at<double>(1) = object_pose_[object_id][1];
  rot_v.at<double>(2) = object_pose_[object_id][2];
  trans_v.at<double>(0) = object_pose_[object_id][3];
  trans_v.at<double>(1) = object_pose_[object_id][4];
  trans_v.at<double>(2) = object_pose_[object_id][5];
''', '''  const auto &six = object_pose_[object_id];
  for (int i = 0; i < 3; i++) {
    rot_v.at<double>(i) = six[i];
    trans_v.at<double>(i) = six[i + 3];
  }
''')]
Q["groupobs-ref-loop"] = [(S + 'CameraGroupObs.cpp', '''    for (std::size_t i = 0; i < it_obj_obs.second.size(); i++) {
      auto cam_group_ptr = cam_group_.lock();
      auto obj_obs_ptr = object_observations_[it_obj_obs.second[i]].lock();
      if (cam_group_ptr && obj_obs_ptr &&
          cam_group_ptr->id_ref_cam_ == obj_obs_ptr->camera_id_) {
        flag_ref_cam = true;
''', '''    auto cam_group_ptr = cam_group_.lock();
    for (const int obs_idx : it_obj_obs.second) {
      auto obj_obs_ptr = object_observations_[obs_idx].lock();
      if (!cam_group_ptr || !obj_obs_ptr)
        continue;
      if (obj_obs_ptr->camera_id_ == cam_group_ptr->id_ref_cam_) {
        flag_ref_cam = true;
''')]
Q["group-residual-helper"] = [(S + 'CameraGroup.cpp', '''                      cv::Point3f current_pts_3d =
                          obj_pts_3d[obj_pts_idx[i]]; // Current 3D pts
                      cv::Point2f current_pts_2d =
                          obj_pts_2d[i]; // Current 2D pts
''', '''                      const int idx = obj_pts_idx.at(i);
                      const cv::Point3f &current_pts_3d = obj_pts_3d.at(idx);
                      const cv::Point2f &current_pts_2d = obj_pts_2d.at(i);
'''), (S + 'CameraGroup.cpp', '''                    bool refine_cam = true;
                    // We do not refine the camera pose if it is the ref camera
                    if (this->id_ref_cam_ == cam_ptr->cam_idx_)
                      refine_cam = false;
''', '''                    const bool refine_cam = cam_ptr->cam_idx_ != id_ref_cam_;
''')]
Q["distances-reserve"] = [(B, '''  cv::Mat error_list;
  for (std::size_t i = 0; i < repro_pts.size(); i++) {
    float rep_err = std::sqrt(std::pow((obj_pts_2d[i].x - repro_pts[i].x), 2) +
                              std::pow((obj_pts_2d[i].y - repro_pts[i].y), 2));
    error_list.push_back(rep_err);
  }
''', '''  cv::Mat error_list;
  for (std::size_t i = 0; i < repro_pts.size(); i++) {
    const float dx = repro_pts[i].x - obj_pts_2d[i].x;
    const float dy = repro_pts[i].y - obj_pts_2d[i].y;
    const float dist = std::sqrt(dx * dx + dy * dy);
    error_list.push_back(dist);
  }
''')]
Q["group-err-norm"] = [(S + 'CameraGroup.cpp', '''                    float rep_err = std::sqrt(
                        std::pow((obj_pts_2d[i].x - repro_pts[i].x), 2) +
                        std::pow((obj_pts_2d[i].y - repro_pts[i].y), 2));
                    sum_error += rep_err;
''', '''                    sum_error += cv::norm(obj_pts_2d[i] - repro_pts[i]);
''')]
Q["cam-distortion-early"] = [(S + 'Camera.cpp', '''  if (distortion_model_ == 1) {
    for (std::size_t intrinIdx = 4u; intrinIdx <= 7u; ++intrinIdx) {
      std::size_t distIdx = intrinIdx - 4u;
      intrinsics_[intrinIdx] = distortion_vector.at<double>(distIdx);
    }
  }
}
''', '''  if (distortion_model_ != 1)
    return;
  for (int d = 0; d < 4; d++)
    intrinsics_[4 + d] = distortion_vector.at<double>(d);
}
''')]
Q["statement-noop"] = [(S + 'CameraGroup.cpp', '''  ceres::Problem problem;
''', '''  ceres::Problem problem;
  const int unused_counter = 0;
  (void)unused_counter;
''', "all"), (B, '''  cv::Mat error_list;
''', '''  (void)obj_pts_2d.size();
  cv::Mat error_list;
''')]
# reprojection errors
Q["avg-sum-points"] = [(S + 'BoardObs.cpp', '''  return (error_board_vec.size() > 0) ? sum_err_board / error_board_vec.size()
                                      : 0.f;''', '''  const std::size_t nb_errors = error_board_vec.size();
  if (nb_errors == 0)
    return 0;
  return sum_err_board / static_cast<float>(nb_errors);''')]
Q["avg-counter"] = [(S + 'Object3DObs.cpp', '''      error_object_vec.push_back(rep_err);
      sum_err_object += rep_err;
''', '''      nb_err += 1;
      sum_err_object += rep_err;
'''), (S + 'Object3DObs.cpp', '''  std::vector<float> error_object_vec;
''', '''  int nb_err = 0;
'''), (S + 'Object3DObs.cpp', '''error_object_vec.size()''', 'nb_err', "all")]
Q["avg-extract"] = [(B, '''double Calibration::computeAvgReprojectionError() {
''', '''static cv::Mat observationErrors(const std::shared_ptr<CameraGroup> &group,
                                 const std::shared_ptr<CameraGroupObs> &group_obs,
                                 const std::shared_ptr<Object3DObs> &obs,
                                 const std::shared_ptr<Object3D> &object,
                                 const std::shared_ptr<Camera> &camera) {
  std::vector<cv::Point3f> pts;
  for (const int id : obs->pts_id_)
    pts.push_back(object->pts_3d_[id]);
  const std::vector<cv::Point3f> in_group =
      transform3DPts(pts, group_obs->getObjectRotVec(obs->object_3d_id_),
                     group_obs->getObjectTransVec(obs->object_3d_id_));
  std::vector<cv::Point2f> projected;
  projectPointsWithDistortion(in_group, group->getCameraRotVec(obs->camera_id_),
                              group->getCameraTransVec(obs->camera_id_),
                              camera->getCameraMat(),
                              camera->getDistortionVectorVector(),
                              camera->distortion_model_, projected);
  cv::Mat errors;
  for (std::size_t i = 0; i < projected.size(); i++) {
    const float err = cv::norm(obs->pts_2d_[i] - projected[i]);
    errors.push_back(err);
  }
  return errors;
}

double Calibration::computeAvgReprojectionError() {
'''), (B, '''                int current_cam_id = it_obj3d_ptr->camera_id_;
                const std::vector<cv::Point3f> &obj_pts_3d =
                    it_obj3d_object_3d_ptr->pts_3d_;
                const std::vector<int> &obj_pts_idx = it_obj3d_ptr->pts_id_;
                const std::vector<cv::Point2f> &obj_pts_2d =
                    it_obj3d_ptr->pts_2d_;
                camera_list.push_back(current_cam_id);

                // compute the reprojection error
                std::vector<cv::Point3f> object_pts;
                for (const auto &obj_pt_idx : obj_pts_idx)
                  object_pts.push_back(obj_pts_3d[obj_pt_idx]);

                // apply object pose transform
                std::vector<cv::Point3f> object_pts_trans1 =
                    transform3DPts(object_pts,
                                   it_cam_group_obs_ptr->getObjectRotVec(
                                       it_obj3d_ptr->object_3d_id_),
                                   it_cam_group_obs_ptr->getObjectTransVec(
                                       it_obj3d_ptr->object_3d_id_));
                // reproject pts
                std::vector<cv::Point2f> repro_pts;
                std::shared_ptr<Camera> cam_ptr = it_obj3d_cam_ptr;
                projectPointsWithDistortion(
                    object_pts_trans1,
                    it.second->getCameraRotVec(current_cam_id),
                    it.second->getCameraTransVec(current_cam_id),
                    cam_ptr->getCameraMat(),
                    cam_ptr->getDistortionVectorVector(),
                    cam_ptr->distortion_model_, repro_pts);

                cv::Mat error_list =
                    computeDistanceBetweenPoints(obj_pts_2d, repro_pts);
                total_avg_error_sum += cv::mean(error_list);
                number_of_adds++;
''', '''                const cv::Mat error_list =
                    observationErrors(it.second, it_cam_group_obs_ptr,
                                      it_obj3d_ptr, it_obj3d_object_3d_ptr,
                                      it_obj3d_cam_ptr);
                number_of_adds++;
                total_avg_error_sum += cv::mean(error_list);
''')]
Q["avg-double"] = [(B, '''  cv::Scalar total_avg_error_sum;
''', '''  double total_avg_error_sum = 0.;
'''), (B, '''                total_avg_error_sum += cv::mean(error_list);
''', '''                total_avg_error_sum += cv::mean(error_list)[0];
'''), (B, "total_avg_error_sum.val[0] / number_of_adds", "total_avg_error_sum / number_of_adds")]
Q["avg-continue"] = [(B, '''    for (const auto &it_frame : cur_cam_group->frames_) {
      auto it_frame_ptr = it_frame.second.lock();
      if (it_frame_ptr) {
        cv::Mat camera_list;
        frame_list''', '''    for (const auto &it_frame : cur_cam_group->frames_) {
      auto it_frame_ptr = it_frame.second.lock();
      if (!it_frame_ptr)
        continue;
      {
        cv::Mat camera_list;
        frame_list'''), (B, '''          if (it_cam_group_obs_ptr &&
              cam_group_idx == it_cam_group_obs_ptr->cam_group_idx_) {
            std::map''', '''          if (!it_cam_group_obs_ptr ||
              cam_group_idx != it_cam_group_obs_ptr->cam_group_idx_)
            continue;
          {
            std::map''')]
_O = "McCalib/include/OptimizationCeres.h"
_HELP = """#include <eigen3/Eigen/Dense>

// moves a point with a pose: rotation vector, translation
template <typename T>
inline void movePoint(const T *const pose, const T *const in, T *out) {
  T q[3];
  ceres::AngleAxisRotatePoint(pose, in, q);
  for (int i = 0; i < 3; i++)
    out[i] = q[i] + pose[3 + i];
}

template <typename T>
inline void brownDistort(const T &x, const T &y, const T &k1, const T &k2,
                         const T &k3, const T &p1, const T &p2, T &xd, T &yd) {
  const T r2 = x * x + y * y;
  const T radial = T(1) + r2 * (k1 + r2 * (k2 + r2 * k3));
  const T a = T(2) * x * y;
  xd = x * radial + p1 * a + p2 * (r2 + T(2) * x * x);
  yd = y * radial + p1 * (r2 + T(2) * y * y) + p2 * a;
}
"""
Q["opt-helpers"] = [
    (_O, "#include <eigen3/Eigen/Dense>\n", _HELP),
    (_O, """    T p[3];
    const T point[3] = {T(x), T(y), T(z)};
    ceres::AngleAxisRotatePoint(camera, point, p);

    // camera[3,4,5] are the translation.
    p[0] += camera[3];
    p[1] += camera[4];
    p[2] += camera[5];
""", """    T p[3];
    const T point[3] = {T(x), T(y), T(z)};
    movePoint(camera, point, p);
"""),
    (_O, """      T r2 = p[0] * p[0] + p[1] * p[1];
      T r4 = r2 * r2;
      T r6 = r4 * r2;
      T r_coeff = (T(1) + k1 * r2 + k2 * r4 + k3 * r6);
      T xd = p[0] * r_coeff + T(2) * p1 * p[0] * p[1] +
             p2 * (r2 + T(2) * p[0] * p[0]);
      T yd = p[1] * r_coeff + p1 * (r2 + T(2) * (p[1] * p[1])) +
             T(2) * p2 * p[0] * p[1];

      // Project on the image plane
      T up = Intrinsics[0] * xd +""", """      T xd, yd;
      brownDistort(p[0], p[1], k1, k2, k3, p1, p2, xd, yd);

      // Project on the image plane
      T up = Intrinsics[0] * xd +"""),
    (_O, """    T pobj[3];
    const T point[3] = {T(x), T(y), T(z)};
    ceres::AngleAxisRotatePoint(object_pose, point, pobj);
    pobj[0] += object_pose[3];
    pobj[1] += object_pose[4];
    pobj[2] += object_pose[5];

    // 2. Refine the camera if it is not the referential
    if (refine_camera != 0) {
      T pobj_refine[3];
      ceres::AngleAxisRotatePoint(camera, pobj, pobj_refine);
      std::copy_n(pobj_refine, 3, pobj);
      pobj[0] += camera[3];
      pobj[1] += camera[4];
      pobj[2] += camera[5];
    }

    // Normalization on the camera plane
    pobj[0] /= pobj[2];
    pobj[1] /= pobj[2];
""", """    T pobj[3];
    const T point[3] = {T(x), T(y), T(z)};
    movePoint(object_pose, point, pobj);

    // 2. Refine the camera if it is not the referential
    if (refine_camera)
      movePoint(camera, pobj, pobj);

    // Normalization on the camera plane
    const T inv_z = T(1) / pobj[2];
    pobj[0] *= inv_z;
    pobj[1] *= inv_z;
"""),
]
Q["opt-elseif"] = [(_O, "    if (distortion_type == 1) // fisheye\n", "    else if (distortion_type == 1) // fisheye\n", "all")]
Q["opt-switch"] = [(_O, """    T pobj[3];
    ceres::AngleAxisRotatePoint(object_pose, point, pobj);
    pobj[0] += object_pose[3];
    pobj[1] += object_pose[4];
    pobj[2] += object_pose[5];
""", """    T pobj[3];
    ceres::AngleAxisRotatePoint(object_pose, point, pobj);
    for (int axis = 0; axis < 3; ++axis)
      pobj[axis] += object_pose[axis + 3];
""", "all")]
Q["opt-theta"] = [(_O, """      T theta2 = theta * theta, theta3 = theta2 * theta,
        theta4 = theta2 * theta2, theta5 = theta4 * theta;
      T theta6 = theta3 * theta3, theta7 = theta6 * theta,
        theta8 = theta4 * theta4, theta9 = theta8 * theta;
      T theta_d = theta + k1 * theta3 + k2 * theta5 + p1 * theta7 + p2 * theta9;
      T inv_r = r > T(1e-8) ? T(1.0) / r : T(1);
      T cdist = r > T(1e-8) ? theta_d * inv_r : T(1);
""", """      const T theta2 = theta * theta;
      const T theta_d =
          theta *
          (T(1) + theta2 * (k1 + theta2 * (k2 + theta2 * (p1 + theta2 * p2))));
      const T cdist = r > T(1e-8) ? theta_d / r : T(1);
""", "all")]
Q["res-locals"] = [("McCalib/src/CameraGroup.cpp", """                    double fx = cam_ptr->intrinsics_[0];
                    double fy = cam_ptr->intrinsics_[1];
                    double u0 = cam_ptr->intrinsics_[2];
                    double v0 = cam_ptr->intrinsics_[3];
                    double r1 = cam_ptr->intrinsics_[4];
                    double r2 = cam_ptr->intrinsics_[5];
                    double t1 = cam_ptr->intrinsics_[6];
                    double t2 = cam_ptr->intrinsics_[7];
                    double r3 = cam_ptr->intrinsics_[8];
                    bool refine_cam = true;
                    // We do not refine the camera pose if it is the ref camera
                    if (this->id_ref_cam_ == cam_ptr->cam_idx_)
                      refine_cam = false;
""", """                    const auto &intr = cam_ptr->intrinsics_;
                    const double fx = intr[0], fy = intr[1];
                    const double u0 = intr[2], v0 = intr[3];
                    const double r1 = intr[4], r2 = intr[5], r3 = intr[8];
                    const double t1 = intr[6], t2 = intr[7];
                    // We do not refine the camera pose if it is the ref camera
                    const bool refine_cam = id_ref_cam_ != current_cam_id;
""")]
Q["det-locals"] = [(B, """    if (charuco_corners[i].size() >
        static_cast<std::size_t>(
            std::round(min_perc_pts_ * boards_3d_[i]->nb_pts_))) {
      LOG_INFO""", """    const std::shared_ptr<Board> &board = boards_3d_[i];
    std::vector<cv::Point2f> &corners = charuco_corners[i];
    const std::vector<int> &corner_ids = charuco_idx[i];
    const auto min_nb_corners =
        static_cast<std::size_t>(std::round(min_perc_pts_ * board->nb_pts_));
    if (corners.size() <= min_nb_corners)
      continue;
    {
      LOG_INFO"""),
 (B, """        for (std::size_t j = 0; j < charuco_corners[i].size(); j++) {
          if (std::isinf(refined[j].x) || std::isinf(refined[j].y)) {
            continue;
          }
          charuco_corners[i][j].x = refined[j].x;
          charuco_corners[i][j].y = refined[j].y;
        }""", """        for (std::size_t j = 0; j < refined.size(); j++) {
          if (!std::isinf(refined[j].x) && !std::isinf(refined[j].y))
            corners[j] = cv::Point2f(refined[j].x, refined[j].y);
        }"""),
 (B, """      pts_on_board_2d.reserve(charuco_idx[i].size());
      for (const auto &charuco_idx_at_board_id : charuco_idx[i]) {
        pts_on_board_2d.emplace_back(
            boards_3d_[i]->pts_3d_[charuco_idx_at_board_id].x,
            boards_3d_[i]->pts_3d_[charuco_idx_at_board_id].y);
      }""", """      for (std::size_t j = 0; j < corner_ids.size(); j++) {
        const cv::Point3f &pt = board->pts_3d_[corner_ids[j]];
        pts_on_board_2d.push_back(cv::Point2f(pt.x, pt.y));
      }"""),
 (B, """      if ((residual > boards_3d_[i]->square_size_ * 0.1) &&
          (charuco_corners[i].size() > 4)) {
        int board_idx = i;
        {
          std::unique_lock<std::mutex> lock(insert_new_board_lock_);
          insertNewBoard(cam_idx, frame_idx, board_idx,
                         charuco_corners[board_idx], charuco_idx[board_idx],
                         frame_path);
        }
      }""", """      const double min_residual = 0.1 * board->square_size_;
      const bool collinear = residual <= min_residual;
      if (collinear || corners.size() < 5)
        continue;
      std::lock_guard<std::mutex> lock(insert_new_board_lock_);
      insertNewBoard(cam_idx, frame_idx, i, corners, corner_ids, frame_path);"""),
]
Q["det-helpers"] = [(B, """void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
                                                const int cam_idx,
""", """static bool enoughCorners(const std::size_t nb_corners, const float min_perc,
                          const Board &board) {
  return nb_corners >
         static_cast<std::size_t>(std::round(min_perc * board.nb_pts_));
}

static double collinearity(const Board &board, const std::vector<int> &ids) {
  std::vector<cv::Point2f> pts;
  for (const int id : ids)
    pts.emplace_back(board.pts_3d_[id].x, board.pts_3d_[id].y);
  double a = 0.0, b = 0.0, c = 0.0, residual = 0.0;
  calcLinePara(pts, a, b, c, residual);
  return residual;
}

static void refineCorners(const cv::Mat &image, const int window,
                          const int iterations,
                          std::vector<cv::Point2f> &corners) {
  std::vector<SaddlePoint> refined;
  saddleSubpixelRefinement(image, corners, refined, window, iterations);
  for (std::size_t j = 0; j < corners.size(); j++) {
    if (std::isinf(refined[j].x) || std::isinf(refined[j].y))
      continue;
    corners[j].x = refined[j].x;
    corners[j].y = refined[j].y;
  }
}

void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
                                                const int cam_idx,
"""),
 (B, """    if (charuco_corners[i].size() >
        static_cast<std::size_t>(
            std::round(min_perc_pts_ * boards_3d_[i]->nb_pts_))) {
""", """    if (enoughCorners(charuco_corners[i].size(), min_perc_pts_,
                      *boards_3d_[i])) {
"""),
 (B, """        std::vector<SaddlePoint> refined;
        saddleSubpixelRefinement(graymat, charuco_corners[i], refined,
                                 corner_ref_window_, corner_ref_max_iter_);
        for (std::size_t j = 0; j < charuco_corners[i].size(); j++) {
          if (std::isinf(refined[j].x) || std::isinf(refined[j].y)) {
            continue;
          }
          charuco_corners[i][j].x = refined[j].x;
          charuco_corners[i][j].y = refined[j].y;
        }
""", """        refineCorners(graymat, corner_ref_window_, corner_ref_max_iter_,
                      charuco_corners[i]);
"""),
 (B, """      std::vector<cv::Point2f> pts_on_board_2d;
      pts_on_board_2d.reserve(charuco_idx[i].size());
      for (const auto &charuco_idx_at_board_id : charuco_idx[i]) {
        pts_on_board_2d.emplace_back(
            boards_3d_[i]->pts_3d_[charuco_idx_at_board_id].x,
            boards_3d_[i]->pts_3d_[charuco_idx_at_board_id].y);
      }
      double dum_a = 0.0;
      double dum_b = 0.0;
      double dum_c = 0.0;
      double residual = 0.0;
      calcLinePara(pts_on_board_2d, dum_a, dum_b, dum_c, residual);
""", """      const double residual = collinearity(*boards_3d_[i], charuco_idx[i]);
"""),
]
Q["det-line"] = [(S + "geometrytools.cpp", """  std::vector<cv::Point2f> ptsF;
  ptsF.reserve(pts.size());
  for (const auto &pt : pts)
    ptsF.emplace_back(pt);

  cv::fitLine(ptsF, line""", """  cv::fitLine(pts, line"""),
 (S + "geometrytools.cpp", """    double resid_ = fabs(pt.x * a + pt.y * b + c);
    res += resid_;
  }
  res /= pts.size();""", """    res += std::abs(a * pt.x + b * pt.y + c) / pts.size();
  }""")]
Q["det-saddle"] = [(I + "point_refinement.h", """        double dx = (-2.0 * r[1] * r[4] + r[2] * r[3]) / pt.det;
        // k3 * k1 - 2 * k5 * k2
        double dy = (r[2] * r[4] - 2.0 * r[0] * r[3]) / pt.det;
        pt.x += dx;
        pt.y += dy;
""", """        const double inv_det = 1.0 / pt.det;
        const double dx = (r[2] * r[3] - 2.0 * r[1] * r[4]) * inv_det;
        // k3 * k1 - 2 * k5 * k2
        const double dy = (r[2] * r[4] - 2.0 * r[0] * r[3]) * inv_det;
        pt.x = pt.x + dx;
        pt.y = pt.y + dy;
"""), (I + "point_refinement.h", """  for (size_t idx = 0; idx < refined.size(); idx++) {
    SaddlePoint &pt = refined[idx];
""", """  for (size_t idx = 0; idx < initial.size(); idx++) {
    auto &pt = refined[idx];
""")]

# non-overlapping groups
Q["he-locals"] = [(S + "geometrytools.cpp", '''    cv::Mat pose_cam_group_1 = pose_abs_1[i].inv();
    cv::Mat pose_cam_group_2 = pose_abs_2[i];

    // save in datastruct
    cv::Mat r_1, r_2, t_1, t_2;
    Proj2RT(pose_cam_group_1, r_1, t_1);
    Proj2RT(pose_cam_group_2, r_2, t_2);
    cv::Mat r_1_mat, r_2_mat;
    Rodrigues(r_1, r_1_mat);
    Rodrigues(r_2, r_2_mat);
    r_cam_group_1[i] = r_1_mat;
    t_cam_group_1[i] = t_1;
    r_cam_group_2[i] = r_2_mat;
    t_cam_group_2[i] = t_2;
''', '''    cv::Mat r_2, t_2, r_2_mat;
    Proj2RT(pose_abs_2[i], r_2, t_2);
    Rodrigues(r_2, r_2_mat);
    r_cam_group_2.at(i) = r_2_mat;
    t_cam_group_2.at(i) = t_2;

    const cv::Mat inverse_1 = pose_abs_1[i].inv();
    cv::Mat r_1, t_1, r_1_mat;
    Proj2RT(inverse_1, r_1, t_1);
    Rodrigues(r_1, r_1_mat);
    r_cam_group_1.at(i) = r_1_mat;
    t_cam_group_1.at(i) = t_1;
''')]
Q["he-one-helper"] = [(S + "geometrytools.cpp", '''/**
 * @brief Calibrate 2 cameras with handeye calibration
 *

 */
cv::Mat handeyeCalibration(''', '''static void addPose(const cv::Mat &pose, std::vector<cv::Mat> &rotations,
                    std::vector<cv::Mat> &translations) {
  cv::Mat rot_vec, trans, rot_mat;
  Proj2RT(pose, rot_vec, trans);
  cv::Rodrigues(rot_vec, rot_mat);
  rotations.push_back(rot_mat);
  translations.push_back(trans);
}

/**
 * @brief Calibrate 2 cameras with handeye calibration
 *

 */
cv::Mat handeyeCalibration('''), (S + "geometrytools.cpp", '''    // get the poses
    const cv::Mat pose_cam_group_1 = pose_abs_1[pose_ind_i].inv();
    const cv::Mat pose_cam_group_2 = pose_abs_2[pose_ind_i];

    // save in datastruct
    cv::Mat r_1, r_2, t_1, t_2;
    Proj2RT(pose_cam_group_1, r_1, t_1);
    Proj2RT(pose_cam_group_2, r_2, t_2);
    cv::Mat r_1_mat, r_2_mat;
    cv::Rodrigues(r_1, r_1_mat);
    cv::Rodrigues(r_2, r_2_mat);
    r_cam_group_1.push_back(r_1_mat);
    t_cam_group_1.push_back(t_1);
    r_cam_group_2.push_back(r_2_mat);
    t_cam_group_2.push_back(t_2);
''', '''    addPose(pose_abs_1[pose_ind_i].inv(), r_cam_group_1, t_cam_group_1);
    addPose(pose_abs_2[pose_ind_i], r_cam_group_2, t_cam_group_2);
'''), (S + "geometrytools.cpp", '''  std::vector<cv::Mat> r_cam_group_1(num_poses), t_cam_group_1(num_poses),
      r_cam_group_2(num_poses), t_cam_group_2(num_poses);
''', '''  std::vector<cv::Mat> r_cam_group_1, t_cam_group_1, r_cam_group_2,
      t_cam_group_2;
'''), (S + "geometrytools.cpp", '''    // get the poses
    cv::Mat pose_cam_group_1 = pose_abs_1[i].inv();
    cv::Mat pose_cam_group_2 = pose_abs_2[i];

    // save in datastruct
    cv::Mat r_1, r_2, t_1, t_2;
    Proj2RT(pose_cam_group_1, r_1, t_1);
    Proj2RT(pose_cam_group_2, r_2, t_2);
    cv::Mat r_1_mat, r_2_mat;
    Rodrigues(r_1, r_1_mat);
    Rodrigues(r_2, r_2_mat);
    r_cam_group_1[i] = r_1_mat;
    t_cam_group_1[i] = t_1;
    r_cam_group_2[i] = r_2_mat;
    t_cam_group_2[i] = t_2;
''', '''    addPose(pose_abs_1[i].inv(), r_cam_group_1, t_cam_group_1);
    addPose(pose_abs_2[i], r_cam_group_2, t_cam_group_2);
''')]
Q["he-continue"] = [(B, '''      // if both objects are visible
      if (obj_vis1 & obj_vis2) {''', '''      // if both objects are visible
      if (!obj_vis1 || !obj_vis2)
        continue;
      {'''), (B, '''            pose_abs_1.push_back(pose_obj_1);
            pose_abs_2.push_back(pose_obj_2);
''', '''            pose_abs_2.push_back(pose_obj_2);
            pose_abs_1.push_back(pose_obj_1);
'''), (B, '''      cam_group_id1, cam_group_id2)] = pose_abs_1.size();''', '''      cam_group_id1, cam_group_id2)] = pose_abs_2.size();''')]
Q["he-frames-helper"] = [(B, '''/**
 * @brief Handeye calibration of a pair of non overlapping pair of group of
 * cameras
''', '''static std::map<int, std::shared_ptr<Frame>>
lockFrames(const std::map<int, std::weak_ptr<Frame>> &frames) {
  std::map<int, std::shared_ptr<Frame>> locked;
  for (const auto &item : frames) {
    if (auto frame_ptr = item.second.lock())
      locked[item.first] = frame_ptr;
  }
  return locked;
}

/**
 * @brief Handeye calibration of a pair of non overlapping pair of group of
 * cameras
'''), (B, '''  std::map<int, std::shared_ptr<Frame>> cam_group1_frames;
  std::map<int, std::shared_ptr<Frame>> cam_group2_frames;
  for (const auto &item : cam_group1->frames_) {
    if (auto frames_ptr = item.second.lock())
      cam_group1_frames[item.first] = frames_ptr;
  }
  for (const auto &item : cam_group2->frames_) {
    if (auto frames_ptr = item.second.lock())
      cam_group2_frames[item.first] = frames_ptr;
  }
''', '''  const std::map<int, std::shared_ptr<Frame>> cam_group1_frames =
      lockFrames(cam_group1->frames_);
  const std::map<int, std::shared_ptr<Frame>> cam_group2_frames =
      lockFrames(cam_group2->frames_);
''')]
Q["he-direct-frames"] = [(B, '''  // Find frames in common
  std::map<int, std::shared_ptr<Frame>> common_frames;
  std::map<int, std::shared_ptr<Frame>>::iterator it_frames(
      common_frames.begin());
  std::set_intersection(cam_group1_frames.begin(), cam_group1_frames.end(),
                        cam_group2_frames.begin(), cam_group2_frames.end(),
                        std::inserter(common_frames, it_frames));
''', '''  // Find frames in common
  std::map<int, std::shared_ptr<Frame>> common_frames;
  for (const auto &item : cam_group1_frames) {
    if (cam_group2_frames.find(item.first) != cam_group2_frames.end())
      common_frames[item.first] = item.second;
  }
''')]
Q["he-pose-by-id"] = [(B, '''            int object_id1 = obj_obs1_ptr->object_3d_id_;
            int object_id2 = obj_obs2_ptr->object_3d_id_;
            cv::Mat pose_obj_1 =
                cam_group_obs1_ptr->getObjectPoseMat(object_id1);
            cv::Mat pose_obj_2 =
                cam_group_obs2_ptr->getObjectPoseMat(object_id2);
            pose_abs_1.push_back(pose_obj_1);
            pose_abs_2.push_back(pose_obj_2);
''', '''            pose_abs_1.push_back(cam_group_obs1_ptr->getObjectPoseMat(
                obj_obs1_ptr->object_3d_id_));
            pose_abs_2.push_back(cam_group_obs2_ptr->getObjectPoseMat(
                obj_obs2_ptr->object_3d_id_));
'''), (B, '''  pose_g1_g2 = pose_g1_g2.inv();
  // Save the parameter in the datastructure
  no_overlap_camgroup_pair_pose_[std::make_pair(cam_group_id1, cam_group_id2)] =
      pose_g1_g2;
  no_overlap__camgroup_pair_common_cnt_[std::make_pair(
      cam_group_id1, cam_group_id2)] = pose_abs_1.size();''', '''  const std::pair<int, int> group_pair(cam_group_id1, cam_group_id2);
  // Save the parameter in the datastructure
  no_overlap_camgroup_pair_pose_[group_pair] = pose_g1_g2.inv();
  no_overlap__camgroup_pair_common_cnt_[group_pair] =
      std::min(pose_abs_1.size(), pose_abs_2.size());''')]
Q["he-select"] = [(B, '''        unsigned int currentMax = 0u;
        std::pair<int, int> arg_max = std::make_pair(0, 0);
        for (const auto &it : count_pair_obs) {
          if (it.second > currentMax) {
            arg_max = it.first;
            currentMax = it.second;
          }
        }
''', '''        unsigned int currentMax = 0u;
        std::pair<int, int> arg_max(0, 0);
        for (const auto &it : count_pair_obs) {
          if (currentMax >= it.second)
            continue;
          currentMax = it.second;
          arg_max = std::make_pair(it.first.first, it.first.second);
        }
'''), (B, '''                    int obj_ind_2 = object_obs_2_ptr->object_3d_id_;
                    count_pair_obs[std::make_pair(obj_ind_1, obj_ind_2)]++;
''', '''                    const std::pair<int, int> seen_pair(
                        obj_ind_1, object_obs_2_ptr->object_3d_id_);
                    count_pair_obs[seen_pair] += 1u;
''')]
G = S + "geometrytools.cpp"
Q["geo-inlier-helper"] = [(G, '''// RANSAC algorithm
// Return Inliers, p = proba (typical = 0.99), Output : Rot and Trans Mat,
// Thresh = reprojection tolerance in pixels, it = max iteration
cv::Mat ransacP3P(''', '''static int countInliers(const std::vector<cv::Point2f> &observed,
                        const std::vector<cv::Point2f> &reprojected,
                        const float thresh, cv::Mat &index) {
  int count = 0;
  for (int k = 0; k < (int)observed.size(); k++) {
    const float dx = observed[k].x - reprojected[k].x;
    const float dy = observed[k].y - reprojected[k].y;
    if (std::sqrt(std::pow(dx, 2) + std::pow(dy, 2)) < thresh) {
      index.push_back(k);
      count++;
    }
  }
  return count;
}

// RANSAC algorithm
// Return Inliers, p = proba (typical = 0.99), Output : Rot and Trans Mat,
// Thresh = reprojection tolerance in pixels, it = max iteration
cv::Mat ransacP3P('''), (G, '''    int NbInliers = 0;
    for (int k = 0; k < (int)scenePoints.size(); k++) {
      if (std::sqrt(std::pow(imagePoints[k].x - reprojected_pts[k].x, 2) +
                    std::pow(imagePoints[k].y - reprojected_pts[k].y, 2)) <
          thresh) {
        Index.push_back(k);
        NbInliers++;
      }
    }
''', '''    const int NbInliers =
        countInliers(imagePoints, reprojected_pts, thresh, Index);
''')]
Q["geo-sample-loop"] = [(G, '''    std::array<int, 4> idx = {myvector[0], myvector[1], myvector[2],
                              myvector[3]};

    // Select the corresponding sample
    std::vector<cv::Point3f> scenePoints3Pts = {
        scenePoints[idx[0]], scenePoints[idx[1]], scenePoints[idx[2]],
        scenePoints[idx[3]]};
    std::vector<cv::Point2f> imagePoints3Pts = {
        imagePoints[idx[0]], imagePoints[idx[1]], imagePoints[idx[2]],
        imagePoints[idx[3]]};
''', '''    std::vector<cv::Point3f> scenePoints3Pts;
    std::vector<cv::Point2f> imagePoints3Pts;
    for (int s = 0; s < 4; s++) {
      scenePoints3Pts.push_back(scenePoints[myvector[s]]);
      imagePoints3Pts.push_back(imagePoints[myvector[s]]);
    }
''')]
Q["geo-refine-early"] = [(G, '''  if (refine == true && BestInNb >= 4) {
    std::vector<cv::Point3f> scenePointsInliers(BestInNb);
    std::vector<cv::Point2f> imagePointsInliers(BestInNb);

    for (int j = 0; j < BestInNb; j++) {
      imagePointsInliers[j] = imagePoints[InliersR.at<int>(j)];
      scenePointsInliers[j] = scenePoints[InliersR.at<int>(j)];
    }
    cv::solvePnP(scenePointsInliers, imagePointsInliers, Intrinsic, Disto,
                 BestR, BestT, true, 0); // CV_ITERATIVE = 0 non linear
  }
  return InliersR;
''', '''  if (!refine || BestInNb < 4)
    return InliersR;

  std::vector<cv::Point3f> scenePointsInliers;
  std::vector<cv::Point2f> imagePointsInliers;
  for (int j = 0; j < InliersR.rows; j++) {
    const int index = InliersR.at<int>(j);
    imagePointsInliers.push_back(imagePoints[index]);
    scenePointsInliers.push_back(scenePoints[index]);
  }
  const bool use_guess = true;
  cv::solvePnP(scenePointsInliers, imagePointsInliers, Intrinsic, Disto, BestR,
               BestT, use_guess, cv::SOLVEPNP_ITERATIVE);
  return InliersR;
''')]
Q["geo-distortion-switch"] = [(G, '''  cv::Mat Inliers;
  // P3P for perspective (Brown model)
  if (distortion_type == 0) {
    Inliers =
        ransacP3P(scene_points, image_points, intrinsic, distortion_vector,
                  best_R, best_T, thresh, it, p, refine);
  }
''', '''  // P3P for perspective (Brown model)
  if (distortion_type == 0)
    return ransacP3P(scene_points, image_points, intrinsic, distortion_vector,
                     best_R, best_T, thresh, it, p, refine);

  cv::Mat Inliers;
''')]
Q["geo-clone"] = [(G, '''      Index.copyTo(InliersR);
      BestInNb = NbInliers;
      Trans.copyTo(BestT);
      Rot.copyTo(BestR);
''', '''      InliersR = Index;
      BestInNb = NbInliers;
      BestT = Trans.clone();
      BestR = Rot.clone();
''')]
Q["geo-handeye-push"] = [(G, '''  const size_t num_poses = pose_abs_1.size();
  std::vector<cv::Mat> r_cam_group_1(num_poses), t_cam_group_1(num_poses),
      r_cam_group_2(num_poses), t_cam_group_2(num_poses);
  for (size_t i = 0; i < num_poses; i++) {
''', '''  const size_t num_poses = std::min(pose_abs_1.size(), pose_abs_2.size());
  std::vector<cv::Mat> r_cam_group_1, t_cam_group_1, r_cam_group_2,
      t_cam_group_2;
  for (size_t i = 0; i < num_poses; ++i) {
'''), (G, '''    r_cam_group_1[i] = r_1_mat;
    t_cam_group_1[i] = t_1;
    r_cam_group_2[i] = r_2_mat;
    t_cam_group_2[i] = t_2;
''', '''    r_cam_group_1.push_back(r_1_mat.clone());
    t_cam_group_1.push_back(t_1.clone());
    r_cam_group_2.emplace_back(r_2_mat.clone());
    t_cam_group_2.emplace_back(t_2.clone());
''')]
Q["geo-select"] = [(G, '''  std::vector<unsigned int> cluster_select;
  cluster_select.reserve(nb_clust_pick);
  for (unsigned int k = 0; k < nb_clust_pick; ++k) {
    cluster_select.push_back(shuffled_ind[k]);
  }

  assert(cluster_select.size() == nb_clust_pick);
  return cluster_select;
''', '''  assert(nb_clust_pick <= shuffled_ind.size());
  return std::vector<unsigned int>(shuffled_ind.begin(),
                                   shuffled_ind.begin() + nb_clust_pick);
'''), (G, '''    std::uniform_int_distribution<> dis(0, pose_idxs.size() - 1);
    unsigned int random_idx = dis(gen);
    selected_poses_idxs.push_back(pose_idxs[random_idx]);
''', '''    const int last_idx = static_cast<int>(pose_idxs.size()) - 1;
    std::uniform_int_distribution<int> dis(0, last_idx);
    selected_poses_idxs.push_back(pose_idxs[dis(gen)]);
''')]
Q["geo-transform"] = [(G, '''  double r11 = RotM.at<double>(0, 0);
  double r12 = RotM.at<double>(0, 1);
  double r13 = RotM.at<double>(0, 2);
''', '''  const double *row0 = RotM.ptr<double>(0);
  const double r11 = row0[0];
  const double r12 = row0[1];
  const double r13 = row0[2];
''')]
Q["geo-median"] = [(G, '''  const std::size_t n_elements = v.size();
  if (n_elements == 0)
    return 0.f;
  std::sort(v.begin(), v.end());
  const std::size_t mid = n_elements / 2;
  return n_elements % 2 == 0 ? (v[mid] + v[mid - 1]) / 2 : v[mid];
''', '''  if (v.empty())
    return 0.f;
  std::sort(v.begin(), v.end());
  const std::size_t mid = v.size() / 2;
  if (v.size() % 2 == 1)
    return v[mid];
  return 0.5 * (v[mid - 1] + v[mid]);
''')]
Q["geo-estimate-pose"] = [(S + "BoardObs.cpp", '''    if (board_3d_ptr && inliers.rows < 4) {
      valid_ = false;
    }
''', '''    const bool too_few = inliers.rows < 4;
    valid_ = valid_ && !(board_3d_ptr && too_few);
''')]

# ---------------------------------------------------------------- result files
Q["sv-camera-helper"] = [(B, '''void Calibration::saveCamerasParams() {
''', '''static void writeCamera(cv::FileStorage &fs, Camera &cam, const int group,
                        const cv::Mat &pose) {
  cv::Mat K, dist;
  cam.getIntrinsics(K, dist);
  fs << "camera_" + std::to_string(cam.cam_idx_) << "{";
  fs << "camera_matrix" << K << "distortion_vector" << dist;
  fs << "distortion_type" << cam.distortion_model_;
  fs << "camera_group" << group;
  fs << "img_width" << cam.im_cols_ << "img_height" << cam.im_rows_;
  fs << "camera_pose_matrix" << pose;
  fs << "}";
}

void Calibration::saveCamerasParams() {
'''), (B, '''        fs << "camera_" + std::to_string(cur_cam->cam_idx_);
        cv::Mat cam_matrix;
        cv::Mat distortion_vector;
        cur_cam->getIntrinsics(cam_matrix, distortion_vector);
        fs << "{"
           << "camera_matrix" << cam_matrix;
        fs << "distortion_vector" << distortion_vector;
        fs << "distortion_type" << cur_cam->distortion_model_;
        fs << "camera_group" << it_cam_group.first;
        fs << "img_width" << cur_cam->im_cols_;
        fs << "img_height" << cur_cam->im_rows_;
        fs << "camera_pose_matrix"
           << cur_cam_group->getCameraPoseMat(cur_cam->cam_idx_).inv() << "}";
''', '''        const cv::Mat pose =
            cur_cam_group->getCameraPoseMat(cur_cam->cam_idx_).inv();
        writeCamera(fs, *cur_cam, it_cam_group.first, pose);
''')]
Q["sv-objects-lambda"] = [(B, '''          pts_mat.at<float>(0, obj_pts_count) = curr_pts.x;
          pts_mat.at<float>(1, obj_pts_count) = curr_pts.y;
          pts_mat.at<float>(2, obj_pts_count) = curr_pts.z;
          pts_mat.at<float>(3, obj_pts_count) = static_cast<float>(board_idx);
          pts_mat.at<float>(4, obj_pts_count) =
              static_cast<float>(board_id_pts_id.second);
          obj_pts_count++;
''', '''          const int col = obj_pts_count++;
          auto put = [&pts_mat, col](int row, float v) {
            pts_mat.at<float>(row, col) = v;
          };
          put(0, curr_pts.x);
          put(1, curr_pts.y);
          put(2, curr_pts.z);
          put(3, static_cast<float>(board_idx));
          put(4, static_cast<float>(i));
''')]
Q["sv-poses-loop"] = [(B, '''        pose_mat.at<double>(0, a) = rot.at<double>(0);
        pose_mat.at<double>(1, a) = rot.at<double>(1);
        pose_mat.at<double>(2, a) = rot.at<double>(2);
        pose_mat.at<double>(3, a) = trans.at<double>(0);
        pose_mat.at<double>(4, a) = trans.at<double>(1);
        pose_mat.at<double>(5, a) = trans.at<double>(2);
        a = a + 1;
''', '''        for (int r = 0; r < 3; r++) {
          pose_mat.at<double>(r, a) = rot.at<double>(r);
          pose_mat.at<double>(3 + r, a) = trans.at<double>(r);
        }
        ++a;
''')]
Q["sv-keypoints-continue"] = [(B, '''          if ((cam_idx == it_board_obs.second->camera_id_) &&
              (frame_idx == it_board_obs.second->frame_id_) &&
              (board_idx == it_board_obs.second->board_id_)) {
            const std::vector<cv::Point2f> &pts_2d =
                it_board_obs.second->pts_2d_;
            const std::vector<int> &charuco_idx =
                it_board_obs.second->charuco_id_;

            frame_idxs.push_back(frame_idx);
            frame_paths.push_back(frame_path);
            board_idxs.push_back(board_idx);
            points.push_back(pts_2d);
            charuco_idxs.push_back(charuco_idx);
          }
''', '''          const auto &obs = it_board_obs.second;
          if (obs->camera_id_ != cam_idx || obs->frame_id_ != frame_idx ||
              obs->board_id_ != board_idx)
            continue;

          charuco_idxs.push_back(obs->charuco_id_);
          points.push_back(obs->pts_2d_);
          frame_idxs.push_back(obs->frame_id_);
          frame_paths.push_back(frame_path);
          board_idxs.push_back(obs->board_id_);
''')]
Q["sv-errors-helper"] = [(B, '''void Calibration::saveReprojectionErrorToFile() {
''', '''static void writeErrors(cv::FileStorage &fs, const int cam, const int nb,
                        const cv::Mat &errors) {
  const std::string name = "camera_" + std::to_string(cam);
  fs << name << "{";
  fs << "nb_pts" << nb << "error_list" << errors;
  fs << "}";
}

void Calibration::saveReprojectionErrorToFile() {
'''), (B, '''                fs << "camera_" + std::to_string(current_cam_id);
                fs << "{";

''', ''), (B, '''                fs << "nb_pts" << nb_pts;

                // apply object pose transform
                std::vector<cv::Point3f> object_pts_trans1 =
                    transform3DPts(object_pts,
                                   it_cam_group_obs_ptr->getObjectRotVec(
                                       it_obj3d_ptr->object_3d_id_),
                                   it_cam_group_obs_ptr->getObjectTransVec(
                                       it_obj3d_ptr->object_3d_id_));
                // reproject pts
''', '''
                // apply object pose transform
                std::vector<cv::Point3f> object_pts_trans1 =
                    transform3DPts(object_pts,
                                   it_cam_group_obs_ptr->getObjectRotVec(
                                       it_obj3d_ptr->object_3d_id_),
                                   it_cam_group_obs_ptr->getObjectTransVec(
                                       it_obj3d_ptr->object_3d_id_));
                // reproject pts
'''), (B, '''                fs << "error_list" << error_list << "}";
''', '''                writeErrors(fs, current_cam_id, nb_pts, error_list);
''')]
Q["sv-load-helper"] = [(B, '''void Calibration::loadDetectedKeypoints() {
''', '''template <typename T>
static T readNode(const cv::FileNode &n, const std::string &key) {
  T v{};
  n[key] >> v;
  return v;
}

void Calibration::loadDetectedKeypoints() {
'''), (B, '''    data_per_camera["board_idxs"] >> board_idxs;
''', '''    board_idxs = readNode<std::vector<int>>(data_per_camera, "board_idxs");
'''), (B, '''    cams_[cam_idx]->im_cols_ = img_cols;
    cams_[cam_idx]->im_rows_ = img_rows;
''', '''    auto &cam = *cams_[cam_idx];
    cam.im_rows_ = img_rows;
    cam.im_cols_ = img_cols;
''')]
Q["sv-release-scope"] = [(B, '''    fs << "poses" << pose_mat;
    fs << "}";
  }
  fs.release();
''', '''    fs << "poses" << pose_mat << "}";
  }
''')]

# --- Board, Camera, Object3D, Object3DObs, CameraGroupObs, Graph, calibrate, utilities
Q["board-reads-helper"] = [(S + 'Board.cpp', '''  if (number_x_square_per_board.size() != 0)
    nb_x_square_ = number_x_square_per_board[boards_index[board_idx]];
  if (number_y_square_per_board.size() != 0)
    nb_y_square_ = number_y_square_per_board[boards_index[board_idx]];
  if (square_size_per_board.size() != 0)
    square_size_ = square_size_per_board[boards_index[board_idx]];
''', '''  const int listed_idx = boards_index[board_idx];
  nb_x_square_ = settingOfBoard(number_x_square_per_board, listed_idx, nb_x_square_);
  nb_y_square_ = settingOfBoard(number_y_square_per_board, listed_idx, nb_y_square_);
  square_size_ = settingOfBoard<double>(square_size_per_board, listed_idx, square_size_);
'''), (S + 'Board.cpp', '''/**
 * @brief Initialize Board object
''', '''template <typename T>
static T settingOfBoard(const std::vector<T> &per_board, const int idx,
                        const T common) {
  if (per_board.empty())
    return common;
  return per_board[idx];
}

/**
 * @brief Initialize Board object
''')]
Q["board-points-loop"] = [(S + 'Board.cpp', '''  for (int y = 0; y < nb_y_square_ - 1; y++) {
    for (int x = 0; x < nb_x_square_ - 1; x++) {
      pts_3d_.emplace_back(x * square_size_, y * square_size_, 0);
    }
  }
''', '''  const int corners_x = nb_x_square_ - 1;
  const int corners_y = nb_y_square_ - 1;
  for (int row = 0; row < corners_y; ++row) {
    const double y = square_size_ * row;
    for (int col = 0; col != corners_x; ++col) {
      const cv::Point3f corner(square_size_ * col, y, 0);
      pts_3d_.push_back(corner);
    }
  }
''')]
Q["board-index-loop"] = [(S + 'Board.cpp', '''    boards_index.resize(nb_board);
    std::iota(boards_index.begin(), boards_index.end(), 0);
''', '''    for (int b = 0; b < nb_board; ++b)
      boards_index.push_back(b);
'''), (S + 'Board.cpp', "  if (boards_index.size() == 0) {", "  if (boards_index.empty()) {")]
Q["board-insert-named"] = [(S + 'Board.cpp', "  board_observations_[board_observations_.size()] = new_board;", '''  const int next = static_cast<int>(board_observations_.size());
  board_observations_.emplace(next, new_board);''')]
Q["cam-mat-comma"] = [(S + 'Camera.cpp', '''  cv::Mat camera_matrix = cv::Mat(3, 3, CV_64F, cv::Scalar(0));
  camera_matrix.at<double>(0, 0) = intrinsics_[0];
  camera_matrix.at<double>(1, 1) = intrinsics_[1]; // focal
  camera_matrix.at<double>(0, 2) = intrinsics_[2];
  camera_matrix.at<double>(1, 2) = intrinsics_[3]; // principal pt
  camera_matrix.at<double>(2, 2) = 1;
  return camera_matrix;
''', '''  const double fx = intrinsics_[0], fy = intrinsics_[1];
  const double cx = intrinsics_[2], cy = intrinsics_[3];
  return (cv::Mat_<double>(3, 3) << fx, 0, cx, 0, fy, cy, 0, 0, 1);
''')]
Q["cam-mat-eye"] = [(S + 'Camera.cpp', '''  cv::Mat camera_matrix = cv::Mat(3, 3, CV_64F, cv::Scalar(0));
''', '''  cv::Mat camera_matrix = cv::Mat::eye(3, 3, CV_64F);
'''), (S + 'Camera.cpp', '''  camera_matrix.at<double>(2, 2) = 1;
  return''', '''  return''')]
Q["cam-dist-helper"] = [(S + 'Camera.cpp', '''  if (distortion_model_ == 0) {
    for (std::size_t intrinIdx = 4u; intrinIdx <= 8u; ++intrinIdx) {
      std::size_t distIdx = intrinIdx - 4u;
      intrinsics_[intrinIdx] = distortion_vector.at<double>(distIdx);
    }
  }
  if (distortion_model_ == 1) {
    for (std::size_t intrinIdx = 4u; intrinIdx <= 7u; ++intrinIdx) {
      std::size_t distIdx = intrinIdx - 4u;
      intrinsics_[intrinIdx] = distortion_vector.at<double>(distIdx);
    }
  }
''', '''  std::size_t nb_coeffs = 0u;
  if (distortion_model_ == 0)
    nb_coeffs = 5u;
  else if (distortion_model_ == 1)
    nb_coeffs = 4u;
  for (std::size_t i = 0u; i < nb_coeffs; ++i)
    intrinsics_[4u + i] = distortion_vector.at<double>(i);
''')]
Q["cam-dist-get-early"] = [(S + 'Camera.cpp', '''  if (distortion_model_ == 0) {
    cv::Mat distortion_vector = cv::Mat(1, 5, CV_64F, cv::Scalar(0));
    for (std::size_t intrinIdx = 4u; intrinIdx <= 8u; ++intrinIdx) {
      std::size_t distIdx = intrinIdx - 4u;
      distortion_vector.at<double>(distIdx) = intrinsics_[intrinIdx];
    }
    return distortion_vector;
  }

  else if (distortion_model_ == 1) {
    cv::Mat distortion_vector = cv::Mat(1, 4, CV_64F, cv::Scalar(0));
    for (std::size_t intrinIdx = 4u; intrinIdx <= 7u; ++intrinIdx) {
      std::size_t distIdx = intrinIdx - 4u;
      distortion_vector.at<double>(distIdx) = intrinsics_[intrinIdx];
    }
    return distortion_vector;
  }

  else {
    LOG_FATAL << "Unsupported distortion model";
    return cv::Mat(1, 5, CV_64F, cv::Scalar(0));
  }
''', '''  if (distortion_model_ != 0 && distortion_model_ != 1) {
    LOG_FATAL << "Unsupported distortion model";
    return cv::Mat(1, 5, CV_64F, cv::Scalar(0));
  }
  const int nb_coeffs = distortion_model_ == 0 ? 5 : 4;
  cv::Mat distortion_vector = cv::Mat::zeros(1, nb_coeffs, CV_64F);
  for (int i = 0; i < nb_coeffs; ++i)
    distortion_vector.at<double>(i) = intrinsics_[4 + i];
  return distortion_vector;
''')]
Q["cam-init-early"] = [(S + 'Camera.cpp', '''    if (board_obs_temp) {
      // if fisheye, check if points are not too close to borders
      bool valid_board = true;
      if (distortion_model_ == 1) {
        valid_board = checkBorderToleranceFisheye(board_obs_temp);
      }
      if (valid_board == true) {
        const std::vector<int> &corners_idx_temp = board_obs_temp->charuco_id_;
        std::shared_ptr<Board> board_3d_ptr = board_obs_temp->board_3d_.lock();
        if (board_3d_ptr) {
          std::vector<cv::Point3f> pts_3d_temp;
          pts_3d_temp.reserve(corners_idx_temp.size());
          for (const auto &corner_idx_temp : corners_idx_temp)
            pts_3d_temp.emplace_back(board_3d_ptr->pts_3d_[corner_idx_temp]);
          obj_points.emplace_back(pts_3d_temp);
          img_points.emplace_back(board_obs_temp->pts_2d_);
        }
      }
    }
''', '''    if (!board_obs_temp)
      continue;
    // if fisheye, check if points are not too close to borders
    if (distortion_model_ == 1 && !checkBorderToleranceFisheye(board_obs_temp))
      continue;
    std::shared_ptr<Board> board_3d_ptr = board_obs_temp->board_3d_.lock();
    if (!board_3d_ptr)
      continue;
    img_points.push_back(board_obs_temp->pts_2d_);
    std::vector<cv::Point3f> &model_points = obj_points.emplace_back();
    for (const int idx : board_obs_temp->charuco_id_)
      model_points.push_back(board_3d_ptr->pts_3d_[idx]);
''')]
Q["cam-init-else"] = [(S + 'Camera.cpp', '''    LOG_INFO << "distCoeffs : " << distortion_coeffs;
  }
  if (distortion_model_ == 1) {
    cv::fisheye::calibrate(''', '''    LOG_INFO << "distCoeffs : " << distortion_coeffs;
  } else if (distortion_model_ == 1) {
    cv::fisheye::calibrate('''), (S + 'Camera.cpp', "cv::Size(im_cols_, im_rows_),\n                        camera", "image_size,\n                        camera"), (S + 'Camera.cpp', '''  cv::Mat camera_matrix, distortion_coeffs, r_vec, t_vec;
  if (''', '''  cv::Mat camera_matrix, distortion_coeffs, r_vec, t_vec;
  const cv::Size image_size(im_cols_, im_rows_);
  if ('''), (S + 'Camera.cpp', '''  setIntrinsics(camera_matrix, distortion_coeffs);
}

/**
 * @brief determine''', '''  setCameraMat(camera_matrix);
  setDistortionVector(distortion_coeffs);
}

/**
 * @brief determine''')]
Q["cam-refine-helper"] = [(S + 'Camera.cpp', '''    if (board_obs_ptr && board_obs_ptr->valid_ == true) {
      std::shared_ptr<Board> board_3d_ptr = board_obs_ptr->board_3d_.lock();
      if (board_3d_ptr) {
        const std::vector<cv::Point3f> &board_pts_3d = board_3d_ptr->pts_3d_;
        const std::vector<int> &board_pts_idx = board_obs_ptr->charuco_id_;
        const std::vector<cv::Point2f> &board_pts_2d = board_obs_ptr->pts_2d_;
        for (std::size_t i = 0; i < board_pts_idx.size(); i++) {
          cv::Point3f current_pts_3d =
              board_pts_3d[board_pts_idx[i]];           // Current 3D pts
          cv::Point2f current_pts_2d = board_pts_2d[i]; // Current 2D pts
          ceres::CostFunction *reprojection_error = ReprojectionError::Create(
              double(current_pts_2d.x), double(current_pts_2d.y),
              double(current_pts_3d.x), double(current_pts_3d.y),
              double(current_pts_3d.z), distortion_model_);
          problem.AddResidualBlock(
              reprojection_error, new ceres::HuberLoss(1.0),
              board_obs_ptr->pose_.data(), intrinsics_.data());
        }
      }
    }
''', '''    if (!board_obs_ptr || !board_obs_ptr->valid_)
      continue;
    const std::shared_ptr<Board> board = board_obs_ptr->board_3d_.lock();
    if (!board)
      continue;
    std::size_t i = 0;
    for (const int corner : board_obs_ptr->charuco_id_) {
      const cv::Point2f &seen = board_obs_ptr->pts_2d_[i++];
      const cv::Point3f &model = board->pts_3d_[corner];
      problem.AddResidualBlock(
          ReprojectionError::Create(seen.x, seen.y, model.x, model.y, model.z,
                                    distortion_model_),
          new ceres::HuberLoss(1.0), board_obs_ptr->pose_.data(),
          intrinsics_.data());
    }
''')]
Q["cam-border-anyof"] = [(S + 'Camera.cpp', '''    const float &pt_x = board_obs->pts_2d_[i].x;
    const float &pt_y = board_obs->pts_2d_[i].y;
''', '''    const auto &pt = board_obs->pts_2d_[i];
    const float pt_x = pt.x, pt_y = pt.y;
'''), (S + 'Camera.cpp', '''      valid_board = false;
      break;
    }
  }
  return valid_board;
''', '''      return false;
    }
  }
  return valid_board;
''')]
GETB = '''  cv::Mat rot_v = cv::Mat::zeros(3, 1, CV_64F);
  cv::Mat trans_v = cv::Mat::zeros(3, 1, CV_64F);
  rot_v.at<double>(0) = relative_board_pose_[board_id][0];
  rot_v.at<double>(1) = relative_board_pose_[board_id][1];
  rot_v.at<double>(2) = relative_board_pose_[board_id][2];
  trans_v.at<double>(0) = relative_board_pose_[board_id][3];
  trans_v.at<double>(1) = relative_board_pose_[board_id][4];
  trans_v.at<double>(2) = relative_board_pose_[board_id][5];
  rot_v.copyTo(r_vec);
  trans_v.copyTo(t_vec);
'''
Q["obj-getpose-loop"] = [(S + 'Object3D.cpp', GETB, '''  const std::array<double, 6> &pose = relative_board_pose_[board_id];
  cv::Mat rot_v(3, 1, CV_64F), trans_v(3, 1, CV_64F);
  for (int i = 0; i < 3; ++i) {
    rot_v.at<double>(i) = pose[i];
    trans_v.at<double>(i) = pose[3 + i];
  }
  rot_v.copyTo(r_vec);
  trans_v.copyTo(t_vec);
''')]
Q["obj-getpose-comma"] = [(S + 'Object3D.cpp', GETB, '''  const auto &p = relative_board_pose_[board_id];
  r_vec = (cv::Mat_<double>(3, 1) << p[0], p[1], p[2]);
  t_vec = (cv::Mat_<double>(3, 1) << p[3], p[4], p[5]);
''')]
Q["obj-setmat-delegate"] = [(S + 'Object3D.cpp', '''  Proj2RT(pose, r_vec, t_vec);
  relative_board_pose_[board_id] = {r_vec.at<double>(0), r_vec.at<double>(1),
                                    r_vec.at<double>(2), t_vec.at<double>(0),
                                    t_vec.at<double>(1), t_vec.at<double>(2)};
''', '''  Proj2RT(pose, r_vec, t_vec);
  setBoardPoseVec(board_id, r_vec, t_vec);
''')]
UPD = '''  // Update the pts3d in the object
  for (const auto &it_board : boards_) {
    auto board_ptr = it_board.second.lock();
    if (board_ptr) {
      int board_idx = board_ptr->board_id_;

      // Transform the 3D pts to push in the object 3D
      std::vector<cv::Point3f> trans_pts =
          transform3DPts(board_ptr->pts_3d_, getBoardRotVec(board_idx),
                         getBoardTransVec(board_idx));

      // Replace the keypoints
      for (std::size_t i = 0; i < trans_pts.size(); i++) {
        std::pair<int, int> board_id_pts_id = std::make_pair(board_idx, i);
        pts_3d_[pts_board_2_obj_[board_id_pts_id]] = trans_pts[i];
      }
    }
  }
}
'''
Q["obj-refine-update-call"] = [(S + 'Object3D.cpp', UPD, '''  updateObjectPts();
}
''', 0)]
Q["obj-update-early"] = [(S + 'Object3D.cpp', UPD, '''  for (const auto &[board_id, weak_board] : boards_) {
    const auto board = weak_board.lock();
    if (!board)
      continue;
    cv::Mat r_vec, t_vec;
    getBoardPoseVec(board->board_id_, r_vec, t_vec);
    const auto moved = transform3DPts(board->pts_3d_, r_vec, t_vec);
    for (int i = 0; i < board->nb_pts_; ++i) {
      const int object_pt = pts_board_2_obj_[{board->board_id_, i}];
      pts_3d_[object_pt] = moved[i];
    }
  }
}
''', 1)]
Q["obj-refine-early"] = [(S + 'Object3D.cpp', '''              bool refine_board = true;
              // We do not refine the board pose if only one board is visible or
              // if it is the ref board
              if (ref_board_id_ == board_obs_ptr->board_id_)
                refine_board = false;
''', '''              // the reference board is held
              const bool refine_board =
                  board_obs_ptr->board_id_ != ref_board_id_;
'''), (S + 'Object3D.cpp', '''              double fx = cam_ptr->intrinsics_[0];
              double fy = cam_ptr->intrinsics_[1];
              double u0 = cam_ptr->intrinsics_[2];
              double v0 = cam_ptr->intrinsics_[3];
              double r1 = cam_ptr->intrinsics_[4];
''', '''              const auto &intr = cam_ptr->intrinsics_;
              const double fx = intr[0], fy = intr[1];
              const double u0 = intr[2], v0 = intr[3];
              double r1 = intr[4];
'''), (S + 'Object3D.cpp', '''                    current_object_obs->pose_.data(),
                    relative_board_pose_[board_obs_ptr->board_id_].data());''', '''                    current_object_obs->pose_.data(), board_pose.data());'''), (S + 'Object3D.cpp', '''              for (std::size_t i = 0; i < board_pts_idx.size(); i++) {''', '''              auto &board_pose = relative_board_pose_[board_obs_ptr->board_id_];
              for (std::size_t i = 0; i < board_pts_idx.size(); i++) {''')]
Q["objobs-insert-hoist"] = [(S + 'Object3DObs.cpp', '''  for (std::size_t i = 0; i < num_points; i++) {
    // Convert the index from the board to the object
    std::pair<int, int> board_id_pts_id =
        std::make_pair(new_board_obs->board_id_, new_board_obs->charuco_id_[i]);
    auto object_3d_ptr = object_3d_.lock();
    if (object_3d_ptr) {
      pts_2d_.emplace_back(new_board_obs->pts_2d_[i]);
      pts_id_.emplace_back(object_3d_ptr->pts_board_2_obj_[board_id_pts_id]);
    }
  }
''', '''  const auto object = object_3d_.lock();
  if (!object)
    return;
  const int board = new_board_obs->board_id_;
  for (std::size_t i = 0; i < num_points; i++) {
    const int corner = new_board_obs->charuco_id_[i];
    pts_id_.push_back(object->pts_board_2_obj_[std::make_pair(board, corner)]);
    pts_2d_.push_back(new_board_obs->pts_2d_[i]);
  }
''')]
Q["objobs-setmat-delegate"] = [(S + 'Object3DObs.cpp', '''  Proj2RT(pose, r_vec, t_vec);
  pose_ = {r_vec.at<double>(0), r_vec.at<double>(1), r_vec.at<double>(2),
           t_vec.at<double>(0), t_vec.at<double>(1), t_vec.at<double>(2)};
''', '''  Proj2RT(pose, r_vec, t_vec);
  setPoseVec(r_vec, t_vec);
'''), (S + 'Object3DObs.cpp', '''void Object3DObs::setPoseVec(const cv::Mat &r_vec, const cv::Mat &t_vec) {
  pose_ = {r_vec.at<double>(0), r_vec.at<double>(1), r_vec.at<double>(2),
           t_vec.at<double>(0), t_vec.at<double>(1), t_vec.at<double>(2)};
''', '''void Object3DObs::setPoseVec(const cv::Mat &r_vec, const cv::Mat &t_vec) {
  for (int i = 0; i < 3; ++i) {
    pose_[i] = r_vec.at<double>(i);
    pose_[i + 3] = t_vec.at<double>(i);
  }
''')]
Q["objobs-err-rewrite"] = [(S + 'Object3DObs.cpp', '''  // return mean error for the board
  return error_object_vec.size() > 0 ? sum_err_object / error_object_vec.size()
                                     : sum_err_object;
''', '''  if (error_object_vec.empty())
    return 0;
  return sum_err_object / error_object_vec.size();
'''), (S + 'Object3DObs.cpp', '''      float rep_err = std::sqrt(std::pow((pts_2d_[j].x - repro_pts[j].x), 2) +
                                std::pow((pts_2d_[j].y - repro_pts[j].y), 2));
''', '''      const float dx = repro_pts[j].x - pts_2d_[j].x;
      const float dy = repro_pts[j].y - pts_2d_[j].y;
      const float rep_err = std::hypot(dx, dy);
''')]
Q["groupobs-split"] = [(S + 'CameraGroupObs.cpp', '''  // Find indexes of object 3D obs with common index
  std::map<int, std::vector<int>>
      obj_obs_group; // key: object index // value: index in
                     // the vector of observation
  for (std::size_t i = 0; i < object_unique_ind.size(); i++) {
    for (std::size_t j = 0; j < object_idx_.size(); j++) {
      if (object_idx_[j] == object_unique_ind[i]) {
        obj_obs_group[object_unique_ind[i]].push_back(j);
      }
    }
  }
''', '''  // Find indexes of object 3D obs with common index
  std::map<int, std::vector<int>> obj_obs_group;
  for (std::size_t j = 0; j < object_idx_.size(); j++)
    obj_obs_group[object_idx_[j]].push_back(j);
'''), (S + 'CameraGroupObs.cpp', '''  // Find group of observation of the same object
  std::vector<int> object_unique_ind = object_idx_;
  std::vector<int>::iterator newEnd =
      std::unique(object_unique_ind.begin(), object_unique_ind.end());
  object_unique_ind.erase(newEnd, object_unique_ind.end());

''', '')]
Q["groupobs-ref-break"] = [(S + 'CameraGroupObs.cpp', '''    bool flag_ref_cam = false;
    cv::Mat group_pose_r, group_pose_t;
    for (std::size_t i = 0; i < it_obj_obs.second.size(); i++) {
      auto cam_group_ptr = cam_group_.lock();
      auto obj_obs_ptr = object_observations_[it_obj_obs.second[i]].lock();
      if (cam_group_ptr && obj_obs_ptr &&
          cam_group_ptr->id_ref_cam_ == obj_obs_ptr->camera_id_) {
        flag_ref_cam = true;
''', '''    bool flag_ref_cam = false;
    cv::Mat group_pose_r, group_pose_t;
    const auto group = cam_group_.lock();
    for (const int obs_idx : it_obj_obs.second) {
      if (!group)
        break;
      auto obj_obs_ptr = object_observations_[obs_idx].lock();
      if (!obj_obs_ptr)
        continue;
      if (obj_obs_ptr->camera_id_ == group->id_ref_cam_) {
        flag_ref_cam = true;
'''), (S + 'CameraGroupObs.cpp', '''    for (std::size_t i = 0; i < it_obj_obs.second.size(); i++) {
      auto obj_obs_ptr = object_observations_[it_obj_obs.second[i]].lock();
      if (obj_obs_ptr)
        obj_obs_ptr->setPoseInGroupVec(group_pose_r, group_pose_t);
    }
''', '''    for (const auto &obs_idx : it_obj_obs.second) {
      if (auto obs = object_observations_[obs_idx].lock())
        obs->setPoseInGroupVec(group_pose_r, group_pose_t);
    }
''')]
Q["groupobs-update-locals"] = [(S + 'CameraGroupObs.cpp', '''    if (obj_obs_ptr) {
      obj_obs_ptr->setPoseInGroupVec(
          getObjectRotVec(obj_obs_ptr->object_3d_id_),
          getObjectTransVec(obj_obs_ptr->object_3d_id_));
    }
''', '''    if (!obj_obs_ptr)
      continue;
    const int object_id = obj_obs_ptr->object_3d_id_;
    obj_obs_ptr->setPoseInGroupMat(getObjectPoseMat(object_id));
''')]
Q["graph-vertex-helper"] = [(S + 'Graph.cpp', '''  Vertex vertex1 = (idx_to_vertex_.find(v1) != idx_to_vertex_.end())
                       ? idx_to_vertex_[v1]
                       : boost::add_vertex(std::to_string(v1), graph_);
  idx_to_vertex_[v1] = vertex1;
  Vertex vertex2 = (idx_to_vertex_.find(v2) != idx_to_vertex_.end())
                       ? idx_to_vertex_[v2]
                       : boost::add_vertex(std::to_string(v2), graph_);
  idx_to_vertex_[v2] = vertex2;

  boost::add_edge(vertex1, vertex2, EdgeWeightProperty(weight), graph_);
''', '''  for (const int v : {v1, v2}) {
    if (idx_to_vertex_.count(v) == 0)
      idx_to_vertex_[v] = boost::add_vertex(std::to_string(v), graph_);
  }
  boost::add_edge(idx_to_vertex_[v1], idx_to_vertex_[v2],
                  EdgeWeightProperty(weight), graph_);
''')]
Q["graph-vertex-calls"] = [(S + 'Graph.cpp', '''  Vertex vertex1 = (idx_to_vertex_.find(v1) != idx_to_vertex_.end())
                       ? idx_to_vertex_[v1]
                       : boost::add_vertex(std::to_string(v1), graph_);
  idx_to_vertex_[v1] = vertex1;
  Vertex vertex2 = (idx_to_vertex_.find(v2) != idx_to_vertex_.end())
                       ? idx_to_vertex_[v2]
                       : boost::add_vertex(std::to_string(v2), graph_);
  idx_to_vertex_[v2] = vertex2;

''', '''  if (idx_to_vertex_.find(v1) == idx_to_vertex_.end())
    addVertex(v1);
  if (idx_to_vertex_.find(v2) == idx_to_vertex_.end())
    addVertex(v2);
  const Vertex vertex1 = idx_to_vertex_.at(v1);
  const Vertex vertex2 = idx_to_vertex_.at(v2);
''')]
Q["graph-components-index"] = [(S + 'Graph.cpp', '''  for (int component_idx = 0; component_idx < num_components; ++component_idx) {

    std::vector<int> cur_component;
    for (int vert_idx = 0; vert_idx < num_vertices; ++vert_idx) {
      if (component[vert_idx] == component_idx) {
        // get vertex name which was supplied by a user
        std::string vert_name = boost::get(boost::vertex_name, graph_,
                                           boost::vertex(vert_idx, graph_));

        cur_component.push_back(std::stoi(vert_name));
      }
    }
    all_components.push_back(cur_component);
  }
''', '''  all_components.resize(num_components);
  for (int vert_idx = 0; vert_idx < num_vertices; ++vert_idx) {
    // get vertex name which was supplied by a user
    const std::string vert_name = boost::get(boost::vertex_name, graph_,
                                             boost::vertex(vert_idx, graph_));
    all_components[component[vert_idx]].push_back(std::stoi(vert_name));
  }
''')]
Q["graph-path-insert"] = [(S + 'Graph.cpp', '''  std::vector<int> path;
  Vertex current = destination;
  while (current != source) {
    path.push_back(std::stoi(boost::get(boost::vertex_name, graph_, current)));
    current = p_map[current];
  }
  path.push_back(std::stoi(boost::get(boost::vertex_name, graph_, source)));

  std::reverse(path.begin(), path.end()); // return in v1->v2 order
  return path;
''', '''  std::vector<int> path;
  for (Vertex v = destination; v != source; v = p_map[v]) {
    path.push_back(std::stoi(boost::get(boost::vertex_name, graph_, v)));
  }
  path.push_back(std::stoi(boost::get(boost::vertex_name, graph_, source)));
  return std::vector<int>(path.rbegin(), path.rend());
''')]
Q["app-stage-helpers"] = [(A, '''  // merge camera groups 1
  LOG_INFO << "Merge cameras and objets initiated";
  Calib.initInterCamGroupGraph();
  Calib.mergeCameraGroup();
  Calib.mergeAllCameraGroupObs();
  // Merge objects
  Calib.merge3DObjects();
  // merge camera groups 2
  Calib.initInterCamGroupGraph();
  Calib.mergeCameraGroup();
  Calib.mergeAllCameraGroupObs();
''', '''  // merge camera groups 1
  LOG_INFO << "Merge cameras and objets initiated";
  mergeGroups(Calib);
  // Merge objects
  Calib.merge3DObjects();
  // merge camera groups 2
  mergeGroups(Calib);
'''), (A, '''void runCalibrationWorkflow(const std''', '''static void mergeGroups(McCalib::Calibration &calib) {
  calib.initInterCamGroupGraph();
  calib.mergeCameraGroup();
  calib.mergeAllCameraGroupObs();
}

void runCalibrationWorkflow(const std''')]
Q["app-save-helper"] = [(A, '''  // Save camera parameters
  LOG_INFO << "Save parameters";
  Calib.saveCamerasParams();
  Calib.save3DObj();
  Calib.save3DObjPose();
  Calib.saveReprojectionErrorToFile();
  LOG_INFO << "mean reprojection error :: "
           << Calib.computeAvgReprojectionError() << std::endl;

  Calib.saveDetectedKeypoints();
''', '''  // Save camera parameters
  LOG_INFO << "Save parameters";
  Calib.saveDetectedKeypoints();
  Calib.save3DObjPose();
  Calib.save3DObj();
  Calib.saveCamerasParams();
  const double mean_error = Calib.computeAvgReprojectionError();
  LOG_INFO << "mean reprojection error :: " << mean_error << std::endl;
  Calib.saveReprojectionErrorToFile();
'''), (A, '''  if (Calib.fix_intrinsic_ == 0) {
    Calib''', '''  const bool free_intrinsics = !(Calib.fix_intrinsic_ != 0);
  if (free_intrinsics) {
    Calib''')]
Q["app-main-check"] = [(A, '''  if (argc < 2) {
    LOG_FATAL << "Usage: calibrate <path to the configuration file>";
    return -1;
  }
  const std::filesystem::path config_path = argv[1];
  const bool is_file_available = std::filesystem::exists(config_path) &&
                                 config_path.has_filename() &&
                                 config_path.extension() == ".yml";
  if (!is_file_available) {
    LOG_FATAL << "Config path '" << config_path << "' doesn't exist.";
    return -1;
  }
''', '''  const std::vector<std::string> args(argv, argv + argc);
  if (args.size() <= 1) {
    LOG_FATAL << "Usage: calibrate <path to the configuration file>";
    return -1;
  }
  const std::filesystem::path config_path = args[1];
  if (!isUsable(config_path)) {
    LOG_FATAL << "Config path '" << config_path << "' doesn't exist.";
    return -1;
  }
'''), (A, '''int main(int argc''', '''static bool isUsable(const std::filesystem::path &path) {
  if (!path.has_filename() || path.extension() != ".yml")
    return false;
  return std::filesystem::exists(path);
}

int main(int argc''')]
Q["ut-offset"] = [(S + 'utilities.cpp', '''  int offset_count = 0;
  for (std::size_t i = 0; i < num_board; i++) {
    // declare''', '''  int first_id = 0;
  for (std::size_t i = 0; i < num_board; i++) {
    // declare'''), (S + 'utilities.cpp', '''    if (i != 0) {
      int id_offset = charuco_boards[i - 1]->ids.size() + offset_count;
      offset_count = id_offset;
      for (auto &id : charuco->ids) {
        id += id_offset;
      }
    }
''', '''    for (auto &id : charuco->ids)
      id += first_id;
    first_id += static_cast<int>(charuco->ids.size());
''')]

# --- McCalib.cpp, second batch
Q["mc-insert-board-try"] = [(B, '''  std::map<int, std::shared_ptr<Frame>>::iterator it = frames_.find(
      frame_idx); // Check if a frame has already been initialize at this key?
  if (it != frames_.end()) {
    frames_[frame_idx]->insertNewBoard(
        new_board); // If the key already exist just push a new board in there
    frames_[frame_idx]->frame_path_[cam_idx] = frame_path;
  } else {
    std::shared_ptr<Frame> newFrame =
        std::make_shared<Frame>(frame_idx, cam_idx, frame_path);
    frames_[frame_idx] = newFrame; // Initialize the Frame if key does not exist
    frames_[frame_idx]->insertNewBoard(new_board);
  }
  cams_[cam_idx]->insertNewFrame(frames_[frame_idx]);
  boards_3d_[board_idx]->insertNewFrame(frames_[frame_idx]);
''', '''  if (frames_.count(frame_idx) == 0)
    frames_[frame_idx] = std::make_shared<Frame>(frame_idx, cam_idx, frame_path);
  const std::shared_ptr<Frame> frame = frames_[frame_idx];
  frame->frame_path_[cam_idx] = frame_path;
  frame->insertNewBoard(new_board);
  cams_[cam_idx]->insertNewFrame(frame);
  boards_3d_[board_idx]->insertNewFrame(frame);
''')]
Q["mc-insert-board-camobs"] = [(B, '''  if (itCamObs != cams_obs_.end()) {
    // insert in list
    cams_obs_[cam_frame_idx]->insertNewBoard(new_board);
  } else {
    std::shared_ptr<CameraObs> new_cam_obs =
        std::make_shared<CameraObs>(new_board);
    cams_obs_[cam_frame_idx] = new_cam_obs;
    frames_[frame_idx]->insertNewCamObs(new_cam_obs);
  }
''', '''  if (itCamObs == cams_obs_.end()) {
    const auto new_cam_obs = std::make_shared<CameraObs>(new_board);
    cams_obs_.emplace(cam_frame_idx, new_cam_obs);
    frames_[frame_idx]->insertNewCamObs(new_cam_obs);
    return;
  }
  itCamObs->second->insertNewBoard(new_board);
''')]
Q["mc-index-helper"] = [(B, '''      // Make a indexing between board to object
      for (std::size_t k = 0; k < trans_pts.size(); k++) {
        int char_id = k;
        std::pair<int, int> boardid_charid =
            std::make_pair(current_board_id, char_id);
        newObject3D->pts_board_2_obj_[boardid_charid] = pts_count;
        newObject3D->pts_obj_2_board_.push_back(boardid_charid);
        newObject3D->pts_3d_.push_back(trans_pts[k]);
        pts_count++;
      }
''', '''      indexBoardPoints(*newObject3D, current_board_id, trans_pts, pts_count);
'''), (B, '''            // Make a indexing between board to object
            for (std::size_t k = 0; k < trans_pts.size(); k++) {
              int char_id = k;
              std::pair<int, int> boardid_charid =
                  std::make_pair(current_board->board_id_, char_id);
              newObject3D->pts_board_2_obj_[boardid_charid] = pts_count;
              newObject3D->pts_obj_2_board_.push_back(boardid_charid);
              newObject3D->pts_3d_.push_back(trans_pts[k]);
              pts_count++;
            }
''', '''            indexBoardPoints(*newObject3D, current_board->board_id_, trans_pts,
                             pts_count);
'''), (B, '''/**
 * @brief Initialize 3D objects using mean''', '''static void indexBoardPoints(Object3D &object, const int board_id,
                             const std::vector<cv::Point3f> &points,
                             int &next_position) {
  int corner = 0;
  for (const cv::Point3f &point : points) {
    const std::pair<int, int> board_corner(board_id, corner++);
    object.pts_board_2_obj_[board_corner] = next_position++;
    object.pts_obj_2_board_.push_back(board_corner);
    object.pts_3d_.push_back(point);
  }
}

/**
 * @brief Initialize 3D objects using mean''')]
Q["mc-index-size"] = [(B, '''        newObject3D->pts_board_2_obj_[boardid_charid] = pts_count;
        newObject3D->pts_obj_2_board_.push_back(boardid_charid);
        newObject3D->pts_3d_.push_back(trans_pts[k]);
        pts_count++;
''', '''        newObject3D->pts_board_2_obj_[boardid_charid] =
            newObject3D->pts_3d_.size();
        newObject3D->pts_obj_2_board_.push_back(boardid_charid);
        newObject3D->pts_3d_.push_back(trans_pts[k]);
'''), (B, '''                                   boards_3d_[ref_board_id]->color_);
    int pts_count = 0;
''', '''                                   boards_3d_[ref_board_id]->color_);
''')]
Q["mc-objobs-early"] = [(B, '''      auto board_obs_ptr = it_board_obs.second.lock();
      if (board_obs_ptr && board_obs_ptr->valid_) {
        // Check if this board correspond to the object of interest
        std::map<int, std::weak_ptr<Board>>::iterator it =
            object_3d_[object_idx]->boards_.find(board_obs_ptr->board_id_);
        if (it != object_3d_[object_idx]
                      ->boards_.end()) // if the board belong to the object
        {
          object_obs->insertNewBoardObs(board_obs_ptr);
        }
      }
''', '''      auto board_obs_ptr = it_board_obs.second.lock();
      if (!board_obs_ptr)
        continue;
      const bool in_object = object_3d_[object_idx]->boards_.count(
                                 board_obs_ptr->board_id_) != 0;
      if (!in_object || !board_obs_ptr->valid_)
        continue;
      object_obs->insertNewBoardObs(board_obs_ptr);
'''), (B, '''    if (object_obs->pts_id_.size() > 0) {
      // Update the camobs//frame//camera//3DObject
      cams_obs_[cam_id_frame_id]->insertNewObject(object_obs);
      frames_[cam_id_frame_id.second]->insertNewObject(object_obs);
      cams_[it_cam_obs.first.first]->insertNewObject(object_obs);
      object_3d_[object_idx]->insertNewObject(object_obs);
      object_3d_[object_idx]->insertNewFrame(frames_[cam_id_frame_id.second]);
      insertNewObjectObservation(object_obs);
    }
''', '''    if (object_obs->pts_id_.empty())
      continue;
    const auto &[cam_id, frame_id] = cam_id_frame_id;
    const auto object = object_3d_[object_idx];
    insertNewObjectObservation(object_obs);
    object->insertNewObject(object_obs);
    object->insertNewFrame(frames_[frame_id]);
    cams_[cam_id]->insertNewObject(object_obs);
    frames_[frame_id]->insertNewObject(object_obs);
    current_camobs->insertNewObject(object_obs);
''')]
Q["mc-graph-weight"] = [(B, '''    covis_boards_graph_.addEdge(board_pair_idx.first, board_pair_idx.second,
                                ((double)1 / board_poses_temp.size()));
''', '''    const double weight = 1.0 / static_cast<double>(board_poses_temp.size());
    covis_boards_graph_.addEdge(board_pair_idx.first, board_pair_idx.second,
                                weight);
'''), (B, '''  for (const auto &it : object_pose_pairs_) {
    const std::pair<int, int> &object_pair_idx = it.first;
    const std::vector<cv::Mat> &object_poses_temp = it.second;
    covis_objects_graph_.addEdge(object_pair_idx.first, object_pair_idx.second,
                                 ((double)1 / (object_poses_temp.size())));
  }
''', '''  for (const auto &[pair, poses] : object_pose_pairs_)
    covis_objects_graph_.addEdge(pair.first, pair.second, 1. / poses.size());
'''), (B, '''    if (it.second->board_observations_.size() > 0) {
      covis_boards_graph_.addVertex(it.second->board_id_);
    }
''', '''    if (it.second->board_observations_.empty())
      continue;
    covis_boards_graph_.addVertex(it.first);
''')]
Q["mc-load-intrinsics-helper"] = [(B, '''      cv::FileNode loaded_cam_params = fs["camera_" + std::to_string(it.first)];

      cv::Mat camera_matrix;
      cv::Mat distortion_coeffs;
      loaded_cam_params["camera_matrix"] >> camera_matrix;
      loaded_cam_params["distortion_vector"] >> distortion_coeffs;

      it.second->setIntrinsics(camera_matrix, distortion_coeffs);
''', '''      loadIntrinsics(fs["camera_" + std::to_string(it.first)], *it.second);
'''), (B, '''/**
 * @brief Initialize the calibration of all the cameras individually
''', '''static void loadIntrinsics(const cv::FileNode &node, Camera &cam) {
  cv::Mat distortion, matrix;
  node["distortion_vector"] >> distortion;
  node["camera_matrix"] >> matrix;
  cam.setIntrinsics(matrix, distortion);
}

/**
 * @brief Initialize the calibration of all the cameras individually
'''), (B, '''  if (!cam_params_path_.empty() && cam_params_path_ != "None") {
    cv::FileStorage fs;
''', '''  const bool from_file = cam_params_path_ != "None" && !cam_params_path_.empty();
  if (from_file) {
    cv::FileStorage fs;
''')]
Q["mc-campair-helper"] = [(B, '''                if (obj_id_1 == obj_id_2) {
                  // Compute the relative pose between the cameras
                  cv::Mat inter_cam_pose =
                      pose_cam_2 * pose_cam_1.inv(); // not sure here ...

                  // Store in a database
                  camera_pose_pairs_[std::make_pair(cam_id_1, cam_id_2)]
                      .push_back(inter_cam_pose);
                }
''', '''                if (obj_id_2 == obj_id_1) {
                  const cv::Mat object_to_cam_1 = pose_cam_1;
                  const cv::Mat cam_1_to_object = object_to_cam_1.inv();
                  auto &measured = camera_pose_pairs_[{cam_id_1, cam_id_2}];
                  measured.emplace_back(pose_cam_2 * cam_1_to_object);
                }
''')]
Q["mc-group-component-ref"] = [(B, '''  for (std::size_t i = 0; i < connect_comp.size(); i++) {
    LOG_DEBUG << "camera group id :: " << i;
    LOG_DEBUG << "Number of cameras in the group :: " << connect_comp.size();

    // Find the reference camera in this group
    int id_ref_cam =
        *min_element(connect_comp[i].begin(), connect_comp[i].end());
''', '''  for (std::size_t i = 0; i < connect_comp.size(); i++) {
    LOG_DEBUG << "camera group id :: " << i;
    LOG_DEBUG << "Number of cameras in the group :: " << connect_comp.size();

    // Find the reference camera in this group
    const std::vector<int> &members = connect_comp[i];
    int id_ref_cam = members.front();
    for (const int id : members)
      id_ref_cam = std::min(id_ref_cam, id);
'''), (B, '''    for (std::size_t j = 0; j < connect_comp[i].size(); j++) {
      int current_camera_id = connect_comp[i][j];
      new_camera_group''', '''    for (const int current_camera_id : members) {
      new_camera_group''')]
Q["mc-group-obs-count"] = [(B, '''        // Check if this camera id belongs to the group
        if (std::find(cam_in_group.begin(), cam_in_group.end(),
                      current_cam_id) != cam_in_group.end()) {
          // the camera is in the group so this object is visible in the cam
          // group udpate the observation
          new_cam_group_obs->insertObjectObservation(obj_obs_ptr);

          // push the object observation in the camera group
          cam_group_[camera_group_idx]->insertNewObjectObservation(obj_obs_ptr);
        }
''', '''        // Check if this camera id belongs to the group
        const bool in_group = std::any_of(
            cam_in_group.begin(), cam_in_group.end(),
            [&](const int cam_id) { return cam_id == current_cam_id; });
        if (!in_group)
          continue;
        cam_group_[camera_group_idx]->insertNewObjectObservation(obj_obs_ptr);
        new_cam_group_obs->insertObjectObservation(obj_obs_ptr);
''')]
Q["mc-group-obs-early"] = [(B, '''    if (new_cam_group_obs->object_observations_.size() > 0) {
      // add the new cam group observation to the database
      cams_group_obs_[std::make_pair(camera_group_idx, current_frame_id)] =
          new_cam_group_obs;

      // update frame
      frames_[current_frame_id]->insertNewCameraGroupObs(new_cam_group_obs,
                                                         camera_group_idx);

      // update the cam_group
      cam_group_[camera_group_idx]->insertNewFrame(frames_[current_frame_id]);
    }
''', '''    if (new_cam_group_obs->object_observations_.empty())
      continue;
    const std::shared_ptr<Frame> &frame = it_frame.second;
    cams_group_obs_[{camera_group_idx, current_frame_id}] = new_cam_group_obs;
    frame->insertNewCameraGroupObs(new_cam_group_obs, camera_group_idx);
    cam_group_[camera_group_idx]->insertNewFrame(frame);
''')]
Q["mc-merge-groups-helper"] = [(B, '''        for (const auto &it_cam : current_group->cameras_) {
          std::shared_ptr<Camera> current_camera = it_cam.second.lock();
          if (current_camera) {
            // Update the pose in the referential of the final group
            cv::Mat pose_cam_in_current_group =
                current_group->getCameraPoseMat(current_camera->cam_idx_);
            cv::Mat transform = pose_cam_in_current_group * pose_in_final;
            new_camera_group->insertCamera(current_camera);
            new_camera_group->setCameraPoseMat(transform,
                                               current_camera->cam_idx_);
          }
        }
''', '''        moveCameras(*current_group, pose_in_final, *new_camera_group);
'''), (B, '''/**
 * @brief Merge all camera groups using''', '''static void moveCameras(CameraGroup &from, const cv::Mat &pose_of_from,
                        CameraGroup &to) {
  for (const auto &[idx, handle] : from.cameras_) {
    const auto camera = handle.lock();
    if (!camera)
      continue;
    to.insertCamera(camera);
    to.setCameraPoseMat(from.getCameraPoseMat(camera->cam_idx_) * pose_of_from,
                        camera->cam_idx_);
  }
}

/**
 * @brief Merge all camera groups using'''), (B, '''  cam_group_.clear();
  cam_group_ = cam_group;

''', '''  cam_group_ = std::move(cam_group);

''')]
Q["mc-merge-objects-lookup"] = [(B, '''    for (const auto &it_object : object_3d_) {
      // Check if the current object belong to the new object
      int current_object_idx = it_object.second->obj_id_;
      if (std::find(connect_comp[i].begin(), connect_comp[i].end(),
                    current_object_idx) != connect_comp[i].end()) {
''', '''    for (const auto &it_object : object_3d_) {
      // Check if the current object belong to the new object
      if (object_pose_to_ref.count(it_object.second->obj_id_) > 0) {
'''), (B, '''  object_3d_.clear();
  object_3d_ = object_3d;
''', '''  object_3d_.swap(object_3d);
''')]
Q["mc-refine-helper"] = [(B, '''  // Update the 3D objects
  for (const auto &it : object_3d_)
    it.second->updateObjectPts();

  // Update the object3D observation
  for (const auto &it : cams_group_obs_)
    it.second->updateObjObsPose();
}

/**
 * @brief Save reprojection results''', '''  auto followPoses = [this]() {
    for (auto it = object_3d_.begin(); it != object_3d_.end(); ++it)
      it->second->updateObjectPts();
    for (const auto &[key, group_obs] : cams_group_obs_)
      group_obs->updateObjObsPose();
  };
  followPoses();
}

/**
 * @brief Save reprojection results''')]
Q["mc-merge-obs-reorder"] = [(B, '''  for (const auto &it : cams_) {
    it.second->vis_object_idx_.clear();
    it.second->object_observations_.clear();
  }

  for (const auto &it : cam_group_) {
    it.second->vis_object_idx_.clear();
    it.second->object_observations_.clear();
  }
''', '''  object_observations_.clear();
  const auto forget = [](const auto &owner) {
    owner->object_observations_.clear();
    owner->vis_object_idx_.clear();
  };
  for (const auto &it : cam_group_)
    forget(it.second);
  for (const auto &it : cams_)
    forget(it.second);
'''), (B, '''    it.second->object_observations_.clear();

  object_observations_.clear();

  // Reinit''', '''    it.second->object_observations_ = {};

  // Reinit''')]
Q["mc-repro-early"] = [(B, '''          if (it_obj_obs_ptr && it_obj_obs_cam_group_ptr &&
              it_obj_obs_object_3d_ptr &&
              it_obj_obs_ptr->camera_id_ == cam_id) {
            // Prepare the transformation matrix
            cv::Mat cam_pose =
                it_obj_obs_cam_group_ptr->getCameraPoseMat(cam_id) *
                it_obj_obs_ptr->getPoseInGroupMat();
''', '''          if (!it_obj_obs_ptr || !it_obj_obs_cam_group_ptr)
            continue;
          if (it_obj_obs_object_3d_ptr &&
              cam_id == it_obj_obs_ptr->camera_id_) {
            // Prepare the transformation matrix
            const cv::Mat object_in_group = it_obj_obs_ptr->getPoseInGroupMat();
            const cv::Mat group_in_camera =
                it_obj_obs_cam_group_ptr->getCameraPoseMat(cam_id);
            cv::Mat cam_pose = group_in_camera * object_in_group;
'''), (B, '''            cv::Mat rr, tt;
            rot_vec.copyTo(rr);
            trans_vec.copyTo(tt);
            projectPointsWithDistortion(pts_3d, rr, tt, cam->getCameraMat(),''', '''            projectPointsWithDistortion(pts_3d, rot_vec, trans_vec,
                                        cam->getCameraMat(),''')]
Q["mc-images-continue"] = [(B, '''    if (!image.empty()) {
      // display image
      // cv::imshow("detection results", image);
      // cv::waitKey(1);

      // Save image
      std::stringstream ss1;
      ss1 << std::setw(6) << std::setfill('0') << it_frame.second->frame_idx_;
      std::string image_name = ss1.str() + ".jpg";
      cv::imwrite(path_save / image_name, image);
    }
''', '''    if (image.empty())
      continue;
    std::stringstream name;
    name << std::setw(6) << std::setfill('0') << it_frame.first << ".jpg";
    cv::imwrite(path_save / name.str(), image);
'''), (B, '''            for (const auto &pt_2d : pts_2d) {
              cv::circle(image, cv::Point(pt_2d.x, pt_2d.y), 4,
                         cv::Scalar(color[0], color[1], color[2]), cv::FILLED,
                         8, 0);
            }
''', '''            const cv::Scalar paint(color[0], color[1], color[2]);
            for (std::size_t i = 0; i < pts_2d.size(); ++i)
              cv::circle(image, cv::Point(pts_2d[i].x, pts_2d[i].y), 4, paint,
                         cv::FILLED, 8, 0);
''')]
Q["mc-stage-inline"] = [(B, '''  mergeAllObjectObs();
  mergeAllCameraGroupObs();
  estimatePoseAllObjects();
  computeAllObjPoseInCameraGroup();
  refineAllCameraGroupAndObjects();
  this->reproErrorAllCamGroup();
}
''', '''  mergeAllObjectObs();
  mergeAllCameraGroupObs();
  for (const auto &[idx, observation] : object_observations_)
    observation->estimatePose(ransac_thresh_, nb_iterations_);
  computeAllObjPoseInCameraGroup();
  refineAllCameraGroupAndObjects();
  reproErrorAllCamGroup();
}
''')]
Q["mc-ctor-locals"] = [(B, '''  int nb_camera;
  fs["number_camera"] >> nb_camera;
  assert(nb_camera > 0);
  nb_camera_ = static_cast<unsigned int>(nb_camera);
''', '''  const int nb_camera = static_cast<int>(fs["number_camera"]);
  assert(nb_camera > 0);
  nb_camera_ = nb_camera;
'''), (B, '''  if (boards_index.size() != 0) {
    nb_board_ = boards_index.size();
  }
  int max_board_idx = nb_board_ - 1;
  if (boards_index.size() != 0) {
    max_board_idx = *max_element(boards_index.begin(), boards_index.end());
  }
''', '''  int max_board_idx;
  if (boards_index.empty()) {
    max_board_idx = nb_board_ - 1;
  } else {
    nb_board_ = boards_index.size();
    max_board_idx = *std::max_element(boards_index.begin(), boards_index.end());
  }
'''), (B, '''  for (std::size_t i = 0; i < nb_camera_; i++) {
    std::shared_ptr<Camera> new_cam =
        std::make_shared<Camera>(i, distortion_per_camera[i]);
    cams_[i] = new_cam;
  }
''', '''  for (unsigned int cam = 0; cam < nb_camera_; ++cam)
    cams_[cam] = std::make_shared<Camera>(cam, distortion_per_camera[cam]);
''')]
Q["mc-ctor-distortion-else"] = [(B, '''  if (distortion_per_camera.size() == 0)
    distortion_per_camera.assign(nb_camera_, distortion_model);

  // Initialize Cameras
  for (std::size_t i = 0; i < nb_camera_; i++) {
    std::shared_ptr<Camera> new_cam =
        std::make_shared<Camera>(i, distortion_per_camera[i]);
    cams_[i] = new_cam;
  }
''', '''  const bool common_model = distortion_per_camera.empty();

  // Initialize Cameras
  for (std::size_t i = 0; i < nb_camera_; i++) {
    const int model = common_model ? distortion_model : distortion_per_camera[i];
    cams_[i] = std::make_shared<Camera>(i, model);
  }
''')]
Q["mc-load-loop"] = [(B, '''    for (unsigned int i = 0u; i < frame_idxs.size(); ++i) {
      insertNewBoard(cam_idx, frame_idxs[i], board_idxs[i], points[i],
                     charuco_idxs[i], frame_paths[i]);
    }
''', '''    std::size_t i = 0u;
    for (const int frame_idx : frame_idxs) {
      const std::filesystem::path frame_path(frame_paths_str[i]);
      insertNewBoard(cam_idx, frame_idx, board_idxs[i], points[i],
                     charuco_idxs[i], frame_path);
      ++i;
    }
'''), (B, '''    int img_cols;
    int img_rows;
    std''', '''    std'''), (B, '''    data_per_camera["img_width"] >> img_cols;
    data_per_camera["img_height"] >> img_rows;
''', '''    const int img_cols = data_per_camera["img_width"];
    const int img_rows = data_per_camera["img_height"];
''')]
Q["mc-glob-filter"] = [(B, '''    std::vector<cv::String> fn_filtered;
    for (const cv::String &cur_path : fn) {
      std::size_t ext_idx = cur_path.find_last_of(".");
      cv::String cur_ext = cur_path.substr(ext_idx + 1);
      if (allowed_exts.find(cur_ext) != allowed_exts.end()) {
        fn_filtered.push_back(cur_path);
      }
    }
    fn = fn_filtered;

    detectBoardsWithCamera(fn, cam);
''', '''    std::vector<cv::String> images;
    for (const cv::String &path : fn) {
      const auto dot = path.find_last_of(".");
      if (allowed_exts.count(path.substr(dot + 1)) == 0)
        continue;
      images.push_back(path);
    }
    detectBoardsWithCamera(images, static_cast<int>(cam));
''')]
Q["mc-post-lambda"] = [(B, '''    boost::asio::post(pool,
                      std::bind(&Calibration::detectBoardsInImageWithCamera,
                                this, frame_path, cam_idx, frame_idx));
''', '''    boost::asio::post(pool, [this, frame_path, cam_idx, frame_idx]() {
      detectBoardsInImageWithCamera(frame_path, cam_idx, frame_idx);
    });
''')]
Q['member-bindings'] = [('McCalib/src/McCalib.cpp', '  for (const auto &it : object_3d_) {\n    if (it.second->object_observations_.size() > 0) {\n      covis_objects_graph_.addVertex(it.second->obj_id_);\n    }\n  }\n',
 '  for (const auto &[id, object] : object_3d_)\n    if (!object->object_observations_.empty())\n      covis_objects_graph_.addVertex(id);\n')]
Q['member-continue'] = [('McCalib/src/McCalib.cpp', '  for (const auto &it : object_3d_) {\n    if (it.second->object_observations_.size() > 0) {\n      covis_objects_graph_.addVertex(it.second->obj_id_);\n    }\n  }\n',
 '  for (const auto &it : object_3d_) {\n    const auto &object = it.second;\n    if (object->object_observations_.empty())\n      continue;\n    covis_objects_graph_.addVertex(object->obj_id_);\n  }\n')]
Q['inter-array'] = [('McCalib/src/McCalib.cpp', '    cv::Mat average_translation = cv::Mat::zeros(3, 1, CV_64F);\n\n    // Median\n    const size_t num_poses = poses_temp.size();\n    std::vector<double> r1, r2, r3;\n    std::vector<double> t1, t2, t3;\n    r1.reserve(num_poses);\n    r2.reserve(num_poses);\n    r3.reserve(num_poses);\n    t1.reserve(num_poses);\n    t2.reserve(num_poses);\n    t3.reserve(num_poses);\n    for (const auto &pose_temp : poses_temp) {\n      cv::Mat R, T;\n      Proj2RT(pose_temp, R, T);\n      r1.push_back(R.at<double>(0));\n      r2.push_back(R.at<double>(1));\n      r3.push_back(R.at<double>(2));\n      t1.push_back(T.at<double>(0));\n      t2.push_back(T.at<double>(1));\n      t3.push_back(T.at<double>(2));\n    }\n\n    cv::Mat average_rotation =\n        getAverageRotation(r1, r2, r3, quaternion_averaging_);\n    average_translation.at<double>(0) = median(t1);\n    average_translation.at<double>(1) = median(t2);\n    average_translation.at<double>(2) = median(t3);\n\n',
 '    const size_t num_poses = poses_temp.size();\n    std::array<std::vector<double>, 6> comp;\n    for (auto &v : comp)\n      v.reserve(num_poses);\n    for (const auto &pose_temp : poses_temp) {\n      cv::Mat R, T;\n      Proj2RT(pose_temp, R, T);\n      for (int k = 0; k < 3; k++) {\n        comp[k].push_back(R.at<double>(k));\n        comp[k + 3].push_back(T.at<double>(k));\n      }\n    }\n    cv::Mat average_rotation =\n        getAverageRotation(comp[0], comp[1], comp[2], quaternion_averaging_);\n    cv::Mat average_translation = (cv::Mat_<double>(3, 1) << median(comp[3]), median(comp[4]), median(comp[5]));\n')]
Q['inter-index'] = [('McCalib/src/McCalib.cpp', '    cv::Mat average_translation = cv::Mat::zeros(3, 1, CV_64F);\n\n    // Median\n    const size_t num_poses = poses_temp.size();\n    std::vector<double> r1, r2, r3;\n    std::vector<double> t1, t2, t3;\n    r1.reserve(num_poses);\n    r2.reserve(num_poses);\n    r3.reserve(num_poses);\n    t1.reserve(num_poses);\n    t2.reserve(num_poses);\n    t3.reserve(num_poses);\n    for (const auto &pose_temp : poses_temp) {\n      cv::Mat R, T;\n      Proj2RT(pose_temp, R, T);\n      r1.push_back(R.at<double>(0));\n      r2.push_back(R.at<double>(1));\n      r3.push_back(R.at<double>(2));\n      t1.push_back(T.at<double>(0));\n      t2.push_back(T.at<double>(1));\n      t3.push_back(T.at<double>(2));\n    }\n\n    cv::Mat average_rotation =\n        getAverageRotation(r1, r2, r3, quaternion_averaging_);\n    average_translation.at<double>(0) = median(t1);\n    average_translation.at<double>(1) = median(t2);\n    average_translation.at<double>(2) = median(t3);\n\n',
 '    std::vector<double> r1, r2, r3;\n    std::vector<double> t1, t2, t3;\n    for (std::size_t k = 0; k < poses_temp.size(); ++k) {\n      cv::Mat R, T;\n      Proj2RT(poses_temp[k], R, T);\n      const double *r = R.ptr<double>(0);\n      r1.push_back(R.at<double>(0, 0));\n      r2.push_back(R.at<double>(1, 0));\n      r3.push_back(R.at<double>(2, 0));\n      t1.push_back(T.at<double>(0));\n      t2.push_back(T.at<double>(1));\n      t3.push_back(T.at<double>(2));\n      (void)r;\n    }\n    const cv::Mat average_rotation =\n        getAverageRotation(r1, r2, r3, quaternion_averaging_);\n    cv::Mat average_translation(3, 1, CV_64F);\n    average_translation.at<double>(0) = median(t1);\n    average_translation.at<double>(1) = median(t2);\n    average_translation.at<double>(2) = median(t3);\n')]
Q['quat-cases'] = [('McCalib/src/geometrytools.cpp', '  else {\n    int i = R.at<double>(0, 0) < R.at<double>(1, 1)\n                ? (R.at<double>(1, 1) < R.at<double>(2, 2) ? 2 : 1)\n                : (R.at<double>(0, 0) < R.at<double>(2, 2) ? 2 : 0);\n    int j = (i + 1) % 3;\n    int k = (i + 2) % 3;\n\n    double s = std::sqrt(R.at<double>(i, i) - R.at<double>(j, j) -\n                         R.at<double>(k, k) + 1.0);\n    Q.at<double>(0, i) = s * 0.5;\n    s = 0.5 / s;\n\n    Q.at<double>(0, 3) = (R.at<double>(k, j) - R.at<double>(j, k)) * s;\n    Q.at<double>(0, j) = (R.at<double>(j, i) + R.at<double>(i, j)) * s;\n    Q.at<double>(0, k) = (R.at<double>(k, i) + R.at<double>(i, k)) * s;\n  }\n\n',
 '  else if (R.at<double>(0, 0) >= R.at<double>(1, 1) && R.at<double>(0, 0) >= R.at<double>(2, 2)) {\n    double s = std::sqrt(1.0 + R.at<double>(0, 0) - R.at<double>(1, 1) - R.at<double>(2, 2));\n    Q.at<double>(0, 0) = 0.5 * s;\n    s = 0.5 / s;\n    Q.at<double>(0, 3) = (R.at<double>(2, 1) - R.at<double>(1, 2)) * s;\n    Q.at<double>(0, 1) = (R.at<double>(1, 0) + R.at<double>(0, 1)) * s;\n    Q.at<double>(0, 2) = (R.at<double>(2, 0) + R.at<double>(0, 2)) * s;\n  } else if (R.at<double>(1, 1) >= R.at<double>(2, 2)) {\n    double s = std::sqrt(1.0 + R.at<double>(1, 1) - R.at<double>(0, 0) - R.at<double>(2, 2)) * 2;\n    Q.at<double>(0, 1) = 0.25 * s;\n    Q.at<double>(0, 3) = (R.at<double>(0, 2) - R.at<double>(2, 0)) / s;\n    Q.at<double>(0, 0) = (R.at<double>(1, 0) + R.at<double>(0, 1)) / s;\n    Q.at<double>(0, 2) = (R.at<double>(2, 1) + R.at<double>(1, 2)) / s;\n  } else {\n    double s = std::sqrt(1.0 + R.at<double>(2, 2) - R.at<double>(0, 0) - R.at<double>(1, 1));\n    Q.at<double>(0, 2) = 0.5 * s;\n    s = 0.5 / s;\n    Q.at<double>(0, 3) = (R.at<double>(1, 0) - R.at<double>(0, 1)) * s;\n    Q.at<double>(0, 0) = (R.at<double>(2, 0) + R.at<double>(0, 2)) * s;\n    Q.at<double>(0, 1) = s * (R.at<double>(2, 1) + R.at<double>(1, 2));\n  }\n')]
Q['quat-products'] = [('McCalib/src/geometrytools.cpp', '  rot_matrix.at<double>(0, 0) = 2 * (q0 * q0 + q1 * q1) - 1;\n  rot_matrix.at<double>(0, 1) = 2 * (q1 * q2 - q0 * q3);',
 '  const double xy = 2 * q1 * q2, wz = 2 * q0 * q3;\n  rot_matrix.at<double>(0, 0) = 1 - 2 * q2 * q2 - 2 * q3 * q3;\n  rot_matrix.at<double>(0, 1) = xy - wz;')]
Q['ransac-break'] = [('McCalib/src/geometrytools.cpp', '  while (N > trialcount && countit < it) {\n    // pick 4 points',
 '  while (countit < it) {\n    if (N <= trialcount)\n      break;\n    // pick 4 points')]
Q['ransac-forever'] = [('McCalib/src/geometrytools.cpp', '  while (N > trialcount && countit < it) {\n    // pick 4 points',
 '  for (;;) {\n    if (!(N > trialcount && countit < it))\n      break;\n    // pick 4 points')]
Q['ransac-preinc'] = [('McCalib/src/geometrytools.cpp', '      N = int(round(tempest));\n      trialcount = 0;\n    }\n    countit++;\n  }\n\n  if (refine',
 '      N = int(round(tempest));\n      trialcount = 0;\n    }\n    ++countit;\n  }\n\n  if (refine')]
Q['consistency-lambda'] = [('McCalib/src/geometrytools.cpp', '        cv::Mat PP1 = pose_cam_group_1_2 * pose_cam_group_1_1.inv();\n        cv::Mat PP2 = pose_cam_group_2_2 * pose_cam_group_2_1.inv();\n        cv::Mat ErrMat = PP2.inv() * pose_g1_g2.inv() * PP1 * pose_g1_g2;',
 '        auto motion = [](const cv::Mat &from, const cv::Mat &to) -> cv::Mat {\n          return to * from.inv();\n        };\n        const cv::Mat PP1 = motion(pose_cam_group_1_1, pose_cam_group_1_2);\n        const cv::Mat PP2 = motion(pose_cam_group_2_1, pose_cam_group_2_2);\n        cv::Mat ErrMat = (PP1 * pose_g1_g2).inv() * (pose_g1_g2 * PP2);')]
Q['pair-maxelement'] = [('McCalib/src/McCalib.cpp', '        for (const auto &it : count_pair_obs) {\n          if (it.second > currentMax) {\n            arg_max = it.first;\n            currentMax = it.second;\n          }\n        }\n',
 '        const auto best = std::max_element(\n            count_pair_obs.begin(), count_pair_obs.end(),\n            [](const auto &a, const auto &b) { return a.second < b.second; });\n        if (best != count_pair_obs.end() && best->second > 0) {\n          arg_max = best->first;\n          currentMax = best->second;\n        }\n')]
Q['pair-bindings'] = [('McCalib/src/McCalib.cpp', '        for (const auto &it : count_pair_obs) {\n          if (it.second > currentMax) {\n            arg_max = it.first;\n            currentMax = it.second;\n          }\n        }\n',
 '        for (const auto &[pair, count] : count_pair_obs) {\n          if (count <= currentMax)\n            continue;\n          arg_max = pair;\n          currentMax = count;\n        }\n')]
