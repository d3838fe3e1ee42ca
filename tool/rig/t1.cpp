#include "rig.hpp"
int main(){
  Rig g; g.init(4,1);
  g.setIntrinsics();
  for(int c=0;c<4;c++) g.cam[c]=Rig::T(0.1*c,0.2*c,-0.15*c,0.3*c,0.1*c,0.05*c);
  g.board[0]=Rig::T(0,0,0,0,0,0);
  // chain: frames where cams (0,1),(1,2),(2,3) see the board
  for(int f=0;f<6;f++) for(int d=0;d<2;d++){
    int c=f%3+d; 
    cv::Mat pb=Rig::T(0.05*f,0.1,0.02*f,-0.1+0.02*f,-0.1,1.0+0.05*f);
    // body pose so that it's in front of camera c0
    cv::Mat wb=g.cam[f%3].inv()*pb;
    g.see(c,f,0,wb);
  }
  auto&C=*g.cal;
  C.estimatePoseAllBoards();
  C.calibrate3DObjects();
  C.computeCamerasPairPose();
  C.initInterTransform(C.camera_pose_pairs_,C.inter_camera_transform_);
  C.initInterCamerasGraph();
  C.initCameraGroup();
  for(int c=0;c<4;c++){
    cv::Mat got=C.cam_group_[0]->getCameraPoseMat(c);
    cv::Mat want=g.cam[c]*g.cam[0].inv();
    std::cout<<c<<" err "<<Rig::err(got,want)<<"\n";
    EXPECT(Rig::err(got,want)<1e-2);
  }
  return failures!=0;
}
