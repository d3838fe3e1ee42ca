#include "rig.hpp"
double checkSetConsistency(const std::vector<cv::Mat>&,const std::vector<cv::Mat>&,const std::vector<unsigned int>&,const cv::Mat&);
namespace McCalib{ double checkSetConsistency(const std::vector<cv::Mat>&,const std::vector<cv::Mat>&,const std::vector<unsigned int>&,const cv::Mat&);}
int main(){
  cv::theRNG().state=7; std::mt19937 g(5); std::uniform_real_distribution<double> u(-1,1);
  cv::Mat X=Rig::T(0.2,1.4,-0.3,0.4,0.1,-0.2); // G1<-G2
  cv::Mat O1=Rig::T(0.3,0.1,0.2,0.2,0.1,2), O2=Rig::T(-0.1,0.5,0.3,-0.3,0.2,1.5);
  std::vector<cv::Mat> p1,p2;
  for(int i=0;i<25;i++){
    cv::Mat M=Rig::T(u(g)*.5,u(g)*.5,u(g)*.5,u(g),u(g),u(g)); // G1 <- W
    p1.push_back(M*O1); p2.push_back(X.inv()*M*O2);
  }
  cv::Mat a=McCalib::handeyeCalibration(p1,p2);
  cv::Mat b=McCalib::handeyeBootstraptTranslationCalibration(20,50,p1,p2);
  std::cout<<"plain "<<Rig::err(a,X)<<" boot "<<Rig::err(b,X)<<" vs inv "<<Rig::err(a,X.inv())<<"\n";
  std::cout<<"cons "<<McCalib::checkSetConsistency(p1,p2,{0,1,2,3,4,5},X)<<" bad "<<McCalib::checkSetConsistency(p1,p2,{0,1,2,3,4,5},X*Rig::T(0.6,0,0,0,0,0))<<"\n";
}
