#!/bin/bash
# usage: build.sh REPO SRC OUT : links SRC with the library built in REPO/_build
set -e
R=$1
g++ -std=c++17 -O1 -DNDEBUG -I"$R/McCalib/include" -I"$R/McCalib/src" -isystem /usr/include/opencv4 -isystem /usr/include/eigen3 \
 "$2" -o "$3" "$R/_build/McCalib/libMcCalib.a" \
 -lopencv_aruco -lopencv_calib3d -lopencv_highgui -lopencv_imgcodecs -lopencv_imgproc -lopencv_core \
 -lceres -lglog -Wl,-Bstatic -lboost_log -lboost_chrono -lboost_filesystem -lboost_regex -lboost_thread -lboost_atomic -lboost_system -Wl,-Bdynamic -lrt -lpthread
