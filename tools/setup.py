#!/usr/bin/env python3
"""Checks that the tools are there. Every check builds what it needs itself, so nothing has to survive this step."""
import shutil, sys, os
for t in ("g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing " + t)
for f in ("/usr/include/rapidcheck.h", "/usr/include/eigen3/Eigen/Dense", "/usr/include/opencv4/opencv2/core.hpp", "/usr/include/ceres/ceres.h"):
    if not os.path.exists(f):
        sys.exit("missing " + f)
print("ok")
