#include "solver_checks.h"
using namespace scene;
PBT(C05, recover, "noise-free multi-camera scenes; guess differs from the truth", 2500, 80000) { recover(c, MSC, 3000); }
PBT(C05, optimal, "noisy multi-camera scenes", 500,12000) { optimal(c, MSC, 1000); }
