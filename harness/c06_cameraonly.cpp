#include "solver_checks.h"
using namespace scene;
PBT(C06, recover, "noise-free camera-to-camera scenes; guess differs from the truth", 2500, 80000) { recover(c, MSCO, 3000); }
PBT(C06, optimal, "noisy camera-to-camera scenes", 500,10000) { optimal(c, MSCO, 1000); }
