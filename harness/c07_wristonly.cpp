#include "solver_checks.h"
using namespace scene;
PBT(C07, recover, "noise-free camera-group scenes; guess differs from the truth", 2500, 80000) { recover(c, MSCW, 3000); }
PBT(C07, optimal, "noisy camera-group scenes", 600,12000) { optimal(c, MSCW, 1000); }
