#pragma once
#include "TransformStamped.h"
