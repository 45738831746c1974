#pragma once
#include "class_list_macros.hpp"
