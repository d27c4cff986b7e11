#define VP_WRAP C04
#include "wrap.h"
#include "../props/C04.cpp"
