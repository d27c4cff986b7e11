#define VP_WRAP G11
#include "wrap.h"
#include "../props/G11.cpp"
