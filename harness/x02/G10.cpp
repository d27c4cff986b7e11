#define VP_WRAP G10
#include "wrap.h"
#include "../props/G10.cpp"
