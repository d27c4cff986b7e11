#define VP_WRAP G04
#include "wrap.h"
#include "../props/G04.cpp"
