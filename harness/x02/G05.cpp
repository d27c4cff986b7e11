#define VP_WRAP G05
#include "wrap.h"
#include "../props/G05.cpp"
