#define VP_WRAP G07
#include "wrap.h"
#include "../props/G07.cpp"
