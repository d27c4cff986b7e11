#define VP_WRAP G01
#include "wrap.h"
#include "../props/G01.cpp"
