#define VP_WRAP G08
#include "wrap.h"
#include "../props/G08.cpp"
