#define VP_WRAP G06
#include "wrap.h"
#include "../props/G06.cpp"
