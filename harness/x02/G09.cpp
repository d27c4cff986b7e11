#define VP_WRAP G09
#include "wrap.h"
#include "../props/G09.cpp"
