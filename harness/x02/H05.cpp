#define VP_WRAP H05
#include "wrap.h"
#include "../props/H05.cpp"
