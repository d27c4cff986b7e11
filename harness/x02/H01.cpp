#define VP_WRAP H01
#include "wrap.h"
#include "../props/H01.cpp"
