#define VP_WRAP H07
#include "wrap.h"
#include "../props/H07.cpp"
