#define VP_WRAP H04
#include "wrap.h"
#include "../props/H04.cpp"
