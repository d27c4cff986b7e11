#define VP_WRAP H10
#include "wrap.h"
#include "../props/H10.cpp"
