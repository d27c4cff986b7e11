#define VP_WRAP C05
#include "wrap.h"
#include "../props/C05.cpp"
