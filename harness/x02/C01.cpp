#define VP_WRAP C01
#include "wrap.h"
#include "../props/C01.cpp"
