#define VP_WRAP C03
#include "wrap.h"
#include "../props/C03.cpp"
