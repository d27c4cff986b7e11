#define VP_WRAP C06
#include "wrap.h"
#include "../props/C06.cpp"
