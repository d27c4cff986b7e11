#define VP_WRAP C07
#include "wrap.h"
#include "../props/C07.cpp"
