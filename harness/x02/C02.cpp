#define VP_WRAP C02
#include "wrap.h"
#include "../props/C02.cpp"
