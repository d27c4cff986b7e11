#define VP_WRAP H06
#include "wrap.h"
#include "../props/H06.cpp"
