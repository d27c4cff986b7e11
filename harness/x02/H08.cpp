#define VP_WRAP H08
#include "wrap.h"
#include "../props/H08.cpp"
