#define VP_WRAP H09
#include "wrap.h"
#include "../props/H09.cpp"
