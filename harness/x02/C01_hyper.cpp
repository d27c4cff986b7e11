#define VP_WRAP C01_hyper
#include "wrap.h"
#include "../props/C01_hyper.cpp"
