// Included before a property file: its define() becomes a function of another name, so that its generators can be
// run in the executables of X02 as well.
#pragma once
#include "engine.h"
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define define VP_CAT(define_, VP_WRAP)
namespace pbt { Property define(); }
