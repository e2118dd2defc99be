// Stand-in for liquid-dsp's internal header, which is not installed: what the ezgmsk sources use of it.
#pragma once
#include "liquid.h"
#ifndef liquid_error
#define liquid_error(code, ...) (code)
#endif
