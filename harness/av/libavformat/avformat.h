#include "../av_sim.h"
