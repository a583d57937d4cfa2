// Einstein reduction world, configuration.
#include "ein.h"
using namespace ein_w;
static Reg<EinWorld<int, int, Fixed, Dyn>> h1("ein.int.fixed-dyn");
