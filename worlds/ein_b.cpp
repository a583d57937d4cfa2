// Einstein reduction world, configuration.
#include "ein.h"
using namespace ein_w;
static Reg<EinWorld<int, int, Dyn, Dyn>> b1("ein.int.dyn");
