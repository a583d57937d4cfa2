// Einstein reduction world, configuration.
#include "ein.h"
using namespace ein_w;
static Reg<EinWorld<obj, obj, Fixed, Fixed>> e1("ein.obj.fixed");
