// Einstein reduction world, configuration.
#include "ein.h"
using namespace ein_w;
static Reg<EinWorld<obj, obj, Dyn, Mat>> c1("ein.obj.dyn-mat");
