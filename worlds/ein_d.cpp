// Einstein reduction world, configuration.
#include "ein.h"
using namespace ein_w;
static Reg<EinWorld<int, obj, Mat, Dyn>> d1("ein.int-obj.mat-dyn");
