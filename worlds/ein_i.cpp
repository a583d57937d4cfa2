// Einstein reductions world, configuration: int operands, double results.
#include "ein.h"
using namespace ein_w;
static Reg<EinWorld<int, double, Dyn, Mat>> i1("ein.int-double.dyn-mat");
