// Einstein reductions world, configuration: operands that are bytes.
#include "ein.h"
using namespace ein_w;
static Reg<EinWorld<unsigned char, int, Dense, Dyn>> j1("ein.byte-int.dense-dyn");
