// Einstein reduction world, configuration.
#include "ein.h"
using namespace ein_w;
static Reg<EinWorld<int, int, Mix, Dense>> f1("ein.int.mix-dense");
