// Einstein reduction world, configuration.
#include "ein.h"
using namespace ein_w;
static Reg<EinWorld<obj, obj, Dense, Mix>> g1("ein.obj.dense-mix");
