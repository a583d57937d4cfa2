// Configurations of world "life": allocators that customise construction, with
// elements the library may be tempted to treat as bytes.
#include "life.h"
namespace life {
static Reg<Sim<selfp, nda::shape_of_rank<1>, SimAlloc<selfp, true, true, false, false, true>>> f1("life.selfp.r1.ttf.hooks");
static Reg<Sim<double, nda::shape_of_rank<2>, SimAlloc<double, false, true, true, false, true>>> f2("life.double.r2.ftt.hooks");
} // namespace life
