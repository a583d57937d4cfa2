// Concurrency world: elements that hold their address, statically sized pixels.
#include "conc.h"
using namespace conc;
static Reg<Conc<selfp, nda::chunky_image_shape<3>, nda::shape_of_rank<3>, SimAlloc<selfp, false, false, true>>> e1("conc.selfp.chunky3");
static Reg<Conc<wide, nda::shape_of_rank<2>, nda::matrix_shape<>, nda::auto_allocator<wide, 6>>> e2("conc.wide.r2.auto");
