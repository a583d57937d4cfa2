// Concurrency world: scalar and rank 4 arrays, elements that hold their address.
#include "conc.h"
using namespace conc;
static Reg<Conc<obj, nda::shape_of_rank<4>, nda::dense_shape<4>, SimAlloc<obj, true, false, true>>> d1("conc.obj.r4");
static Reg<Conc<int, nda::shape<>, nda::shape<>, SimAlloc<int, false, true, false>>> d2("conc.int.r0");
