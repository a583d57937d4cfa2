// Concurrent use world, configurations: vectors, compile-time shapes, allocators that propagate.
#include "conc.h"
using namespace conc;
static Reg<Conc<obj, nda::shape_of_rank<1>, nda::dense_shape<1>, SimAlloc<obj, true, true, true>>> c1("conc.obj.r1");
static Reg<Conc<int, nda::fixed_dense_shape<3, 4>, nda::shape_of_rank<2>, std::allocator<int>>> c2("conc.int.fixed");
