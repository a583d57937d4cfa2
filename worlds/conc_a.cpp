// Concurrent use world, configurations: matrices.
#include "conc.h"
using namespace conc;
static Reg<Conc<obj, nda::shape_of_rank<2>, nda::dense_shape<2>, SimAlloc<obj, false, false, false>>> a1("conc.obj.r2");
static Reg<Conc<int, nda::matrix_shape<>, nda::shape_of_rank<2>, std::allocator<int>>> a2("conc.int.matrix");
