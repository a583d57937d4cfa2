// Life world, configurations: shapes with compile-time constants.
#include "life.h"
using namespace life;
static Reg<Sim<obj, nda::fixed_dense_shape<3, 2>, SimAlloc<obj, false, false, true>>> c1("life.obj.fixed32.fft");
static Reg<Sim<obj, nda::matrix_shape<>, SimAlloc<obj, true, false, false, true>>> c2("life.obj.matrix.tff.sel");
static Reg<Sim<int, nda::chunky_image_shape<3>, SimAlloc<int, true, true, true>>> c3("life.int.chunky3.ttt");
static Reg<Sim<obj, nda::shape<nda::dim<nda::dynamic, 3>, nda::dense_dim<>, nda::dim<1>>, SimAlloc<obj, false, true, true, false, true>>> c4("life.obj.mixed.ftt.hooks");
