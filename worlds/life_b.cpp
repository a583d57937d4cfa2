// Life world, configurations: in-object storage.
#include "life.h"
using namespace life;
static Reg<Sim<obj, nda::shape_of_rank<2>, nda::auto_allocator<obj, 6>>> b1("life.auto.obj.r2.n6");
static Reg<Sim<obj, nda::shape_of_rank<1>, nda::auto_allocator<obj, 4, alignof(obj), SimAlloc<obj, true, true, true>>>> b2("life.auto.obj.r1.n4.sim");
static Reg<Sim<int, nda::dense_shape<2>, nda::auto_allocator<int, 12, 32, SimAlloc<int, false, false, false>>>> b3("life.auto.int.dense2.n12.sim");
static Reg<Sim<obj, nda::fixed_dense_shape<2, 3>, nda::auto_allocator<obj, 6>>> b4("life.auto.obj.fixed23.n6");
