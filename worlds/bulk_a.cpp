// Bulk world, configurations: arbitrary layouts.
#include "bulk.h"
using namespace bulk;
using namespace nda;
static Reg<Bulk<obj, shape_of_rank<2>, obj, shape_of_rank<2>>> a1("bulk.obj.r2.r2");
static Reg<Bulk<obj, shape_of_rank<3>, obj, shape_of_rank<3>>> a2("bulk.obj.r3.r3");
static Reg<Bulk<int, shape_of_rank<2>, obj, dense_shape<2>>> a3("bulk.int-obj.r2.dense2");
