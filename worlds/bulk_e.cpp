// Bulk world, configurations: static shapes, rank 5.
#include "bulk.h"
using namespace bulk;
using namespace nda;
static Reg<Bulk<obj, shape<dim<1, 4>, dim<>, dim<dynamic, 2>>, obj, shape_of_rank<3>>> e1("bulk.obj.static3.r3");
static Reg<Bulk<obj, shape_of_rank<2>, obj, fixed_dense_shape<4, 3>>> e2("bulk.obj.r2.fixed43");
static Reg<Bulk<int, shape_of_rank<5>, int, dense_shape<5>>> e3("bulk.int.r5.dense5");
