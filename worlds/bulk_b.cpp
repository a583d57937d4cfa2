// Bulk world, configurations: matrices, ranks 0 and 1, static shapes.
#include "bulk.h"
using namespace bulk;
using namespace nda;
static Reg<Bulk<obj, shape<>, obj, shape<>>> b1("bulk.obj.r0.r0");
static Reg<Bulk<obj, shape_of_rank<1>, obj, dense_shape<1>>> b2("bulk.obj.r1.dense1");
static Reg<Bulk<obj, matrix_shape<>, obj, shape_of_rank<2>>> b3("bulk.obj.matrix.r2");
static Reg<Bulk<obj, shape_of_rank<2>, obj, matrix_shape<3, 4>>> b4("bulk.obj.r2.matrix34");
