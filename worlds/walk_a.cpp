// Walk world, configurations.
#include "walk.h"
using namespace walk;
using namespace nda;
static Reg<Walk<shape_of_rank<2>>> a1("walk.r2");
static Reg<Walk<matrix_shape<>>> a2("walk.matrix");
static Reg<Walk<shape<>>> a3("walk.r0");
static Reg<Walk<matrix_shape<3, 4>>> a4("walk.matrix34");
