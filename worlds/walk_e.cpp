#include "walk.h"
using namespace walk;
using namespace nda;
static Reg<Walk<shape_of_rank<5>>> e1("walk.r5");
static Reg<Walk<fixed_dense_shape<2, 3, 4>>> e2("walk.fixed234");
