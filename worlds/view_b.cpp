// View world, configurations.
#include "view.h"
using namespace view;
using namespace nda;
static Reg<ViewWorld<obj, shape_of_rank<3>>> b1("view.obj.r3");
static Reg<ViewWorld<obj, matrix_shape<>>> b2("view.obj.matrix");
static Reg<ViewWorld<int, shape_of_rank<1>>> b3("view.int.r1");
