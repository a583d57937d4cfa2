// View world, configurations.
#include "view.h"
using namespace view;
using namespace nda;
static Reg<ViewWorld<int, shape_of_rank<2>>> a1("view.int.r2");
static Reg<ViewWorld<obj, dense_shape<3>>> a2("view.obj.dense3");
static Reg<ViewWorld<int, chunky_image_shape<3, 4>>> a3("view.int.chunky34");
