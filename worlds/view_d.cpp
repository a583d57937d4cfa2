// View world, configurations.
#include "view.h"
using namespace view;
using namespace nda;
static Reg<ViewWorld<obj, matrix_shape<3, 4>>> d1("view.obj.matrix34");
static Reg<ViewWorld<int, fixed_dense_shape<3, 2>>> d2("view.int.fixed");
static Reg<ViewWorld<obj, shape<dense_dim<-2, 5>>>> d3("view.obj.static1");
static Reg<ViewWorld<int, planar_image_shape>> d4("view.int.planar");
