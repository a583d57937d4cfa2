// View world, configurations.
#include "view.h"
using namespace view;
using namespace nda;
static Reg<ViewWorld<obj, chunky_image_shape<2>>> c1("view.obj.chunky2");
static Reg<ViewWorld<int, shape<dim<1, 4>, dim<>, dim<dynamic, 2>>>> c2("view.int.static3");
static Reg<ViewWorld<obj, dense_shape<2>>> c3("view.obj.dense2");
