// View world, configurations.
#include "view.h"
using namespace view;
using namespace nda;
static Reg<ViewWorld<int, shape_of_rank<4>>> e1("view.int.r4");
static Reg<ViewWorld<obj, chunky_image_shape<>>> e2("view.obj.chunky");
