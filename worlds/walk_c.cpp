// Walk world, configurations.
#include "walk.h"
using namespace walk;
using namespace nda;
static Reg<Walk<planar_image_shape>> c1("walk.planar");
static Reg<Walk<chunky_image_shape<3, 4>>> c2("walk.chunky34");
static Reg<Walk<shape_of_rank<1>>> c3("walk.r1");
