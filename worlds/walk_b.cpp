// Walk world, configurations.
#include "walk.h"
using namespace walk;
using namespace nda;
static Reg<Walk<shape_of_rank<3>>> b1("walk.r3");
static Reg<Walk<chunky_image_shape<>>> b2("walk.chunky");
