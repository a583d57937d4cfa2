// Walk world, configurations.
#include "walk.h"
using namespace walk;
using namespace nda;
static Reg<Walk<shape_of_rank<4>>> d1("walk.r4");
static Reg<Walk<chunky_image_shape<3>>> d2("walk.chunky3");
