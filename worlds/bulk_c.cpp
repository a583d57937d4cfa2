// Bulk world, configurations: images, broadcast sources, rank 4.
#include "bulk.h"
using namespace bulk;
using namespace nda;
static Reg<Bulk<obj, chunky_image_shape<3>, obj, planar_image_shape>> c1("bulk.obj.chunky3.planar");
static Reg<Bulk<obj, planar_image_shape, obj, chunky_image_shape<>>> c2("bulk.obj.planar.chunky");
static Reg<Bulk<int, shape_of_rank<4>, int, shape_of_rank<4>>> c3("bulk.int.r4.r4");
