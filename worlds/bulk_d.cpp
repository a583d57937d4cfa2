// Bulk world, configurations: more images and broadcast sources.
#include "bulk.h"
using namespace bulk;
using namespace nda;
static Reg<Bulk<obj, image_shape, obj, chunky_image_shape<3, 4>>> d1("bulk.obj.image.chunky34");
static Reg<Bulk<obj, shape<dim<>, broadcast_dim<>>, obj, shape<dim<>, dense_dim<>>>> d2("bulk.obj.bcast.dense1");
static Reg<Bulk<obj, chunky_image_shape<2>, obj, chunky_image_shape<2>>> d3("bulk.obj.chunky2.chunky2");
