// Bulk world, configurations: other element types.
#include "bulk.h"
using namespace bulk;
using namespace nda;
static Reg<Bulk<unsigned char, shape_of_rank<2>, unsigned char, shape_of_rank<2>>> f1("bulk.byte.r2.r2");
static Reg<Bulk<int, chunky_image_shape<3>, unsigned char, planar_image_shape>> f2("bulk.int-byte.chunky3.planar");
static Reg<Bulk<wide, dense_shape<2>, wide, shape_of_rank<2>>> f3("bulk.wide.dense2.r2");
static Reg<Bulk<selfp, shape_of_rank<2>, selfp, dense_shape<2>>> f4("bulk.selfp.r2.dense2");
static Reg<Bulk<odd, shape_of_rank<2>, odd, shape_of_rank<2>>> f5("bulk.odd.r2.r2");
