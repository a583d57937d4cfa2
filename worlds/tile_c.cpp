// Disjoint writers world, configurations: planar images, vectors, compile-time shapes.
#include "tile.h"
using namespace tile;
static Reg<Tile<obj, nda::planar_image_shape, nda::shape_of_rank<3>>> c1("tile.obj.planar");
static Reg<Tile<int, nda::shape_of_rank<1>, nda::dense_shape<1>>> c2("tile.int.r1");
static Reg<Tile<obj, nda::fixed_dense_shape<4, 5>, nda::shape_of_rank<2>>> c3("tile.obj.fixed");
