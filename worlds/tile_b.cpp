// Disjoint writers world, configurations: images.
#include "tile.h"
using namespace tile;
static Reg<Tile<obj, nda::chunky_image_shape<>, nda::planar_image_shape>> b1("tile.obj.chunky");
static Reg<Tile<int, nda::shape_of_rank<3>, nda::dense_shape<3>>> b2("tile.int.r3");
