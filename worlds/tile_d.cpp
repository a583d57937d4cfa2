// Tile world: elements that hold their address, statically sized pixels.
#include "tile.h"
using namespace tile;
static Reg<Tile<selfp, nda::shape_of_rank<2>, nda::matrix_shape<>>> d1("tile.selfp.r2");
static Reg<Tile<double, nda::chunky_image_shape<3>, nda::shape_of_rank<3>>> d2("tile.double.chunky3");
