// Disjoint writers world, configurations: matrices.
#include "tile.h"
using namespace tile;
static Reg<Tile<obj, nda::shape_of_rank<2>, nda::dense_shape<2>>> a1("tile.obj.r2");
static Reg<Tile<int, nda::matrix_shape<>, nda::shape_of_rank<2>>> a2("tile.int.matrix");
