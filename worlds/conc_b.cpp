// Concurrent use world, configurations: images.
#include "conc.h"
using namespace conc;
static Reg<Conc<obj, nda::chunky_image_shape<>, nda::planar_image_shape, std::allocator<obj>>> b1("conc.obj.chunky");
static Reg<Conc<int, nda::shape_of_rank<3>, nda::dense_shape<3>, nda::auto_allocator<int, 12>>> b2("conc.int.r3.auto");
