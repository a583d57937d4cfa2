// Life world, configurations: other element types (bytes, floating point, large
// and over-aligned, holding their own address).
#include "life.h"
using namespace life;
static Reg<Sim<unsigned char, nda::shape_of_rank<2>, SimAlloc<unsigned char, false, true, false>>> e1("life.byte.r2.ftf");
static Reg<Sim<wide, nda::dense_shape<2>, SimAlloc<wide, true, false, true>>> e2("life.wide.dense2.tft");
static Reg<Sim<wide, nda::shape_of_rank<1>, nda::auto_allocator<wide, 5>>> e3("life.auto.wide.r1.n5");
static Reg<Sim<unsigned char, nda::image_shape, nda::auto_allocator<unsigned char, 20, 16, SimAlloc<unsigned char, false, false, false>>>> e4("life.auto.byte.image.n20.sim");
static Reg<Sim<double, nda::chunky_image_shape<3>, SimAlloc<double, true, true, false>>> e5("life.double.chunky3.ttf");
static Reg<Sim<int, nda::shape_of_rank<2>, SimAlloc<int, true, false, false>>> e6("life.int.r2.tff");
static Reg<Sim<selfp, nda::shape_of_rank<2>, SimAlloc<selfp, true, false, false>>> e7("life.selfp.r2.tff");
static Reg<Sim<selfp, nda::dense_shape<2>, nda::auto_allocator<selfp, 6>>> e8("life.auto.selfp.dense2.n6");
