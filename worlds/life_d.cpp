// Life world, configurations: dense and planar shapes, rank 0 and 4, hooked
// and uninitialized allocators.
#include "life.h"
using namespace life;
static Reg<Sim<obj, nda::dense_shape<3>, SimAlloc<obj, true, true, false, false, true>>> d1("life.obj.dense3.ttf.hooks");
static Reg<Sim<obj, nda::shape<>, SimAlloc<obj, false, false, false, false, true>>> d2("life.obj.r0.fff.hooks");
static Reg<Sim<int, nda::shape_of_rank<4>, std::allocator<int>>> d3("life.int.r4.std");
static Reg<Sim<obj, nda::planar_image_shape, SimAlloc<obj, false, false, false, true, true>>> d4("life.obj.planar.fff.sel.hooks");
static Reg<Sim<int, nda::shape_of_rank<2>, nda::uninitialized_allocator<SimAlloc<int, true, true, true>>>> d5("life.int.r2.uninit.ttt");
static Reg<Sim<int, nda::shape_of_rank<2>, nda::uninitialized_allocator<SimAlloc<int, false, true, false, true>>>> d6("life.int.r2.uninit.ftf.sel");
static Reg<Sim<int, nda::shape_of_rank<1>, nda::uninitialized_auto_allocator<int, 6>>> d7("life.auto.int.r1.uninit.n6");
