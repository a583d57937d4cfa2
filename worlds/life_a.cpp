// Life world, configurations: arbitrary shapes, standard and custom allocators.
#include "life.h"
using namespace life;
static Reg<Sim<obj, nda::shape_of_rank<2>, std::allocator<obj>>> a1("life.obj.r2.std");
static Reg<Sim<obj, nda::shape_of_rank<3>, SimAlloc<obj, false, false, false>>> a2("life.obj.r3.fff");
static Reg<Sim<obj, nda::shape_of_rank<1>, SimAlloc<obj, true, true, true>>> a3("life.obj.r1.ttt");
static Reg<Sim<int, nda::shape_of_rank<2>, SimAlloc<int, false, true, false>>> a4("life.int.r2.ftf");
