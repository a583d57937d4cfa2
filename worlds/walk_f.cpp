#include "walk.h"
using namespace walk;
using namespace nda;
static Reg<Walk<shape<dim<1, 4>, dim<>, dim<dynamic, 2>>>> f1("walk.static3");
static Reg<Walk<dense_shape<2>>> f2("walk.dense2");
