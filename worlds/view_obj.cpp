#include "view.h"
template struct view::Core<life::obj>;
