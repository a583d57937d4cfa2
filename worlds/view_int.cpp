#include "view.h"
template struct view::Core<int>;
