#include "pipes.hpp"
SCENARIO(first_CB) { my::run_with_first<my::kCB>(); }
