#include "pipes.hpp"
SCENARIO(first_X) { my::run_with_first<my::kX>(); }
