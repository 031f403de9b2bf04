#include "pipes.hpp"
SCENARIO(first_F) { my::run_with_first<my::kF>(); }
