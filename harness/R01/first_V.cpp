#include "pipes.hpp"
SCENARIO(first_V) { my::run_with_first<my::kV>(); }
