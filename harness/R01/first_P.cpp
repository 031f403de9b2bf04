#include "pipes.hpp"
SCENARIO(first_P) { my::run_with_first<my::kP>(); }
