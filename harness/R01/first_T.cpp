#include "pipes.hpp"
SCENARIO(first_T) { my::run_with_first<my::kT>(); }
