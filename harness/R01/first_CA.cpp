#include "pipes.hpp"
SCENARIO(first_CA) { my::run_with_first<my::kCA>(); }
