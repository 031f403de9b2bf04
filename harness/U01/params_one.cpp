#include "params.hpp"

SCENARIO(no_parameter_and_one) { auto s = make_store(); bool r = mc::flip(); one<>(s, r); each<>(specs{}, s, r); }
