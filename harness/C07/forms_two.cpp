#include "forms.hpp"
using namespace my;
SCENARIO(two_producers) { constructs(cat<with_consumers<p2<true>, 0, true, false>, with_consumers<p2<false>, 0, false, true>>{}); }
