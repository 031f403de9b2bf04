#include "forms.hpp"
using namespace my;
SCENARIO(three_producers) { constructs(cat<with_consumers<p3<true>, 0, true, true>, with_consumers<p3<false>, 0, false, false>>{}); }
