#include "forms.hpp"
using namespace my;
SCENARIO(single_producer) { constructs(cat<with_consumers<p1<true>, 1, true, false>, with_consumers<p1<false>, 1, false, true>>{}); }
SCENARIO(list_of_one_producer) { constructs(cat<with_consumers<p1<true>, 0, true, true>, with_consumers<p0<false>, 0, false, false>>{}); }
