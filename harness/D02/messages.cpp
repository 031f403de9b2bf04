// mc-flags: -ljsoncpp
#include "jsonmessages.hpp"
#include "jsonbad.hpp"
namespace
{
  using namespace jt;
  SCENARIO(upstream) { jt::width = mc::tier(1, 2); damaged<my::up>(); }
  SCENARIO(downstream) { jt::width = mc::tier(1, 2); damaged<my::down>(); }
  SCENARIO_T(upstream_twice, 2) { jt::width = 1; damaged<my::up>(2); }
  SCENARIO(texts) { jt::width = 1; mangled<my::up>(); }
  SCENARIO_T(texts_down, 2) { jt::width = 1; mangled<my::down>(); }
}
