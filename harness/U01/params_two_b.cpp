#include "params.hpp"

SCENARIO(two_b)
{
  auto s = make_store(); bool r = mc::flip();
  each<applied>(pool<applied, path>{}, s, r); each<by_alternative>(pool<by_alternative, several_of_a_branch>{}, s, r);
}
