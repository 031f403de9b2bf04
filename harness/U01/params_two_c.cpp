#include "params.hpp"

SCENARIO(two_c)
{
  auto s = make_store(); bool r = mc::flip();
  each<several_of_a_branch>(pool<constant, path, several_of_a_branch>{}, s, r); each<together>(pool<by_text, from_table>{}, s, r);
}
