#include "params.hpp"

SCENARIO(two_a)
{
  auto s = make_store(); bool r = mc::flip();
  each<constant>(pool<path, by_alternative>{}, s, r); each<path>(pool<constant, path, applied, by_alternative, several_of_a_branch, by_predicate>{}, s, r);
}
