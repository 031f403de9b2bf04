#include "params.hpp"

SCENARIO(three)
{
  auto s = make_store(); bool r = mc::flip();
  one<path, several_of_a_branch, applied>(s, r); one<by_predicate, constant, by_text>(s, r); one<by_alternative, from_table, path>(s, r);
}
