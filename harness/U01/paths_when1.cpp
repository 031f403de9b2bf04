#include "paths.hpp"
SCENARIO(paths_when1)
{
  root store = level<0>::make();
  all<when1>(store);
}
