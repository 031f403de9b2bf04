#include "paths.hpp"
SCENARIO(paths_when0)
{
  root store = level<0>::make();
  all<when0>(store);
}
