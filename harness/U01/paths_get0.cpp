#include "paths.hpp"
SCENARIO(paths_get0)
{
  root store = level<0>::make();
  all<get0>(store);
}
