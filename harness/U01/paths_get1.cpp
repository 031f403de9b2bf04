#include "paths.hpp"
SCENARIO(paths_get1)
{
  root store = level<0>::make();
  all<get1>(store);
}
