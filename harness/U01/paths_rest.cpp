#include "paths.hpp"
SCENARIO(paths_rest)
{
  root store = level<0>::make();
  {
    // no path: the store itself
    found got;
    nbdl::ui_helper::match_path_spec(store, spec::path_t<>{}, [&](auto const& x) { int c = got.calls; got = hit(x); got.calls = c + 1; });
    mc::check(got.calls == 1 && got.at == &store, "the empty path does not find the store");
  }
  all<nothing0>(store); all<wrong0>(store); all<wrong1>(store);
}
