// mc-flags: --node
// The generator of identifiers of the browser, with a source of random numbers
// that is ruled by the explorer.
#include <vector>
namespace src
{
  inline std::vector<float> numbers;        // what the source will give
  inline int drawn = 0;
}
inline float emscripten_random() { float r = src::drawn < int(src::numbers.size()) ? src::numbers[src::drawn] : 0; src::drawn++; return r; }
#define EMSCRIPTEN 1
#include <nbdl/uid.hpp>
#undef EMSCRIPTEN
#include "mc.hpp"
#include <cmath>
#include <set>

namespace
{
  std::string made(std::vector<float> n)
  {
    src::numbers = n; src::drawn = 0;
    auto gen = nbdl::make_uid_generator();
    nbdl::uid u = gen();
    return std::string(u.begin(), u.end());
  }
}
// equal parts of the numbers the source gives are the different bytes, the same at every place
SCENARIO(browser_bytes)
{
  int at = mc::choose(16);
  float other = mc::pick(std::vector<float>{0.f, .5f, std::nextafter(1.f, 0.f)});
  std::set<std::string> all, bytes;
  std::string base = made(std::vector<float>(16, other));
  for (int k = 0; k < 256; k++)
  {
    std::string first;
    for (float f : {k / 256.f, (k + .5f) / 256.f, std::nextafter((k + 1) / 256.f, 0.f)})
    {
      std::vector<float> n(16, other); n[at] = f;
      std::string u = made(n);
      mc::check(src::drawn >= 16, mc::str("an identifier is made of ", src::drawn, " random numbers"));
      if (first.empty()) first = u;
      mc::check(u == first, mc::str("the random number ", f, " at ", at, " is not the byte of its part"));
      int differ = 0; for (int i = 0; i < 16; i++) differ += u[i] != base[i];
      mc::check(differ <= 1, mc::str("one random number changes ", differ, " bytes"));
      mc::step(); mc::eval();
    }
    mc::check(all.insert(first).second, mc::str("two of the 256 parts at ", at, " give the same identifier"));
    mc::state(first);
  }
}
// identifiers differ as soon as what was drawn for them does
SCENARIO(browser_histories)
{
  auto a = nbdl::make_uid_generator(), b = nbdl::make_uid_generator();
  int n = 1 + mc::choose(4);
  src::numbers.clear(); src::drawn = 0;
  // the source counts in base 256
  for (int i = 0; i < n; i++) for (int k = 0; k < 16; k++) src::numbers.push_back(k == 7 ? i / 256.f : k == 12 ? .25f : 0);
  std::set<std::string> all;
  for (int i = 0; i < n; i++)
  {
    nbdl::uid u = mc::flip() ? a() : b();
    mc::check(all.insert(std::string(u.begin(), u.end())).second, mc::str("identifier ", i, " was made before"));
    mc::step(); mc::eval();
  }
  mc::state(mc::str(n));
}
