// mc-flags: --node -ljsoncpp
#include "round.hpp"
namespace
{
  SCENARIO(scalars)
  {
    jt::width = 100;
    switch (mc::choose(10))
    {
    case 7: return round(my::level(mc::choose(256)));
    case 8: return round(my::step(mc::choose(256) - 128));
    case 9: return round(gen<my::port>());
    case 0: return round(gen<bool>());
    case 1: return round(gen<int>());
    case 2: return round(gen<unsigned>());
    case 3: return round(gen<my::color>());
    case 4: return round(gen<my::temperature>());
    case 5: return round(gen<nbdl::string>());
    case 6: return round(gen<my::bytes>());
    }
  }
  SCENARIO(integers)
  {
    int bit = mc::choose(32), off = mc::choose(3) - 1;
    unsigned u = (1u << bit) + off;
    if (mc::flip()) round(u); else round(int(mc::flip() ? u : 0u - u));
  }

  // strings, buffers
  SCENARIO(strings)
  {
    std::string s;
    switch (mc::choose(3))
    {
    case 0: utf8(s, mc::choose(128)); break;
    case 1: for (int i = 0; i < mc::tier(3, 4); i++) s += mc::pick(vector<char>{'a', '"', '\\', '/', '\0', '\n', 'u', '\x7f', '{'}); break;
    case 2:
      for (int i = 0; i < 2; i++)
        utf8(s, mc::pick(vector<unsigned>{0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x41}));
      break;
    }
    round(nbdl::string(s));
    if (mc::failed()) return;
    round(my::one{nbdl::string(s)});
    round(vector<nbdl::string>{nbdl::string(s), nbdl::string()});
  }
  SCENARIO(buffers)
  {
    int n = mc::choose(mc::tier(40, 130));
    my::bytes b;
    unsigned char f = mc::pick(vector<unsigned char>{0, 1, 0x7f, 0x80, 0xff});
    for (int i = 0; i < n; i++) b.push_back(f * (i + 1) + (i % 5 == 3 ? 255 : 0));
    round(b);
    round(vector<my::bytes>{b, {}, b});
    round(std::string(b.begin(), b.end()));
  }
  SCENARIO(fixed_buffers)
  {
    switch (mc::choose(3))
    {
    case 0: return generated<nbdl::uid>(3);
    case 1: return generated<vector<nbdl::uid>>(3);
    case 2: return generated<nbdl::optional<nbdl::uid>>(3);
    }
  }
}
