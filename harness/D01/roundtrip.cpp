// mc-flags: -ljsoncpp
#include "jsontypes.hpp"
namespace
{
  using namespace jt;
  namespace jb = nbdl::binder::jsoncpp;

  template <typename T> std::string written(T const& v)
  {
    try { return jb::to_string(v); }
    catch (std::exception& e) { return std::string("exception: ") + e.what(); }
  }
  // T{}: containers append, so what is read into is new
  template <typename T> void reads_back(T const& v, std::string const& from, char const* what)
  {
    T back{};
    try { jb::from_string(from, back); }
    catch (std::exception& e) { mc::fail(mc::str(what, " ", from, " is not read: ", e.what())); return; }
    mc::check(same(v, back), mc::str(what, " ", from, " is read as ", text(enc(back))));
  }
  template <typename T> void round(T const& v)
  {
    std::string out = written(v);
    J want = enc(v);
    mc::note(text(want));
    auto got = parse(out);
    mc::check(got.has_value(), mc::str("not JSON: ", mc::show(out, 200)));
    if (got) mc::check(*got == want, mc::str("written as ", mc::show(out, 200), " instead of ", text(want)));
    if (mc::failed()) return;
    reads_back(v, out, "its own text");
    reads_back(v, text(want), "another text");
    mc::check(written(v) == out, "writing again gives another text");
    mc::state(out); mc::step(); mc::eval();
  }
  template <typename T> void generated(int quick, int deep = 0) { jt::width = mc::tier(quick, deep ? deep : quick + 1); round(gen<T>()); }

  SCENARIO(scalars)
  {
    jt::width = 100;
    switch (mc::choose(14))
    {
    case 8: return round(gen<my::level>());
    case 9: return round(gen<my::step>());
    case 10: return round(gen<my::port>());
    case 11: return round(gen<my::offset>());
    case 12: return round(gen<vector<my::port>>());
    case 13: return round(gen<hana::tuple<my::offset, my::level>>());
    case 0: return round(gen<bool>());
    case 1: return round(gen<int>());
    case 2: return round(gen<unsigned>());
    case 3: return round(gen<double>());
    case 4: return round(gen<my::color>());
    case 5: return round(gen<my::temperature>());
    case 6: return round(gen<nbdl::string>());
    case 7: return round(gen<my::bytes>());
    }
  }
  // every power of two and its neighbours
  SCENARIO(integers)
  {
    int bit = mc::choose(32), off = mc::choose(3) - 1;
    unsigned u = (1u << bit) + off;
    if (mc::flip()) round(u); else round(int(mc::flip() ? u : 0u - u));
  }
  // every value of the small enumerations, every power of two and its neighbours in the large one
  SCENARIO(enumerations)
  {
    switch (mc::choose(3))
    {
    case 0: return round(my::level(mc::choose(256)));
    case 1: return round(my::step(mc::choose(256) - 128));
    case 2: { unsigned long v = 1ul << mc::choose(64); v += mc::choose(3) - 1; return round(my::offset(long(v))); }
    }
  }
  SCENARIO(doubles)
  {
    int e = mc::choose(mc::tier(30, 60)) * mc::tier(20, 10) - 300;
    double m = mc::pick(vector<double>{1, 1.0 / 3, 2.0 / 3, 1.1, 9.999999999999998, 1.2345678901234567});
    double v = m * std::pow(10, e);
    round(mc::flip() ? v : -v);
  }
  // every one-character string, every two-character one over the characters JSON escapes, code points at every UTF-8 length
  SCENARIO(strings)
  {
    std::string s;
    switch (mc::choose(3))
    {
    case 0: utf8(s, mc::choose(128)); break;
    case 1: for (int i = 0; i < mc::tier(3, 4); i++) s += mc::pick(vector<char>{'a', '"', '\\', '/', '\0', '\n', 'u', '\x7f', '{'}); break;
    case 2:
      for (int i = 0; i < 2; i++)
        utf8(s, mc::pick(vector<unsigned>{0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x41}));
      break;
    }
    round(nbdl::string(s));
    if (mc::failed()) return;
    round(my::one{nbdl::string(s)});
    round(vector<nbdl::string>{nbdl::string(s), nbdl::string()});
  }
  SCENARIO(buffers)
  {
    int n = mc::choose(mc::tier(40, 130));
    my::bytes b;
    unsigned char f = mc::pick(vector<unsigned char>{0, 1, 0x7f, 0x80, 0xff});
    for (int i = 0; i < n; i++) b.push_back(f * (i + 1) + (i % 5 == 3 ? 255 : 0));
    round(b);
    round(vector<my::bytes>{b, {}, b});
    round(std::string(b.begin(), b.end()));
  }
  SCENARIO(fixed_buffers)
  {
    switch (mc::choose(7))
    {
    case 0: return generated<std::array<unsigned char, 1>>(3);
    case 1: return generated<std::array<unsigned char, 2>>(3);
    case 2: return generated<std::array<unsigned char, 3>>(3);
    case 3: return generated<std::array<unsigned char, 4>>(3);
    case 4: return generated<std::array<unsigned char, 16>>(3);
    case 5: return generated<nbdl::uid>(3);
    case 6: return generated<vector<nbdl::uid>>(3);
    }
  }
  SCENARIO(containers)
  {
    switch (mc::choose(12))
    {
    case 0: return generated<vector<int>>(4, 5);
    case 1: return generated<vector<bool>>(5, 9);
    case 2: return generated<std::list<nbdl::string>>(4);
    case 3: return generated<std::deque<double>>(4);
    case 4: return generated<std::set<int>>(4, 5);
    case 5: return generated<vector<vector<int>>>(4, 5);
    case 6: return generated<vector<vector<vector<bool>>>>(4, 5);
    case 7: return generated<vector<my::point>>(3);
    case 8: return generated<vector<hana::tuple<int, bool>>>(3);
    case 9: return generated<vector<my::color>>(4);
    case 10: return generated<std::list<std::set<unsigned>>>(3);
    case 11: return generated<vector<my::maybe>>(4);
    }
  }
  SCENARIO(tuples)
  {
    switch (mc::choose(8))
    {
    case 0: return generated<hana::tuple<>>(3);
    case 1: return generated<hana::tuple<int>>(5);
    case 2: return generated<hana::tuple<my::nil, int>>(5);
    case 3: return generated<hana::tuple<int, nbdl::string>>(5);
    case 4: return generated<hana::tuple<int, my::nil, nbdl::string, bool>>(4);
    case 5: return generated<hana::tuple<hana::tuple<int, bool>, hana::tuple<nbdl::string>, vector<int>>>(3);
    case 6: return generated<hana::tuple<my::point, my::maybe, my::bytes, double, my::color>>(3);
    case 7: return generated<hana::tuple<vector<int>>>(4);
    }
  }
  SCENARIO(variants)
  {
    switch (mc::choose(6))
    {
    case 0: return generated<my::shape>(5);
    case 1: return generated<my::maybe>(5);
    case 2: return generated<vector<my::shape>>(3);
    case 3: return generated<nbdl::optional<my::shape>>(4);
    case 4: return generated<nbdl::variant<my::maybe, my::shape, my::none>>(3);
    case 5: return generated<nbdl::variant<int, double, bool, unsigned, my::color>>(9);
    }
  }
  SCENARIO(entity) { generated<my::person>(2, 3); }
  SCENARIO(entities) { jt::width = mc::tier(2, 2); my::person p = gen<my::person>(); p.weight = 0.5; round(vector<my::person>{p, my::person{}}); }
  SCENARIO(nested_entity) { jt::width = 2; round(gen<my::drawing>()); }
  // the map of names a hana::map is
  SCENARIO(named_values)
  {
    jt::width = 3;
    auto make = [](int a, nbdl::string b, my::point c)
    { return hana::make_map(hana::make_pair(BOOST_HANA_STRING("a"), a), hana::make_pair(BOOST_HANA_STRING("b"), b), hana::make_pair(BOOST_HANA_STRING("c"), c)); };
    int a = gen<int>(); auto b = gen<nbdl::string>(); auto c = gen<my::point>();
    auto m = make(a, b, c);
    J want = J::O({{"a", enc(a)}, {"b", enc(b)}, {"c", enc(c)}});
    auto got = parse(written(m));
    mc::check(got && *got == want, "hana::map written as " + written(m));
    auto back = make(0, {}, {});
    jb::from_string(text(want), back);
    mc::check(back[BOOST_HANA_STRING("a")] == a && back[BOOST_HANA_STRING("b")] == b && same(back[BOOST_HANA_STRING("c")], c), "hana::map is read back");
    mc::state(text(want)); mc::step(); mc::eval();
  }

  // as many as fit one byte and some more, as long as two bytes count and some more
  int around(vector<int> const& of) { return mc::pick(of) + mc::choose(3) - 1; }
  SCENARIO(many_elements)
  {
    int kind = mc::choose(6), n = around(mc::thorough() ? vector<int>{10, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 4096} : vector<int>{10, 32, 64, 128, 256, 1024}), salt = mc::choose(2);
    auto some = [&](int i) { return (i * 37 + salt) % 11; };
    switch (kind)
    {
    case 0: { vector<int> v; for (int i = 0; i < n; i++) v.push_back(i % 7 == 3 ? -i : i); return round(v); }
    case 1: { vector<bool> v; for (int i = 0; i < n; i++) v.push_back(some(i) % 2); return round(v); }
    case 2: { std::list<nbdl::string> v; for (int i = 0; i < n; i++) v.push_back(std::to_string(some(i))); return round(v); }
    case 3: { std::set<int> v; for (int i = 0; i < n; i++) v.insert(i * (salt ? -3 : 5)); return round(v); }
    case 4: { vector<vector<int>> v; for (int i = 0; i < n; i++) v.push_back(vector<int>(some(i), i)); return round(v); }
    case 5: { vector<my::maybe> v; for (int i = 0; i < n; i++) v.push_back(some(i) % 3 ? my::maybe(my::point{i, 5}) : my::maybe()); return round(v); }
    }
  }
  SCENARIO(long_texts)
  {
    int kind = mc::choose(3), n = around({64, 127, 255, 256, 1024, 4095, 4096, 16384, 65535, 65536}), salt = mc::choose(3);
    std::string s;
    for (int i = 0; i < n; i++) s += salt == 0 ? 'x' : salt == 1 ? "ab\"\\/\n\t u"[i % 9] : char('A' + i * 7 % 26);
    switch (kind)
    {
    case 0: return round(nbdl::string(s));
    case 1: return round(my::one{nbdl::string(s)});
    case 2: { my::bytes b(s.begin(), s.end()); for (int i = 0; i < n; i++) b[i] += i * 13; return round(b); }
    }
  }
}
