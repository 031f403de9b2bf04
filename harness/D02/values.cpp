// mc-flags: -ljsoncpp
#include "jsonbad.hpp"
namespace
{
  using namespace jt;
  int times() { return mc::tier(1, 2); }
  SCENARIO(scalars)
  {
    jt::width = 1;
    switch (mc::choose(14))
    {
    case 10: return damaged<my::level>();
    case 11: return damaged<my::step>();
    case 12: return damaged<my::port>();
    case 13: return damaged<my::offset>();
    case 0: return damaged<bool>();
    case 1: return damaged<int>();
    case 2: return damaged<unsigned>();
    case 3: return damaged<double>();
    case 4: return damaged<my::color>();
    case 5: return damaged<my::temperature>();
    case 6: return damaged<nbdl::string>();
    case 7: return damaged<my::bytes>();
    case 8: return damaged<std::array<unsigned char, 3>>();
    case 9: return damaged<nbdl::uid>();
    }
  }
  SCENARIO(containers)
  {
    jt::width = 3;
    switch (mc::choose(7))
    {
    case 0: return damaged<vector<int>>(times());
    case 1: return damaged<vector<bool>>(times());
    case 2: return damaged<std::list<nbdl::string>>(times());
    case 3: return damaged<std::set<unsigned>>(times());
    case 4: return damaged<vector<vector<int>>>(times());
    case 5: return damaged<vector<my::bytes>>(times());
    case 6: return damaged<vector<std::array<unsigned char, 2>>>(times());
    }
  }
  SCENARIO(sequences)
  {
    jt::width = 1;
    switch (mc::choose(6))
    {
    case 0: return damaged<hana::tuple<>>();
    case 1: return damaged<hana::tuple<int>>();
    case 2: return damaged<hana::tuple<int, nbdl::string>>(times());
    case 3: return damaged<hana::tuple<int, my::nil, bool, nbdl::string>>(times());
    case 4: return damaged<hana::tuple<hana::tuple<int, bool>, hana::tuple<nbdl::string>, vector<int>>>(times());
    case 5: return damaged<hana::tuple<vector<int>>>(times());
    }
  }
  SCENARIO(variants)
  {
    jt::width = 2;
    switch (mc::choose(4))
    {
    case 0: return damaged<my::shape>(times());
    case 1: return damaged<my::maybe>(times());
    case 2: return damaged<nbdl::optional<my::shape>>(times());
    case 3: return damaged<vector<my::maybe>>(times());
    }
  }
  // every number of a small range, and every power of two and its neighbours
  J number()
  {
    int k = mc::choose(901 + 63 * 3 * 2);
    if (k < 901) return J::I(k - 300);
    k -= 901;
    long long v = (1ll << (k / 6)) + (k % 3 - 1);
    return J::I(k / 3 % 2 ? -v : v);
  }
  template <typename T> void number_as() { J j = number(); mc::note(text(j)); read_tree<T>(j); mc::state(text(j)); }
  SCENARIO(numbers)
  {
    switch (mc::choose(8))
    {
    case 0: return number_as<int>();
    case 1: return number_as<unsigned>();
    case 2: return number_as<my::color>();
    case 3: return number_as<my::temperature>();
    case 4: return number_as<my::level>();
    case 5: return number_as<my::step>();
    case 6: return number_as<my::port>();
    case 7: return number_as<my::offset>();
    }
  }
  // the number that tells which alternative is written: bare, and with what each alternative takes
  template <typename T> void type_id()
  {
    J n = number();
    static vector<J> const payload{J::N(), J::I(1), J::O({{"x", J::I(1)}, {"y", J::I(2)}}), J::S("s"), J::O({{"only", J::S("s")}}), J::A({J::I(1)}), J::A({J::I(1), J::B(true)}), J::B(true)};
    int k = mc::choose(1 + int(payload.size()));
    J j = k == 0 ? n : J::A({n, payload[k - 1]});
    mc::note(text(j));
    read_tree<T>(j);
    mc::state(text(j));
  }
  SCENARIO(type_ids)
  {
    switch (mc::choose(3))
    {
    case 0: return type_id<my::shape>();
    case 1: return type_id<my::maybe>();
    case 2: return type_id<nbdl::optional<nbdl::variant<int, my::one>>>();
    }
  }
  my::person somebody() { return {nbdl::string("Jo"), true, 3, 4, 5.5, my::green, {1, 2}, {9, 8, 7}}; }
  my::drawing a_drawing()
  {
    my::drawing d;
    d.shapes = {my::shape(3), my::shape(my::nil{}), my::shape(my::point{1, 2}), my::shape(vector<int>{4})};
    d.centre = my::point{3, 4};
    d.nested = nbdl::variant<int, my::one>(my::one{nbdl::string("n")});
    d.pair = decltype(d.pair){5, hana::tuple<nbdl::string, bool>{nbdl::string("p"), true}, my::nil{}};
    d.paths = {{{1, 2}, {3, 4}}, {}};
    return d;
  }
  template <typename T> void harm(T const& v, int n)
  {
    J j = enc(v);
    while (n--) damage(j);
    read_tree<T>(j);
    mc::state(text(j));
  }
  SCENARIO(entity) { harm(somebody(), mc::tier(1, 2)); }
  SCENARIO(nested_entity) { harm(a_drawing(), 1); }
  SCENARIO_T(nested_entity_twice, 2) { harm(my::drawing{{my::shape(3)}, my::point{3, 4}, my::one{nbdl::string("n")}, {}, {{}}}, 2); }
  SCENARIO(texts)
  {
    jt::width = 2;
    switch (mc::choose(9))
    {
    case 0: return mangled<int>();
    case 1: return mangled<double>();
    case 2: return mangled<nbdl::string>();
    case 3: return mangled<vector<int>>();
    case 4: return mangled<my::point>();
    case 5: return mangled<my::maybe>();
    case 6: return mangled<my::bytes>();
    case 7: return mangled<hana::tuple<int, bool>>();
    case 8: return mangled<vector<my::one>>();
    }
  }
  SCENARIO(texts_of_variants) { jt::width = mc::tier(1, 2); mangled<my::shape>(); }
  SCENARIO_T(texts_of_entities, 2) { jt::width = 1; mangled<my::person>(); }
  // containers nested beyond any stack
  SCENARIO(deep)
  {
    int n = mc::pick(vector<int>{900, 5000, 200000});
    char open_ = mc::flip() ? '[' : '{';
    std::string t;
    for (int i = 0; i < n; i++) { t += open_; if (open_ == '{') t += "\"x\":"; }
    if (mc::flip()) for (int i = 0; i < n; i++) t += open_ == '[' ? ']' : '}';
    read_text<vector<vector<int>>>(t, no, {});
    read_text<my::point>(t, no, {});
    read_text<int>(t, no, {});
    mc::state(mc::str(n, open_, t.back()));
  }
  SCENARIO(junk)
  {
    std::string t;
    int n = mc::choose(mc::tier(4, 5));
    for (int i = 0; i < n; i++) t += mc::pick(vector<char>{'[', ']', '{', '}', '"', ',', ':', '1', '-', 'n', '\\', '/', '*', ' ', '\0', '\xff'});
    auto tree = parse(t);
    auto go = [&](auto v) { using T = decltype(v); verdict must = any; if (tree) must = dec(*tree, v); read_text<T>(t, must, v); };
    go(int{}); go(vector<int>{}); go(my::point{}); go(my::maybe{});
    mc::state(t);
  }
}
