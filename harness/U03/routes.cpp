// every short address, every long address made of parts that matter, and every route
#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/string.hpp>
#include <nbdl/webui/route_map.hpp>
#include <nbdl/webui/set_route.hpp>
#include <cstddef>
#include <cstdint>
#include <limits>
#include <string>
#include <vector>

namespace hana = boost::hana;
using namespace hana::literals;

namespace my
{
  struct one_id { std::size_t id; };
  struct one_name { nbdl::string name; };
  struct both { std::size_t id; nbdl::string name; };
  struct nothing_more { };
  struct narrow { int i; unsigned short s; };
  struct tiny { std::uint8_t u; std::int8_t i; nbdl::string name; };
  struct wide { long l; unsigned u; };
  struct nine { int a, b, c; nbdl::string d; int e, f, g, h; nbdl::string i; };
  struct ten { nbdl::string a; int b, c, d, e, f, g, h, i; nbdl::string j; };
}
namespace nbdl
{
  NBDL_ENTITY(my::one_id, id);
  NBDL_ENTITY(my::one_name, name);
  NBDL_ENTITY(my::both, id, name);
  NBDL_EMPTY(my::nothing_more);
  NBDL_ENTITY(my::narrow, i, s);
  NBDL_ENTITY(my::tiny, u, i, name);
  NBDL_ENTITY(my::wide, l, u);
  NBDL_ENTITY(my::nine, a, b, c, d, e, f, g, h, i);
  NBDL_ENTITY(my::ten, a, b, c, d, e, f, g, h, i, j);
}

namespace
{
  using std::string; using std::vector;

  // names that are the beginning of others, or numbers
  constexpr auto routes = nbdl::webui::make_route_map(
    nbdl::webui::route_pair<>                 (""_s)
  , nbdl::webui::route_pair<my::one_id>       ("a"_s)
  , nbdl::webui::route_pair<my::both>         ("ab"_s)
  , nbdl::webui::route_pair<my::one_name>     ("b"_s)
  , nbdl::webui::route_pair<my::nothing_more> ("b-a"_s)
  , nbdl::webui::route_pair<my::narrow>       ("1"_s)
  , nbdl::webui::route_pair<my::tiny>         ("aa"_s)
  , nbdl::webui::route_pair<my::wide>         ("w"_s)
  , nbdl::webui::route_pair<my::nine>         ("nine"_s)
  , nbdl::webui::route_pair<my::ten>          ("ten"_s)
  );
  constexpr auto no_root = nbdl::webui::make_route_map(
    nbdl::webui::route_pair<my::both>         ("ab"_s)
  , nbdl::webui::route_pair<my::one_id>       ("a"_s)
  );

  // what a route is: name and parts
  struct route { string name; vector<string> parts; bool operator==(route const& o) const { return name == o.name && parts == o.parts; } };
  using maybe = std::optional<route>;
  string show(maybe const& r)
  {
    if (!r) return "nothing";
    string s = "route '" + r->name + "'";
    for (auto& p : r->parts) s += " '" + p + "'";
    return s;
  }

  template <typename ...X> vector<string> parts_of(X const& ...x)
  {
    auto t = [](auto const& v) { if constexpr (std::is_integral_v<std::decay_t<decltype(v)>>) return std::to_string(v); else return string(v); };
    return {t(x)...};
  }
  route read(my::one_id const& x) { return {"a", parts_of(x.id)}; }
  route read(my::both const& x) { return {"ab", parts_of(x.id, x.name)}; }
  route read(my::one_name const& x) { return {"b", parts_of(x.name)}; }
  route read(my::nothing_more) { return {"b-a", {}}; }
  route read(my::narrow const& x) { return {"1", parts_of(x.i, x.s)}; }
  route read(my::tiny const& x) { return {"aa", parts_of(x.u, x.i, x.name)}; }
  route read(my::wide const& x) { return {"w", parts_of(x.l, x.u)}; }
  route read(my::nine const& x) { return {"nine", parts_of(x.a, x.b, x.c, x.d, x.e, x.f, x.g, x.h, x.i)}; }
  route read(my::ten const& x) { return {"ten", parts_of(x.a, x.b, x.c, x.d, x.e, x.f, x.g, x.h, x.i, x.j)}; }
  route read(decltype(""_s)) { return {"", {}}; }
  template <typename V> maybe read_variant(V const& v)
  {
    maybe r; int calls = 0;
    v.match([&](nbdl::webui::route_not_found) { calls++; }, [&](auto const& x) { calls++; r = read(x); });
    mc::check(calls == 1, "the result holds not exactly one alternative");
    return r;
  }

  // the meaning of an address: the parts of the route of that name, each a text or a number that it can hold
  struct kind { string name; vector<string> max; };   // max of the number, "" for a text
  template <typename T> string max_of() { return std::to_string(std::numeric_limits<T>::max()); }
  vector<kind> const& kinds()
  {
    static string const i = max_of<int>();
    static vector<kind> const k{
      {"", {}}, {"a", {max_of<std::size_t>()}}, {"ab", {max_of<std::size_t>(), ""}}, {"b", {""}}, {"b-a", {}}
    , {"1", {i, max_of<unsigned short>()}}, {"aa", {"255", "127", ""}}, {"w", {max_of<long>(), max_of<unsigned>()}}
    , {"nine", {i, i, i, "", i, i, i, i, ""}}, {"ten", {"", i, i, i, i, i, i, i, i, ""}}};
    return k;
  }
  bool number(string const& s, string const& max, string& out)
  {
    for (char c : s) if (c < '0' || c > '9') return false;
    auto p = s.find_first_not_of('0');
    if (p == string::npos) return false;                       // zero is none
    out = s.substr(p);
    return out.size() < max.size() || (out.size() == max.size() && out <= max);
  }
  maybe meaning(string const& s, vector<kind> const& ks, bool& open)
  {
    open = false;
    if (s.empty() || s[0] != '/') return {};
    vector<string> seg; string cur;
    for (std::size_t i = 1; i < s.size(); i++) { if (s[i] == '/') { seg.push_back(cur); cur.clear(); } else cur += s[i]; }
    bool slash = s.size() > 1 && s.back() == '/';
    if (!slash) seg.push_back(cur);
    for (std::size_t i = 0; i < seg.size(); i++) if (seg[i].empty() && s.size() > 1) return {};
    for (auto& k : ks) if (k.name == seg[0])
    {
      if (k.max.size() != seg.size() - 1) return {};
      route r{k.name, {}};
      for (std::size_t i = 0; i < k.max.size(); i++)
      {
        string v = seg[i + 1];
        if (k.max[i].size() && !number(seg[i + 1], k.max[i], v)) return {};
        r.parts.push_back(v);
      }
      open = slash && k.max.size() >= 9;                        // a slash after all the parameters there can be
      return r;
    }
    return {};
  }
  template <typename Map> void one(Map const& m, vector<kind> const& ks, string const& s)
  {
    mc::eval();
    bool open;
    auto want = meaning(s, ks, open);
    // in memory of its own, with nothing behind it
    nbdl::string in(s.begin(), s.end());
    in.shrink_to_fit();
    auto got = read_variant(m.from_string(in));
    if (open && !got) return;
    if (!(got == want)) mc::fail(mc::str("'", mc::show(s), "' is taken for ", show(got), " instead of ", show(want)));
    if (got)
    {
      // written down it is the same place
      m.from_string(in).match([](nbdl::webui::route_not_found) { }, [&](auto const& x)
      {
        auto t = m.to_string(x);
        string w = "/" + got->name;
        for (auto& p : got->parts) w += "/" + p;
        mc::check(t == w, mc::str(show(got), " is written '", mc::show(t), "'"));
      });
    }
  }
  vector<kind> small_kinds() { auto& k = kinds(); return {k[1], k[2]}; }
}

// all texts
SCENARIO(every_address)
{
  static string const letters = "/ab1-0";
  int len = mc::tier(7, 8);
  string s;
  // the first two here, so that the work can be shared
  int n = mc::choose(len + 1);
  for (int i = 0; i < std::min(n, 2); i++) s += letters[mc::choose(6)];
  auto rest = [&](auto& self) -> void
  {
    if (mc::failed()) return;
    if (int(s.size()) == n) { one(routes, kinds(), s); if (n < 7) one(no_root, small_kinds(), s); return; }
    for (char c : letters) { s.push_back(c); self(self); s.pop_back(); }
  };
  rest(rest);
}

// addresses of the long routes
SCENARIO(many_parts)
{
  string s = "/" + mc::pick(vector<string>{"nine", "ten", "tens", "aa", "1", "w"});
  int parts = mc::choose(13);
  int odd = mc::choose(parts + 2), what = mc::choose(6);       // one that is different
  int texts = mc::choose(3);
  for (int i = 0; i < parts; i++)
  {
    bool text = texts == 0 ? (i == 3 || i == 8) : texts == 1 ? (i == 0 || i == 9) : i == 2;
    string p = text ? "t" : std::to_string(i + 1);
    if (i == odd) p = vector<string>{"", "0", "x", "99999999999", "1x", "-1"}[what];
    s += "/" + p;
  }
  if (mc::flip()) s += "/";
  one(routes, kinds(), s);
}

// numbers at and beyond the limits of the types
SCENARIO(numbers)
{
  auto k = mc::pick(vector<int>{1, 2, 5, 6, 7});
  auto const& kd = kinds()[k];
  string s = "/" + kd.name;
  static vector<string> const around = [] {
    vector<string> v{"1", "01", "0", "00", "10", "9", "+1", "-1", " 1", "1 ", "1.0", "0x1", "1e3"};
    for (int bits : {7, 8, 15, 16, 31, 32, 63, 64, 65, 66, 128})
    {
      // 2^bits by repeated doubling of the digits
      string d = "1";
      for (int b = 0; b < bits; b++) { int c = 0; for (int i = int(d.size()) - 1; i >= 0; i--) { int x = (d[i] - '0') * 2 + c; d[i] = char('0' + x % 10); c = x / 10; } if (c) d.insert(d.begin(), char('0' + c)); }
      for (int off = -1; off <= 2; off++)
      {
        string e = d;
        if (off < 0) { int i = int(e.size()) - 1; while (e[i] == '0') e[i--] = '9'; e[i]--; }
        else for (int o = 0; o < off; o++) { int i = int(e.size()) - 1; while (i >= 0 && e[i] == '9') e[i--] = '0'; e[i]++; }
        v.push_back(e); v.push_back("000" + e);
        v.push_back(e + "0");
      }
      string twice = d; v.push_back("1" + twice); v.push_back("9" + string(twice.size(), '9'));
    }
    return v;
  }();
  for (auto& m : kd.max) s += "/" + (m.empty() ? "t" : mc::choose(2) ? mc::pick(around) : string("1"));
  one(routes, kinds(), s);
}

// every byte may be a part of a text, and none is taken for a digit
SCENARIO(bytes)
{
  int a = mc::choose(256);
  for (int b = 0; b < 256 && !mc::failed(); b++)
  {
    string t{char(a), char(b)};
    one(routes, kinds(), "/b/" + t);
    one(routes, kinds(), "/a/" + t);
    one(routes, kinds(), "/a/1" + t);
    one(routes, kinds(), "/" + t);
    one(routes, kinds(), t + "/a/1");
    one(routes, kinds(), "/ab/12/" + t + t);
  }
}

// routes: written down and read again they are the same, and set_route sends them
namespace
{
  template <typename Name, typename T> void route_trip(Name name, T const& x)
  {
    mc::eval();
    route want = read(x);
    string s = "/" + want.name;
    for (auto& p : want.parts) s += "/" + p;
    auto t = routes.to_string(x);
    mc::check(t == s, mc::str(show(want), " is written '", mc::show(t), "' instead of '", mc::show(s), "'"));
    auto got = read_variant(routes.from_string(t));
    mc::check(got == want, mc::str("'", mc::show(t), "' is read as ", show(got)));
    mc::check(read_variant(routes.to_variant(x)) == want, mc::str("to_variant gives ", show(read_variant(routes.to_variant(x))), " for ", show(want)));
    T y = x;
    mc::check(read_variant(routes.to_variant(std::move(y))) == want, "to_variant of an rvalue");

    int sent = 0;
    auto send = [&](auto const& m)
    {
      sent++;
      namespace message = nbdl::message;
      mc::check(read_variant(message::get_payload(m)) == want, "set_route sends another route");
      static_assert(message::is_upstream<std::decay_t<decltype(m)>> && message::is_update<std::decay_t<decltype(m)>>);
      mc::check(hana::equal(message::get_path(m), nbdl::webui::nav_route_path), "set_route sends to another path");
    };
    constexpr auto set_route = nbdl::webui::make_set_route(routes);
    set_route(name)(send, x);
    mc::check(sent == 1, "set_route sends not one message");
    if constexpr (std::is_empty_v<T>) { set_route(name)(send); mc::check(sent == 2, "set_route sends not one message"); }
  }
  template <typename I> I num() { return mc::pick(vector<I>{1, 9, 10, I(std::numeric_limits<I>::max() - 1), std::numeric_limits<I>::max()}); }
  nbdl::string txt() { return mc::pick(vector<nbdl::string>{"x", "0", "a b?c=d", "\xc3\xa4", nbdl::string("\0", 1), "a text that does not fit into the string object itself, and an address longer than the fifty"}); }
}
SCENARIO(every_route)
{
  switch (mc::choose(10))
  {
  case 0: route_trip(""_s, ""_s); break;
  case 1: route_trip("a"_s, my::one_id{num<std::size_t>()}); break;
  case 2: route_trip("ab"_s, my::both{num<std::size_t>(), txt()}); break;
  case 3: route_trip("b"_s, my::one_name{txt()}); break;
  case 4: route_trip("b-a"_s, my::nothing_more{}); break;
  case 5: route_trip("1"_s, my::narrow{num<int>(), num<unsigned short>()}); break;
  case 6: route_trip("aa"_s, my::tiny{num<std::uint8_t>(), num<std::int8_t>(), txt()}); break;
  case 7: route_trip("w"_s, my::wide{num<long>(), num<unsigned>()}); break;
  case 8: route_trip("nine"_s, my::nine{1, num<int>(), 3, txt(), 5, 6, 7, num<int>(), txt()}); break;
  case 9: route_trip("ten"_s, my::ten{txt(), num<int>(), 3, 4, 5, 6, 7, 8, num<int>(), txt()}); break;
  }
}

// texts of any length, numbers behind any number of zeros, and addresses with very many parts
SCENARIO(long_addresses)
{
  int what = mc::choose(7);
  int n = mc::pick(vector<int>{16, 32, 50, 64, 100, 128, 256, 512, 1024, 4096, 65536}) + mc::choose(3) - 1;
  string t;
  for (int i = 0; i < n; i++) t += char('a' + i * 7 % 26);
  switch (what)
  {
  case 0: return one(routes, kinds(), "/b/" + t);
  case 1: return one(routes, kinds(), "/ab/" + string(n, '0') + "12/" + t);
  case 2: return one(routes, kinds(), "/a/" + string(n, '0'));
  case 3: return one(routes, kinds(), "/a/" + string(n, '0') + std::to_string(std::numeric_limits<std::size_t>::max()));
  case 4: { string s = "/ten/" + t; for (int i = 1; i < 9; i++) s += "/" + string(i == 4 ? n : 0, '0') + std::to_string(i); return one(routes, kinds(), s + "/" + t + "z"); }
  case 5: { string s; for (int i = 0; i < n; i++) s += "/1"; return one(routes, kinds(), s); }
  case 6: return one(routes, kinds(), "/" + t + "/1");
  }
}
SCENARIO(long_routes)
{
  int n = mc::pick(vector<int>{16, 32, 50, 64, 100, 128, 256, 512, 1024, 4096, 65536}) + mc::choose(3) - 1;
  string t;
  for (int i = 0; i < n; i++) t += char('a' + i * 7 % 26);
  nbdl::string x(t.begin(), t.end());
  switch (mc::choose(3))
  {
  case 0: return route_trip("b"_s, my::one_name{x});
  case 1: return route_trip("ab"_s, my::both{std::size_t(n), x});
  case 2: return route_trip("ten"_s, my::ten{x, 2, 3, 4, 5, 6, 7, 8, 9, x + x});
  }
}
