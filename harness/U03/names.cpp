// names that differ in one character anywhere, or in their length, and maps of many routes
#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/string.hpp>
#include <nbdl/webui/route_map.hpp>
#include <string>
#include <vector>

namespace hana = boost::hana;
using namespace hana::literals;
namespace my
{
  template <int n> struct page { int number; nbdl::string name; };
  template <int n> struct bare { };
}
namespace nbdl
{
  template <int n> struct entity_members_impl<my::page<n>> { using type = mpdef::list<NBDL_MEMBER(&my::page<n>::number), NBDL_MEMBER(&my::page<n>::name)>; };
  template <int n> struct entity_members_impl<my::bare<n>> { using type = mpdef::list<>; };
}
namespace
{
  using std::string; using std::vector;
  template <std::size_t size, int at, char other> constexpr auto letters()
  { return []<std::size_t ...i>(std::index_sequence<i...>) { return hana::string_c<(int(i) == at ? other : char('a' + i % 23))...>; }(std::make_index_sequence<size>{}); }
  // one name of 40 letters, the same cut short, continued, and with one other letter at many places
  constexpr auto names = hana::make_tuple(
    letters<40, -1, 'a'>(), letters<39, -1, 'a'>(), letters<41, -1, 'a'>(), letters<8, -1, 'a'>(), letters<9, -1, 'a'>(), letters<16, -1, 'a'>(), letters<17, -1, 'a'>(), letters<32, -1, 'a'>()
  , letters<40, 0, 'z'>(), letters<40, 1, 'z'>(), letters<40, 3, 'z'>(), letters<40, 7, 'z'>(), letters<40, 8, 'z'>(), letters<40, 15, 'z'>(), letters<40, 16, 'z'>(), letters<40, 17, 'z'>()
  , letters<40, 20, 'z'>(), letters<40, 31, 'z'>(), letters<40, 32, 'z'>(), letters<40, 38, 'z'>(), letters<40, 39, 'z'>(), "page"_s, "pages"_s, "Page"_s);
  constexpr int count = int(decltype(hana::size(names))::value);
  template <int n> using route_type = std::conditional_t<n % 3 == 2, my::bare<n>, my::page<n>>;
  template <std::size_t ...i> constexpr auto make(std::index_sequence<i...>)
  { return nbdl::webui::make_route_map(nbdl::webui::route_pair<route_type<int(i)>>(hana::at_c<i>(names))...); }
  constexpr auto routes = make(std::make_index_sequence<count>{});
  vector<string> const& all_names()
  {
    static vector<string> const v = hana::unpack(names, [](auto ...s) { return vector<string>{hana::to<char const*>(s)...}; });
    return v;
  }
  struct found { int route = -1; int number = 0; string name; int calls = 0; };
  template <int n> void take(found& f, my::page<n> const& p) { f.route = n; f.number = p.number; f.name = p.name; }
  template <int n> void take(found& f, my::bare<n> const&) { f.route = n; }
  inline void take(found&, nbdl::webui::route_not_found) { }
  found look(string const& address)
  {
    found f;
    auto v = routes.from_string(nbdl::string(address));
    v.match([&](auto const& x) { f.calls++; take(f, x); });
    mc::check(f.calls == 1, "the result holds not exactly one alternative");
    mc::eval();
    return f;
  }
  int index_of(string const& name) { for (int i = 0; i < count; i++) if (all_names()[i] == name) return i; return -1; }
  void is(string const& name)
  {
    int want = index_of(name);
    found with = look("/" + name + "/12/twelve"), without = look("/" + name);
    bool bare = want >= 0 && want % 3 == 2;
    mc::check(with.route == (bare ? -1 : want), mc::str("/", name, "/12/twelve is route ", with.route, " instead of ", bare ? -1 : want));
    mc::check(without.route == (bare ? want : -1), mc::str("/", name, " is route ", without.route, " instead of ", bare ? want : -1));
    if (with.route >= 0) mc::check(with.number == 12 && with.name == "twelve", mc::str("members of /", name, "/12/twelve are ", with.number, " and ", with.name));
  }
}
SCENARIO(similar_names)
{
  string name = all_names()[mc::choose(count)];
  is(name);
  // one letter changed, left out, doubled; the end cut off or continued
  for (std::size_t i = 0; i < name.size() && !mc::failed(); i++)
  {
    for (char c : {'z', 'a', 'Z', '1', '-'}) { string t = name; t[i] = c; is(t); }
    string t = name; is(t.erase(i, 1));
    t = name; is(t.insert(i, 1, t[i]));
    if (i) is(name.substr(0, i));
  }
  is(name + "z"); is(name + name); is("z" + name);
  mc::state(name); mc::step();
}
SCENARIO(each_route_written)
{
  int k = mc::choose(count);
  boost::mp11::mp_with_index<count>(k, [&](auto i)
  {
    using T = route_type<int(decltype(i)::value)>;
    string want = "/" + all_names()[k];
    T v{};
    if constexpr (!std::is_empty_v<T>) { want += "/7/x"; v = T{7, nbdl::string("x")}; }
    string got = routes.to_string(v);
    mc::check(got == want, mc::str("route ", k, " is written as ", got, " instead of ", want));
    mc::check(look(got).route == k, mc::str(got, " is route ", look(got).route));
  });
  mc::state(mc::str(k)); mc::step();
}
