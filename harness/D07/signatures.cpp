// the signatures of all types of a grammar, each pair compared
#include "mc.hpp"
#include <boost/hana.hpp>
#include <boost/mp11.hpp>
#include <nbdl/api_signature.hpp>
#include <nbdl/delta.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/string.hpp>
#include <nbdl/variant.hpp>
#include <deque>
#include <list>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace hana = boost::hana;
using namespace boost::mp11;
namespace my
{
  enum class narrow : unsigned char { x };
  enum wide : int { y };
  struct mark { };
  struct sign { };
  using str_a = hana::string<'a'>;
  using str_b = hana::string<'b'>;
  using str_ab = hana::string<'a', 'b'>;

  // entities: the names of the members count, the name of the entity does not
  template <typename T> struct just_a { T a; };
  template <typename T> struct also_a { T x; };          // the member is called a too
  template <typename T> struct just_b { T b; };
  template <typename T, typename U> struct a_b { T a; U b; };
  template <typename T, typename U> struct b_a { T b; U a; };
  struct nobody { };

  template <typename T> struct desc;
  template <typename T> std::string d() { return desc<T>::text(); }
  template <typename ...T> std::string commas() { std::string r; ((r += (r.empty() ? "" : ",") + d<T>()), ...); return r; }
#define LEAF(TYPE, TEXT) template <> struct desc<TYPE> { static std::string text() { return TEXT; } };
  LEAF(int, "int") LEAF(unsigned, "unsigned") LEAF(long long, "long long") LEAF(bool, "bool") LEAF(char, "char") LEAF(unsigned char, "unsigned char")
  LEAF(double, "double") LEAF(float, "float") LEAF(std::string, "bytes") LEAF(std::vector<unsigned char>, "bytes") LEAF(nbdl::string, "text")
  LEAF(narrow, "unsigned char") LEAF(wide, "int") LEAF(hana::int_<1>, "int 1") LEAF(hana::int_<2>, "int 2") LEAF(hana::int_<-1>, "int -1") LEAF(hana::long_<1>, "long 1") LEAF(hana::true_, "true") LEAF(hana::false_, "false")
  LEAF(str_a, "'a'") LEAF(str_b, "'b'") LEAF(str_ab, "'ab'") LEAF(mark, "mark") LEAF(sign, "sign") LEAF(hana::tuple<>, "seq()") LEAF(nobody, "map()")
#undef LEAF
  using buffer = std::array<unsigned char, 4>;
  template <> struct desc<buffer> { static std::string text() { return "fixed"; } };
  template <> struct desc<hana::type<int>> { static std::string text() { return "type int"; } };
  template <> struct desc<hana::type<mark>> { static std::string text() { return "type mark"; } };
  template <typename T> requires (!std::is_same_v<T, unsigned char> && !std::is_same_v<T, char>) struct desc<std::vector<T>> { static std::string text() { return "list(" + d<T>() + ")"; } };
  template <typename T> struct desc<std::list<T>> { static std::string text() { return "list(" + d<T>() + ")"; } };
  template <typename T> struct desc<std::array<T, 3>> { static std::string text() { return "list(" + d<T>() + ")"; } };
  template <typename K, typename V> struct desc<std::map<K, V>> { static std::string text() { return "list(seq(" + commas<K, V>() + "))"; } };
  template <typename ...T> struct desc<hana::tuple<T...>> { static std::string text() { return "seq(" + commas<T...>() + ")"; } };
  template <typename T, typename U> struct desc<std::pair<T, U>> { static std::string text() { return "seq(" + commas<T, U>() + ")"; } };
  template <typename T, typename U> struct desc<hana::pair<T, U>> { static std::string text() { return "seq(" + commas<T, U>() + ")"; } };
  template <typename Default, typename ...T> struct desc<nbdl::detail::variant<Default, T...>> { static std::string text() { return "one of(" + commas<T...>() + ")"; } };
  template <typename T> struct desc<just_a<T>> { static std::string text() { return "map(a:" + d<T>() + ")"; } };
  template <typename T> struct desc<also_a<T>> { static std::string text() { return "map(a:" + d<T>() + ")"; } };
  template <typename T> struct desc<just_b<T>> { static std::string text() { return "map(b:" + d<T>() + ")"; } };
  template <typename T, typename U> struct desc<a_b<T, U>> { static std::string text() { return "map(a:" + d<T>() + ",b:" + d<U>() + ")"; } };
  template <typename T, typename U> struct desc<b_a<T, U>> { static std::string text() { return "map(b:" + d<T>() + ",a:" + d<U>() + ")"; } };
  template <typename T> using map_a = hana::map<hana::pair<str_a, T>>;
  template <typename T> using map_ab = hana::map<hana::pair<str_ab, T>>;
  template <typename T> requires (hana::is_a<hana::map_tag, T>()) struct desc<T>
  {
    static std::string text()
    {
      return hana::unpack(T{}, [](auto const& ...p)
      {
        std::string r;
        ((r += (r.empty() ? "" : ",") + std::string(hana::to<char const*>(hana::first(p))) + ":" + d<std::decay_t<decltype(hana::second(p))>>()), ...);
        return "map(" + r + ")";
      });
    }
  };
}
namespace nbdl
{
  template <typename T> struct entity_members_impl<my::just_a<T>> { using type = mpdef::list<NBDL_MEMBER(&my::just_a<T>::a)>; };
  template <typename T> struct entity_members_impl<my::also_a<T>> { using type = mpdef::list<NBDL_MEMBER(&my::also_a<T>::x)>; };
  template <typename T> struct entity_members_impl<my::just_b<T>> { using type = mpdef::list<NBDL_MEMBER(&my::just_b<T>::b)>; };
  template <typename T, typename U> struct entity_members_impl<my::a_b<T, U>> { using type = mpdef::list<member<my::a_b<T, U>, T, &my::a_b<T, U>::a>, member<my::a_b<T, U>, U, &my::a_b<T, U>::b>>; };
  template <typename T, typename U> struct entity_members_impl<my::b_a<T, U>> { using type = mpdef::list<member<my::b_a<T, U>, T, &my::b_a<T, U>::b>, member<my::b_a<T, U>, U, &my::b_a<T, U>::a>>; };
  template <typename T, T my::just_a<T>::*p> struct member_name_impl<member<my::just_a<T>, T, p>> { static auto apply() { return my::str_a{}; } };
  template <typename T, T my::also_a<T>::*p> struct member_name_impl<member<my::also_a<T>, T, p>> { static auto apply() { return my::str_a{}; } };
  template <typename T, T my::just_b<T>::*p> struct member_name_impl<member<my::just_b<T>, T, p>> { static auto apply() { return my::str_b{}; } };
  template <typename T, typename U, typename M, M my::a_b<T, U>::*p> struct member_name_impl<member<my::a_b<T, U>, M, p>>
  { static auto apply() { if constexpr (requires { requires p == &my::a_b<T, U>::a; }) return my::str_a{}; else return my::str_b{}; } };
  template <typename T, typename U, typename M, M my::b_a<T, U>::*p> struct member_name_impl<member<my::b_a<T, U>, M, p>>
  { static auto apply() { if constexpr (requires { requires p == &my::b_a<T, U>::a; }) return my::str_a{}; else return my::str_b{}; } };
  NBDL_EMPTY(my::nobody);
}
namespace
{
  using namespace my;
  using leaves = mp_list<int, unsigned, long long, bool, char, unsigned char, double, float, std::string, std::vector<unsigned char>, nbdl::string, narrow, wide
    , hana::int_<1>, hana::int_<2>, hana::int_<-1>, hana::long_<1>, hana::true_, hana::false_, str_a, str_b, str_ab, mark, sign, hana::tuple<>, nobody, buffer, hana::type<int>, hana::type<mark>>;
  using held = mp_list<int, unsigned, bool, std::string, nbdl::string, narrow, mark, nobody, buffer>;       // what a container can hold
  using few = mp_list<int, std::string, mark, hana::int_<1>>;
  template <typename T> using vec = std::vector<T>;
  template <typename T> using lis = std::list<T>;
  template <typename T> using arr = std::array<T, 3>;
  template <typename T> using opt = nbdl::optional<T>;
  template <typename T> using var = nbdl::variant<T>;
  template <typename T> using tup = hana::tuple<T>;
  template <typename T> using on_int = std::map<int, T>;
  template <typename ...L> using join = mp_append<L...>;
  template <typename L> using once = join<mp_transform<opt, L>, mp_transform<var, L>, mp_transform<tup, L>, mp_transform<just_a, L>, mp_transform<just_b, L>, mp_transform<map_a, L>, mp_transform<map_ab, L>>;
  template <typename L> using lists = join<mp_transform<vec, L>, mp_transform<lis, L>, mp_transform<on_int, L>>;
  template <typename T, typename U> using tup2 = hana::tuple<T, U>;
  template <typename T, typename U> using hpair = hana::pair<T, U>;
  template <typename T, typename U> using spair = std::pair<T, U>;
  template <typename T, typename U> using var2 = nbdl::variant<T, U>;
  template <typename T> using differ = mp_bool<!std::is_same_v<mp_first<T>, mp_second<T>>>;
  template <typename L> using pairs = mp_product<mp_list, L, L>;
  template <typename L> using twice = join<mp_product<tup2, L, L>, mp_product<spair, L, L>, mp_product<hpair, L, L>, mp_product<a_b, L, L>, mp_product<b_a, L, L>>;
  using alternatives = mp_list<nbdl::variant<int, std::string>, nbdl::variant<std::string, int>, nbdl::variant<int, std::string, mark>, nbdl::variant<int, nbdl::variant<std::string, mark>>,
    nbdl::variant<int, nbdl::optional<std::string>>, nbdl::variant<mark, sign>, nbdl::variant<sign, mark>>;
  using nested = mp_list<hana::tuple<int, hana::tuple<int>>, hana::tuple<hana::tuple<int>, int>, hana::tuple<hana::tuple<int, int>>, hana::tuple<int, int, int>, hana::tuple<int, hana::tuple<int, int>>, hana::tuple<hana::tuple<int, int>, int>
    , a_b<int, just_a<int>>, a_b<just_b<int>, int>, a_b<a_b<int, int>, int>, a_b<int, a_b<int, int>>, just_a<a_b<int, int>>, std::vector<hana::tuple<int, int>>, std::map<int, int>, std::map<std::string, std::vector<int>>
    , std::vector<just_a<int>>, std::vector<just_b<int>>, std::array<int, 3>, std::vector<std::vector<std::vector<int>>>, std::vector<bool>, std::deque<bool>>;
  template <typename L> struct many;
  using first = join<leaves, once<leaves>, lists<held>, twice<mp_list<int, std::string, mark>>, alternatives, nested>;
  using second = join<once<once<few>>, lists<once<mp_list<int>>>, once<lists<mp_list<int, mark>>>>;
  using all = mp_unique<join<first, second>>;
}
namespace my { template <typename T> struct desc<std::deque<T>> { static std::string text() { return "list(" + d<T>() + ")"; } }; }
namespace
{
  struct entry { std::string text; std::string json, js; };
  template <typename T> std::string sign_of(auto format) { auto x = nbdl::api_signature<T>(format); return {x.begin(), x.end()}; }
  using json_name = hana::string<'j', 's', 'o', 'n'>;
  using js_name = hana::string<'j', 's'>;
  template <typename ...T> std::vector<entry> table(mp_list<T...>)
  { return {{d<T>(), sign_of<T>(json_name{}), sign_of<T>(js_name{})}...}; }
  std::vector<entry> const& entries() { static auto t = table(all{}); return t; }
}
// the same signature, exactly if the same is written under the same names
SCENARIO(every_pair)
{
  auto& t = entries();
  auto& x = t[mc::choose(int(t.size()))];
  mc::state(x.text);
  mc::note(x.text);
  for (auto& y : t)
  {
    mc::step(2); mc::eval(2);
    bool same = x.text == y.text;
    if ((x.json == y.json) != same) mc::fail(x.text + " and " + y.text + (same ? " have different signatures" : " have the same signature"));
    if (x.json == y.js) mc::fail(x.text + " and " + y.text + " have the same signature in different formats");
  }
  mc::check(x.json.size() == 20, "the size of a signature");
}
