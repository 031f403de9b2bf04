// mc-flags: -O1
// every params_view of up to three values appended, every two of up to two joined (and then a third), beside the list of what was put in
#include "mc.hpp"
#include <nbdl/detail/params_view.hpp>
#include <boost/hana.hpp>
#include <boost/mp11.hpp>
#include <functional>
#include <vector>
namespace hana = boost::hana;
namespace
{
  using std::string; using std::vector;
  namespace d = nbdl::detail;
  struct item { void const* at; string what; bool operator==(item const&) const = default; };
  struct left { }; 
  struct values { int number{1}; string text{"t"}; left empty; };
  // the kinds of values: references to three of the values (one of them without state of its own), and two that have no state
  template <int k> auto value_of(values& v)
  {
    if constexpr (k == 0) return std::cref(v.number);
    else if constexpr (k == 1) return std::ref(v.text);
    else if constexpr (k == 2) return hana::int_c<7>;
    else if constexpr (k == 3) return std::cref(v.empty);
    else return hana::string<'s'>{};
  }
  template <int k> item item_of(values& v)
  {
    if constexpr (k == 0) return {&v.number, "number"};
    else if constexpr (k == 1) return {&v.text, "text"};
    else if constexpr (k == 2) return {nullptr, "7"};
    else if constexpr (k == 3) return {&v.empty, "empty"};
    else return {nullptr, "s"};
  }
  item seen(std::reference_wrapper<int const> r) { return {&r.get(), "number"}; }
  item seen(std::reference_wrapper<string const> r) { return {&r.get(), "text"}; }
  item seen(hana::int_<7>) { return {nullptr, "7"}; }
  item seen(std::reference_wrapper<left const> r) { return {&r.get(), "empty"}; }
  item seen(hana::string<'s'>) { return {nullptr, "s"}; }
  template <typename V> vector<item> items(V const& v) { vector<item> r; hana::unpack(v, [&](auto ...x) { (r.push_back(seen(x)), ...); }); return r; }
  template <int ...k> struct kinds { };
  template <typename> struct maker;
  template <> struct maker<kinds<>> { static auto make(values&) { return d::make_params_view(); } static vector<item> want(values&) { return {}; } };
  template <typename, int> struct append;
  template <int ...k, int last> struct append<kinds<k...>, last> { using type = kinds<k..., last>; };
  template <typename> struct split;
  template <int k> struct split<kinds<k>> { using front = kinds<>; static constexpr int back = k; };
  template <int k, int ...r> struct split<kinds<k, r...>>
  {
    template <typename> struct pre; template <int ...x> struct pre<kinds<x...>> { using type = kinds<k, x...>; };
    using front = typename pre<typename split<kinds<r...>>::front>::type; static constexpr int back = split<kinds<r...>>::back;
  };
  template <int k, int ...r> struct maker<kinds<k, r...>>
  {
    using s = split<kinds<k, r...>>;
    static auto make(values& v) { return d::params_view_append(value_of<s::back>(v), maker<typename s::front>::make(v)); }
    static vector<item> want(values& v) { auto w = maker<typename s::front>::want(v); w.push_back(item_of<s::back>(v)); return w; }
  };
  // kinds number n of length l
  template <int n, int l> struct nth { using type = typename append<typename nth<n / 5, l - 1>::type, n % 5>::type; };
  template <int n> struct nth<n, 0> { using type = kinds<>; };
  constexpr int power(int l) { int r = 1; while (l--) r *= 5; return r; }
  string said(vector<item> const& v) { string s; for (auto const& i : v) s += " " + i.what; return "[" + s + " ]"; }
  void same(vector<item> const& got, vector<item> const& want, char const* what)
  {
    mc::check(got == want, mc::str(what, " of ", said(want), " holds ", said(got), said(got) == said(want) ? ", at other places" : ""));
    mc::state(what + said(want)); mc::eval(); mc::step();
  }
  template <typename K> void one(values& v) { same(items(maker<K>::make(v)), maker<K>::want(v), "the view"); }
  template <typename A, typename B> void two(values& v, values& u)
  {
    auto w = maker<A>::want(v), x = maker<B>::want(u);
    w.insert(w.end(), x.begin(), x.end());
    auto joined = [&] { auto a = maker<A>::make(v); auto b = maker<B>::make(u); return d::params_view_concat(a, b); }();
    same(items(joined), w, "two views joined");
    // more behind it, and a copy in front of it again
    auto more = d::params_view_append(value_of<0>(u), joined);
    auto y = w; y.push_back(item_of<0>(u));
    same(items(more), y, "appended to two views joined:");
    auto twice = d::params_view_concat(more, joined);
    y.insert(y.end(), w.begin(), w.end());
    same(items(twice), y, "three views joined");
  }
  template <int l, int n = power(l)> void all_of(int k, values& v)
  { boost::mp11::mp_with_index<n>(std::size_t(k), [&](auto i) { one<typename nth<int(decltype(i)::value), l>::type>(v); }); }
}
SCENARIO(appended)
{
  values v;
  switch (mc::choose(4)) { case 0: one<kinds<>>(v); break; case 1: all_of<1>(mc::choose(5), v); break; case 2: all_of<2>(mc::choose(25), v); break; default: all_of<3>(mc::choose(125), v); break; }
}
namespace
{
  // number n among the lists of at most two, of two kinds of references and one without state
  constexpr int kind3(int i) { return i == 0 ? 0 : i == 1 ? 2 : 1; }
  template <int n> struct upto2 { using type = kinds<kind3((n - 4) / 3), kind3((n - 4) % 3)>; };
  template <> struct upto2<0> { using type = kinds<>; };
  template <> struct upto2<1> { using type = kinds<0>; };
  template <> struct upto2<2> { using type = kinds<2>; };
  template <> struct upto2<3> { using type = kinds<1>; };
}
SCENARIO(joined)
{
  values v, u;
  int a = mc::choose(13), b = mc::choose(13);
  boost::mp11::mp_with_index<13>(std::size_t(a), [&](auto i) { boost::mp11::mp_with_index<13>(std::size_t(b), [&](auto j) {
    two<typename upto2<int(decltype(i)::value)>::type, typename upto2<int(decltype(j)::value)>::type>(v, u); }); });
}
