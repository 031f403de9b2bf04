#include "params.hpp"
#include <nbdl/detail/match_if.hpp>
// match_if with every pair of predicates, and a third, that are known when compiling, by the type, or by the value
namespace
{
  using hana::false_; using hana::true_;
  template <int k> struct pred;
  template <> struct pred<0> { template <typename T> constexpr auto operator()(T const&) const { return hana::false_c; } };
  template <> struct pred<1> { template <typename T> constexpr auto operator()(T const&) const { return hana::bool_c<std::is_same_v<T, int>>; } };
  template <> struct pred<2> { template <typename T> constexpr auto operator()(T const&) const { return hana::bool_c<std::is_same_v<T, string>>; } };
  template <> struct pred<3> { bool operator()(int i) const { return i < 2; } bool operator()(string const& s) const { return s == "a"; } };
  // known for one type and not for the other
  template <> struct pred<4> { constexpr auto operator()(int) const { return hana::false_c; } bool operator()(string const& s) const { return s == "b"; } };
  bool holds(int k, int i) { return k == 1 || (k == 3 && i < 2); }
  bool holds(int k, string const& s) { return k == 2 || (k == 3 && s == "a") || (k == 4 && s == "b"); }
  template <int k> struct named { template <typename T> auto operator()(T) const { return hana::int_c<k>; } };
  template <int at, int a, int b, int c> void three(store_t const& s)
  {
    if (mc::failed()) return;
    using spec_t = decltype(spec::match_if(spec::get(hana::int_c<at>), spec::cond(pred<a>{}, "first"_s), spec::cond(pred<b>{}, spec::get_fn{}), spec::cond(pred<c>{}, "third"_s), spec::otherwise("other"_s)));
    auto const& v = s[hana::int_c<at>];
    int want = holds(a, v) ? 0 : holds(b, v) ? 1 : holds(c, v) ? 2 : 3;
    string said = mc::str("predicates ", a, b, c, " on ", text(v), ": ");
    int got = int(nbdl::ui_helper::get_branch_index<spec_t>(std::cref(s)));
    mc::check(got == want, mc::str(said, "branch ", got, " instead of ", want));
    int index = -1;
    nbdl::run_sync(nbdl::pipe(nbdl::detail::match_if_promise(mpdef::make_list(pred<a>{}, pred<b>{}, pred<c>{}, pred<1>{}, [](auto const&) { return hana::true_c; })), [&](auto i) { index = i; }), v);
    int five = want < 3 ? want : holds(1, v) ? 3 : 4;
    mc::check(index == five, mc::str(said, "match_if_promise gives ", index, " instead of ", five));
    vector<string> r;
    nbdl::ui_helper::match_params_spec(std::cref(s), mpdef::make_list("<"_s, spec_t{}, ">"_s), [&](auto const& ...x) { r = {text(x)...}; });
    mc::check(r == vector<string>{"s:<", want == 0 ? "s:first" : want == 1 ? text(v) : want == 2 ? "s:third" : "s:other", "s:>"}, said + "the parameters are others");
    mc::state(mc::str(at, a, b, c, text(v))); mc::eval();
  }
}
SCENARIO(predicates)
{
  int k = mc::choose(5);
  auto s = make_store();
  auto all = [&](auto a)
  {
    constexpr int x = decltype(a)::value;
    // the third is the one that settles it for the other type, or by the value
    [&]<std::size_t ...i>(std::index_sequence<i...>) { (three<i % 2 ? 0 : 2, x, i / 2, (i / 2 + x) % 2 ? 3 : 4>(s), ...); }(std::make_index_sequence<10>{});
  };
  boost::mp11::mp_with_index<5>(k, [&](auto i) { all(hana::int_c<int(decltype(i)::value)>); });
}
