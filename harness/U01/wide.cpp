#include "rawvariant.hpp"
#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/ui_helper/match_branch.hpp>
#include <nbdl/ui_helper/match_params_spec.hpp>
#include <nbdl/ui_helper/match_path_spec.hpp>
#include <nbdl/variant.hpp>
#include <memory>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace spec = nbdl::ui_spec;
using namespace hana::literals;

// alternatives that turn into each other, many branches, many predicates, and results that cannot be copied
namespace
{
  using std::string; using std::vector;
  struct base { int b; };
  struct derived : base { };
  struct counted { int n; operator int() const { return n; } };
  using value = nbdl::variant<bool, int, unsigned, long, char, double, base, derived, counted, string, char const*>;
  constexpr int alternatives = 12;
  value make_value(int k)
  {
    switch (k)
    {
    case 1: return true;
    case 2: return 2;
    case 3: return 3u;
    case 4: return 4l;
    case 5: return '5';
    case 6: return 6.5;
    case 7: return base{7};
    case 8: return derived{{8}};
    case 9: return counted{9};
    case 10: return string("ten");
    case 11: return static_cast<char const*>("eleven");
    default: return {};
    }
  }
  template <int k> auto alternative(value const& v) { return std::get<k>(raw_variant(v)); }
  template <int k> using type_at = std::decay_t<decltype(alternative<k>(std::declval<value>()))>;
  auto make_store(value v, int n) { return hana::make_map(hana::make_pair(hana::int_c<0>, v), hana::make_pair(hana::int_c<1>, n)); }

  // exactly this type, not one that converts to it or is one of it
  SCENARIO(types_that_convert)
  {
    int k = mc::choose(alternatives);
    value const v = make_value(k);
    auto const store = make_store(v, 1);
    auto one = [&](auto index)
    {
      constexpr int i = int(decltype(index)::value);
      using T = type_at<i>;
      auto p = spec::match_when<T>(spec::get(hana::int_c<0>));
      int calls = 0; void const* at = nullptr;
      nbdl::ui_helper::match_path_spec(store, p, [&](auto const& x) { calls++; at = &x; static_assert(std::is_same_v<std::decay_t<decltype(x)>, T>); });
      void const* want = nullptr;
      std::visit([&](auto const& x) { if (i == k) want = &x; }, raw_variant(store[hana::int_c<0>]));
      mc::check(calls == (i == k) && at == want, mc::str("match_when of alternative ", i, " of a value of alternative ", k, " is called ", calls, " times"));
      int n = 0;
      nbdl::ui_helper::match_params_spec(std::cref(store), mpdef::make_list(p, hana::int_c<3>), [&](auto const& x, auto) { n++; at = &x; });
      mc::check(n == (i == k) && at == want, mc::str("a parameter of alternative ", i, " of a value of alternative ", k, " is found ", n, " times"));
      using two = decltype(spec::match(spec::get(hana::int_c<0>), spec::when<T>("this"_s), spec::when<>("another"_s)));
      mc::check(int(nbdl::ui_helper::get_branch_index<two>(std::cref(store))) == (i == k ? 0 : 1), mc::str("branch of alternative ", i, " for a value of alternative ", k));
      // every other type before it
      int seen = 0;
      nbdl::match(store[hana::int_c<0>], nbdl::match_when<T>([&](auto const&) { seen++; }));
      mc::check(seen == (i == k), mc::str("nbdl::match_when of alternative ", i, " is called ", seen, " times for alternative ", k));
      mc::eval();
    };
    hana::for_each(hana::make_range(hana::int_c<0>, hana::int_c<alternatives>), one);
    using all = decltype(spec::match(spec::get(hana::int_c<0>)
    , spec::when<base>("7"_s), spec::when<int>("2"_s), spec::when<derived>("8"_s), spec::when<char const*>("11"_s), spec::when<bool>("1"_s), spec::when<double>("6"_s)
    , spec::when<unsigned>("3"_s), spec::when<string>("10"_s), spec::when<counted>("9"_s), spec::when<long>("4"_s), spec::when<char>("5"_s), spec::when<nbdl::unresolved>("0"_s)));
    string got;
    nbdl::ui_helper::match_params_spec(std::cref(store), mpdef::make_list(all{}), [&](auto s) { got += hana::to<char const*>(s); });
    mc::check(got == std::to_string(k), mc::str("the branch of alternative ", got, " for alternative ", k));
    mc::state(std::to_string(k));
  }

  template <int n> struct is_ { template <typename T> bool operator()(T const& i) const { return i == n; } };
  template <int ...n> auto many(std::integer_sequence<int, n...>)
  { return spec::match_if(spec::get(hana::int_c<1>), spec::cond(is_<n>{}, hana::int_c<n>)..., spec::otherwise("none"_s)); }
  template <int size> void one_of(int n)
  {
    auto const store = make_store(make_value(1), n);
    using s = decltype(many(std::make_integer_sequence<int, size>{}));
    int want = n < size ? n : size;
    int index = int(nbdl::ui_helper::get_branch_index<s>(std::cref(store)));
    mc::check(index == want, mc::str("of ", size, " predicates for ", n, " branch ", index, " is taken"));
    string got;
    nbdl::ui_helper::match_params_spec(std::cref(store), mpdef::make_list(s{}), [&](auto x) { if constexpr (hana::is_a<hana::string_tag, decltype(x)>) got += "none"; else got += mc::str(int(x)); });
    mc::check(got == (n < size ? mc::str(n) : "none"), mc::str("of ", size, " predicates for ", n, " the parameter is ", got));
    int taken = -1;
    nbdl::ui_helper::match_branch<s>(std::cref(store), [&](auto i, auto) { taken = int(i); });
    mc::check(taken == want, mc::str("of ", size, " predicates for ", n, " match_branch takes ", taken));
    mc::eval(); mc::state(mc::str(size, n));
  }
  SCENARIO(many_predicates)
  {
    int n = mc::choose(26);
    switch (mc::choose(6))
    {
    case 0: return one_of<5>(n);
    case 1: return one_of<7>(n);
    case 2: return one_of<8>(n);
    case 3: return one_of<10>(n);
    case 4: return one_of<16>(n);
    case 5: return one_of<24>(n);
    }
  }
  constexpr auto boxed = [](int i) { return std::make_unique<int>(i * 2); };
  constexpr auto opened = [](std::unique_ptr<int> const& p) { return *p + 1; };
  SCENARIO(results_that_cannot_be_copied)
  {
    int n = mc::choose(5);
    auto const store = make_store(make_value(1), n);
    int calls = 0, a = 0, b = 0;
    nbdl::ui_helper::match_params_spec(std::cref(store), mpdef::make_list(spec::apply(boxed)(spec::get(hana::int_c<1>)), spec::apply(opened)(spec::apply(boxed)(spec::get(hana::int_c<1>)))), [&](auto const& p, auto const& q) { calls++; a = *p; b = q; });
    mc::check(calls == 1 && a == n * 2 && b == n * 2 + 1, mc::str("results ", a, " and ", b, " of ", n));
    mc::eval(); mc::state(mc::str(n));
  }
}
