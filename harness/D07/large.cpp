// the signatures of large types that differ in one place only, each pair compared
#include "mc.hpp"
#include <boost/hana.hpp>
#include <boost/mp11.hpp>
#include <nbdl/api_signature.hpp>
#include <nbdl/string.hpp>
#include <nbdl/variant.hpp>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace
{
  struct entry { std::string text, sign; };
  template <typename T> std::string sign_of() { auto x = nbdl::api_signature<T>(hana::string<'j', 's', 'o', 'n'>{}); return {x.begin(), x.end()}; }
  template <bool odd> using element = hana::tuple<int, std::conditional_t<odd, bool, nbdl::string>>;
  template <template <typename ...> class L, int n, int at> std::string sign_list()
  { return []<std::size_t ...i>(std::index_sequence<i...>) { return sign_of<L<element<int(i) == at>...>>(); }(std::make_index_sequence<n>{}); }
  template <typename T, int n> struct within { using type = hana::tuple<typename within<T, n - 1>::type>; };
  template <typename T> struct within<T, 0> { using type = T; };
  template <std::size_t n, int at> auto name() { return []<std::size_t ...i>(std::index_sequence<i...>) { return hana::string<(int(i) == at ? 'z' : char('a' + i % 20))...>{}; }(std::make_index_sequence<n>{}); }
  template <std::size_t n, int at> std::string sign_name() { return sign_of<hana::map<hana::pair<decltype(name<n, at>()), int>>>(); }

  std::vector<entry> entries()
  {
    std::vector<entry> r;
    auto add = [&](std::string text, std::string sign) { r.push_back({std::move(text), std::move(sign)}); };
    auto list = [&](auto n_)
    {
      constexpr int n = decltype(n_)::value;
      auto one = [&](auto at_)
      {
        constexpr int at = decltype(at_)::value;
        add(mc::str("sequence of ", n, " other at ", at), sign_list<hana::tuple, n, at>());
      };
      one(hana::int_c<-1>); one(hana::int_c<0>); one(hana::int_c<n / 2>); one(hana::int_c<n - 1>);
    };
    list(hana::int_c<12>); list(hana::int_c<13>); list(hana::int_c<40>); list(hana::int_c<120>); list(hana::int_c<400>);
    auto deep = [&](auto n_)
    {
      constexpr int n = decltype(n_)::value;
      add(mc::str("int within ", n), sign_of<typename within<int, n>::type>());
      add(mc::str("bool within ", n), sign_of<typename within<bool, n>::type>());
    };
    deep(hana::int_c<5>); deep(hana::int_c<6>); deep(hana::int_c<30>); deep(hana::int_c<31>);
    auto named = [&](auto n_)
    {
      constexpr int n = decltype(n_)::value;
      auto one = [&](auto at_) { constexpr int at = decltype(at_)::value; add(mc::str("name of ", n, " other at ", at), sign_name<n, at>()); };
      one(hana::int_c<-1>); one(hana::int_c<0>); one(hana::int_c<n / 2>); one(hana::int_c<n - 1>);
    };
    named(hana::int_c<16>); named(hana::int_c<64>); named(hana::int_c<256>); named(hana::int_c<1000>);
    return r;
  }
}
SCENARIO(every_pair_of_large_types)
{
  static auto const t = entries();
  auto& x = t[mc::choose(int(t.size()))];
  mc::state(x.text); mc::note(x.text);
  for (auto& y : t)
  {
    mc::step(); mc::eval();
    if ((x.sign == y.sign) != (x.text == y.text)) mc::fail(mc::str(x.text, " and ", y.text, " have the same signature"));
  }
}
