// every tuple of up to three texts of any kind joined at once, and every list of up to three constant texts joined with every delimiter
#include "mc.hpp"
#include <nbdl/string.hpp>
#include <mpdef/string.hpp>
#include <nbdl/detail/string_concat.hpp>
#include <boost/hana.hpp>
#include <vector>
using namespace boost::hana::literals;
namespace
{
  namespace hana = boost::hana;
  using std::string;
  struct none { static constexpr auto make() { return ""_s; } };
  struct one { static constexpr auto make() { return "a"_s; } };
  struct long_one { static constexpr auto make() { return "foo bar"_s; } };
  struct odd { static constexpr auto make() { return hana::string<'b', '\0', '\xff'>{}; } };
  template <char ...c> string text(hana::string<c...>) { return string({c...}); }
  string shown(string s) { for (char& c : s) if (!c) c = '0'; return s; }
  // the texts in variables of each kind; the words are longer and shorter than what std::string keeps in itself
  string const words[] = {"", "x", string("n\0l", 3), string(40, 'w')};
  template <typename F> void with_text(F f, string& own)
  {
    int k = mc::choose(9);
    own = words[k % 4];
    if (k < 4) return f(std::as_const(own), own);
    if (k == 4) return f(one::make(), string("a"));
    if (k == 5) return f(none::make(), string());
    if (k == 6) return f(long_one::make(), string("foo bar"));
    if (k == 7) return f(odd::make(), text(odd::make()));
    static char const* const pointed = "pointed";
    f(pointed, string("pointed"));
  }
  template <int n> struct texts
  {
    template <typename ...T> static void go(std::vector<string>& own, string const& expected, T const& ...t)
    {
      string got = nbdl::detail::string_concat(hana::tuple<T...>(t...));
      mc::check(got == expected, mc::str(sizeof...(T), " texts '", shown(expected), "' are '", shown(got), "'"));
      string views = nbdl::detail::string_concat.with_views(hana::make_tuple(nbdl::detail::to_string_view(t)...));
      mc::check(views == expected, mc::str("views of '", shown(expected), "' are '", shown(views), "'"));
      mc::eval();
      if constexpr(sizeof...(T) < n) if (!mc::failed() && mc::flip())
        with_text([&](auto const& x, string const& s) { go(own, expected + s, t..., x); }, own[sizeof...(T)]);
      mc::step();
    }
  };
  template <typename D, typename ...S> void joined()
  {
    std::vector<string> parts = {text(S::make())...};
    string expected; for (std::size_t i = 0; i < parts.size(); i++) expected += (i ? text(D::make()) : "") + parts[i];
    auto r = mpdef::string_join(D::make(), S::make()...);
    auto q = mpdef::string_join(D::make())(S::make()...);
    mc::check(text(r) == expected && text(q) == expected, mc::str("joined '", shown(expected), "' is '", shown(text(r)), "' and '", shown(text(q)), "'"));
    if constexpr(sizeof...(S) == 2)
    {
      auto c = mpdef::string_concat(S::make()...);
      mc::check(text(c) == parts[0] + parts[1], mc::str("both of '", shown(expected), "' are '", shown(text(c)), "'"));
    }
    mc::eval(); mc::step();
  }
  template <typename ...T> struct kinds { };
  template <int n, typename D, typename ...S> void pick_words()
  {
    if constexpr(sizeof...(S) > 0) joined<D, S...>();
    if constexpr(sizeof...(S) < n)
      switch (mc::choose(4)) { case 0: return pick_words<n, D, S..., none>(); case 1: return pick_words<n, D, S..., one>(); case 2: return pick_words<n, D, S..., long_one>(); default: return pick_words<n, D, S..., odd>(); }
  }
}
SCENARIO(tuples_of_texts)
{
  std::vector<string> own(3);
  texts<3>::go(own, "");
}
SCENARIO(constant_texts)
{
  switch (mc::choose(3)) { case 0: return pick_words<3, none>(); case 1: return pick_words<3, one>(); default: return pick_words<3, odd>(); }
}
