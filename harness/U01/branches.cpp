#include "rawvariant.hpp"
#include "params.hpp"

// the branch that is taken is the first one that fits
namespace
{
  template <typename Spec> int index_of(store_t const& s) { return int(nbdl::ui_helper::get_branch_index<Spec>(std::cref(s))); }
  template <typename Spec> void branch(store_t const& s, int want)
  {
    int i = index_of<Spec>(s);
    mc::check(i == want, mc::str("branch ", i, " is taken instead of ", want));
    int calls = 0;
    nbdl::ui_helper::match_branch<Spec>(std::cref(s), [&](auto index, auto) { calls++; mc::check(int(index) == want, "match_branch takes another branch"); });
    nbdl::ui_helper::match_branch<Spec>(std::size_t(i), [&](auto index, auto) { calls++; mc::check(int(index) == want, "match_branch by index takes another branch"); });
    mc::check(calls == 2, "match_branch does not call once");
  }
}
SCENARIO(branches)
{
  auto s = make_store();
  int alt = int(raw_variant(s[hana::int_c<1>]).index()), n = s[hana::int_c<2>];
  branch<decltype(by_alternative::make())>(s, alt);
  branch<decltype(by_default::make())>(s, alt == 2 ? 0 : 1);
  branch<decltype(by_predicate::make())>(s, n == 1 ? 0 : n == 0 ? 1 : n == 3 ? 2 : 3);
  branch<decltype(spec::match(spec::get(hana::int_c<1>), spec::when<>("all"_s), spec::when<int>("int"_s)))>(s, 0);
  branch<decltype(spec::match(spec::get(hana::int_c<1>), spec::when<int>("int"_s), spec::when<>("all"_s), spec::when<string>("late"_s)))>(s, alt == 1 ? 0 : 1);
  branch<decltype(spec::match_if(spec::get(hana::int_c<2>), spec::cond(less_2, "a"_s), spec::cond(spec::equal(hana::int_c<0>), "never"_s), spec::otherwise("b"_s), spec::otherwise("never"_s)))>(s, n < 2 ? 0 : 2);
}
