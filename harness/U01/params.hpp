#pragma once
// every list of up to three parameter specs, in every state of the store
#include "rawvariant.hpp"
#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/ui_helper/match_branch.hpp>
#include <nbdl/ui_helper/match_params_spec.hpp>
#include <nbdl/ui_helper/match_path_spec.hpp>
#include <nbdl/variant.hpp>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace spec = nbdl::ui_spec;
using namespace hana::literals;

namespace
{
  using std::string; using std::vector;
  using value = nbdl::variant<int, string>;
  using table = std::unordered_map<string, int>;

  auto make_store()
  {
    value v;
    switch (mc::choose(3)) { case 1: v = value(11); break; case 2: v = value(string("text")); break; default: break; }
    table t;
    if (mc::flip()) t["a"] = 5;
    return hana::make_map(
      hana::make_pair(hana::int_c<0>, string(mc::flip() ? "a" : "b"))
    , hana::make_pair(hana::int_c<1>, v)
    , hana::make_pair(hana::int_c<2>, int(mc::choose(4)))
    , hana::make_pair(hana::int_c<3>, t)
    );
  }
  using store_t = decltype(hana::make_map(hana::make_pair(hana::int_c<0>, string()), hana::make_pair(hana::int_c<1>, value()), hana::make_pair(hana::int_c<2>, int()), hana::make_pair(hana::int_c<3>, table())));

  // what a parameter is, written down
  string text(string const& s) { return "'" + s + "'"; }
  string text(int i) { return std::to_string(i); }
  string text(nbdl::unresolved) { return "unresolved"; }
  string text(nbdl::not_in_set) { return "not in set"; }
  template <typename I, I i> string text(hana::integral_constant<I, i>) { return mc::str("c", i); }
  template <char ...c> string text(hana::string<c...> s) { return string("s:") + hana::to<char const*>(s); }

  // the specs, each with what it means
  struct constant { static auto make() { return hana::int_c<7>; } static vector<string> want(store_t const&) { return {"c7"}; } };
  struct path { static auto make() { return spec::get(hana::int_c<0>); } static vector<string> want(store_t const& s) { return {text(s[hana::int_c<0>])}; } };
  constexpr auto join = [](string const& s, int i) { return s + std::to_string(i); };
  struct applied
  {
    static auto make() { return spec::apply(join)(spec::get(hana::int_c<0>), spec::get(hana::int_c<2>)); }
    static vector<string> want(store_t const& s) { return {text(s[hana::int_c<0>] + std::to_string(s[hana::int_c<2>]))}; }
  };
  template <typename F, typename G, typename H> vector<string> by_type(store_t const& s, F f, G g, H h)
  { vector<string> r; std::visit(hana::overload([&](nbdl::unresolved) { r = f(); }, [&](int i) { r = g(i); }, [&](string const& x) { r = h(x); }), raw_variant(s[hana::int_c<1>])); return r; }
  struct by_alternative
  {
    static auto make() { return spec::match(spec::get(hana::int_c<1>), spec::when<nbdl::unresolved>("none"_s), spec::when<int>(spec::get_fn{}), spec::when<string>(spec::get_fn{})); }
    static vector<string> want(store_t const& s) { return by_type(s, [] { return vector<string>{"s:none"}; }, [](int i) { return vector<string>{text(i)}; }, [](string const& x) { return vector<string>{text(x)}; }); }
  };
  struct by_default
  {
    static auto make() { return spec::match(spec::get(hana::int_c<1>), spec::when<string>("string"_s), spec::when<>("default"_s)); }
    static vector<string> want(store_t const& s) { return by_type(s, [] { return vector<string>{"s:default"}; }, [](int) { return vector<string>{"s:default"}; }, [](string const&) { return vector<string>{"s:string"}; }); }
  };
  struct several_of_a_branch
  {
    static auto make()
    {
      return spec::match(spec::get(hana::int_c<1>)
      , spec::when<int>([](auto p) { return spec::concat(p, "and"_s, spec::get(hana::int_c<2>)); })
      , spec::when<nbdl::unresolved>(spec::concat("nothing"_s))
      , spec::when<>(spec::concat(hana::int_c<1>, hana::int_c<2>, spec::concat(hana::int_c<3>))));
    }
    static vector<string> want(store_t const& s)
    {
      return by_type(s, [] { return vector<string>{"s:nothing"}; }
      , [&](int i) { return vector<string>{text(i), "s:and", text(s[hana::int_c<2>])}; }, [](string const&) { return vector<string>{"c1", "c2", "c3"}; });
    }
  };
  constexpr auto less_2 = [](int i) { return i < 2; };
  struct by_predicate
  {
    static auto make()
    {
      return spec::match_if(spec::get(hana::int_c<2>), spec::cond(spec::equal(hana::int_c<1>), "one"_s), spec::cond(less_2, "small"_s)
                          , spec::cond(spec::equal(hana::int_c<3>), spec::get_fn{}), spec::otherwise("other"_s));
    }
    static vector<string> want(store_t const& s) { switch (s[hana::int_c<2>]) { case 1: return {"s:one"}; case 0: return {"s:small"}; case 3: return {"3"}; default: return {"s:other"}; } }
  };
  struct by_text
  {
    static auto make() { return spec::match_if(spec::get(hana::int_c<0>), spec::cond(spec::equal("b"_s), "it is b"_s), spec::otherwise(spec::match(spec::get(hana::int_c<1>), spec::when<int>("int"_s), spec::when<>(spec::get(hana::int_c<2>))))); }
    static vector<string> want(store_t const& s)
    {
      if (s[hana::int_c<0>] == "b") return {"s:it is b"};
      return by_type(s, [&] { return vector<string>{text(s[hana::int_c<2>])}; }, [](int) { return vector<string>{"s:int"}; }, [&](string const&) { return vector<string>{text(s[hana::int_c<2>])}; });
    }
  };
  struct from_table
  {
    static auto make() { return spec::get(hana::int_c<3>, spec::key_at(spec::get(hana::int_c<0>))); }
    static vector<string> want(store_t const& s) { auto& t = s[hana::int_c<3>]; auto i = t.find(s[hana::int_c<0>]); return {i == t.end() ? "not in set" : text(i->second)}; }
  };
  struct together
  {
    static auto make() { return spec::concat("a"_s, spec::get(hana::int_c<2>), spec::concat(spec::get(hana::int_c<0>), hana::int_c<4>)); }
    static vector<string> want(store_t const& s) { return {"s:a", text(s[hana::int_c<2>]), text(s[hana::int_c<0>]), "c4"}; }
  };

  template <typename ...P> void one(store_t const& store, bool by_ref)
  {
    if (mc::failed()) return;
    mc::eval();
    vector<string> want;
    ([&] { auto w = P::want(store); want.insert(want.end(), w.begin(), w.end()); }(), ...);
    vector<string> got; int calls = 0;
    auto fn = [&](auto const& ...x) { calls++; got = {text(x)...}; };
    auto list = mpdef::make_list(P::make()...);
    if (by_ref) nbdl::ui_helper::match_params_spec(std::cref(store), list, fn);
    else nbdl::ui_helper::match_params_spec(store, list, fn);
    auto all = [](vector<string> const& v) { string s; for (auto& x : v) s += " " + x; return s; };
    mc::check(calls == 1, mc::str("called ", calls, " times"));
    mc::check(got == want, mc::str("the parameters are", all(got), " instead of", all(want)));
  }
  template <typename ...X> struct pool { };
  using specs = pool<constant, path, applied, by_alternative, by_default, several_of_a_branch, by_predicate, by_text, from_table, together>;
  template <typename ...P, typename ...X> void each(pool<X...>, store_t const& s, bool r) { (one<P..., X>(s, r), ...); }
}

