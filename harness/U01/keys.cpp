#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/ui_helper/match_path_spec.hpp>
#include <nbdl/ui_helper/match_params_spec.hpp>
#include <nbdl/variant.hpp>
#include <string>

namespace hana = boost::hana;
namespace spec = nbdl::ui_spec;

// keys that come from the store, through functions and other paths
SCENARIO(keys_from_the_store)
{
  using words = std::unordered_map<std::string, int>;
  using names = std::unordered_map<int, std::string>;
  using kept = nbdl::map_store<std::string, nbdl::optional<std::string>>;
  auto store = hana::make_map(
    hana::make_pair(hana::int_c<0>, std::string(mc::pick(std::vector<std::string>{"a", "b", "none"})))
  , hana::make_pair(hana::int_c<1>, words{})
  , hana::make_pair(hana::int_c<2>, names{})
  , hana::make_pair(hana::int_c<3>, int(mc::choose(3)))
  , hana::make_pair(hana::int_c<4>, kept{})
  , hana::make_pair(hana::int_c<5>, hana::make_map(hana::make_pair(hana::int_c<0>, std::string("inner")), hana::make_pair(hana::int_c<1>, words{{"x", 9}})))
  );
  auto& w = store[hana::int_c<1>]; auto& n = store[hana::int_c<2>]; auto& k = store[hana::int_c<4>];
  if (mc::flip()) w["a"] = 1;
  w["b"] = 2; w["bz"] = 3;
  if (mc::flip()) w["az"] = 4;
  n[0] = "a"; if (mc::flip()) n[1] = "b";
  k.map["a"] = nbdl::optional<std::string>(std::string("A"));
  if (mc::flip()) k.map["b"] = nbdl::optional<std::string>(nbdl::nothing{});

  constexpr auto z = [](std::string const& s) { return s + 'z'; };
  constexpr auto both = [](std::string const& s, int i) { return s + (i ? "z" : ""); };
  auto const& key = store[hana::int_c<0>]; int num = store[hana::int_c<3>];

  auto check = [&](char const* what, auto path, void const* want)
  {
    mc::eval();
    int calls = 0; void const* got = nullptr;
    nbdl::ui_helper::match_path_spec(store, path, [&](auto const& x) { calls++; got = &x; });
    mc::check(calls == (want != nullptr) && got == want, mc::str(what, want ? (calls ? ": another value is found" : ": not found") : ": found", " with key ", key, " ", num));
  };
  auto in = [](auto& m, auto const& k) -> decltype(&m.begin()->second) { auto i = m.find(k); return i == m.end() ? nullptr : &i->second; };
  using hana::int_c;
  using spec::get; using spec::key_at; using spec::apply; using spec::match_when;

  check("key_at", match_when<int>(get(int_c<1>, key_at(get(int_c<0>)))), in(w, key));
  check("apply", match_when<int>(get(int_c<1>, apply(z)(get(int_c<0>)))), in(w, key + "z"));
  check("apply of two", match_when<int>(get(int_c<1>, apply(both)(get(int_c<0>), get(int_c<3>)))), in(w, key + (num ? "z" : "")));
  check("apply of apply", match_when<int>(get(int_c<1>, apply(both)(apply(hana::id)(get(int_c<0>)), get(int_c<3>)))), in(w, key + (num ? "z" : "")));
  {
    auto name = in(n, num);
    check("key of a key", match_when<int>(get(int_c<1>, key_at(match_when<std::string>(get(int_c<2>, key_at(get(int_c<3>))))))), name ? in(w, *name) : nullptr);
    check("apply of a key of a key", match_when<int>(get(int_c<1>, apply(z)(match_when<std::string>(get(int_c<2>, key_at(get(int_c<3>))))))), name ? in(w, *name + "z") : nullptr);
  }
  {
    auto it = k.map.find(key);
    void const* text = nullptr; void const* none = nullptr;
    if (it != k.map.end()) nbdl::match(it->second, hana::overload([&](std::string const& s) { text = &s; }, [](auto const&) { }));
    (void) none;
    check("key of a map_store", match_when<std::string>(get(int_c<4>, key_at(get(int_c<0>)))), text);
  }
  check("path within", get(int_c<5>, int_c<0>), &store[int_c<5>][int_c<0>]);
  using inner = std::decay_t<decltype(store[int_c<5>])>;
  check("path within a match", match_when<std::string>(get(match_when<inner>(get(int_c<5>)), int_c<0>)), &store[int_c<5>][int_c<0>]);
}
