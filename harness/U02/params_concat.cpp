// every list of up to three parameter specs joined, in every state of the store
#include "mc.hpp"
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/string.hpp>
#include <nbdl/ui_helper/params_concat.hpp>
#include <nbdl/variant.hpp>
#include "rawvariant.hpp"
#include <boost/hana.hpp>
#include <boost/mp11.hpp>
#include <string>
namespace hana = boost::hana;
namespace spec = nbdl::ui_spec;
using namespace hana::literals;
namespace
{
  using std::string;
  using value = nbdl::variant<int, string>;
  auto make_store()
  {
    value v;
    switch (mc::choose(3)) { case 1: v = value(11); break; case 2: v = value(string("text")); break; default: break; }
    nbdl::string own; if (mc::flip()) own = "own";
    return hana::make_map(
      hana::make_pair(hana::int_c<0>, string(mc::flip() ? "a" : ""))
    , hana::make_pair(hana::int_c<1>, v)
    , hana::make_pair(hana::int_c<2>, int(mc::choose(2)))
    , hana::make_pair(hana::int_c<3>, own)
    , hana::make_pair("k"_s, hana::make_map(hana::make_pair("l"_s, string("deep"))))
    );
  }
  using store_t = decltype(hana::make_map(hana::make_pair(hana::int_c<0>, string()), hana::make_pair(hana::int_c<1>, value()), hana::make_pair(hana::int_c<2>, int()), hana::make_pair(hana::int_c<3>, nbdl::string()), hana::make_pair("k"_s, hana::make_map(hana::make_pair("l"_s, string())))));
  struct constant { static auto make() { return hana::string<'c', 'o', '\0', 'n', 's', 't'>{}; } static string want(store_t const&) { return string("co\0nst", 6); } };
  struct nothing { static auto make() { return ""_s; } static string want(store_t const&) { return ""; } };
  struct path { static auto make() { return spec::get(hana::int_c<0>); } static string want(store_t const& s) { return s[hana::int_c<0>]; } };
  struct own { static auto make() { return spec::get(hana::int_c<3>); } static string want(store_t const& s) { return s[hana::int_c<3>]; } };
  struct deep { static auto make() { return spec::get("k"_s, "l"_s); } static string want(store_t const& s) { return s["k"_s]["l"_s]; } };
  template <typename F, typename G, typename H> string by_type(store_t const& s, F f, G g, H h)
  { string r; std::visit(hana::overload([&](nbdl::unresolved) { r = f(); }, [&](int i) { r = g(i); }, [&](string const& x) { r = h(x); }), raw_variant(s[hana::int_c<1>])); return r; }
  struct by_alternative
  {
    static auto make() { return spec::match(spec::get(hana::int_c<1>), spec::when<nbdl::unresolved>("none"_s), spec::when<int>(""_s), spec::when<string>(spec::get_fn{})); }
    static string want(store_t const& s) { return by_type(s, [] { return "none"; }, [](int) { return ""; }, [](string const& x) { return x; }); }
  };
  struct with_default
  {
    static auto make() { return spec::match(spec::get(hana::int_c<1>), spec::when<string>([](auto path) { return spec::concat(path, "/"_s, path); }), spec::when<>(spec::get(hana::int_c<0>))); }
    static string want(store_t const& s) { auto f = s[hana::int_c<0>]; return by_type(s, [=] { return f; }, [=](int) { return f; }, [](string const& x) { return x + "/" + x; }); }
  };
  struct by_value
  {
    struct pos { bool operator()(int i) const { return i > 0; } };
    static auto make() { return spec::match_if(spec::get(hana::int_c<2>), spec::cond(pos{}, spec::concat("["_s, spec::get(hana::int_c<3>), "]"_s)), spec::otherwise("other"_s)); }
    static string want(store_t const& s) { return s[hana::int_c<2>] > 0 ? "[" + string(s[hana::int_c<3>]) + "]" : "other"; }
  };
  struct within
  {
    static auto make() { return spec::match_if(spec::get(hana::int_c<2>), spec::cond(by_value::pos{}, spec::concat("("_s, by_alternative::make(), ")"_s)), spec::otherwise(with_default::make())); }
    static string want(store_t const& s) { return s[hana::int_c<2>] > 0 ? "(" + by_alternative::want(s) + ")" : with_default::want(s); }
  };
  struct joined
  {
    static auto make() { return spec::concat(spec::get(hana::int_c<3>), spec::concat("-"_s, spec::get(hana::int_c<0>)), "+"_s); }
    static string want(store_t const& s) { return string(s[hana::int_c<3>]) + "-" + s[hana::int_c<0>] + "+"; }
  };
  using kinds = boost::mp11::mp_list<constant, nothing, path, own, deep, by_alternative, with_default, by_value, within, joined>;
  template <typename ...K> void ask(store_t const& s)
  {
    if (mc::failed()) return;
    string want = (string() + ... + K::want(s));
    auto params = nbdl::ui_helper::flatten_param_node(spec::concat(K::make()...));
    auto view = nbdl::ui_helper::params_concat(params, s);
    mc::check(view.to_string() == want && view.length() == want.size(), "the text is '" + view.to_string() + "' instead of '" + want + "'");
    mc::check(view.equal(std::as_const(want).begin()), "the view is not equal to '" + want + "'");
    mc::state(want); mc::eval(); mc::step();
  }
  template <typename A> void behind(store_t const& s)
  {
    ask<A>(s);
    boost::mp11::mp_for_each<kinds>([&]<typename B>(B) { ask<A, B>(s); });
    ask<A, constant, A>(s); ask<path, A, A>(s); ask<A, by_alternative, own>(s); ask<joined, by_value, A>(s);
  }
}
SCENARIO(params)
{
  auto k = std::size_t(mc::choose(10));
  auto s = make_store();
  boost::mp11::mp_with_index<10>(k, [&](auto i) { behind<boost::mp11::mp_at<kinds, decltype(i)>>(s); });
}
