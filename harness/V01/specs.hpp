// Specifications of documents, composed of parts.  Each part says twice what it
// stands for: make() in nbdl's language, want() as the document of a state.
#ifndef V01_SPECS_HPP
#define V01_SPECS_HPP
#include "webui.hpp"
#include <nbdl/notify_state_change.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/webui/detail/dom_manips.hpp>
#include <nbdl/webui/html.hpp>
#include <boost/hana.hpp>
#include <optional>
#include <variant>

namespace hana = boost::hana;
namespace html = nbdl::webui::html;
namespace ui = nbdl::ui_spec;
using namespace hana::literals;
using std::string;

// ---- states ----------------------------------------------------------------
struct row { string t; std::optional<string> o; };
struct state
{
  string s; int n; std::optional<string> o; std::variant<std::monostate, int, string> v; std::vector<row> l;
};
enum : unsigned { S = 1, N = 2, O = 4, V = 8, L = 16 };

inline auto row_store(row const& r)
{
  return hana::make_map(hana::make_pair("t"_s, r.t), hana::make_pair("o"_s, r.o ? nbdl::optional<string>(*r.o) : nbdl::optional<string>()));
}
using row_t = decltype(row_store(row{}));
inline auto holder_of(std::vector<row_t> const& l) { return hana::make_map(hana::make_pair("l"_s, l)); }
using choice_t = nbdl::variant<std::vector<row_t>, decltype(holder_of({}))>;
inline auto store_of(state const& s)
{
  std::vector<row_t> l;
  for (auto const& r : s.l) l.push_back(row_store(r));
  nbdl::variant<int, string> v;
  if (s.v.index() == 1) v = std::get<1>(s.v); else if (s.v.index() == 2) v = std::get<2>(s.v);
  return hana::make_map(
    hana::make_pair("s"_s, s.s), hana::make_pair("n"_s, s.n)
  , hana::make_pair("o"_s, s.o ? nbdl::optional<string>(*s.o) : nbdl::optional<string>())
  , hana::make_pair("v"_s, v), hana::make_pair("l"_s, l)
  , hana::make_pair("c"_s, s.n == 7 ? choice_t() : s.n == 0 ? choice_t(l) : choice_t(holder_of(l))));
}
using store_t = decltype(store_of(state{}));

// states with long texts and long lists instead
inline bool large = false;
inline state large_state(unsigned uses)
{
  state s{"", 0, {}, {}, {}};
  static std::vector<int> const sizes{0, 1, 100, 255, 257};
  int k = mc::choose(5), n = sizes[k];
  if (uses & S) for (int i = 0; i < n * 40; i++) s.s += "<long text &é"[i % 14 ? i % 9 : 0];
  if (uses & N) s.n = k == 2 ? 7 : k == 3 ? 0 : -2147483647 + k;
  if (uses & O && k != 1) s.o = string(n * 17, 'q');
  if (uses & V) { if (k > 2) s.v = string(n, 'v'); else if (k == 1) s.v = 2147483647; }
  if (uses & L) for (int i = 0; i < n; i++) s.l.push_back({i % 5 ? std::to_string(i) : "a", i % 3 == k % 3 ? std::optional<string>(std::to_string(i * k)) : std::nullopt});
  return s;
}
// every state that differs in what is used
inline state choose_state(unsigned uses, bool many)
{
  if (large) return large_state(uses);
  state s{"", 0, {}, {}, {}};
  if (uses & S) s.s = mc::pick(std::vector<string>{"x", "", "<&é"});
  if (uses & N) s.n = mc::pick(std::vector<int>{7, 0, -12});
  if (uses & O) { auto o = mc::pick(std::vector<string>{"", "p", "q"}); if (!o.empty()) s.o = o; }
  if (uses & V) { int i = mc::choose(4); if (i == 1) s.v = 7; if (i == 2) s.v = string("w"); if (i == 3) s.v = 0; }
  if (uses & L)
  {
    static std::vector<std::vector<row>> const ls{
      {}, {{"a", {}}}, {{"b", "o"}, {"a", {}}},
      {{"a", "o"}, {"", {}}, {"b", "p"}}, {{"b", {}}}};
    s.l = ls[mc::choose(many ? 5 : 3)];
  }
  return s;
}
inline string show(state const& s)
{
  if (large) return mc::str("of ", s.s.size(), " letters and ", s.l.size(), " rows");
  std::ostringstream o;
  o << "s=" << s.s << " n=" << s.n << " o=" << (s.o ? *s.o : "-") << " v=" << (s.v.index() == 0 ? "-" : s.v.index() == 1 ? std::to_string(std::get<1>(s.v)) : std::get<2>(s.v)) << " l=";
  for (auto const& r : s.l) { o << r.t << "/" << (r.o ? *r.o : "-") << ","; }
  return o.str();
}

// ---- the wanted document ----------------------------------------------------
struct doc
{
  string s, pending;
  void text(string const& t) { pending += t; }
  void flush()
  {
    if (pending.empty()) return;
    s += '"';
    for (char c : pending) { if (c == '&') s += "&amp;"; else if (c == '<') s += "&lt;"; else if (c == '"') s += "&quot;"; else s += c; }
    s += '"'; pending.clear();
  }
  void raw(string const& t) { flush(); s += t; }
};
struct at { state const& s; row const* r = nullptr; };

// ---- parts -------------------------------------------------------------------
struct none  { static constexpr unsigned uses = 0; static constexpr auto make() { return ui::noop_t{}; } static void want(doc&, at) { } };
struct fixed { static constexpr unsigned uses = 0; static constexpr auto make() { return html::text_node("fix"_s); } static void want(doc& d, at) { d.text("fix"); } };
struct text  { static constexpr unsigned uses = S; static constexpr auto make() { return html::text_node(ui::get("s"_s)); } static void want(doc& d, at a) { d.text(a.s.s); } };
struct cat   { static constexpr unsigned uses = N; static constexpr auto make() { return html::text_node(ui::concat("n="_s, ui::get("n"_s), "."_s)); } static void want(doc& d, at a) { d.text("n=" + std::to_string(a.s.n) + "."); } };
// text of a choice's value; nothing if it has none (only for the branch of it)
struct otext { static constexpr unsigned uses = O; static constexpr auto make() { return [](auto p) { return html::text_node(p); }; } static void want(doc& d, at a) { d.text(*a.s.o); } };

struct otext_el { static constexpr unsigned uses = S; static constexpr auto make() { return html::span(html::text_node(ui::get("s"_s))); } static void want(doc& d, at a) { d.raw("<span>"); d.text(a.s.s); d.raw("</span>"); } };
template <typename ...P>
struct el
{
  static constexpr unsigned uses = (P::uses | ... | 0);
  static constexpr auto make() { return html::p(P::make()...); }
  static void want(doc& d, at a) { d.raw("<p>"); (P::want(d, a), ...); d.raw("</p>"); }
};
// one of two, by whether there is a value
template <typename A, typename B>
struct opt
{
  static constexpr unsigned uses = O | A::uses | B::uses;
  static constexpr auto make() { return ui::match(ui::get("o"_s), ui::when<string>(A::make()), ui::when<>(B::make())); }
  static void want(doc& d, at a) { if (a.s.o) A::want(d, a); else B::want(d, a); }
};
// one of three, by predicates
template <typename A, typename B, typename C>
struct cond
{
  static constexpr unsigned uses = N | A::uses | B::uses | C::uses;
  static constexpr auto make() { return ui::match_if(ui::get("n"_s), ui::cond(ui::equal(hana::int_c<7>), A::make()), ui::cond(ui::equal(hana::int_c<0>), B::make()), ui::otherwise(C::make())); }
  static void want(doc& d, at a) { if (a.s.n == 7) A::want(d, a); else if (a.s.n == 0) B::want(d, a); else C::want(d, a); }
};
// by the type of a value, which is also shown
template <typename A>
struct var
{
  static constexpr unsigned uses = V | A::uses;
  static constexpr auto make()
  {
    return ui::match(ui::get("v"_s)
    , ui::when<int>([](auto p) { return html::span(html::text_node(p)); })
    , ui::when<string>([](auto p) { return html::text_node(ui::concat("v:"_s, p)); })
    , ui::when<nbdl::unresolved>(A::make()));
  }
  static void want(doc& d, at a)
  {
    if (a.s.v.index() == 1) { d.raw("<span>"); d.text(std::to_string(std::get<1>(a.s.v))); d.raw("</span>"); }
    else if (a.s.v.index() == 2) d.text("v:" + std::get<2>(a.s.v));
    else A::want(d, a);
  }
};
// the value of a branch is looked at again within it
struct matched
{
  static constexpr unsigned uses = O | S;
  static constexpr auto make()
  {
    return ui::match(ui::get("o"_s)
    , ui::when<string>([](auto p)
      {
        return ui::match_if(p, ui::cond(ui::equal("p"_s), html::span(html::text_node(p))), ui::otherwise([](auto q) { return html::text_node(ui::concat(ui::get("s"_s), q)); }));
      })
    , ui::when<>());
  }
  static void want(doc& d, at a)
  {
    if (!a.s.o) return;
    if (*a.s.o == "p") { d.raw("<span>"); d.text("p"); d.raw("</span>"); }
    else d.text(a.s.s + *a.s.o);
  }
};
// for each row
template <typename R>
struct row_fn { template <typename P> constexpr auto operator()(P) const { return R::template make<P>(); } };
template <typename R>
struct rows
{
  static constexpr unsigned uses = L | R::uses;
  static constexpr auto make() { return ui::for_each(ui::get("l"_s), row_fn<R>{}); }
  static void want(doc& d, at a) { for (auto const& r : a.s.l) R::want(d, {a.s, &r}); }
};

struct r_li   { static constexpr unsigned uses = 0; template <typename X> static constexpr auto make() { return html::li(html::text_node(ui::get(X{}, "t"_s))); } static void want(doc& d, at a) { d.raw("<li>"); d.text(a.r->t); d.raw("</li>"); } };
struct r_cat  { static constexpr unsigned uses = 0; template <typename X> static constexpr auto make() { return html::text_node(ui::concat(ui::get(X{}, "t"_s), ";"_s)); } static void want(doc& d, at a) { d.text(a.r->t + ";"); } };
struct r_both { static constexpr unsigned uses = S; template <typename X> static constexpr auto make() { return html::li(html::text_node(ui::concat(ui::get(X{}, "t"_s), ui::get("s"_s)))); } static void want(doc& d, at a) { d.raw("<li>"); d.text(a.r->t + a.s.s); d.raw("</li>"); } };
struct r_opt  { static constexpr unsigned uses = 0; template <typename X> static constexpr auto make() { return ui::match(ui::get(X{}, "o"_s), ui::when<string>([](auto p) { return html::li(html::text_node(p)); }), ui::when<>()); } static void want(doc& d, at a) { if (a.r->o) { d.raw("<li>"); d.text(*a.r->o); d.raw("</li>"); } } };
struct r_cond { static constexpr unsigned uses = 0; template <typename X> static constexpr auto make() { return ui::match_if(ui::get(X{}, "t"_s), ui::cond(ui::equal("a"_s), html::a()), ui::otherwise([](auto p) { return html::text_node(ui::concat("("_s, p, ")"_s)); })); } static void want(doc& d, at a) { if (a.r->t == "a") d.raw("<a></a>"); else d.text("(" + a.r->t + ")"); } };
// a list within an alternative
struct maybe_rows
{
  static constexpr unsigned uses = N | L;
  static constexpr auto make()
  {
    using H = decltype(holder_of({}));
    return ui::match(ui::get("c"_s)
    , ui::when<H>([](auto p) { return ui::for_each(ui::get(p, "l"_s), row_fn<r_li>{}); })
    , ui::when<>(html::text_node("no list"_s)));
  }
  static void want(doc& d, at a)
  {
    if (a.s.n == 7 || a.s.n == 0) d.text("no list");
    else for (auto const& r : a.s.l) r_li::want(d, {a.s, &r});
  }
};
struct r_many { static constexpr unsigned uses = 0; template <typename X> static constexpr auto make() { return ui::match(ui::get(X{}, "o"_s), ui::when<string>([](auto p) { return html::text_node(ui::concat("["_s, p, "]"_s)); }), ui::when<>(html::a(html::text_node(ui::get(X{}, "t"_s))))); } static void want(doc& d, at a) { if (a.r->o) d.text("[" + *a.r->o + "]"); else { d.raw("<a>"); d.text(a.r->t); d.raw("</a>"); } } };

// ---- the check -----------------------------------------------------------------
// the document is that of the state: after rendering, after each update; after
// destroying it does not change any more and nothing of it is left behind
inline double states_of(unsigned uses, bool many)
{
  return double(uses & S ? 3 : 1) * (uses & N ? 3 : 1) * (uses & O ? 3 : 1) * (uses & V ? 4 : 1) * (uses & L ? (many ? 5 : 3) : 1);
}
// as many updates as there are histories of that length to be had
inline int updates_of(unsigned uses, double histories)
{
  double n = states_of(uses, mc::thorough()), all = n * n; int u = 1;
  while (n > 1 && all * n <= histories) { all *= n; u++; }
  return u;
}
template <typename Spec>
void follow(double quick = 3000, double deep = 60000)
{
  int updates = large ? mc::tier(1, 2) : updates_of(Spec::uses, mc::thorough() ? deep : quick);
  long before_slots = web::live_slots;
  {
    auto root = web::new_root();
    int before = web::registry();
    using tag = nbdl::webui::renderer<decltype(html::div(Spec::make()))>;
    state s = choose_state(Spec::uses, mc::thorough());
    auto store = store_of(s);
    auto expect = [&](char const* when, state const& s)
    {
      mc::eval();
      doc d; d.raw("<root><div>"); Spec::want(d, {s}); d.raw("</div></root>");
      string got = web::dump(root);
      mc::check(got == d.s, mc::str(when, ": ", got.substr(0, 2000), " instead of ", d.s.substr(0, 2000)));
      mc::state(d.s);
    };
    mc::note(mc::str("state ", show(s)));
    {
      auto r = nbdl::webui::make_renderer<tag>(std::ref(store), root);
      expect("after rendering", s);
      for (int i = 0; i < updates && !mc::failed(); i++)
      {
        s = choose_state(Spec::uses, mc::thorough());
        mc::note(mc::str("then ", show(s)));
        mc::step();
        store = store_of(s);
        nbdl::notify_state_change(r, hana::type_c<void>);
        expect("after an update", s);
      }
    }
    if (!mc::failed())
    {
      // a renderer that was destroyed leaves the document alone
      auto root2 = web::new_root();
      auto r = nbdl::webui::make_renderer<tag>(std::ref(store), root2);
      r.destroy();
      string was = web::dump(root2);
      state next = s; next.s += "!"; next.n = s.n == 7 ? 0 : 7; next.o = s.o ? std::optional<string>() : std::optional<string>("z"); next.l.push_back({"new", {}}); next.v = string("other");
      store = store_of(next);
      nbdl::notify_state_change(r, hana::type_c<void>);
      mc::check(web::dump(root2) == was, "a destroyed renderer changes the document");
    }
    mc::check(web::registry() == before, "values of the renderer are still registered after it is gone");
    mc::check(web::listeners() == 0, "listeners are left");
  }
  mc::check(web::live_slots == before_slots, "handles are left");
}
#endif
