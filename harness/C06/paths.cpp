// match_path, get, get_path, match and path_promise over nested states,
// compared with a walk over the same objects that knows only their definition
#include "rawvariant.hpp"
#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/get.hpp>
#include <nbdl/get_path.hpp>
#include <nbdl/match.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/path_promise.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/ui_spec.hpp>
#include <nbdl/variant.hpp>
#include <memory>
#include <unordered_map>
#include <nbdl/ext/std/unordered_map.hpp>

namespace hana = boost::hana;
namespace ui_spec = nbdl::ui_spec;
namespace my
{
  struct first { int v; };
  struct last { int v; };
  struct pt { int x; int y; };
  using names = hana::tuple<first, last>;
  struct key1 { }; struct key2 { };
  using table = hana::map<hana::pair<hana::type<key1>, int>, hana::pair<hana::type<key2>, pt>>;
  struct person { names name; nbdl::optional<pt> at; nbdl::variant<names, int> kin; table rows; };
  struct robot { names name; nbdl::optional<pt> at; int serial; };
  struct account { int id; nbdl::optional<person> owner; nbdl::variant<person, robot> user; nbdl::variant<nbdl::variant<pt>, int> deep; };
}
namespace nbdl
{
  NBDL_ENTITY(my::pt, x, y);
  NBDL_ENTITY(my::person, name, at, kin, rows);
  NBDL_ENTITY(my::robot, name, at, serial);
  NBDL_ENTITY(my::account, id, owner, user, deep);
}
namespace
{
  using namespace my;
#define STR(n) constexpr auto n##_s = BOOST_HANA_STRING(#n)
  STR(x); STR(y); STR(name); STR(at); STR(kin); STR(rows); STR(serial); STR(id); STR(owner); STR(user); STR(deep);
  constexpr auto first_c = hana::type_c<first>; constexpr auto last_c = hana::type_c<last>;
  constexpr auto names_c = hana::type_c<key1>;
  constexpr auto k1 = hana::type_c<key1>; constexpr auto k2 = hana::type_c<key2>;

  // what a visitor is given: the very object and its type
  struct seen { void const* at = nullptr; std::string type = "?"; int calls = 0; };
  template <typename X> char const* type_name()
  {
    using T = std::decay_t<X>;
    if constexpr (std::is_same_v<T, int>) return "int";
    else if constexpr (std::is_same_v<T, first>) return "first";
    else if constexpr (std::is_same_v<T, last>) return "last";
    else if constexpr (std::is_same_v<T, pt>) return "pt";
    else if constexpr (std::is_same_v<T, names>) return "names";
    else if constexpr (std::is_same_v<T, table>) return "table";
    else if constexpr (std::is_same_v<T, person>) return "person";
    else if constexpr (std::is_same_v<T, robot>) return "robot";
    else if constexpr (std::is_same_v<T, account>) return "account";
    else if constexpr (std::is_same_v<T, nbdl::nothing>) return "nothing";
    else if constexpr (std::is_same_v<T, nbdl::unresolved>) return "unresolved";
    else if constexpr (std::is_same_v<T, nbdl::optional<pt>>) return "optional";
    else return "other";
  }
  template <typename X> void see(seen& s, X const& x) { s.calls++; s.at = &x; s.type = type_name<X>(); }

  // the reference walk -----------------------------------------------------
  template <typename T> constexpr bool is_variant = false;
  template <typename ...T> constexpr bool is_variant<nbdl::detail::variant<T...>> = true;
  template <typename T> constexpr bool steps = std::is_same_v<T, account> || std::is_same_v<T, person> || std::is_same_v<T, robot>
    || std::is_same_v<T, pt> || std::is_same_v<T, names> || std::is_same_v<T, table>;
  // one step; keys that the object does not have are not used
  inline int const& step(pt const& o, decltype(x_s)) { return o.x; }
  inline int const& step(pt const& o, decltype(y_s)) { return o.y; }
  inline auto const& step(person const& o, decltype(name_s)) { return o.name; }
  inline auto const& step(person const& o, decltype(at_s)) { return o.at; }
  inline auto const& step(person const& o, decltype(kin_s)) { return o.kin; }
  inline auto const& step(person const& o, decltype(rows_s)) { return o.rows; }
  inline auto const& step(robot const& o, decltype(name_s)) { return o.name; }
  inline auto const& step(robot const& o, decltype(at_s)) { return o.at; }
  inline auto const& step(robot const& o, decltype(serial_s)) { return o.serial; }
  inline auto const& step(account const& o, decltype(id_s)) { return o.id; }
  inline auto const& step(account const& o, decltype(owner_s)) { return o.owner; }
  inline auto const& step(account const& o, decltype(user_s)) { return o.user; }
  inline auto const& step(account const& o, decltype(deep_s)) { return o.deep; }
  inline auto const& step(names const& o, hana::type<first>) { return hana::at_c<0>(o); }
  inline auto const& step(names const& o, hana::type<last>) { return hana::at_c<1>(o); }
  inline auto const& step(table const& o, hana::type<key1>) { return o[k1]; }
  inline auto const& step(table const& o, hana::type<key2>) { return o[k2]; }
  template <typename X> void walk(seen& s, X const& x);
  template <typename X, typename K, typename ...Ks> void walk(seen& s, X const& x, K k, Ks ...ks)
  {
    if constexpr (is_variant<X>) std::visit([&](auto const& v) { walk(s, v, k, ks...); }, raw_variant(x));
    else if constexpr (steps<X>) walk(s, step(x, k), ks...);
    else see(s, x);
  }
  template <typename X> void walk(seen& s, X const& x)
  {
    if constexpr (is_variant<X>) std::visit([&](auto const& v) { walk(s, v); }, raw_variant(x));
    else see(s, x);
  }
  template <typename ...K> void compare(char const* what, seen const& got, seen const& want)
  {
    mc::check(got.calls == 1, mc::str(what, ": the function is called ", got.calls, " times"));
    mc::check(got.type == want.type, mc::str(what, ": gives ", got.type, " instead of ", want.type));
    mc::check(got.at == want.at, mc::str(what, ": gives another object than the one at the path"));
    mc::step(); mc::eval();
  }
  // all ways to ask for one path
  template <typename S, typename ...K> void path(S& s, char const* what, K ...k)
  {
    seen want; walk(want, s, k...);
    mc::check(want.calls == 1, "reference walk");
    auto p = hana::make_tuple(k...);
    auto ask = [&](auto&& f, char const* how) { seen g; f([&](auto const& x) { see(g, x); }); compare(mc::str(what, how).c_str(), g, want); };
    ask([&](auto fn) { nbdl::match_path(s, p, fn); }, "");
    ask([&](auto fn) { nbdl::match_path(std::as_const(s), std::as_const(p), fn); }, " (const)");
    ask([&](auto fn) { nbdl::match_path(std::move(s), std::move(p), fn); }, " (moved)");
    ask([&](auto fn) { nbdl::match_path(s, hana::make_basic_tuple(k...), fn); }, " (basic_tuple)");
    if constexpr (sizeof...(K) != 0)
      ask([&](auto fn) { nbdl::match_path(std::ref(s), hana::make_tuple(k...), fn); }, " (std::ref)");
    // several functions: the first that takes it
    seen g; int other = 0;
    nbdl::match_path(s, hana::make_tuple(k...), [&](int const& x) { see(g, x); }, [&](pt const& x) { see(g, x); }, [&](auto const& x) { other++; see(g, x); });
    compare(mc::str(what, " (functions)").c_str(), g, want);
    mc::check((other == 0) == (want.type == "int" || want.type == "pt"), mc::str(what, ": the wrong function is called"));
    // only when it is of one type
    auto when = [&](auto type, char const* name)
    {
      using T = typename decltype(type)::type;
      seen w; nbdl::match_path(s, hana::make_tuple(k...), nbdl::match_when<T>([&](T const& x) { see(w, x); }));
      if (want.type != name) mc::check(w.calls == 0, mc::str(what, ": match_when<", name, "> is called for ", want.type));
      else compare(mc::str(what, " (match_when)").c_str(), w, want);
    };
    when(hana::type_c<int>, "int"); when(hana::type_c<first>, "first"); when(hana::type_c<last>, "last");
    when(hana::type_c<names>, "names"); when(hana::type_c<nbdl::nothing>, "nothing"); when(hana::type_c<account>, "account"); when(hana::type_c<person>, "person");
    when(hana::type_c<pt>, "pt");
    // as promise
    promise(s, what, want, hana::make_tuple(k...));
    mc::state(mc::str(what, want.type));
  }
  template <typename S, typename ...K> void promise(S& s, char const* what, seen const& want, hana::tuple<K...>)
  {
    seen g;
    nbdl::run_sync(nbdl::pipe(
      [&]() -> S const& { return s; }
    , nbdl::path_promise(ui_spec::path_t<ui_spec::get_t<K...>>{})
    , nbdl::tap([&](auto const& x) { see(g, x); })
    , nbdl::catch_([&](auto&&...) { mc::fail(mc::str(what, ": promise rejects")); })));
    if (want.type == "account") mc::check(g.calls == 1 && g.type == want.type, mc::str(what, ": promise"));
    else compare(mc::str(what, " (promise)").c_str(), g, want);
  }

  // every state -------------------------------------------------------------
  int next = 1;
  int fresh() { return next++; }
  names gen_names() { return {first{fresh()}, last{fresh()}}; }
  pt gen_pt() { return {fresh(), fresh()}; }
  nbdl::optional<pt> gen_at() { if (mc::flip()) return gen_pt(); return nbdl::nothing{}; }
  nbdl::variant<names, int> gen_kin() { switch (mc::choose(3)) { case 0: return nbdl::unresolved{}; case 1: return gen_names(); default: return fresh(); } }
  table gen_table() { return hana::make_map(hana::make_pair(k1, fresh()), hana::make_pair(k2, gen_pt())); }
  person gen_person() { return {gen_names(), gen_at(), gen_kin(), gen_table()}; }
  robot gen_robot() { return {gen_names(), gen_at(), fresh()}; }
  account gen_account()
  {
    next = 1;
    account a{fresh(), nbdl::nothing{}, nbdl::unresolved{}, nbdl::unresolved{}};
    if (mc::flip()) a.owner = gen_person();
    switch (mc::choose(3)) { case 0: break; case 1: a.user = gen_person(); break; case 2: a.user = gen_robot(); }
    switch (mc::choose(4))
    {
      case 0: break;
      case 1: a.deep = fresh(); break;
      case 2: a.deep = nbdl::variant<pt>{}; break;
      case 3: a.deep = nbdl::variant<pt>{gen_pt()}; break;
    }
    return a;
  }
}

SCENARIO(match_paths)
{
  account a = gen_account();
  path(a, "()");
  path(a, "id", id_s);
  path(a, "owner", owner_s);
  path(a, "owner.name", owner_s, name_s);
  path(a, "owner.name.first", owner_s, name_s, first_c);
  path(a, "owner.name.last", owner_s, name_s, last_c);
  path(a, "owner.at", owner_s, at_s);
  path(a, "owner.at.x", owner_s, at_s, x_s);
  path(a, "owner.at.y", owner_s, at_s, y_s);
  path(a, "owner.kin", owner_s, kin_s);
  path(a, "owner.kin.last", owner_s, kin_s, last_c);
  path(a, "owner.rows", owner_s, rows_s);
  path(a, "owner.rows.1", owner_s, rows_s, k1);
  path(a, "owner.rows.2", owner_s, rows_s, k2);
  path(a, "owner.rows.2.y", owner_s, rows_s, k2, y_s);
  path(a, "user", user_s);
  path(a, "user.name", user_s, name_s);
  path(a, "user.name.last", user_s, name_s, last_c);
  path(a, "user.at.x", user_s, at_s, x_s);
  path(a, "deep", deep_s);
  path(a, "deep.x", deep_s, x_s);
  path(a, "deep.y", deep_s, y_s);
}

// as an alternative of a variant
SCENARIO(inside_a_variant)
{
  using V = nbdl::variant<account>;
  V v = mc::flip() ? V(gen_account()) : V(nbdl::unresolved{});
  path(v, "()");
  path(v, "id", id_s);
  path(v, "owner.at.y", owner_s, at_s, y_s);
  path(v, "user.name.first", user_s, name_s, first_c);
  path(v, "deep.x", deep_s, x_s);
}

// match_when with the key
SCENARIO(when_at_a_key)
{
  nbdl::variant<person, robot, int> v;
  next = 1;
  switch (mc::choose(4)) { case 0: break; case 1: v = gen_person(); break; case 2: v = gen_robot(); break; case 3: v = fresh(); }
  auto one = [&](auto type, char const* name, auto key, char const* what)
  {
    using T = typename decltype(type)::type;
    // the member itself, or the alternative that has no members
    seen want, got;
    std::visit([&](auto const& x) { if constexpr (steps<std::decay_t<decltype(x)>>) see(want, step(x, key)); else see(want, x); }, raw_variant(v));
    nbdl::match_when<T>(v, key, [&](T const& x) { see(got, x); });
    mc::check(got.calls == (want.type == name), mc::str("match_when<", name, ">(variant, ", what, ", f): called ", got.calls, " times at ", want.type));
    if (got.calls) mc::check(got.at == want.at, mc::str("match_when at ", what, ": another object"));
    mc::state(mc::str(what, want.type, name)); mc::step(); mc::eval();
  };
  auto all = [&](auto key, char const* what)
  {
    one(hana::type_c<int>, "int", key, what); one(hana::type_c<names>, "names", key, what); one(hana::type_c<pt>, "pt", key, what);
    one(hana::type_c<nbdl::nothing>, "nothing", key, what); one(hana::type_c<nbdl::unresolved>, "unresolved", key, what);
    one(hana::type_c<nbdl::optional<pt>>, "optional", key, what); one(hana::type_c<person>, "person", key, what);
  };
  // (keys that every alternative that is an entity has)
  all(name_s, "name"); all(at_s, "at");
}

// a function may change what it is given; nothing else changes
SCENARIO(changes_through_a_path)
{
  person p{{first{1}, last{2}}, pt{3, 4}, names{first{5}, last{6}}, hana::make_map(hana::make_pair(k1, 7), hana::make_pair(k2, pt{8, 9}))};
  person old = p;
  auto set = [](auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, int>) x = 77; else if constexpr (requires { x.v = 1; }) x.v = 77; };
  int which = mc::choose(7);
  switch (which)
  {
    case 0: nbdl::match_path(p, hana::make_tuple(name_s, first_c), set); break;
    case 1: nbdl::match_path(p, hana::make_tuple(name_s, last_c), set); break;
    case 2: nbdl::match_path(p, hana::make_tuple(at_s, x_s), set); break;
    case 3: nbdl::match_path(p, hana::make_tuple(at_s, y_s), set); break;
    case 4: nbdl::match_path(p, hana::make_tuple(kin_s, last_c), set); break;
    case 5: nbdl::match_path(p, hana::make_tuple(rows_s, k1), set); break;
    case 6: nbdl::match_path(p, hana::make_tuple(rows_s, k2, x_s), set); break;
  }
  auto all = [](person const& q)
  {
    std::vector<int> r{hana::at_c<0>(q.name).v, hana::at_c<1>(q.name).v};
    q.at.match([&](pt const& z) { r.push_back(z.x); r.push_back(z.y); }, [](auto const&) { });
    q.kin.match([&](names const& n) { r.push_back(hana::at_c<1>(n).v); r.push_back(hana::at_c<0>(n).v); }, [](auto const&) { });
    r.push_back(q.rows[k1]); r.push_back(q.rows[k2].x); r.push_back(q.rows[k2].y);
    return r;
  };
  auto now = all(p), before = all(old);
  int const pos[] = {0, 1, 2, 3, 4, 6, 7};
  for (int i = 0; i < int(before.size()); i++)
    mc::check(now[i] == (i == pos[which] ? 77 : before[i]), mc::str("element ", i, " is ", now[i], " after a change of ", pos[which]));
  mc::step(); mc::eval(); mc::state(mc::str(which));
}

// get and get_path: the very object, in all value categories
SCENARIO(get_paths)
{
  person p = gen_person();
  account a{5, p, p, nbdl::unresolved{}};
  auto one = [&](auto& s, char const* what, auto ...k)
  {
    seen want; walk(want, s, k...);
    auto p = hana::make_tuple(k...);
    auto&& got = nbdl::get_path(s, p);
    auto&& c = nbdl::get_path(std::as_const(s), std::as_const(p));
    static_assert(std::is_lvalue_reference_v<decltype(nbdl::get_path(s, p))>);
    static_assert(std::is_const_v<std::remove_reference_t<decltype(nbdl::get_path(std::as_const(s), p))>>);
    mc::check(&got == want.at && &c == want.at, mc::str(what, ": get_path gives another object"));
    auto&& r = nbdl::get_path(std::ref(s), p);
    mc::check(&r == want.at, mc::str(what, ": get_path of a reference gives another object"));
    mc::check(want.type == type_name<decltype(got)>(), mc::str(what, ": get_path gives ", type_name<decltype(got)>(), " instead of ", want.type));
    mc::step(); mc::eval(); mc::state(what);
  };
  one(a, "id", id_s);
  one(p, "name", name_s);
  one(p, "name.first", name_s, first_c);
  one(p, "name.last", name_s, last_c);
  one(p, "rows", rows_s);
  one(p, "rows.1", rows_s, k1);
  one(p, "rows.2", rows_s, k2);
  one(p, "rows.2.x", rows_s, k2, x_s);
  one(p, "rows.2.y", rows_s, k2, y_s);
  mc::check(&nbdl::get(p, name_s) == &p.name && &nbdl::get(p.name, last_c) == &hana::at_c<1>(p.name), "get gives another object");
  auto pair = std::make_pair(1, 2); (void)pair;
  auto hp = hana::make_pair(p, 3);
  mc::check(&nbdl::get(hp, hana::first) == &hana::first(hp) && &nbdl::get(hp, hana::second) == &hana::second(hp), "get of a pair");
  mc::check(&nbdl::get_path(hp, hana::make_tuple(hana::first, name_s, first_c)) == &hana::at_c<0>(hana::first(hp).name), "get_path through a pair");
  // what is in a moved object is moved out of it, once
  hana::tuple<std::unique_ptr<int>, std::string> t(std::make_unique<int>(4), "text");
  std::unique_ptr<int> q = nbdl::get(std::move(t), hana::type_c<std::unique_ptr<int>>);
  mc::check(q && *q == 4 && hana::at_c<1>(t) == "text", "get from a moved tuple");
}

// path_promise: every match_type resolves exactly for its type and rejects
// with what is there instead
namespace
{
  using store_t = nbdl::variant<account>;
  struct outcome { int resolved = 0, rejected = 0; seen s; };
  template <typename Spec> outcome run(store_t const& s, Spec spec)
  {
    outcome o;
    nbdl::run_sync(nbdl::pipe(
      [&]() -> store_t const& { return s; }
    , nbdl::path_promise(spec)
    , nbdl::tap([&](auto const& x) { o.resolved++; see(o.s, x); })
    , nbdl::catch_([&](auto const& x) { o.rejected++; see(o.s, x); })));
    return o;
  }
  void is(char const* what, outcome const& o, bool resolves, seen const& want)
  {
    mc::check(o.resolved == resolves && o.rejected == !resolves, mc::str(what, ": resolved ", o.resolved, " times, rejected ", o.rejected, " times"));
    mc::check(o.s.type == want.type && o.s.at == want.at, mc::str(what, ": gives ", o.s.type, " instead of ", want.type));
    mc::step(); mc::eval(); mc::state(mc::str(what, resolves, want.type));
  }
}
SCENARIO(promises)
{
  store_t s = mc::flip() ? store_t(gen_account()) : store_t(nbdl::unresolved{});
  using ui_spec::path_t; using ui_spec::get_t; using ui_spec::match_type;
  bool there = s.is<account>();
  {
    seen w; walk(w, s);
    is("account", run(s, path_t<match_type<account>>{}), there, w);
    is("pt", run(s, path_t<match_type<pt>>{}), false, w);
  }
  auto at = [&](auto ...k) { seen w; walk(w, s, k...); return w; };
  auto is_a = [](seen const& w, char const* t) { return w.type == t; };
  seen owner = at(owner_s), user = at(user_s);
  is("owner", run(s, path_t<match_type<person, decltype(owner_s)>, match_type<account>>{}), is_a(owner, "person"), owner);
  is("owner nothing", run(s, path_t<match_type<nbdl::nothing, decltype(owner_s)>, match_type<account>>{}), is_a(owner, "nothing"), owner);
  is("user person", run(s, path_t<match_type<person, decltype(user_s)>, match_type<account>>{}), is_a(user, "person"), user);
  is("user robot", run(s, path_t<match_type<robot, decltype(user_s)>, match_type<account>>{}), is_a(user, "robot"), user);
  is("robot's serial", run(s, path_t<get_t<decltype(serial_s)>, match_type<robot, decltype(user_s)>, match_type<account>>{}),
     is_a(user, "robot"), is_a(user, "robot") ? [&] { seen w; s.match([&](account const& a) { a.user.match([&](robot const& r) { see(w, r.serial); }, [](auto const&) { }); }, [](auto const&) { }); return w; }() : user);
  seen point = at(owner_s, at_s);
  is("owner's point", run(s, path_t<get_t<decltype(y_s)>, match_type<pt, decltype(at_s)>, match_type<person, decltype(owner_s)>, match_type<account>>{}),
     is_a(point, "pt"), is_a(point, "pt") ? at(owner_s, at_s, y_s) : point);
  seen kin = at(owner_s, kin_s);
  is("owner's kin", run(s, path_t<get_t<hana::type<last>>, match_type<names, decltype(kin_s)>, match_type<person, decltype(owner_s)>, match_type<account>>{}),
     is_a(kin, "names"), is_a(kin, "names") ? at(owner_s, kin_s, last_c) : kin);
}

// mapped_overload and match_when with a key
SCENARIO(visitors)
{
  account a = gen_account();
  seen want; walk(want, a, user_s);
  seen g; std::string which;
  auto table = hana::make_map(
    hana::make_pair(hana::type_c<robot>, [&](auto const& x) { which = "robot"; see(g, x); })
  , hana::make_pair(hana::type_c<nbdl::unresolved>, [&](auto const& x) { which = "unresolved"; see(g, x); }));
  nbdl::match(a, user_s, nbdl::mapped_overload(table, [&](auto const& x)
  {
    if constexpr (is_variant<std::decay_t<decltype(x)>>) nbdl::match(x, nbdl::mapped_overload(table, [&](auto const& y) { which = "otherwise"; see(g, y); }));
    else { which = "otherwise"; see(g, x); }
  }));
  compare("mapped_overload", g, want);
  mc::check(which == (want.type == "robot" || want.type == "unresolved" ? want.type : "otherwise"), mc::str("mapped_overload calls ", which, " for ", want.type));
  seen m; int n = 0;
  nbdl::match_when<robot>(a.user, [&](robot const& r) { n++; see(m, r); });
  mc::check(n == (want.type == "robot") && (!n || m.at == want.at), "match_when calls for another type");
}
// a type is that type: not one derived from it, nor one that it converts to
namespace
{
  struct newer_robot : robot { };
  struct like_a_robot { operator robot() const { return {}; } };
}
SCENARIO(when_of_related_types)
{
  using any_robot = nbdl::variant<robot, newer_robot, like_a_robot, int>;
  any_robot v;
  int k = mc::choose(5);
  switch (k) { case 1: v = robot{}; break; case 2: v = newer_robot{}; break; case 3: v = like_a_robot{}; break; case 4: v = 4; break; }
  int n[6] = {}, other = 0;
  nbdl::match_when<robot>(v, [&](auto const&) { n[1]++; });
  nbdl::match_when<newer_robot>(v, [&](auto const&) { n[2]++; });
  nbdl::match_when<like_a_robot>(v, [&](auto const&) { n[3]++; });
  nbdl::match_when<int>(v, [&](auto const&) { n[4]++; });
  nbdl::match_when<nbdl::unresolved>(v, [&](auto const&) { n[0]++; });
  nbdl::match_when<bool>(v, [&](auto const&) { n[5]++; });
  for (int i = 0; i < 6; i++) mc::check(n[i] == (i == k), mc::str("match_when of alternative ", i, " is called ", n[i], " times for alternative ", k));
  auto table = hana::make_map(hana::make_pair(hana::type_c<robot>, [&](auto const&) { n[1]++; }), hana::make_pair(hana::type_c<bool>, [&](auto const&) { n[5]++; }));
  nbdl::match(v, nbdl::mapped_overload(table, [&](auto const&) { other++; }));
  mc::check(n[5] == 0 && n[1] == (k == 1 ? 2 : 0) && other == (k != 1), mc::str("mapped_overload calls ", n[1], n[5], other, " for alternative ", k));
  mc::state(mc::str(k)); mc::step(); mc::eval();
}

// a visitor is given the object as it was passed: const or not, and to be moved from only if it was moved
namespace
{
  struct as_passed
  {
    std::string* kind; void const** at;
    template <typename X> void operator()(X&& x) const
    { *kind += std::is_lvalue_reference_v<X> ? (std::is_const_v<std::remove_reference_t<X>> ? "const &" : "&") : std::is_const_v<X> ? "const &&" : "&&"; *at = &x; }
  };
}
SCENARIO(visitors_as_passed)
{
  std::string kind; void const* at = nullptr;
  as_passed f{&kind, &at};
  auto table = hana::make_map(hana::make_pair(hana::type_c<robot>, f));
  robot r{}; pt p{1, 2};
  auto is = [&](char const* what, std::string const& want, void const* obj)
  { mc::check(kind == want && at == obj, mc::str(what, " is given ", kind, at == obj ? "" : ", another object", " instead of ", want)); mc::state(mc::str(what, kind)); mc::eval(); };
  auto pass = [&](auto const& g, char const* what, auto& x)
  {
    switch (mc::choose(3))
    {
    case 0: g(x); return is(what, "&", &x);
    case 1: g(std::as_const(x)); return is(what, "const &", &x);
    case 2: g(std::move(x)); return is(what, "&&", &x);
    }
  };
  switch (mc::choose(3))
  {
  case 0: pass(nbdl::match_when<robot>(f), "match_when", r); break;
  case 1: pass(nbdl::mapped_overload(table, f), "mapped_overload", r); break;
  case 2: pass(nbdl::mapped_overload(table, f), "the other of mapped_overload", p); break;
  }
  mc::step();
}

// std::unordered_map as a store below an entity
SCENARIO(unordered_maps)
{
  std::unordered_map<int, nbdl::optional<pt>> m;
  std::unordered_map<int, int> plain;
  std::string want[3]; void const* at[3] = {};
  for (int i = 0; i < 3; i++)
    switch (mc::choose(3))
    {
      case 0: want[i] = "absent"; break;
      case 1: m[i] = nbdl::nothing{}; plain[i] = i; want[i] = "nothing"; break;
      case 2: m[i] = pt{i, i}; plain[i] = i; want[i] = "pt"; break;
    }
  for (int i = 0; i < 3; i++)
  {
    int n = 0; std::string t;
    auto fn = [&](auto const& x)
    {
      n++;
      using X = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<X, nbdl::not_in_set>) t = "absent";
      else if constexpr (std::is_same_v<X, pt>) { t = "pt"; mc::check(x.x == i, "the value of another key"); }
      else if constexpr (std::is_same_v<X, int>) { t = "int"; mc::check(x == i, "the value of another key"); }
      else if constexpr (std::is_same_v<X, nbdl::nothing>) t = "nothing";
      else t = "other";
    };
    nbdl::match(m, i, fn);
    mc::check(n == 1 && t == want[i], mc::str("key ", i, " gives ", t, " instead of ", want[i]));
    n = 0; nbdl::match_path(std::as_const(m), hana::make_tuple(i), fn);
    mc::check(n == 1 && t == want[i], mc::str("path ", i, " gives ", t, " instead of ", want[i]));
    n = 0; nbdl::match(plain, i, fn);
    mc::check(n == 1 && t == (want[i] == "absent" ? "absent" : "int"), mc::str("key ", i, " gives ", t));
    n = 0;
    nbdl::match_path(m, hana::make_tuple(i, y_s), fn);
    mc::check(n == 1 && t == (want[i] == "pt" ? "int" : want[i]), mc::str("path ", i, ".y gives ", t));
    mc::step(); mc::eval();
  }
  mc::check(m.size() == plain.size(), "looking adds keys");
  int whole = 0;
  nbdl::match(m, [&](auto& x) { whole++; mc::check(static_cast<void const*>(&x) == &m, "the container without a key is another object"); });
  nbdl::match_path(m, hana::make_tuple(), [&](auto& x) { whole++; mc::check(static_cast<void const*>(&x) == &m, "the container by no path is another object"); });
  nbdl::match(std::as_const(plain), [&](auto& x) { whole++; mc::check(static_cast<void const*>(&x) == &plain, "a constant container without a key is another object"); });
  mc::check(whole == 3, mc::str("containers without a key give ", whole, " calls instead of 3"));
  mc::state(want[0] + want[1] + want[2]);
}
