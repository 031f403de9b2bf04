// Actors, stores and a definition of our own, all reporting to one event log.
#ifndef C01_CTX_HPP
#define C01_CTX_HPP
#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_foreign_message.hpp>
#include <nbdl/context.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/make_def.hpp>
#include <nbdl/make_store.hpp>
#include <nbdl/message.hpp>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace message = nbdl::message;

namespace my
{
  template <int i> struct key { int value; key(int v = 0) : value(v) { } };
  template <int i> struct ent { int a; std::string b; };
  struct id { int v; };
  template <int ...i> using path = hana::tuple<key<i>...>;

  // the access points
  using path0 = path<1, 10>;            // producer 0
  using path1 = path<2, 10>;            // producer 1
  using path2 = path<2, 20>;            // producer 1, its store listens to path1
  using path3 = path<3, 30, 31>;        // producer 2, its store listens to path0 and path2
  template <int i> struct point_of;
  template <> struct point_of<0> { using path = path0; using entity = ent<10>; using parent = my::path<1>; using last = key<10>; };
  template <> struct point_of<1> { using path = path1; using entity = ent<10>; using parent = my::path<2>; using last = key<10>; };
  template <> struct point_of<2> { using path = path2; using entity = ent<20>; using parent = my::path<2>; using last = key<20>; };
  template <> struct point_of<3> { using path = path3; using entity = ent<31>; using parent = my::path<3, 30>; using last = key<31>; };
  inline int const owner[] = {0, 1, 1, 2};
  inline std::vector<int> const listeners[] = {{3}, {2}, {3}, {}};

  template <typename P> constexpr int index_of =
    std::is_same_v<P, path0> ? 0 : std::is_same_v<P, path1> ? 1 : std::is_same_v<P, path2> ? 2 : std::is_same_v<P, path3> ? 3 : -1;

  inline std::string show(message::no_impl) { return "-"; }
  inline std::string show(id const& x) { return mc::str("#", x.v); }
  inline std::string show(bool b) { return b ? "t" : "f"; }
  inline std::string show(int i) { return mc::str("int:", i); }
  inline std::string show(long long i) { return mc::str("long:", i); }
  inline std::string show(nbdl::not_found) { return "not_found"; }
  inline std::string show(nbdl::unresolved) { return "unresolved"; }
  template <int i> std::string show(key<i> const& k) { return mc::str("k", i, ":", k.value); }
  template <int i> std::string show(ent<i> const& e) { return mc::str("e", i, "{", e.a, ",", e.b, "}"); }
  template <typename ...T> std::string show(hana::tuple<T...> const& t)
  { std::string r = "("; hana::for_each(t, [&](auto const& x) { r += show(x) + " "; }); return r + ")"; }
  template <typename K, typename P> std::string show(message::create_path<K, P> const& p) { return "new" + show(p.parent_path); }
  template <typename M> std::string text(M const& m)
  {
    std::string r = message::is_upstream<M> ? "up" : message::is_downstream<M> ? "down" : "?";
    r += message::is_create<M> ? " create" : message::is_read<M> ? " read" : message::is_update<M> ? " update" : message::is_delete<M> ? " delete" : " ?";
    r += " " + show(message::get_path(m));
    if constexpr (message::has_uid<M>) r += show(message::get_uid(m));
    if constexpr (message::has_payload<M>) r += show(message::get_payload(m));
    return r;
  }

  struct event { std::string who, what; };
  inline std::vector<event>& log() { static std::vector<event> l; return l; }
  inline void say(std::string who, std::string what) { log().push_back({std::move(who), std::move(what)}); }

  // what every actor calls itself
  template <int kind> struct actor_tag { };    // 0 producer 1 consumer 2 state consumer 3 consumer and state consumer
  template <int kind, typename Context> struct actor
  {
    using hana_tag = actor_tag<kind>;
    Context context;
    std::string name;
    template <typename A> explicit actor(nbdl::actor_initializer<Context, A>&& p) : context(p.context) { }
  };
  // a producer may answer in the middle of the call
  inline std::function<void()>& reaction() { static std::function<void()> f; return f; }
}
namespace nbdl
{
  template <int i> struct entity_members_impl<my::key<i>> { using type = mpdef::list<NBDL_MEMBER(&my::key<i>::value)>; };
  template <int i> struct entity_members_impl<my::ent<i>> { using type = mpdef::list<NBDL_MEMBER(&my::ent<i>::a), NBDL_MEMBER(&my::ent<i>::b)>; };
  template <int k, typename C> struct actor_type<my::actor_tag<k>, C> { using type = my::actor<k, C>; };
  template <> struct send_upstream_message_impl<my::actor_tag<0>>
  {
    template <typename P, typename M> static void apply(P& p, M&& m)
    {
      my::say(p.name, my::text(m));
      if (my::reaction()) { auto f = std::move(my::reaction()); my::reaction() = {}; f(); }
    }
  };
  template <> struct send_downstream_message_impl<my::actor_tag<1>>
  { template <typename P, typename M> static void apply(P& p, M&& m) { my::say(p.name, my::text(m)); } };
  template <> struct send_downstream_message_impl<my::actor_tag<3>>
  { template <typename P, typename M> static void apply(P& p, M&& m) { my::say(p.name, my::text(m)); } };
  template <> struct notify_state_change_impl<my::actor_tag<2>>
  { template <typename P, typename X> static void apply(P& p, X&& x) { my::say(p.name, "changed " + my::show(x)); } };
  template <> struct notify_state_change_impl<my::actor_tag<3>>
  { template <typename P, typename X> static void apply(P& p, X&& x) { my::say(p.name, "changed " + my::show(x)); } };
}
namespace boost::hana
{
  template <int i> struct equal_impl<my::key<i>, my::key<i>>
  { template <typename A, typename B> static constexpr bool apply(A const& a, B const& b) { return a.value == b.value; } };
}
namespace my_def
{
  using namespace nbdl_def;
  using my::key; using my::ent;
  template <int i> struct name_t { };
  template <int i> constexpr auto name = hana::type_c<name_t<i>>;
  constexpr auto all() { return Actions(Create(), Read(), Update(), Delete()); }
  template <typename P0, typename P1, typename P2, typename StoreTag>
  constexpr auto make()
  {
    constexpr auto none = hana::type_c<void>;
    return Context(
      Producers(
        Producer(Name(name<0>), Type<P0>,
          AccessPoint(Name(none), Entity<ent<1>>, PathKey<key<1>>,
            AccessPoint(Name(none), Entity<ent<10>>, PathKey<key<10>>, Store<StoreTag>, all()))),
        Producer(Name(name<1>), Type<P1>,
          AccessPoint(Name(none), Entity<ent<2>>, PathKey<key<2>>,
            AccessPoints(
              AccessPoint(Name(none), Entity<ent<10>>, PathKey<key<10>>, Store<StoreTag>, all()),
              AccessPoint(Name(none), Entity<ent<20>>, PathKey<key<20>>, Store<StoreTag>, all(),
                ListenPaths(Path<key<2>, key<10>>))))),
        Producer(Name(name<2>), Type<P2>,
          AccessPoint(Name(none), Entity<ent<3>>, PathKey<key<3>>,
            AccessPoint(Name(none), Entity<ent<30>>, PathKey<key<30>>,
              AccessPoint(Name(none), Entity<ent<31>>, PathKey<key<31>>, Store<StoreTag>, all(),
                ListenPaths(Path<key<1>, key<10>>, Path<key<2>, key<20>>)))))
      ),
      Consumers(
        Consumer(Name(name<3>), Type<my::actor_tag<1>>),
        Consumer(Name(name<4>), Type<my::actor_tag<2>>),
        Consumer(Name(name<5>), Type<my::actor_tag<1>>),
        Consumer(Name(name<6>), Type<my::actor_tag<3>>),
        Consumer(Name(name<7>), Type<my::actor_tag<2>>)
      ));
  }
}
namespace my
{
  inline bool is_consumer(int i) { return i == 3 || i == 5 || i == 6; }
  inline bool is_state_consumer(int i) { return i == 4 || i == 6 || i == 7; }

  template <typename Tag>
  auto new_context()
  {
    log().clear();
    reaction() = {};
    auto c = nbdl::make_unique_context<Tag>();
    auto set = [&]<std::size_t i>(std::integral_constant<std::size_t, i>)
    {
      using A = std::remove_cvref_t<decltype(c->template actor<i>())>;
      if constexpr (requires (A& a) { a.name; }) c->template actor<i>().name = mc::str("actor", int(i));
    };
    [&]<std::size_t ...i>(std::index_sequence<i...>) { (set(std::integral_constant<std::size_t, i>{}), ...); }(std::make_index_sequence<8>{});
    return c;
  }
  // events are compared per receiver: the order between receivers is free
  inline std::map<std::string, std::vector<std::string>> received()
  {
    std::map<std::string, std::vector<std::string>> r;
    for (auto& e : log()) r[e.who].push_back(e.what);
    return r;
  }
  inline void expect(std::map<std::string, std::vector<std::string>> const& want, std::string const& what)
  {
    auto got = received();
    for (auto& [who, l] : got)
    {
      auto it = want.find(who);
      std::vector<std::string> w = it == want.end() ? std::vector<std::string>{} : it->second;
      auto a = l, b = w;
      std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      if (a != b)
      {
        std::string m = what + ": " + who + " got [";
        for (auto& x : l) m += x + "; ";
        m += "] instead of [";
        for (auto& x : w) m += x + "; ";
        mc::fail(m + "]");
      }
    }
    for (auto& [who, l] : want) if (!l.empty() && !got.count(who)) mc::fail(what + ": " + who + " did not get " + l[0]);
  }
  template <typename F> void with_point(int i, F f)
  {
    switch (i) { case 0: f(point_of<0>{}); break; case 1: f(point_of<1>{}); break; case 2: f(point_of<2>{}); break; default: f(point_of<3>{}); }
  }
  template <typename P> P make_path(int i) { P p; int n = i; hana::for_each(p, [&](auto& k) { k.value = ++n; }); return p; }
  template <typename P> auto parent(int i) { return make_path<P>(i); }
}
#endif
