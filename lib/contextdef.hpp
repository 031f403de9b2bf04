// Definitions of contexts made from descriptions, and what each description means.
#ifndef VERIF_CONTEXTDEF_HPP
#define VERIF_CONTEXTDEF_HPP
#include "mc.hpp"
#include <boost/hana.hpp>
#include <boost/mp11.hpp>
#include <nbdl/apply_foreign_message.hpp>
#include <nbdl/context.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/make_def.hpp>
#include <nbdl/make_store.hpp>
#include <nbdl/message.hpp>
#include <nbdl/message_api.hpp>
#include <nbdl/null_store.hpp>
#include <algorithm>
#include <map>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace message = nbdl::message;
namespace mp11 = boost::mp11;

namespace my
{
  // keys from 100 are empty types: a create names them itself
  template <int i> struct key { int value = 0; };
  template <int i> requires (i >= 100) struct key<i> { };
  template <int i> struct ent { int a = 0; };

  // ---- descriptions
  template <char ...c> struct acts { };             // Actions(...) in this order
  struct unsaid { };                                // no Actions
  template <int ...k> struct p { };                 // a path
  template <typename ...P> struct hears { };        // ListenPaths(...)
  template <typename Kid> struct one { };           // AccessPoint(...) within
  template <typename ...Kids> struct many { };      // AccessPoints(...) within
  template <int K, typename Acts, int Store, typename Hears, typename ...Groups> struct ap { };
  // kind: 0 producer, 1 consumer, 2 state consumer, 3 consumer and state consumer
  template <int kind, int i> struct actor_tag { };
  template <int i> struct name_t { };
  template <bool named, int i, typename Group> struct prod { };       // i is also its name
  template <bool named, int kind, int i> struct cons { };
  // form: 0 the list (Producers(...)), 1 the single one (Producer(...)), 2 left out
  template <int pform, typename Prods, int cform, typename Conss, bool rev> struct shape { };
  template <typename ...T> struct pack { };

  struct point { std::vector<int> path; std::string acts; int store; int producer; std::vector<std::string> hears; };
  inline std::string path_text(std::vector<int> const& v) { std::string r = "("; for (int k : v) r += mc::str("k", k, " "); return r + ")"; }
  template <int ...k> std::string text_of(p<k...>) { return path_text({k...}); }
  template <char ...c> std::string acts_of(acts<c...>) { return {c...}; }
  inline std::string acts_of(unsaid) { return ""; }
  template <typename ...P> std::vector<std::string> hears_of(hears<P...>) { return {text_of(P{})...}; }

  struct walker
  {
    std::vector<point> points;
    template <typename Kid> void group(one<Kid>, std::vector<int> const& at, int producer) { visit(Kid{}, at, producer); }
    template <typename ...Kids> void group(many<Kids...>, std::vector<int> const& at, int producer) { (visit(Kids{}, at, producer), ...); }
    template <int K, typename A, int St, typename H, typename ...G>
    void visit(ap<K, A, St, H, G...>, std::vector<int> at, int producer)
    {
      at.push_back(K);
      std::string a = acts_of(A{});
      if (a.size() || (St && St != 9)) points.push_back({at, a, St, producer, hears_of(H{})});
      (group(G{}, at, producer), ...);
    }
  };
  struct actor_info { int kind, i; bool named; };
  struct model
  {
    std::vector<actor_info> actors;
    std::vector<point> points;
    std::vector<std::string> up, down;
    point const* at(std::string const& path) const { for (auto& q : points) if (path_text(q.path) == path) return &q; return nullptr; }
  };
  template <bool n, int i, typename G> void add_producer(model& m, walker& w, prod<n, i, G>)
  {
    int index = int(m.actors.size());
    m.actors.push_back({0, i, n});
    if constexpr (!std::is_same_v<G, unsaid>) w.group(G{}, {}, index);
  }
  template <bool n, int kind, int i> void add_consumer(model& m, cons<n, kind, i>) { m.actors.push_back({kind, i, n}); }
  template <int pf, typename ...P, int cf, typename ...C, bool rev>
  model meaning(shape<pf, pack<P...>, cf, pack<C...>, rev>)
  {
    model m;
    walker w;
    (add_producer(m, w, P{}), ...);
    (add_consumer(m, C{}), ...);
    m.points = w.points;
    for (auto& q : m.points)
    {
      std::string path = path_text(q.path), e = mc::str("e", q.path.back());
      std::string create = q.path.back() >= 100 ? path : "new" + path_text(std::vector<int>(q.path.begin(), q.path.end() - 1)) + mc::str("k", q.path.back());
      for (char c : q.acts) switch (c)
      {
        case 'c': m.up.push_back("up create " + create + e); m.down.push_back("down create " + path + e); break;
        case 'r': m.up.push_back("up read " + path); m.down.push_back("down read " + path + e); m.down.push_back("down read " + path + "not_found"); break;
        case 'u': m.up.push_back("up update " + path + e); m.down.push_back("down update " + path + e); break;
        case 'd': m.up.push_back("up delete " + path); m.down.push_back("down delete " + path); break;
      }
    }
    return m;
  }

  // ---- messages as text
  template <int i> std::string show(key<i> const&) { return mc::str("k", i); }
  template <int i> std::string show(ent<i> const&) { return mc::str("e", i); }
  inline std::string show(nbdl::not_found) { return "not_found"; }
  template <typename ...T> std::string show(hana::tuple<T...> const& t) { std::string r = "("; hana::for_each(t, [&](auto const& x) { r += show(x) + " "; }); return r + ")"; }
  template <typename K, typename P> std::string show(message::create_path<K, P> const& x) { return "new" + show(x.parent_path) + show(K{}); }
  template <typename M> std::string text(M const& m)
  {
    std::string r = message::is_upstream<M> ? "up" : message::is_downstream<M> ? "down" : "?";
    r += message::is_create<M> ? " create" : message::is_read<M> ? " read" : message::is_update<M> ? " update" : message::is_delete<M> ? " delete" : " ?";
    r += " " + show(message::get_path(m));
    if constexpr (message::has_uid<M>) r += "UID";
    if constexpr (message::has_payload<M>) r += show(message::get_payload(m));
    if constexpr (message::has_private_payload<M>) r += "PRIVATE";
    return r;
  }

  // ---- what happened
  inline std::vector<std::string>& log() { static std::vector<std::string> l; return l; }
  inline void say(std::string s) { log().push_back(std::move(s)); }
  inline int living = 0;
  struct arg { int id; };
  template <int i> struct own_arg { int id; };
  template <typename T> std::string arg_text(T const& t)
  {
    if constexpr (std::is_same_v<T, hana::type<void>>) return "nothing";
    else return mc::str(t.id);
  }

  template <int kind, int i, typename Context> struct actor
  {
    using hana_tag = actor_tag<kind, i>;
    Context context;
    std::string got;
    template <typename A> actor(nbdl::actor_initializer<Context, A>&& x) : context(x.context), got(arg_text(x.value))
    { living++; say(mc::str("made ", kind, ".", i, " of ", got)); }
    actor(actor const& o) : context(o.context), got(o.got) { living++; say("copied"); }
    ~actor() { living--; }
  };
  // the actor (kind, i) that sends a message downstream when it is initialised
  inline std::pair<int, int> greeter{-1, -1};
  template <typename Actor> void greet(int kind, int i, Actor& a);

  template <int n> struct spy_tag { };
  template <int n, typename Path, typename Entity> struct spy { using hana_tag = spy_tag<n>; using path = Path; using entity = Entity; };
}
namespace nbdl
{
  template <int i> requires (i < 100) struct entity_members_impl<my::key<i>> { using type = mpdef::list<NBDL_MEMBER(&my::key<i>::value)>; };
  template <int i> requires (i >= 100) struct entity_members_impl<my::key<i>> { using type = mpdef::list<>; };
  template <int i> struct entity_members_impl<my::ent<i>> { using type = mpdef::list<NBDL_MEMBER(&my::ent<i>::a)>; };
  template <int k, int i, typename C> struct actor_type<my::actor_tag<k, i>, C> { using type = my::actor<k, i, C>; };
  template <int i> struct send_upstream_message_impl<my::actor_tag<0, i>>
  { template <typename P, typename M> static void apply(P& p, M&& m) { my::say(mc::str("0.", i, " ", my::text(m))); } };
  template <int i> struct send_downstream_message_impl<my::actor_tag<1, i>>
  { template <typename P, typename M> static void apply(P& p, M&& m) { my::say(mc::str("1.", i, " ", my::text(m))); } };
  template <int i> struct send_downstream_message_impl<my::actor_tag<3, i>>
  { template <typename P, typename M> static void apply(P& p, M&& m) { my::say(mc::str("3.", i, " ", my::text(m))); } };
  template <int i> struct notify_state_change_impl<my::actor_tag<2, i>>
  { template <typename P, typename X> static void apply(P& p, X&& x) { my::say(mc::str("2.", i, " changed ", my::show(x))); } };
  template <int i> struct notify_state_change_impl<my::actor_tag<3, i>>
  { template <typename P, typename X> static void apply(P& p, X&& x) { my::say(mc::str("3.", i, " changed ", my::show(x))); } };
  template <int i> struct producer_init_impl<my::actor_tag<0, i>>
  { template <typename P> static void apply(P& p) { my::say(mc::str("init 0.", i)); my::greet(0, i, p); } };
  template <int k, int i> requires (k == 1 || k == 3) struct consumer_init_impl<my::actor_tag<k, i>>
  { template <typename P> static void apply(P& p) { my::say(mc::str("init ", k, ".", i)); my::greet(k, i, p); } };

  template <int n> struct make_store_impl<my::spy_tag<n>>
  { template <typename P, typename E> static constexpr auto apply(P, E) -> my::spy<n, typename P::type, typename E::type> { return {}; } };
  template <int n> struct apply_message_impl<my::spy_tag<n>>
  {
    template <typename S, typename M> static bool apply(S& s, M&& m)
    {
      my::say(mc::str("store", n, " ", my::show(typename S::path{}), my::show(typename S::entity{}), " ", my::text(m)));
      return true;
    }
  };
  template <int n> struct apply_foreign_message_impl<my::spy_tag<n>>
  {
    template <typename S, typename M, typename F> static void apply(S& s, M&& m, F&& f)
    { my::say(mc::str("foreign", n, " ", my::show(typename std::decay_t<S>::path{}), " ", my::text(m))); f(typename std::decay_t<S>::path{}); }
  };
  template <int n> struct match_impl<my::spy_tag<n>>
  { template <typename S, typename K, typename F> static void apply(S&& s, K&& k, F&& f) { f(nbdl::trigger_read{}); } };
}
namespace boost::hana
{
  template <int i> struct equal_impl<my::key<i>, my::key<i>>
  { template <typename A, typename B> static constexpr bool apply(A const&, B const&) { return true; } };
}

// ---- the definition itself
namespace my_def
{
  using namespace nbdl_def;
  using namespace my;
  using mpdef::list;
  template <bool rev, typename L> struct ordered { using type = L; };
  template <typename L> struct ordered<true, L> { using type = mp11::mp_reverse<L>; };
  template <typename ...T> constexpr auto access_point(list<T...>) { return AccessPoint(T{}...); }
  template <char c> constexpr auto action()
  {
    if constexpr (c == 'c') return Create(); else if constexpr (c == 'r') return Read();
    else if constexpr (c == 'u') return Update(); else return Delete();
  }
  template <char ...c> constexpr auto directive(acts<c...>) { return list<decltype(Actions(action<c>()...))>{}; }
  constexpr auto directive(unsaid) { return list<>{}; }
  template <int ...k> constexpr auto path(p<k...>) { return Path<key<k>...>; }
  constexpr auto directive(hears<>) { return list<>{}; }
  template <typename ...P> constexpr auto directive(hears<P...>) { return list<decltype(ListenPaths(path(P{})...))>{}; }
  template <int n> constexpr auto store()
  {
    if constexpr (n == 0) return list<>{};
    else if constexpr (n == 9) return list<std::remove_const_t<decltype(Store<nbdl::null_store>)>>{};
    else return list<std::remove_const_t<decltype(Store<spy_tag<n>>)>>{};
  }
  template <bool rev, typename T> struct build;
  template <bool rev, int K, typename A, int St, typename H, typename ...G> struct build<rev, ap<K, A, St, H, G...>>
  {
    static constexpr auto make()
    {
      using l = mp11::mp_append<
        list<decltype(Name(hana::type_c<void>)), std::remove_const_t<decltype(Entity<ent<K>>)>, std::remove_const_t<decltype(PathKey<key<K>>)>>
      , decltype(directive(A{})), decltype(my_def::store<St>()), decltype(directive(H{}))>;
      // what is within keeps its order
      using groups = list<decltype(build<rev, G>::make())...>;
      using all = std::conditional_t<rev, mp11::mp_append<groups, mp11::mp_reverse<l>>, mp11::mp_append<l, groups>>;
      return access_point(all{});
    }
  };
  template <bool rev, typename K> struct build<rev, one<K>> { static constexpr auto make() { return build<rev, K>::make(); } };
  template <bool rev, typename ...K> struct build<rev, many<K...>> { static constexpr auto make() { return AccessPoints(build<rev, K>::make()...); } };
  template <bool rev, bool named, int i, typename G> struct build<rev, prod<named, i, G>>
  {
    static constexpr auto make()
    {
      constexpr auto t = Type<actor_tag<0, i>>;
      if constexpr (std::is_same_v<G, unsaid>)
      { if constexpr (named) return Producer(Name(hana::type_c<name_t<i>>), t); else return Producer(t); }
      else
      {
        constexpr auto g = build<rev, G>::make();
        if constexpr (!named) { if constexpr (rev) return Producer(g, t); else return Producer(t, g); }
        else if constexpr (rev) return Producer(g, t, Name(hana::type_c<name_t<i>>));
        else return Producer(Name(hana::type_c<name_t<i>>), t, g);
      }
    }
  };
  template <bool rev, bool named, int kind, int i> struct build<rev, cons<named, kind, i>>
  {
    static constexpr auto make()
    {
      constexpr auto t = Type<actor_tag<kind, i>>;
      if constexpr (!named) return Consumer(t);
      else if constexpr (rev) return Consumer(t, Name(hana::type_c<name_t<i>>));
      else return Consumer(Name(hana::type_c<name_t<i>>), t);
    }
  };
  template <int form, bool rev, typename ...P> constexpr auto producers(pack<P...>)
  { if constexpr (form == 1) return (build<rev, P>::make(), ...); else return Producers(build<rev, P>::make()...); }
  template <int form, bool rev, typename ...P> constexpr auto consumers(pack<P...>)
  { if constexpr (form == 1) return (build<rev, P>::make(), ...); else return Consumers(build<rev, P>::make()...); }
}
namespace nbdl
{
  template <int pf, typename P, int cf, typename C, bool rev> struct make_def_impl<my::shape<pf, P, cf, C, rev>>
  {
    static constexpr auto apply()
    {
      constexpr auto ps = my_def::producers<pf, rev>(P{});
      if constexpr (cf == 2) return nbdl_def::Context(ps);
      else
      {
        constexpr auto cs = my_def::consumers<cf, rev>(C{});
        if constexpr (rev) return nbdl_def::Context(cs, ps); else return nbdl_def::Context(ps, cs);
      }
    }
  };
}
namespace my
{
  template <typename ...T> void all_texts(std::vector<std::string>& out, nbdl::variant<T...> const*)
  {
    auto add = [&](auto t) { using M = typename decltype(t)::type; if constexpr (std::is_same_v<M, nbdl::system_message>) out.push_back("system"); else out.push_back(text(M{})); };
    (add(hana::type_c<T>), ...);
  }
  inline std::string lines(std::vector<std::string> const& v) { std::string r; for (auto& x : v) r += x + "; "; return r; }

  // the messages of a context are those of its access points, depth first, in the order written
  template <int n, typename ...T> auto nth(nbdl::variant<T...> const*) -> mp11::mp_at_c<mp11::mp_list<T..., void, void>, n>;
  template <typename S, bool up, int n> using message_of = decltype(nth<n>(static_cast<
    std::conditional_t<up, typename nbdl::message_api<S>::upstream_variant, typename nbdl::message_api<S>::downstream_variant>*>(nullptr)));
  template <typename Actor> void greet(int kind, int i, Actor& a)
  {
    if (greeter != std::pair(kind, i)) return;
    using S = typename decltype(a.context)::tag;
    using M = message_of<S, false, 1>;
    if constexpr (!std::is_void_v<M>) nbdl::apply_message(a.context, M{});
  }
  template <typename S> void api()
  {
    model m = meaning(S{});
    std::vector<std::string> up, down;
    all_texts(up, static_cast<typename nbdl::message_api<S>::upstream_variant*>(nullptr));
    all_texts(down, static_cast<typename nbdl::message_api<S>::downstream_variant*>(nullptr));
    m.up.insert(m.up.begin(), "system");
    m.down.insert(m.down.begin(), "system");
    mc::step(up.size() + down.size());
    mc::state(lines(up) + lines(down));
    mc::note(lines(up));
    if (up != m.up) mc::fail("upstream messages are " + lines(up) + " instead of " + lines(m.up));
    if (down != m.down) mc::fail("downstream messages are " + lines(down) + " instead of " + lines(m.down));
  }
  template <typename ...S> void apis(pack<S...>)
  {
    using f = void (*)();
    f const all[] = {&api<S>...};
    all[mc::choose(int(sizeof...(S)))]();
  }
}
#endif
