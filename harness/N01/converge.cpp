// mc-flags: -ljsoncpp -O1
// A server's context and those of its clients, joined by the app's serializers and readers of messages. Every
// connection is a pair of queues; what is done and what arrives next is chosen.
#include "mc.hpp"
#include <full_duplex.hpp>
#include <boost/hana.hpp>
#include <boost/system/error_code.hpp>
#include <nbdl/context.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/app/context_endpoint.hpp>
#include <nbdl/app/serializer.hpp>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace message = nbdl::message;
namespace my
{
  struct list_key { int value; };
  struct item_key { int value; };
  struct note_key { nbdl::string value; };
  struct item { int a; nbdl::string b; };
  struct link { };          // a client's producer
  struct links { };         // the server's consumer
  struct screen { };        // what a client shows
  using item_path = hana::tuple<list_key, item_key>;
  using note_path = hana::tuple<note_key>;

  template <typename Makes, typename Hears> struct definition
  {
    static auto make_def()
    {
      using namespace nbdl_def;
      return Context(
        Producers(Producer(Type<Makes>, Name(BOOST_HANA_STRING("producer")),
          AccessPoints(
            AccessPoint(Name(BOOST_HANA_STRING("note")), PathKey<note_key>, Entity<nbdl::string>, Store<nbdl::map_store_tag>, Actions(Read(), Update(), Delete())),
            AccessPoint(Name(BOOST_HANA_STRING("list")), PathKey<list_key>,
              AccessPoint(Name(BOOST_HANA_STRING("item")), PathKey<item_key>, Entity<item>, Store<nbdl::map_store_tag>, Actions(Create(), Read(), Update(), Delete())))))),
        Consumers(Consumer(Type<Hears>, Name(BOOST_HANA_STRING("consumer")))));
    }
  };
  struct server_def : definition<nbdl::echo_producer, links> { };
  struct client_def : definition<link, screen> { };

  struct world;
  inline world* w;
}
namespace nbdl
{
  NBDL_ENTITY(my::list_key, value);
  NBDL_ENTITY(my::item_key, value);
  NBDL_ENTITY(my::note_key, value);
  NBDL_ENTITY(my::item, a, b);
}
namespace my
{
  inline std::string show(item const& i) { return mc::str("{", i.a, ",", i.b, "}"); }
  inline std::string show(nbdl::string const& s) { return "'" + std::string(s) + "'"; }
  inline std::string show(nbdl::not_found) { return "not found"; }
  inline std::string show(nbdl::unresolved) { return "unresolved"; }
  inline std::string show(item_path const& p) { return mc::str("item ", p[hana::int_c<0>].value, "/", p[hana::int_c<1>].value); }
  inline std::string show(note_path const& p) { return mc::str("note ", p[hana::int_c<0>].value); }
  template <typename Ctx> struct link_impl;
  using server_t = nbdl::context<server_def>;
  using client_t = nbdl::context<client_def>;
  template <typename C> struct actor_ { C context; template <typename I> actor_(I i) : context(i.context) { } actor_(actor_ const&) = delete; };
  template <typename C> struct link_t : actor_<C> { using hana_tag = link; using actor_<C>::actor_; int client = -1; nbdl::app::serializer_upstream<client_def> s; };
  template <typename C> struct links_t : actor_<C> { using hana_tag = links; using actor_<C>::actor_; nbdl::app::serializer_downstream<server_def> s; };
  template <typename C> struct screen_t : actor_<C> { using hana_tag = screen; using actor_<C>::actor_; int client = -1; };
}
namespace nbdl
{
  template <typename C> struct actor_type<my::link, C> { using type = my::link_t<C>; };
  template <typename C> struct actor_type<my::links, C> { using type = my::links_t<C>; };
  template <typename C> struct actor_type<my::screen, C> { using type = my::screen_t<C>; };
  template <> struct producer_init_impl<my::link> { template <typename P> static void apply(P&) { } };
  template <> struct consumer_init_impl<my::links> { template <typename P> static void apply(P&) { } };
  template <> struct consumer_init_impl<my::screen> { template <typename P> static void apply(P&) { } };
  template <> struct send_upstream_message_impl<my::link> { template <typename P, typename M> static void apply(P& p, M&& m); };
  template <> struct send_downstream_message_impl<my::links> { template <typename P, typename M> static void apply(P& p, M&& m); };
  template <> struct send_downstream_message_impl<my::screen> { template <typename P, typename M> static void apply(P& p, M&& m); };
  template <> struct notify_state_change_impl<my::screen> { template <typename P, typename Path> static void apply(P& p, Path const& path); };
}
namespace my
{
  template <typename C> struct end_state { C& c; C& context() { return c; } };
  template <typename C> struct end
  {
    C& c; int resolved = 0, failed = 0; std::string why;
    template <typename T> void operator()(full_duplex::error<T> e) { failed++; if constexpr (std::is_convertible_v<T, std::string>) why = e.value; }
    void operator()(full_duplex::void_input_t) { resolved++; }
    template <typename M> void operator()(M&& m) { nbdl::app::apply_read.fn(*this, std::forward<M>(m)); }
    end_state<C> get_state() { return {c}; }
  };
  template <typename D, typename C> void arrives(D const& d, C& c, std::string const& text)
  {
    end<C> e{c};
    auto p = d();
    p.fn(e, text);
    mc::check(e.resolved == 1 && !e.failed, mc::str(text, " was applied ", e.resolved, " times with ", e.failed, " errors ", e.why), "applied");
    mc::step();
  }
  struct op { char kind; std::string path, value; };
  struct world
  {
    std::map<std::string, std::string> truth;           // what the server must hold
    std::map<std::string, bool> absent;                 // has been looked for and is not there
    struct client
    {
      std::unique_ptr<client_t> c;
      std::deque<std::string> up, down;
      std::deque<op> ops;                               // what the messages of up mean
      std::map<std::string, std::string> shown;         // what the screen shows of what it has looked at
      std::map<std::string, bool> looked;
      int heard = 0;
    };
    std::unique_ptr<server_t> server = nbdl::make_context<server_def>();
    std::deque<client> clients;
    std::vector<item_path> items;         // every path that may hold something
    std::vector<note_path> notes;
    explicit world(int n) { w = this; while (n--) join(); }
    void join()
    {
      int i = int(clients.size());
      clients.emplace_back();
      auto& k = clients.back();
      k.c = nbdl::make_context<client_def>();
      k.c->template actor<0>().client = k.c->template actor<1>().client = i;
    }
    template <typename C, typename P> std::string held(C& c, P const& p)
    {
      std::string r; int calls = 0;
      nbdl::match(c, p, [&](auto const& x) { r = show(x); calls++; });
      mc::check(calls == 1, "match yields no one value");
      return r;
    }
    template <typename P> void look(int i, P const& p)
    {
      auto& k = clients[i];
      k.looked[show(p)] = true;
      k.shown[show(p)] = held(*k.c, p);
    }
    void item_known(item_path const& p) { for (auto& q : items) if (show(q) == show(p)) return; items.push_back(p); }
    // one message of one queue arrives
    bool deliver(int q)
    {
      auto& k = clients[q / 2];
      auto& queue = q % 2 ? k.down : k.up;
      if (queue.empty()) return false;
      auto t = queue.front(); queue.pop_front();
      if (q % 2) { mc::note(mc::str("client ", q / 2, " receives ", t)); arrives(nbdl::app::deserializer_downstream<client_def>, *k.c, t); }
      else
      {
        mc::note(mc::str("the server receives ", t, " of client ", q / 2));
        auto o = k.ops.front(); k.ops.pop_front();
        auto known = items.size();
        arrives(nbdl::app::deserializer_upstream<server_def>, *server, t);
        mc::check(items.size() == known + (o.kind == 'c'), "a create must make one new path, and nothing else does", "created");
        if (mc::failed()) return false;
        switch (o.kind)
        {
        case 'c': truth[show(items.back())] = o.value; break;
        case 'u': truth[o.path] = o.value; break;
        case 'd': truth.erase(o.path); absent[o.path] = false; break;
        case 'r': if (!truth.count(o.path)) absent[o.path] = true; break;
        }
      }
      return true;
    }
    std::vector<int> waiting()
    {
      std::vector<int> r;
      for (int i = 0; i < int(clients.size()); i++) { if (clients[i].up.size()) r.push_back(2 * i); if (clients[i].down.size()) r.push_back(2 * i + 1); }
      return r;
    }
    // the rest arrives: at the server first, at the clients first, or one client after the other
    void settle()
    {
      int n = 0, first = mc::choose(waiting().size() > 1 ? 3 : 1);
      for (auto q = waiting(); !q.empty() && !mc::failed(); q = waiting())
      {
        auto next = std::find_if(q.begin(), q.end(), [&](int k) { return k % 2 == first; });
        deliver(next == q.end() ? q.back() : *next);
        if (!mc::check(++n < 200, "messages without an end")) return;
      }
    }
    // what everybody must see
    std::string want(std::string const& p) { return truth.count(p) ? truth[p] : "not found"; }
    template <typename P> void agree(P const& p)
    {
      for (int i = 0; i < int(clients.size()); i++)
      {
        auto& k = clients[i];
        if (!k.looked[show(p)]) continue;
        auto shown = k.shown[show(p)], own = held(*k.c, p);
        mc::check(own == want(show(p)), mc::str("client ", i, " holds ", own, " at ", show(p), " instead of ", want(show(p))), "held");
        mc::check(shown == own, mc::str("client ", i, " shows ", shown, " of ", show(p), " and holds ", own), "shown");
      }
      if (truth.count(show(p)) || absent[show(p)])
      {
        auto all = held(*server, p);
        mc::check(all == want(show(p)), mc::str("the server holds ", all, " at ", show(p), " instead of ", want(show(p))), "server");
      }
      mc::check(waiting().empty(), "looking at what is known sends messages", "quiet");
    }
    void settled()
    {
      for (auto& p : items) agree(p);
      for (auto& p : notes) agree(p);
      // and then each client looks at everything
      for (int i = 0; i < int(clients.size()); i++) { for (auto& p : items) look(i, p); for (auto& p : notes) look(i, p); }
      for (auto q = waiting(); !q.empty() && !mc::failed(); q = waiting()) deliver(q[0]);
      for (auto& p : items) agree(p);
      for (auto& p : notes) agree(p);
      mc::eval();
    }
    std::string state()
    {
      std::string r;
      for (auto& k : clients) { for (auto& [p, v] : k.shown) r += p + "=" + v + " "; for (auto& t : k.up) r += t; r += "|"; for (auto& t : k.down) r += t; r += "|"; }
      return r;
    }
  };
}
namespace nbdl
{
  template <typename P, typename M> void send_upstream_message_impl<my::link>::apply(P& p, M&& m)
  {
    auto& k = my::w->clients[p.client];
    my::op o{message::is_create<M> ? 'c' : message::is_read<M> ? 'r' : message::is_update<M> ? 'u' : 'd', "", ""};
    if constexpr (!message::is_create<M>) o.path = my::show(message::get_path(m));
    if constexpr (message::is_create<M> || message::is_update<M>) o.value = my::show(message::get_payload(m));
    k.ops.push_back(o);
    k.up.push_back(p.s.serialize(std::forward<M>(m)));
  }
  template <typename P, typename M> void send_downstream_message_impl<my::links>::apply(P& p, M&& m)
  {
    if constexpr (message::is_create<M>) my::w->item_known(message::get_path(m));
    for (auto& k : my::w->clients) k.down.push_back(p.s.serialize(m));
  }
  template <typename P, typename M> void send_downstream_message_impl<my::screen>::apply(P& p, M&&) { my::w->clients[p.client].heard++; }
  template <typename P, typename Path> void notify_state_change_impl<my::screen>::apply(P& p, Path const& path)
  {
    auto& k = my::w->clients[p.client];
    if (k.looked[my::show(path)]) { k.shown[my::show(path)] = "changing"; k.shown[my::show(path)] = my::w->held(*k.c, path); }
  }
}
namespace
{
  using namespace my;
  void run(int clients, int depth, bool only_notes, int late = 0)
  {
    world at(clients);
    int next = 0;
    for (int s = 0; s < depth && !mc::failed(); s++)
    {
      // a client does something, or something arrives; the first to do something is the first client
      int acts = only_notes ? 3 : 7;
      auto q = at.waiting();
      int k = mc::choose((s ? clients : 1) * acts + int(q.size()) + (late && s ? 1 : 0));
      if (k < int(q.size())) { at.deliver(q[k]); continue; }
      k -= q.size();
      if (k == (s ? clients : 1) * acts) { mc::note("a client joins"); at.join(); late--; clients++; continue; }
      int i = k / acts, act = k % acts;
      auto& c = *at.clients[i].c;
      note_path n{note_key{"n"}};
      if (at.notes.empty()) at.notes.push_back(n);
      auto an_item = [&] { if (at.items.empty()) at.items.push_back({list_key{1}, item_key{-1}}); return mc::pick(at.items); };
      mc::note(mc::str("client ", i, ": ", act));
      switch (act)
      {
      case 0: at.look(i, n); break;
      case 1: nbdl::apply_message(c, message::make_upstream_update(n, message::no_uid, nbdl::string(mc::str("v", next++)))); break;
      case 2: nbdl::apply_message(c, message::make_upstream_delete(n, message::no_uid)); break;
      case 3: nbdl::apply_message(c, message::make_upstream_create(message::make_create_path<item_key>(hana::make_tuple(list_key{1})), message::no_uid, item{next++, "made"})); break;
      case 4: at.look(i, an_item()); break;
      case 5: nbdl::apply_message(c, message::make_upstream_update(an_item(), message::no_uid, item{next++, "changed"})); break;
      case 6: nbdl::apply_message(c, message::make_upstream_delete(an_item(), message::no_uid)); break;
      }
      mc::state(at.state());
    }
    at.settle();
    if (!mc::failed()) at.settled();
    mc::state(at.state());
  }
}
SCENARIO(one_value) { run(2, mc::tier(5, 6), true); }
SCENARIO(items) { run(2, mc::tier(3, 4), false); }
SCENARIO(three_clients) { run(3, mc::tier(3, 4), true); }
SCENARIO(one_client) { run(1, mc::tier(4, 5), false); }
// a client that joins when others have sent and been told something
SCENARIO(late_client) { run(1, mc::tier(5, 6), true, 1); }
SCENARIO(late_clients_and_items) { run(1, mc::tier(4, 5), false, 2); }
