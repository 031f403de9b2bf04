// Contexts with the library's own stores and producers.
#include "ctx.hpp"
#include <nbdl/apply_action.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/echo_producer.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/null_store.hpp>

namespace my
{
  struct map_context { };
  struct echo_context { };
  struct action_context { };

  // the state of a context_store: actions are added to it
  struct counter_tag { };
  struct counter { using hana_tag = counter_tag; int a = 0; std::string b; };
}
namespace my
{
  // a context of its own that only tells what it is given
  struct told_tag { };
  struct told { using hana_tag = told_tag; std::vector<std::string>* l; };
  struct only { };
  inline std::string show(only) { return "only"; }
}
namespace my
{
  // a store that only says how it takes messages of others
  struct partner_tag { };
  struct partner { using hana_tag = partner_tag; int tells; int heard = 0; };
}
namespace nbdl
{
  template <> struct apply_foreign_message_impl<my::partner_tag>
  {
    template <typename S, typename M, typename Fn> static void apply(S&& s, M const&, Fn&& fn) { s.heard++; for (int i = 0; i < s.tells; i++) fn(my::path<0>(i)); }
  };
  template <> struct apply_message_impl<my::told_tag>
  {
    template <typename S, typename M> static void apply(S&& s, M const& m)
    {
      auto t = my::text(m), at = my::show(message::get_path(m)), whole = my::show(message::get_normalized_path(m));
      s.l->push_back(t.replace(t.find(at), at.size(), whole));
    }
  };
  template <> struct make_def_impl<my::map_context>
  { static constexpr auto apply() { return my_def::make<my::actor_tag<0>, my::actor_tag<0>, my::actor_tag<0>, nbdl::map_store_tag>(); } };
  template <> struct make_def_impl<my::echo_context>
  { static constexpr auto apply() { return my_def::make<my::actor_tag<0>, nbdl::echo_producer, nbdl::echo_producer, nbdl::map_store_tag>(); } };
  template <> struct make_def_impl<my::action_context>
  { static constexpr auto apply() { return my_def::make<my::actor_tag<0>, my::actor_tag<0>, my::actor_tag<0>, nbdl::context_store<my::counter>>(); } };
  template <> struct apply_action_impl<my::counter_tag>
  {
    template <typename S, typename A> static bool apply(S& s, A const& e) { bool r = e.a != 0 || !e.b.empty(); s.a += e.a; s.b += e.b; return r; }
  };
}

namespace
{
  using namespace my;
  using want_t = std::map<std::string, std::vector<std::string>>;
  void to_consumers(want_t& w, std::string const& t) { for (int i = 3; i < 8; i++) if (is_consumer(i)) w[mc::str("actor", i)].push_back(t); }
  void to_state(want_t& w, std::string const& t) { for (int i = 3; i < 8; i++) if (is_state_consumer(i)) w[mc::str("actor", i)].push_back("changed " + t); }

  // "-" nothing known, "?" read in progress, "x" not found, else a value
  template <typename C, typename P> std::string look(C& c, P const& p, bool producer)
  {
    std::string r; int calls = 0;
    auto f = [&](auto const& x)
    {
      using X = std::decay_t<decltype(x)>;
      calls++;
      if constexpr (std::is_same_v<X, nbdl::unresolved>) r = "?";
      else if constexpr (std::is_same_v<X, nbdl::not_found>) r = "x";
      else if constexpr (std::is_same_v<X, nbdl::trigger_read>) r = "-";
      else r = show(x);
    };
    if (producer) nbdl::match(c->template actor<1>().context, p, f); else nbdl::match(*c, p, f);
    mc::check(calls == 1, mc::str("match called its function ", calls, " times"));
    return r;
  }
}

// every history of reads, matches and messages of two paths of two access points
// through a context whose stores are map_stores
SCENARIO(map_stores)
{
  int depth = mc::tier(3, 4);
  auto c = new_context<map_context>();
  std::map<std::pair<int, int>, std::string> model;   // (point, number of path) -> what it holds
  want_t w;
  for (int step = 0; step < depth; step++)
  {
    int point = mc::choose(2) * 2;      // points 0 and 2
    int n = mc::choose(2) * 10;
    int op = mc::choose(10);
    if (op == 9) break;
    auto& held = model[{point, n}];
    if (held.empty()) held = "-";
    with_point(point, [&](auto pt)
    {
      using P = typename decltype(pt)::path; using E = typename decltype(pt)::entity;
      auto p = make_path<P>(n);
      E e{step, "v"};
      std::string own = mc::str("actor", owner[point]);
      auto send = [&](auto const& m) { mc::note(text(m)); nbdl::apply_message(c->template actor<1>().context, m); };
      switch (op)
      {
        case 0: // match
        {
          mc::note("match " + show(p));
          std::string got = look(c, p, step & 1), want = held == "-" ? "?" : held;
          mc::check(got == want, "match yields " + got + " instead of " + want);
          if (held == "-") { held = "?"; w[own].push_back(text(message::make_upstream_read(p, message::no_uid))); }
          break;
        }
        case 1: // read
        {
          auto m = message::make_upstream_read(p, id{n});
          if (held == "-") { held = "?"; w[own].push_back(text(m)); }
          else if (held == "x") to_consumers(w, text(message::to_downstream_read(m, nbdl::not_found{})));
          else if (held != "?") to_consumers(w, "down read " + show(p) + show(id{n}) + held);
          send(m);
          break;
        }
        case 2: { auto m = message::make_upstream_update(p, message::no_uid, e); w[own].push_back(text(m)); send(m); break; }
        case 3: { auto m = message::make_upstream_delete(p, message::no_uid); w[own].push_back(text(m)); send(m); break; }
        case 4: { auto m = message::make_downstream_create(p, message::no_uid, e, message::no_is_confirmed); held = show(e); to_state(w, show(p)); to_consumers(w, text(m)); send(m); break; }
        case 5:
        {
          auto m = message::make_downstream_read(p, message::no_uid, e);
          if (held == "-" || held == "?") { held = show(e); to_state(w, show(p)); }
          to_consumers(w, text(m));
          send(m);
          break;
        }
        case 6:
        {
          auto m = message::make_downstream_read(p, message::no_uid, nbdl::not_found{});
          if (held == "-" || held == "?") { held = "x"; to_state(w, show(p)); }
          to_consumers(w, text(m));
          send(m);
          break;
        }
        case 7: { auto m = message::make_downstream_update(p, id{3}, e, true); held = show(e); to_state(w, show(p)); to_consumers(w, text(m)); send(m); break; }
        default:
        {
          auto m = message::make_downstream_delete(p, message::no_uid, message::no_is_confirmed);
          if (held != "-") to_state(w, show(p));
          else
          {
            // whether deleting what nobody knew counts as a change is free
            send(m);
            to_consumers(w, text(m));
            auto r = received();
            auto count = [&](std::string const& who) { int k = 0; for (auto& x : r[who]) k += x == "changed " + show(p); return k; };
            auto wanted = [&](std::string const& who) { int k = 0; for (auto& x : w[who]) k += x == "changed " + show(p); return k; };
            if (count("actor4") > wanted("actor4")) to_state(w, show(p));
            break;
          }
          held = "-";
          to_consumers(w, text(m));
          send(m);
        }
      }
    });
    mc::step();
    expect(w, "map_store context");
    if (mc::failed()) return;
    std::string st;
    for (auto& [k, v] : model) st += mc::str(k.first, ".", k.second, "=", v, ";");
    mc::state(st);
  }
}

// echo_producer: what is sent upstream comes back downstream once; a create gets a key nobody had
SCENARIO(echo)
{
  int depth = mc::tier(3, 4);
  auto c = new_context<echo_context>();
  std::map<std::string, std::string> model;
  std::set<std::string> created;
  std::size_t seen = 0;
  for (int step = 0; step < depth; step++)
  {
    int point = 2 + mc::choose(2);
    int op = mc::choose(6);
    bool with_uid = mc::flip();
    int n = 1000 + mc::choose(2) * 10;
    with_point(point, [&](auto pt)
    {
      using P = typename decltype(pt)::path; using E = typename decltype(pt)::entity; using K = typename decltype(pt)::last;
      auto p = make_path<P>(n);
      E e{step, "v"};
      want_t w;
      log().clear();
      auto updown = [&](auto const& m, std::string const& held) { to_state(w, show(p)); to_consumers(w, held); mc::note(text(m)); nbdl::apply_message(*c, m); };
      switch (op)
      {
        case 0:
        {
          auto at = message::make_create_path<K>(make_path<typename decltype(pt)::parent>(n));
          if (with_uid) nbdl::apply_message(c->template actor<4>().context, message::make_upstream_create(at, id{1}, e));
          else nbdl::apply_message(c->template actor<4>().context, message::make_upstream_create(at, message::no_uid, e));
          auto r = received();
          if (!mc::check(r["actor3"].size() == 1, "a create must come back once")) return;
          std::string t = r["actor3"][0];
          // the completed path: parent path and a new key
          P q = make_path<P>(n);
          bool found = false;
          auto end = t.find(" )"), colon = t.rfind(':', end);
          if (end != t.npos && colon != t.npos)
          { hana::back(q).value = std::atoi(t.c_str() + colon + 1); found = t == "down create " + show(q) + (with_uid ? "#1" : "") + show(e); }
          if (!mc::check(found, "a create came back as " + t)) return;
          mc::check(created.insert(show(hana::back(q))).second, "a key was given twice: " + show(q));
          to_state(w, show(q)); to_consumers(w, t);
          mc::check(look(c, q, false) == show(e), "the created value is not in the store");
          model[mc::str(point, show(q))] = show(e);
          break;
        }
        case 1:
        {
          if (with_uid) updown(message::make_upstream_update(p, id{1}, e), "down update " + show(p) + "#1" + show(e));
          else updown(message::make_upstream_update(p, message::no_uid, e), "down update " + show(p) + show(e));
          model[mc::str(point, show(p))] = show(e);
          mc::check(look(c, p, false) == show(e), "the updated value is not in the store");
          break;
        }
        case 2:
        {
          bool known = model.count(mc::str(point, show(p)));
          if (with_uid) updown(message::make_upstream_delete(p, id{1}), "down delete " + show(p) + "#1");
          else updown(message::make_upstream_delete(p, message::no_uid), "down delete " + show(p));
          model.erase(mc::str(point, show(p)));
          if (!known && received()["actor4"].empty()) for (auto& [k, l] : w) std::erase_if(l, [](auto& x) { return x.rfind("changed", 0) == 0; });
          break;
        }
        case 3:
        {
          // there is nothing the producer knows
          std::string held = model.count(mc::str(point, show(p))) ? model[mc::str(point, show(p))] : "-";
          std::string answer = "down read " + show(p) + (with_uid ? "#1" : "");
          if (held == "-") { to_state(w, show(p)); to_consumers(w, answer + "not_found"); model[mc::str(point, show(p))] = "x"; }
          else to_consumers(w, answer + (held == "x" ? "not_found" : held));
          if (with_uid) { auto m = message::make_upstream_read(p, id{1}); mc::note(text(m)); nbdl::apply_message(*c, m); }
          else { auto m = message::make_upstream_read(p, message::no_uid); mc::note(text(m)); nbdl::apply_message(*c, m); }
          mc::check(look(c, p, false) == (held == "-" ? "x" : held), "the answer to the read is not in the store");
          break;
        }
        case 4:
        {
          std::string held = model.count(mc::str(point, show(p))) ? model[mc::str(point, show(p))] : "-";
          if (held == "-") { to_state(w, show(p)); to_consumers(w, "down read " + show(p) + "not_found"); model[mc::str(point, show(p))] = "x"; }
          mc::note("match " + show(p));
          std::string got = look(c, p, with_uid);
          mc::check(got == held || (held == "-" && (got == "?" || got == "x")), "match yields " + got);
          mc::check(look(c, p, false) == (held == "-" ? "x" : held), "the answer to the match is not in the store");
          break;
        }
        default:
        {
          // a create that already has its key
          auto m = message::make_upstream_create(p, message::no_uid, e);
          updown(m, "down create " + show(p) + show(e));
          model[mc::str(point, show(p))] = show(e);
          mc::check(look(c, p, false) == show(e), "the created value is not in the store");
        }
      }
      expect(w, "echo");
    });
    mc::step();
    if (mc::failed()) return;
  }
  std::string st; for (auto& [k, v] : model) st += k + v;
  mc::state(st);
}

// context_store: only a downstream update acts on the state
SCENARIO(context_stores)
{
  int depth = mc::tier(3, 4);
  auto c = new_context<action_context>();
  counter model[2];
  want_t w;
  for (int step = 0; step < depth; step++)
  {
    int which = mc::choose(2);          // points 0 and 2
    int op = mc::choose(7);
    int a = mc::choose(2) * (step + 1);
    with_point(which * 2, [&](auto pt)
    {
      using P = typename decltype(pt)::path; using E = typename decltype(pt)::entity;
      auto p = make_path<P>(step);
      std::string own = mc::str("actor", owner[which * 2]);
      E e{a, a ? "x" : ""};
      auto send = [&](auto const& m) { mc::note(text(m)); nbdl::apply_message(c->template actor<1>().context, m); };
      auto up = [&](auto const& m) { w[own].push_back(text(m)); send(m); };
      auto down = [&](auto const& m) { to_consumers(w, text(m)); send(m); };
      switch (op)
      {
        case 0: up(message::make_upstream_update(p, message::no_uid, e)); break;
        case 1: up(message::make_upstream_delete(p, message::no_uid)); break;
        case 2: up(message::make_upstream_create(p, message::no_uid, e)); break;
        case 3: down(message::make_downstream_create(p, message::no_uid, e, message::no_is_confirmed)); break;
        case 4: down(message::make_downstream_delete(p, message::no_uid, message::no_is_confirmed)); break;
        case 5: down(message::make_downstream_read(p, message::no_uid, e)); break;
        default: model[which].a += e.a; model[which].b += e.b; if (a) to_state(w, show(p)); down(message::make_downstream_update(p, message::no_uid, e, message::no_is_confirmed));
      }
    });
    mc::step();
    expect(w, "context_store");
    for (int i = 0; i < 2; i++) with_point(i * 2, [&](auto pt)
    {
      auto p = make_path<typename decltype(pt)::path>(0);
      int calls = 0;
      nbdl::match(*c, p, [&](auto const& x)
      {
        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, counter>) { calls++; mc::check(x.a == model[i].a && x.b == model[i].b, mc::str("state is ", x.a, x.b)); }
      });
      mc::check(calls == 1, "match of a context_store yields its state once");
      auto const& cc = *c;
      mc::check(nbdl::get(cc, p).a == model[i].a, "get of a context_store yields its state");
    });
    if (mc::failed()) return;
  }
  mc::state(mc::str(model[0].a, model[0].b, ".", model[1].a, model[1].b));
}

// the keys that echo_producer gives: creates of every form in every order, each of
// them as often in each execution as the keys of a form may be counted on their own
SCENARIO(echo_keys)
{
  auto c = new_context<echo_context>();
  std::set<std::string> created;
  std::vector<int> left{0, 0, 1, 1, 2, 2, 3, 3};
  while (left.size() && !mc::failed())
  {
    std::vector<int> kinds(left);
    kinds.erase(std::unique(kinds.begin(), kinds.end()), kinds.end());
    int k = mc::pick(kinds);
    left.erase(std::find(left.begin(), left.end(), k));
    with_point(2 + k / 2, [&](auto pt)
    {
      using P = typename decltype(pt)::path; using E = typename decltype(pt)::entity; using K = typename decltype(pt)::last;
      E e{int(left.size()), "v"};
      log().clear();
      auto at = message::make_create_path<K>(make_path<typename decltype(pt)::parent>(1000));
      if (k % 2) nbdl::apply_message(*c, message::make_upstream_create(at, id{1}, e));
      else nbdl::apply_message(*c, message::make_upstream_create(at, message::no_uid, e));
      auto r = received();
      if (!mc::check(r["actor3"].size() == 1, "a create must come back once")) return;
      std::string t = r["actor3"][0];
      t.erase(t.find(")"));
      mc::note(t);
      mc::check(created.insert(t).second, "a key was given twice: " + t);
    });
    mc::step();
  }
  mc::state(mc::str(created.size()));
}

// the kinds of keys the echo_producer makes: numbers, wrapped numbers, and the only value of an empty type
template <typename K, typename Parent> void echoed(std::set<std::string>& keys, Parent const& parent, bool with_uid)
{
  std::vector<std::string> l;
  using E = nbdl::echo_producer_impl<told>;
  E producer(nbdl::actor_initializer<told, nbdl::echo_producer>{told{&l}, {}});
  ent<10> e{7, "v"};
  auto at = message::make_create_path<K>(parent);
  if (with_uid) nbdl::send_upstream_message(producer, message::make_upstream_create(at, id{1}, e));
  else nbdl::send_upstream_message(producer, message::make_upstream_create(at, message::no_uid, e));
  if (!mc::check(l.size() == 1, mc::str("a create came back ", l.size(), " times"))) return;
  mc::note(l[0]);
  std::string p = show(parent), begin = "down create " + p.substr(0, p.size() - 1), end = " )" + std::string(with_uid ? "#1" : "") + show(e);
  if (!mc::check(l[0].size() > begin.size() + end.size() && l[0].rfind(begin, 0) == 0 && l[0].substr(l[0].size() - end.size()) == end, "a create came back as " + l[0])) return;
  std::string k = l[0].substr(begin.size(), l[0].size() - end.size() - begin.size());
  if (std::is_empty_v<K>) mc::check(k == "only", "the key is " + k);
  else mc::check(keys.insert(k).second, "a key was given twice: " + k);
}
// a long history of creates: no key comes again
template <typename K> void many(int amount)
{
  std::set<std::string> keys;
  std::vector<std::string> l;
  nbdl::echo_producer_impl<told> producer(nbdl::actor_initializer<told, nbdl::echo_producer>{told{&l}, {}});
  ent<10> e{7, "v"};
  for (int i = 0; i < amount; i++)
  {
    l.clear();
    nbdl::send_upstream_message(producer, message::make_upstream_create(message::make_create_path<K>(my::path<1>(3)), message::no_uid, e));
    if (!mc::check(l.size() == 1, mc::str("create ", i, " came back ", l.size(), " times"))) return;
    if (!mc::check(keys.insert(l[0]).second, mc::str("create ", i, " has the key of one before: ", l[0]))) return;
  }
  mc::step(amount); mc::eval(amount);
}
SCENARIO(echo_many)
{
  switch (mc::choose(3))
  {
    case 0: many<int>(mc::tier(70000, 200000)); mc::state("int"); break;
    case 1: many<long long>(mc::tier(70000, 200000)); mc::state("long long"); break;
    case 2: many<key<40>>(mc::tier(70000, 200000)); mc::state("wrapped"); break;
  }
}
SCENARIO(echo_kinds)
{
  // every order of creates of paths that end in keys of different kinds
  std::map<int, std::set<std::string>> keys;
  int depth = mc::tier(3, 4);
  for (int i = 0; i < depth; i++)
  {
    int k = mc::choose(6);
    bool uid = mc::flip();
    switch (k)
    {
      case 0: echoed<int>(keys[0], my::path<1>(i), uid); break;
      case 1: echoed<long long>(keys[1], my::path<1>(i), uid); break;
      case 2: echoed<key<40>>(keys[2], my::path<1>(i), uid); break;
      case 3: echoed<only>(keys[3], my::path<1>(i), uid); break;
      case 4: echoed<int>(keys[4], hana::tuple<>{}, uid); break;
      default: echoed<key<40>>(keys[5], hana::make_tuple(only{}, key<1>(i)), uid); break;
    }
    mc::step();
    if (mc::failed()) return;
  }
  std::string st; for (auto& [k, v] : keys) st += mc::str(k, ".", v.size(), ";");
  mc::state(st);
}

// a store that only has apply_foreign_message is given messages by it
SCENARIO(foreign_only)
{
  std::vector<int> heard;
  partner s{0};
  int depth = mc::tier(3, 5), n = 0;
  for (int i = 0; i < depth; i++)
  {
    s.tells = mc::choose(3);
    bool r;
    switch (mc::choose(3))
    {
      case 0: r = nbdl::apply_message(s, message::make_upstream_read(my::path<0>(i), message::no_uid)); break;
      case 1: r = nbdl::apply_message(s, message::make_downstream_delete(my::path<0>(i), message::no_uid, message::no_is_confirmed)); break;
      default: r = nbdl::apply_message(s, message::make_upstream_update(my::path<0>(i), id{1}, std::string("x"))); break;
    }
    n++;
    mc::check(r == (s.tells > 0), mc::str("a store that told ", s.tells, " paths ", r ? "has" : "has not", " changed"));
    mc::check(s.heard == n, mc::str("a store heard ", s.heard, " of ", n, " messages"));
    mc::state(mc::str(i, s.tells)); mc::step(); mc::eval();
  }
}
