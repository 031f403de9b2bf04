#include <functional>
#include "ctx.hpp"

namespace my
{
  // a store that does what the scenario decided
  struct spy_tag { };
  template <typename Path, typename Entity> struct spy { using hana_tag = spy_tag; using path = Path; using entity = Entity; };
  inline bool changes = false;         // result of apply_message
  inline int holds = 0;                // 0 trigger_read 1 unresolved 2 a value
  inline int foreign_changes[4] = {};  // number of paths each store reports for a foreign message
  struct spy_context { };
}
namespace nbdl
{
  template <> struct make_def_impl<my::spy_context>
  { static constexpr auto apply() { return my_def::make<my::actor_tag<0>, my::actor_tag<0>, my::actor_tag<0>, my::spy_tag>(); } };
  template <> struct make_store_impl<my::spy_tag>
  {
    template <typename P, typename E> static constexpr auto apply(P, E) -> my::spy<typename P::type, typename E::type> { return {}; }
  };
  template <> struct apply_message_impl<my::spy_tag>
  {
    template <typename S, typename M> static bool apply(S& s, M&& m)
    {
      my::say(mc::str("store", my::index_of<typename S::path>), my::text(m));
      return my::changes;
    }
  };
  template <> struct apply_foreign_message_impl<my::spy_tag>
  {
    template <typename S, typename M, typename F> static void apply(S& s, M&& m, F&& f)
    {
      constexpr int i = my::index_of<typename std::decay_t<S>::path>;
      my::say(mc::str("foreign", i), my::text(m));
      for (int n = 0; n < my::foreign_changes[i]; n++) f(my::make_path<typename std::decay_t<S>::path>(100 * (n + 1)));
    }
  };
  template <> struct match_impl<my::spy_tag>
  {
    template <typename S, typename K, typename F> static void apply(S&& s, K&& k, F&& f)
    {
      using E = typename std::decay_t<S>::entity;
      if (my::holds == 0) f(nbdl::trigger_read{});
      else if (my::holds == 1) f(nbdl::unresolved{});
      else { E e{77, my::show(k)}; f(e); }
    }
  };
}

namespace
{
  using namespace my;
  using want_t = std::map<std::string, std::vector<std::string>>;
  void to_consumers(want_t& w, std::string const& t) { for (int i = 3; i < 8; i++) if (is_consumer(i)) w[mc::str("actor", i)].push_back(t); }
  void to_state(want_t& w, std::string const& t) { for (int i = 3; i < 8; i++) if (is_state_consumer(i)) w[mc::str("actor", i)].push_back("changed " + t); }

  // any actor can send
  template <typename C, typename M> void send(C& c, int who, M const& m)
  {
    switch (who)
    {
      case 0: nbdl::apply_message(c->template actor<0>().context, m); break;
      case 1: nbdl::apply_message(c->template actor<3>().context, m); break;
      case 2: nbdl::apply_message(c->template actor<7>().context, m); break;
      default: nbdl::apply_message(*c, m);
    }
  }

  enum { UC, UR, UU, UD, DC, DR, DU, DD, UCK, KINDS };
  // makes the message and calls f(message)
  template <typename Point, typename F>
  void make(Point, int kind, int n, bool with_uid, F f)
  {
    using P = typename Point::path; using E = typename Point::entity; using K = typename Point::last;
    P p = make_path<P>(n);
    E e{n, "payload"};
    auto go = [&](auto uid)
    {
      switch (kind)
      {
        case UC: f(message::make_upstream_create(message::make_create_path<K>(make_path<typename Point::parent>(n)), message::no_uid, e)); break;
        case UCK: f(message::make_upstream_create(p, uid, e)); break;
        case UR: f(message::make_upstream_read(p, uid)); break;
        case UU: f(message::make_upstream_update(p, uid, e)); break;
        case UD: f(message::make_upstream_delete(p, uid)); break;
        case DC: f(message::make_downstream_create(p, uid, e, message::no_is_confirmed)); break;
        case DR: f(message::make_downstream_read(p, uid, e)); break;
        case DU: f(message::make_downstream_update(p, uid, e, message::no_is_confirmed)); break;
        default: f(message::make_downstream_delete(p, uid, message::no_is_confirmed)); break;
      }
    };
    if (with_uid) go(id{n}); else go(message::no_uid);
  }

  // what must have happened for one message
  template <typename M>
  void specify(want_t& w, int point, int kind, M const& m, int n)
  {
    std::string t = text(m);
    std::string own = mc::str("actor", owner[point]);
    if (kind == UC) { w[own].push_back(t); return; }   // no complete path: the owner decides
    if (kind == UR)
    {
      if (holds == 0) { w[mc::str("store", point)].push_back(t); w[own].push_back(t); }
      if (holds == 2) with_point(point, [&](auto pt)
      {
        using E = typename decltype(pt)::entity; using P = typename decltype(pt)::path;
        E e{77, show(make_path<P>(n))};
        if constexpr (message::is_read<M> && message::is_upstream<M>)
          if constexpr (std::is_same_v<std::decay_t<decltype(message::get_path(m))>, P>)
            to_consumers(w, text(message::to_downstream_read(m, e)));
      });
    }
    else
    {
      w[mc::str("store", point)].push_back(t);
      if (changes) to_state(w, show(message::get_path(m)));
      if (kind < DC || kind == UCK) w[own].push_back(t); else to_consumers(w, t);
    }
    for (int l : listeners[point])
    {
      w[mc::str("foreign", l)].push_back(t);
      for (int i = 0; i < foreign_changes[l]; i++) with_point(l, [&](auto pt) { to_state(w, show(make_path<typename decltype(pt)::path>(100 * (i + 1)))); });
    }
  }
  // a message reaches no actor before the store has it
  void applied_first(int point, std::string const& t, std::string const& what)
  {
    bool stored = false;
    for (auto& e : log())
    {
      if (e.who == mc::str("store", point) && e.what == t) stored = true;
      else if (e.what == t && e.who.rfind("actor", 0) == 0) mc::check(stored, what + ": " + e.who + " got the message before the store");
      else if (e.what.rfind("changed", 0) == 0 && e.who.rfind("actor", 0) == 0 && !stored) mc::check(stored || log().size() == 0, what + ": " + e.who + " was notified before the store had the message");
    }
  }
}

SCENARIO(one_message)
{
  int point = mc::choose(4), kind = mc::choose(KINDS), who = mc::choose(4);
  bool uid = kind != UC && mc::flip();
  changes = mc::flip();
  holds = kind == UR ? mc::choose(3) : 0;
  for (int i = 0; i < 4; i++) foreign_changes[i] = 0;
  for (int l : listeners[point]) foreign_changes[l] = mc::choose(3);
  auto c = new_context<spy_context>();
  mc::check(log().empty(), "construction sent something");
  with_point(point, [&](auto pt)
  {
    make(pt, kind, 5, uid, [&](auto const& m)
    {
      want_t w;
      specify(w, point, kind, m, 5);
      send(c, who, m);
      std::string t = text(m);
      mc::note(t);
      expect(w, t);
      if (kind != UC && !(kind == UR && holds != 0)) applied_first(point, t, t);
      mc::step();
      mc::state(mc::str(point, kind, uid, changes, holds, foreign_changes[2], foreign_changes[3]));
    });
  });
}

// a context keeps nothing between messages: each of a sequence has its own effects, exactly once
SCENARIO(sequences)
{
  int depth = mc::tier(2, 3);
  changes = mc::flip();
  holds = mc::choose(3);
  for (int i = 0; i < 4; i++) foreign_changes[i] = i == 3;
  auto c = new_context<spy_context>();
  want_t w;
  std::string st;
  for (int i = 0; i < depth; i++)
  {
    int point = mc::choose(4), kind = mc::choose(KINDS);
    with_point(point, [&](auto pt)
    {
      make(pt, kind, 5 * i, false, [&](auto const& m)
      {
        specify(w, point, kind, m, 5 * i);
        send(c, i % 4, m);
        mc::note(text(m));
      });
    });
    st += mc::str(point, ".", kind, ",");
    mc::step();
    expect(w, "sequence");
    if (mc::failed()) return;
  }
  mc::state(st);
}

// the owner answers from inside the call that told it
SCENARIO(answer_in_the_call)
{
  int point = mc::choose(4);
  int up = mc::choose(5); if (up == 4) up = UCK;
  int down = DC + mc::choose(4);
  int other = mc::choose(4);
  changes = mc::flip(); holds = 0;
  for (int i = 0; i < 4; i++) foreign_changes[i] = mc::choose(2);
  auto c = new_context<spy_context>();
  want_t w;
  with_point(other, [&](auto pt)
  {
    make(pt, down, 50, false, [&](auto const& m) { specify(w, other, down, m, 50); });
    reaction() = [&c, pt, down] { make(pt, down, 50, false, [&](auto const& m) { nbdl::apply_message(c->template actor<0>().context, m); }); };
  });
  with_point(point, [&](auto pt)
  {
    make(pt, up, 5, false, [&](auto const& m)
    {
      specify(w, point, up, m, 5);
      send(c, 1, m);
      mc::note(text(m));
      expect(w, "answer in the call");
      if (up != UC) applied_first(point, text(m), text(m));
    });
  });
  mc::step(2);
  mc::state(mc::str(point, up, other, down, changes));
}

// a user of a context matches a path
SCENARIO(match_in_context)
{
  int point = mc::choose(4), who = mc::choose(4);
  holds = mc::choose(3);
  changes = mc::flip();
  for (int i = 0; i < 4; i++) foreign_changes[i] = mc::choose(2);
  auto c = new_context<spy_context>();
  with_point(point, [&](auto pt)
  {
    using P = typename decltype(pt)::path; using E = typename decltype(pt)::entity;
    P p = make_path<P>(3);
    std::string got; int calls = 0;
    auto f = [&](auto const& x)
    {
      calls++;
      using X = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<X, nbdl::unresolved>) got = "unresolved";
      else if constexpr (std::is_same_v<X, nbdl::trigger_read>) got = "trigger_read";
      else if constexpr (std::is_same_v<X, E>) got = show(x);
      else got = "?";
    };
    switch (who)
    {
      case 0: nbdl::match(c->template actor<1>().context, p, f); break;
      case 1: nbdl::match(c->template actor<4>().context, p, f); break;
      case 2: nbdl::match(c->template actor<5>().context, p, f); break;
      default: nbdl::match(*c, p, f);
    }
    std::string want = holds == 2 ? show(E{77, show(p)}) : "unresolved";
    mc::check(calls == 1 && got == want, mc::str("match yields ", got, " (", calls, " times) instead of ", want));
    want_t w;
    if (holds == 0) specify(w, point, UR, message::make_upstream_read(p, message::no_uid), 3);
    expect(w, "match");
    mc::note(mc::str("match ", show(p), " ", got));
    mc::step();
    mc::state(mc::str(point, holds, who));
  });
}
