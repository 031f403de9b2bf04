#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_delta.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/delta.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/get.hpp>
#include <nbdl/local_version.hpp>
#include <nbdl/make_delta.hpp>
#include <nbdl/match.hpp>
#include <nbdl/message.hpp>
#include <nbdl/uid.hpp>
#include <string>

namespace hana = boost::hana;
namespace message = nbdl::message;
namespace my { struct thing { int a; std::string b; }; }
namespace nbdl { NBDL_ENTITY(my::thing, a, b); }

namespace
{
  using my::thing;
  using delta = nbdl::delta<thing>;
  bool eq(thing const& x, thing const& y) { return x.a == y.a && x.b == y.b; }
  std::string show(thing const& t) { return mc::str("{", t.a, ",", t.b, "}"); }

  // a change as the specification sees it
  struct change { bool has_a = false, has_b = false; int a = 0; std::string b; };
  void on(change const& c, thing& t) { if (c.has_a) t.a = c.a; if (c.has_b) t.b = c.b; }
  std::string show(change const& c) { return mc::str(c.has_a ? mc::str("a=", c.a) : "", c.has_b ? " b=" + c.b : ""); }
  delta to_delta(change const& c)
  {
    delta d{};
    if (c.has_a) hana::at_c<0>(d.storage) = nbdl::make_optional(c.a);
    if (c.has_b) hana::at_c<1>(d.storage) = nbdl::make_optional(c.b);
    return d;
  }
  change make_change(int kind, int i)
  {
    switch (kind)
    {
      case 0: return {true, false, i, ""};
      case 1: return {false, true, 0, std::string(i, 'b')};
      case 2: return {true, true, i, std::string(i, 'b')};
      case 3: return {true, false, 0, ""};      // the initial value again
      default: return {};                       // no member at all
    }
  }
  // every uid shares most bytes with the others; only the last differs
  nbdl::uid make_uid(int i) { nbdl::uid u{}; u[0] = 7; u[14] = uint8_t(i >> 8); u[15] = uint8_t(i); return u; }

  struct pending { nbdl::uid id; change c; };

  template <typename Path>
  struct history
  {
    nbdl::local_version<thing> store{thing{0, ""}};
    thing confirmed{0, ""};      // what the root producer holds
    thing visible{0, ""};        // what the user must see
    std::vector<pending> waiting;
    std::vector<change> since;   // changes in effect since the last quiet point
    Path path{};
    int n = 0;
    bool via_create = false;

    thing read()
    {
      thing got{}; int calls = 0;
      nbdl::match(store, [&](auto const& x) { calls++; got = thing{x.a, x.b}; });
      mc::check(calls == 1, "match must yield the value once");
      mc::check(eq(got, nbdl::get(store)), "get and match disagree");
      return got;
    }
    void compare(char const* what, bool changed, thing const& before)
    {
      thing now = read();
      mc::check(eq(now, visible), mc::str(what, ": shows ", show(now), " instead of ", show(visible)));
      mc::check(changed == !eq(now, before), mc::str(what, ": change reported as ", changed, " from ", show(before), " to ", show(now)));
      if (waiting.empty()) mc::check(eq(now, confirmed), mc::str(what, ": with nothing pending it shows ", show(now), " but the producer holds ", show(confirmed)));
    }
    void local(change c)
    {
      thing before = read();
      pending p{make_uid(++n), c};
      auto m = message::make_upstream_update(path, p.id, to_delta(c));
      bool changed = nbdl::apply_message(store, m);
      waiting.push_back(p);
      since.push_back(c);
      on(c, visible);
      mc::note(mc::str("local ", n, " ", show(c)));
      compare("local change", changed, before);
    }
    void local_create(change c)
    {
      thing before = read();
      pending p{make_uid(++n), c};
      bool changed = nbdl::apply_message(store, message::make_downstream_update(path, p.id, to_delta(c), false));
      waiting.push_back(p);
      since.push_back(c);
      on(c, visible);
      mc::note(mc::str("unconfirmed downstream ", n, " ", show(c)));
      compare("unconfirmed change", changed, before);
    }
    void confirm(std::size_t i)
    {
      thing before = read();
      pending p = waiting[i];
      waiting.erase(waiting.begin() + i);
      auto m = message::make_upstream_update(path, p.id, to_delta(p.c));
      bool changed = nbdl::apply_message(store, message::to_downstream_confirmed(m));
      on(p.c, confirmed);
      since.push_back(p.c);
      if (waiting.empty())
      {
        for (auto& c : since) on(c, visible);
        since.clear();
      }
      mc::note(mc::str("confirm ", show(p.c)));
      compare("confirmation", changed, before);
    }
    void foreign(change c)
    {
      thing before = read();
      bool changed = nbdl::apply_message(store, message::make_downstream_update(path, make_uid(30000 + ++n), to_delta(c), true));
      on(c, confirmed);
      on(c, visible);
      since.push_back(c);
      if (waiting.empty()) since.clear();
      mc::note(mc::str("foreign ", show(c)));
      compare("foreign change", changed, before);
    }
    // the value is replaced as a whole: what other producers did before is in it
    void snapshot(thing v)
    {
      bool changed = via_create ? nbdl::apply_message(store, message::make_downstream_create(path, message::no_uid, v, true))
                                : nbdl::apply_message(store, message::make_downstream_read(path, message::no_uid, v));
      n++;
      confirmed = v; visible = v; since.clear();
      mc::note(mc::str("full payload ", show(v)));
      thing now = read();
      mc::check(changed, "a full payload is reported as a change");
      mc::check(eq(now, v), mc::str("full payload: shows ", show(now), " instead of ", show(v)));
    }
    void record()
    {
      std::string s = show(confirmed) + show(visible);
      for (auto& p : waiting) s += show(p.c) + ";";
      mc::state(s);
    }
  };

  void run(int depth, int kinds, bool with_snapshot, bool drain)
  {
    history<hana::tuple<int>> h;
    for (int i = 0; i < depth && !mc::failed(); i++)
    {
      int w = int(h.waiting.size());
      int c = mc::choose(1 + 2 * kinds + (with_snapshot ? 2 : 0) + w);
      if (c == 0) break;
      c--;
      if (c < kinds) (i & 1) ? h.local_create(make_change(c, i + 1)) : h.local(make_change(c, i + 1));
      else if (c < 2 * kinds) h.foreign(make_change(c - kinds, i + 1));
      else if (c < 2 * kinds + w) h.confirm(c - 2 * kinds);
      else { bool first = c == 2 * kinds + w; h.via_create = !first; h.snapshot(first ? thing{50 + i, "s"} : thing{0, ""}); }
      mc::step();
      h.record();
    }
    // every pending change is confirmed in some order
    while (drain && !h.waiting.empty() && !mc::failed())
    {
      h.confirm(mc::choose(int(h.waiting.size())));
      mc::step();
      h.record();
    }
  }
}

SCENARIO(histories) { run(mc::tier(4, 5), 5, true, true); }
SCENARIO(many_pending) { run(mc::tier(5, 6), 2, false, true); }
SCENARIO(one_member_with_snapshots) { run(mc::tier(5, 7), 1, true, true); }

// a generated uid names one request: all of a session are distinct, equal to themselves, and hash alike
SCENARIO(uids)
{
  auto gen = nbdl::make_uid_generator();
  nbdl::local_version<thing> store{thing{0, ""}};
  std::vector<nbdl::uid> ids;
  int n = mc::tier(6, 12);
  int order = mc::choose(n);
  for (int i = 0; i < n; i++)
  {
    ids.push_back(gen());
    change c{true, false, i + 1, ""};
    nbdl::apply_message(store, message::make_upstream_update(hana::make_tuple(), ids.back(), to_delta(c)));
    mc::check(nbdl::get(store).a == i + 1, "local change is visible at once");
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
    mc::check((ids[i] == ids[j]) == (i == j) && (ids[i] != ids[j]) == (i != j), "uids");
  for (int i = 0; i < n; i++)
  {
    int k = (i + order) % n;
    bool changed = nbdl::apply_message(store, message::make_downstream_update(hana::make_tuple(), ids[k], to_delta({true, false, k + 1, ""}), true));
    int want = i + 1 < n ? n : k + 1;
    mc::check(nbdl::get(store).a == want, mc::str("after confirming ", i + 1, " of ", n, " the value is ", nbdl::get(store).a));
    mc::check(changed == (i + 1 == n && k + 1 != n), "change report");
    mc::step();
  }
  mc::state(mc::str(order));
}

// long histories: as many pending changes as there are, confirmed in many orders with others in between
SCENARIO(hundreds)
{
  std::vector<int> sizes;
  for (int i = 5; i <= mc::tier(20, 70); i++) sizes.push_back(i);
  for (int i : {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}) if (i > sizes.back()) sizes.push_back(i);
  history<hana::tuple<int>> h;
  int n = mc::pick(sizes), order = mc::choose(4), other = mc::choose(4), kinds = mc::choose(2);
  auto between = [&](int i)
  {
    if (other == 0 || i % 7) return;
    if (other == 1) h.foreign(make_change(0, 1000 + i));
    else if (other == 2) h.foreign(make_change(1, i % 5 + 400));
    else if (i == n / 7 * 7) h.snapshot(thing{2000, "s"});
  };
  for (int i = 0; i < n && !mc::failed(); i++) { i % 3 ? h.local(make_change(kinds ? i % 5 : 0, i + 1)) : h.local_create(make_change(kinds ? i % 4 : 1, i + 1)); between(i); mc::step(); }
  for (int i = 0; !h.waiting.empty() && !mc::failed(); i++)
  {
    int w = int(h.waiting.size());
    h.confirm(order == 0 ? 0 : order == 1 ? w - 1 : order == 2 ? (w - 1) / 2 : (i % 2) * (w - 1));
    between(i);
    mc::step();
  }
  h.record();
}

// many rounds: what is confirmed leaves nothing behind
SCENARIO(rounds)
{
  history<hana::tuple<int>> h;
  int overlap = 1 + mc::choose(3), foreign = mc::choose(3), kinds = mc::choose(2);
  int n = mc::tier(300, 3000);
  for (int i = 0; i < n && !mc::failed(); i++)
  {
    h.local(make_change(kinds ? i % 5 : i % 2, i % 50 + 1));
    if (foreign && i % 3 == 0) h.foreign(make_change(i % 2, i % 40 + 100));
    if (int(h.waiting.size()) >= overlap) do h.confirm(0); while (i % 10 == 9 && !h.waiting.empty() && !mc::failed());
    mc::step();
  }
  h.record();
}
