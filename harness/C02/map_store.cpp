#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/match.hpp>
#include <nbdl/message.hpp>
#include <map>
#include <string>

namespace hana = boost::hana;
namespace message = nbdl::message;

namespace my
{
  struct K1 { int v; };
  struct K2 { std::string v; };
  struct thing { int id; std::string name; };
  struct uid_t { int v; };
}
namespace nbdl
{
  NBDL_ENTITY(my::K1, v);
  NBDL_ENTITY(my::K2, v);
  NBDL_ENTITY(my::thing, id, name);
  NBDL_ENTITY(my::uid_t, v);
}

namespace
{
  using my::K1; using my::K2; using my::thing; using my::uid_t;
  using path_t = hana::tuple<K1, K2>;
  using kpair = std::pair<int, std::string>;

  struct cell { int kind; thing v; }; // 0 absent 1 unresolved 2 value 3 not_found
  std::string show(cell const& c)
  {
    switch (c.kind) { case 0: return "-"; case 1: return "?"; case 3: return "x"; case 4: return "neither a value nor trigger_read"; }
    return mc::str(c.v.id, c.v.name);
  }

  path_t to_path(kpair const& k) { return hana::make_tuple(K1{k.first}, K2{k.second}); }

  template <typename Store>
  cell read(Store& s, kpair const& k, int& calls)
  {
    cell r{0, {}};
    calls = 0;
    nbdl::match(s, to_path(k), [&](auto const& x)
    {
      calls++;
      using X = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<X, nbdl::unresolved>) r.kind = 1;
      else if constexpr (std::is_same_v<X, thing>) { r.kind = 2; r.v = x; }
      else if constexpr (std::is_same_v<X, nbdl::not_found>) r.kind = 3;
      else if constexpr (std::is_same_v<X, nbdl::trigger_read>) r.kind = 0;
      else r.kind = 4;
    });
    return r;
  }

  std::vector<kpair> keys() { return {{1, "a"}, {1, "b"}, {2, "a"}}; }
  thing value(int i) { return i == 0 ? thing{7, "s"} : thing{8, ""}; }

  enum { UC, UR, UU, UD, DC, DR, DU, DD, DN, OPS };
  char const* const names[] = {"upstream create", "upstream read", "upstream update", "upstream delete",
    "downstream create", "downstream read", "downstream update", "downstream delete", "downstream read not_found"};

  template <typename Store, typename Model>
  void compare(Store& s, Model& m)
  {
    std::string st;
    for (auto& k : keys())
    {
      int calls;
      cell c = read(s, k, calls);
      mc::check(calls == 1, mc::str("match called its function ", calls, " times"));
      cell& want = m[k];
      st += show(want) + "|";
      mc::check(c.kind == want.kind && (c.kind != 2 || (c.v.id == want.v.id && c.v.name == want.v.name)),
        mc::str("path (", k.first, ",", k.second, ") holds ", show(c), " but should hold ", show(want)));
    }
    mc::state(st);
  }

  // returns "changed"
  template <typename Store>
  bool apply(Store& s, int op, kpair k, thing v, bool with_uid, bool confirmed)
  {
    auto p = to_path(k);
    auto go = [&](auto uid) -> bool
    {
      switch (op)
      {
        case UC: return nbdl::apply_message(s, message::make_upstream_create(message::make_create_path<K2>(hana::make_tuple(K1{k.first})), uid, v));
        case UR: return nbdl::apply_message(s, message::make_upstream_read(p, uid));
        case UU: return nbdl::apply_message(s, message::make_upstream_update(p, uid, v));
        case UD: return nbdl::apply_message(s, message::make_upstream_delete(p, uid));
        case DC: return nbdl::apply_message(s, message::make_downstream_create(p, uid, v, confirmed));
        case DR: return nbdl::apply_message(s, message::make_downstream_read(p, uid, v));
        case DU: return nbdl::apply_message(s, message::make_downstream_update(p, uid, v, confirmed));
        case DN: return nbdl::apply_message(s, message::make_downstream_read(p, uid, nbdl::not_found{}));
        default: return nbdl::apply_message(s, message::make_downstream_delete(p, uid, confirmed));
      }
    };
    return with_uid ? go(uid_t{5}) : go(message::no_uid);
  }

  void model(std::map<kpair, cell>& m, int op, kpair k, thing v)
  {
    cell& c = m[k];
    switch (op)
    {
      case UR: if (c.kind == 0) c = {1, {}}; break;
      case DC: case DU: c = {2, v}; break;
      case DR: if (c.kind == 0 || c.kind == 1) c = {2, v}; break;
      case DN: if (c.kind == 0 || c.kind == 1) c = {3, {}}; break;
      case DD: c = {0, {}}; break;
    }
  }
  bool same(cell const& a, cell const& b) { return a.kind == b.kind && (a.kind != 2 || (a.v.id == b.v.id && a.v.name == b.v.name)); }

  // every path starts in every state
  template <typename Store>
  void run(int depth, int nkeys)
  {
    Store s{};
    std::map<kpair, cell> m;
    for (auto& k : keys()) m[k] = {0, {}};
    int initial = mc::choose(3);
    if (initial == 1) { s.map[to_path(keys()[0])] = nbdl::not_found{}; m[keys()[0]] = {3, {}}; }
    if (initial == 2)
    {
      s.map[to_path(keys()[0])] = value(0); m[keys()[0]] = {2, value(0)};
      s.map[to_path(keys()[1])] = nbdl::unresolved{}; m[keys()[1]] = {1, {}};
    }
    for (int i = 0; i < depth; i++)
    {
      int c = mc::choose(OPS + 1);
      if (c == OPS) break;
      kpair k = keys()[mc::choose(nkeys)];
      bool payload = c == DC || c == DR || c == DU;
      thing v = value(payload ? mc::choose(2) : 0);
      cell before = m[k];
      bool changed = apply(s, c, k, v, (i + c) & 1, i & 1);
      model(m, c, k, v);
      mc::step();
      mc::note(mc::str(names[c], " (", k.first, ",", k.second, ") ", payload ? mc::str(v.id) : "", changed ? " changed" : ""));
      if (!same(before, m[k]) && c >= DC) mc::check(changed, mc::str(names[c], " changed the state without reporting it"));
      if (c < DC) mc::check(!changed, mc::str(names[c], " reports a change of state"));
      if ((c == DR || c == DN) && same(before, m[k])) mc::check(!changed, "downstream read of a resolved path reports a change");
      compare(s, m);
      if (mc::failed()) return;
    }
    compare(s, m);
  }
}

SCENARIO(message_histories) { run<nbdl::map_store<path_t, thing>>(mc::tier(3, 4), 2); }
SCENARIO(message_histories_one_path) { run<nbdl::map_store<path_t, thing>>(mc::tier(4, 6), 1); }
SCENARIO(three_paths) { run<nbdl::map_store<path_t, thing>>(mc::tier(2, 3), 3); }

// plain values, not wrapped in a variant: no placeholder, only create, update, delete
SCENARIO(basic_store)
{
  nbdl::basic_map_store<int, int> s{};
  std::map<int, int> m;
  int depth = mc::tier(5, 7);
  for (int i = 0; i < depth; i++)
  {
    int c = mc::choose(8);
    if (c == 0) break;
    int k = mc::choose(2) * 8; // same bucket for small tables
    int v = 100 + i;
    bool changed = false, visible = false;
    auto p = k;
    switch (c)
    {
      case 1: changed = nbdl::apply_message(s, message::make_downstream_create(p, message::no_uid, v, true)); visible = true; m[k] = v; break;
      case 2: changed = nbdl::apply_message(s, message::make_downstream_update(p, message::no_uid, v, false)); visible = true; m[k] = v; break;
      case 3: case 4: visible = m.count(k); m.erase(k); changed = nbdl::apply_message(s, message::make_downstream_delete(p, message::no_uid, c == 3)); break;
      case 5: changed = nbdl::apply_message(s, message::make_upstream_update(p, message::no_uid, v)); mc::check(!changed, "upstream message reports change"); break;
      case 6: changed = nbdl::apply_message(s, message::make_upstream_delete(p, message::no_uid)); mc::check(!changed, "upstream message reports change"); break;
      case 7: changed = nbdl::apply_message(s, message::make_upstream_create(p, message::no_uid, v)); mc::check(!changed, "upstream message reports change"); break;
    }
    mc::step();
    mc::note(mc::str("op ", c, " key ", k));
    if (visible) mc::check(changed, "state changed but that was not reported");
    std::string st;
    for (int q : {0, 8, 3})
    {
      int calls = 0;
      nbdl::match(s, q, hana::overload_linearly(
          [&](nbdl::not_in_set) { calls++; mc::check(!m.count(q), mc::str("key ", q, " lost")); st += "-"; }
        , [&](int x) { calls++; mc::check(m.count(q) && m[q] == x, mc::str("key ", q, " is ", x)); st += mc::str(x, ","); }));
      mc::check(calls == 1, "match must yield one value");
    }
    mc::check(s.map.size() == m.size(), "size");
    mc::state(st);
  }
}

// many keys: no aliasing between paths that hash alike or share a prefix
SCENARIO(many_paths)
{
  nbdl::map_store<path_t, thing> s{};
  int n = mc::tier(12, 40);
  int first = mc::choose(n), second = mc::choose(n), op = mc::choose(3);
  auto key = [](int i) { return kpair{i % 4, std::string(i / 4 % 3, char('a' + i / 12))}; };
  std::map<kpair, int> m;
  for (int i = 0; i < n; i++) { m[key(i)] = i; apply(s, DC, key(i), thing{i, "t"}, false, true); }
  apply(s, DD, key(first), {}, false, true); m.erase(key(first));
  if (op == 0) { apply(s, DU, key(second), thing{1000, "u"}, true, false); m[key(second)] = 1000; }
  if (op == 1) { apply(s, DD, key(second), {}, true, false); m.erase(key(second)); }
  for (int i = 0; i < n; i++)
  {
    int calls;
    cell c = read(s, key(i), calls);
    bool want = m.count(key(i));
    mc::check(calls == 1 && (want ? c.kind == 2 && c.v.id == m[key(i)] : c.kind == 0), mc::str("path ", i, " holds ", show(c)));
  }
  mc::state(mc::str(first, ",", second, ",", op));
}

// hundreds of paths: none is lost or mistaken for another while the store grows and shrinks
SCENARIO(hundreds)
{
  nbdl::map_store<path_t, thing> s{};
  int n = mc::pick(std::vector<int>{13, 30, 64, 65, 128, 200, 257, 300, 600});
  int first = mc::choose(OPS), then = mc::choose(OPS), stride = mc::pick(std::vector<int>{1, 3, 16});
  std::map<kpair, cell> m;
  auto key = [](int i) { return kpair{i * 7 - 100, "k" + std::to_string(i / 3)}; };
  auto all = [&]
  {
    for (int i = 0; i < n; i++)
    {
      int calls;
      cell got = read(s, key(i), calls);
      if (!mc::check(calls == 1 && same(got, m[key(i)]), mc::str("path ", i, " of ", n, " holds ", show(got), " instead of ", show(m[key(i)])))) return;
    }
  };
  for (int i = 0; i < n; i++) { apply(s, first, key(i), thing{i, "t"}, i & 1, i & 2); model(m, first, key(i), thing{i, "t"}); }
  all();
  for (int i = 0; i < n && !mc::failed(); i += stride) { apply(s, then, key(i), thing{-i, "u"}, i & 1, i & 2); model(m, then, key(i), thing{-i, "u"}); mc::step(); }
  all();
  for (int i = 0; i < n && !mc::failed(); i += 2) { apply(s, DD, key(i), {}, false, true); model(m, DD, key(i), {}); mc::step(); }
  all();
  mc::state(mc::str(n, ",", first, ",", then, ",", stride));
}
