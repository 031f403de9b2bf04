// store_compose: every history of actions over composed stores
#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_action.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/match.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/message.hpp>
#include <nbdl/store_compose.hpp>
#include <nbdl/variant.hpp>

namespace hana = boost::hana;
namespace message = nbdl::message;
namespace my { struct pt { int x; int y; }; struct id { int v; }; }
namespace nbdl { NBDL_ENTITY(my::pt, x, y); NBDL_ENTITY(my::id, v); }
namespace
{
  using my::pt; using my::id;
  template <int i> struct K { friend constexpr auto operator==(K, K) { return hana::true_c; } };
  template <int i> constexpr auto T = hana::type_c<K<i>>;   // keys of the hana::map at the bottom

  std::string show(std::string const& s) { return "'" + s + "'"; }
  std::string show(int i) { return mc::str(i); }
  std::string show(pt const& p) { return mc::str("{", p.x, ",", p.y, "}"); }
  std::string show(nbdl::unresolved) { return "unresolved"; }
  std::string show(nbdl::trigger_read) { return "trigger_read"; }
  std::string show(nbdl::not_found) { return "not_found"; }
  struct got { int calls = 0; std::string text = "?"; void const* at = nullptr; };
  template <typename S, typename Key> got ask(S&& s, Key key)
  {
    got g;
    nbdl::match(s, key, [&](auto&& x) { g.calls++; g.text = show(x); if constexpr (requires { x.get(); }) g.at = &x.get(); else g.at = &x; });
    return g;
  }
  template <typename S, typename Key> void expect(S& s, Key key, std::string const& want, char const* what, void const* at = nullptr)
  {
    got a = ask(s, key), b = ask(std::as_const(s), key);
    mc::check(a.calls == 1 && b.calls == 1, mc::str(what, ": called ", a.calls, " and ", b.calls, " times"));
    mc::check(a.text == want, mc::str(what, ": is ", a.text, " instead of ", want));
    mc::check(b.text == want, mc::str(what, ": is ", b.text, " instead of ", want, " in a const store"));
    if (at) mc::check(a.at == at, mc::str(what, ": gives a copy"));
    // through match_path with a path of this one key
    int n = 0; std::string t;
    nbdl::match_path(s, hana::make_tuple(key), [&](auto&& x) { n++; t = show(x); });
    mc::check(n == 1 && t == want, mc::str(what, ": match_path gives ", t, " instead of ", want));
    mc::step(); mc::eval();
  }
}

// values, references, variants and a hana::map below; the actions go where
// their key says and nowhere else
SCENARIO(actions)
{
  std::string s2 = "2", s3 = "3";
  auto base = hana::make_map(hana::make_pair(T<10>, std::string("b0")), hana::make_pair(T<11>, std::string("b1")));
  auto store = nbdl::store_compose(K<1>{}, std::string("1"),
               nbdl::store_compose(K<2>{}, std::ref(s2),
               nbdl::store_compose(K<3>{}, nbdl::variant<pt, std::string>{},
               nbdl::store_compose(K<4>{}, std::ref(s2),          // the same object again
               nbdl::store_compose(K<5>{}, 5,
                 base)))));
  std::string m1 = "1", m2 = "2", m10 = "b0", m11 = "b1"; std::string m3 = "unresolved"; int m5 = 5;
  auto all = [&]
  {
    expect(store, K<1>{}, "'" + m1 + "'", "value");
    expect(store, K<2>{}, "'" + m2 + "'", "reference", &s2);
    expect(store, K<3>{}, m3, "variant");
    expect(store, K<4>{}, "'" + m2 + "'", "second reference", &s2);
    expect(store, K<5>{}, mc::str(m5), "innermost value");
    expect(store, T<10>, "'" + m10 + "'", "base");
    expect(store, T<11>, "'" + m11 + "'", "base");
    mc::check(base[T<10>] == "b0" && base[T<11>] == "b1", "the store that was composed was changed");
    mc::check(s2 == m2, "the referenced object was not changed");
    mc::state(m1 + m2 + m3 + m10 + m11 + mc::str(m5));
  };
  all();
  int n = mc::tier(3, 5), how = mc::choose(3);
  for (int i = 0; i < n && !mc::failed(); i++)
  {
    auto z = [](auto& x) { x += 'z'; };
    auto inc = [](auto& x) { x++; };
    bool r = false;
    // actions as temporaries, as variables and as constants
    auto act = [&](auto key, auto&& a)
    {
      auto action = nbdl::store_composite_action(key, std::forward<decltype(a)>(a));
      switch (how) { case 0: return bool(nbdl::apply_action(store, action)); case 1: return bool(nbdl::apply_action(store, std::as_const(action))); }
      return bool(nbdl::apply_action(store, std::move(action)));
    };
    switch (mc::choose(11))
    {
    case 0: r = act(K<1>{}, z); m1 += 'z'; break;
    case 1: r = act(K<1>{}, std::string("new")); m1 = "new"; break;
    case 2: r = act(K<2>{}, z); m2 += 'z'; break;
    case 3: r = act(K<3>{}, pt{i, 7}); m3 = show(pt{i, 7}); break;
    case 4: r = act(K<3>{}, std::string("s")); m3 = "'s'"; break;
    case 5: r = act(K<4>{}, z); m2 += 'z'; break;
    case 6: r = act(K<5>{}, inc); m5++; break;
    case 7: r = act(K<5>{}, 100 + i); m5 = 100 + i; break;
    case 8: r = nbdl::apply_action(store, [](auto& x) { x[T<10>] += 'y'; }); m10 += 'y'; break;
    case 9: r = nbdl::apply_action(store, [](auto& x) { x[T<11>] = "q"; }); m11 = "q"; break;
    case 10: s2 += '!'; m2 += '!'; r = true; break;      // the owner changes the referenced object
    }
    mc::check(r, "the action reports no change");
    all();
  }
  // a copy is independent, except for what it refers to
  auto copy = store;
  nbdl::apply_action(copy, nbdl::store_composite_action(K<1>{}, std::string("copy")));
  nbdl::apply_action(copy, nbdl::store_composite_action(K<2>{}, std::string("both")));
  m2 = "both";
  all();
  expect(copy, K<1>{}, "'copy'", "copy");
  expect(copy, K<2>{}, "'both'", "copy");
}

// a key that is there more than once means the outermost value
SCENARIO(shadowing)
{
  auto base = hana::make_map(hana::make_pair(T<1>, std::string("base")), hana::make_pair(T<2>, std::string("other")));
  int outer = mc::choose(2);
  auto run = [&](auto store, std::string o, std::string i)
  {
    expect(store, T<1>, "'" + o + "'", "shadowed key");
    expect(store, T<2>, "'other'", "other key");
    nbdl::apply_action(store, nbdl::store_composite_action(T<1>, [](auto& x) { x += 'z'; }));
    expect(store, T<1>, "'" + o + "z'", "shadowed key");
    nbdl::match(store.left, T<1>, [&](auto& x) { mc::check(x == i, "the shadowed value was changed"); });
    mc::state(o);
  };
  if (outer) run(nbdl::store_compose(T<1>, std::string("outer"), nbdl::store_compose(T<1>, std::string("inner"), base)), "outer", "inner");
  else run(nbdl::store_compose(T<1>, std::string("outer"), base), "outer", "base");
}

// a store as the value of a key: messages go to it, paths lead into it
SCENARIO(nested_stores)
{
  using Path = hana::tuple<id>;
  using M = nbdl::map_store<Path, nbdl::variant<pt>>;
  M shared;
  auto inner = nbdl::store_compose(K<1>{}, std::string("in"), hana::make_map(hana::make_pair(T<9>, std::string("in base"))));
  auto store = nbdl::store_compose(K<1>{}, std::string("out"),
               nbdl::store_compose(K<2>{}, M{},
               nbdl::store_compose(K<3>{}, std::ref(shared),
               nbdl::store_compose(K<4>{}, inner,
                 hana::make_map(hana::make_pair(T<9>, std::string("out base")))))));
  std::string m[2][2] = {{"trigger_read", "trigger_read"}, {"trigger_read", "trigger_read"}};
  std::string in = "in", out = "out";
  auto all = [&]
  {
    for (int k = 0; k < 2; k++)
    {
      auto look = [&](auto key, std::string const& want)
      {
        int n = 0; std::string t;
        nbdl::match(store, key, [&](auto& s) { nbdl::match(s, Path(id{k}), [&](auto const& x) { n++; t = show(x); }); });
        mc::check(n == 1 && t == want, mc::str("path ", k, " is ", t, " instead of ", want));
        n = 0; t = "?";
        nbdl::match_path(store, hana::make_tuple(key, Path(id{k})), [&](auto const& x) { n++; t = show(x); });
        mc::check(n == 1 && t == want, mc::str("match_path: path ", k, " is ", t, " instead of ", want));
        mc::step(); mc::eval();
      };
      look(K<2>{}, m[0][k]);
      nbdl::match(shared, Path(id{k}), [&](auto const& x) { mc::check(show(x) == m[1][k], mc::str("shared path ", k, " is ", show(x), " instead of ", m[1][k])); });
    }
    expect(store, K<1>{}, "'" + out + "'", "outer");
    expect(store, T<9>, "'out base'", "outer base");
    std::string t;
    nbdl::match_path(store, hana::make_tuple(K<4>{}, K<1>{}), [&](auto const& x) { t += show(x); });
    nbdl::match_path(store, hana::make_tuple(K<4>{}, T<9>), [&](auto const& x) { t += show(x); });
    mc::check(t == "'" + in + "''in base'", mc::str("nested composite holds ", t));
    mc::state(m[0][0] + m[0][1] + m[1][0] + m[1][1] + in + out);
  };
  all();
  int n = mc::tier(3, 4);
  for (int i = 0; i < n && !mc::failed(); i++)
  {
    int what = mc::choose(5);
    if (what < 4)
    {
      int which = what % 2, k = mc::choose(2);
      bool del = what >= 2;
      auto send = [&](auto msg) -> bool
      {
        if (which == 0) return nbdl::apply_action(store, nbdl::store_composite_action(K<2>{}, msg));
        return nbdl::apply_action(store, nbdl::store_composite_action(K<3>{}, msg));
      };
      bool r;
      if (del) { r = send(message::make_downstream_delete(Path(id{k}), message::no_uid, true)); m[which][k] = "trigger_read"; }
      else { r = send(message::make_downstream_create(Path(id{k}), message::no_uid, pt{i, k}, true)); m[which][k] = show(pt{i, k}); }
      mc::check(r, "the message reports no change");
    }
    else
    {
      nbdl::apply_action(store, nbdl::store_composite_action(K<4>{}, nbdl::store_composite_action(K<1>{}, [](auto& x) { x += 'z'; }))); in += 'z';
      nbdl::apply_action(store, nbdl::store_composite_action(K<1>{}, [](auto& x) { x += 'y'; })); out += 'y';
    }
    all();
  }
}

// context_store: only a downstream update changes it
SCENARIO(context_stores)
{
  auto store = nbdl::make_store<nbdl::context_store<nbdl::variant<int, std::string>>>(hana::type_c<void>, hana::type_c<void>);
  std::string m = "unresolved";
  auto all = [&]
  {
    int n = 0; std::string t;
    nbdl::match(store, K<1>{}, [&](auto const& x) { n++; t = show(x); });
    mc::check(n == 1 && t == m, mc::str("context_store holds ", t, " instead of ", m));
    mc::step(); mc::eval(); mc::state(m);
  };
  all();
  int n = mc::tier(4, 5);
  auto path = hana::make_tuple();
  for (int i = 0; i < n && !mc::failed(); i++)
  {
    bool want = false, r = false;
    switch (mc::choose(9))
    {
    case 0: r = nbdl::apply_message(store, message::make_downstream_update(path, message::no_uid, i, true)); m = mc::str(i); want = true; break;
    case 1: r = nbdl::apply_message(store, message::make_downstream_update(path, message::no_uid, std::string("s"), false)); m = "'s'"; want = true; break;
    case 2: r = nbdl::apply_message(store, message::make_upstream_update(path, message::no_uid, 99)); break;
    case 3: r = nbdl::apply_message(store, message::make_upstream_read(path, message::no_uid)); break;
    case 4: r = nbdl::apply_message(store, message::make_downstream_read(path, message::no_uid, 98)); break;
    case 5: r = nbdl::apply_message(store, message::make_downstream_create(path, message::no_uid, 97, true)); break;
    case 6: r = nbdl::apply_message(store, message::make_downstream_delete(path, message::no_uid, true)); break;
    case 7: r = nbdl::apply_message(store, message::make_upstream_delete(path, message::no_uid)); break;
    case 8: r = nbdl::apply_message(store, message::make_upstream_create(path, message::no_uid, 96, message::no_private_payload)); break;
    }
    mc::check(r == want, mc::str("change reported as ", r));
    all();
  }
}
