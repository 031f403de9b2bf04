#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/bind_sequence.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/message.hpp>
#include <nbdl/variant.hpp>
#include <string>

namespace hana = boost::hana;
namespace message = nbdl::message;
namespace my
{
  struct root { int v; };
  struct key { std::string v; };
  struct single { };               // a key with one value: needs no uid
  struct thing { int a; std::string b; };
  struct secret { std::string s; };
  struct id { int v; };
  using variant_key = nbdl::variant<key, id>;
}
namespace nbdl
{
  NBDL_ENTITY(my::root, v);
  NBDL_ENTITY(my::key, v);
  NBDL_ENTITY(my::thing, a, b);
  NBDL_ENTITY(my::secret, s);
  NBDL_ENTITY(my::id, v);
}
namespace
{
  using my::root; using my::key; using my::thing; using my::secret; using my::id; using my::single;
  using no = message::no_impl;

  std::string show(no const&) { return "-"; }
  std::string show(root const& x) { return mc::str("r", x.v); }
  std::string show(key const& x) { return "k" + x.v; }
  std::string show(single const&) { return "single"; }
  std::string show(thing const& x) { return mc::str("{", x.a, ",", x.b, "}"); }
  std::string show(secret const& x) { return "s" + x.s; }
  std::string show(id const& x) { return mc::str("#", x.v); }
  std::string show(bool x) { return x ? "true" : "false"; }
  std::string show(my::variant_key const& x)
  {
    std::string r = "?";
    x.match([&](nbdl::unresolved) { r = "unresolved"; }, [&](key const& k) { r = show(k); }, [&](id const& i) { r = show(i); });
    return r;
  }
  template <typename ...T>
  std::string show(hana::tuple<T...> const& t)
  {
    std::string r = "(";
    hana::for_each(t, [&](auto const& x) { r += show(x) + ","; });
    return r + ")";
  }
  template <typename K, typename P>
  std::string show(message::create_path<K, P> const& p) { return "new" + show(p.parent_path); }

  template <typename T> constexpr bool is_no = std::is_same_v<std::decay_t<T>, no>;

  // what a message is made of, as the caller knows it
  template <typename M, typename Path, typename Uid, typename Payload, typename Private, typename Conf>
  void holds(char const* what, M const& m, bool up, int action, Path const& path, Uid const& uid, Payload const& payload,
             Private const& priv, Conf conf, bool has_conf_slot)
  {
    auto is = [&](bool ok, std::string msg) { mc::check(ok, mc::str(what, ": ", msg)); };
    is(message::is_upstream<M> == up && message::is_downstream<M> == !up, "channel");
    is(message::is_create<M> == (action == 0) && message::is_read<M> == (action == 1)
       && message::is_update<M> == (action == 2) && message::is_delete<M> == (action == 3), "action");
    is(std::is_same_v<std::decay_t<decltype(message::get_channel(m))>, message::channel::upstream> == up, "channel tag");
    using A = std::decay_t<decltype(message::get_action(m))>;
    int act = std::is_same_v<A, message::action::create> ? 0 : std::is_same_v<A, message::action::read> ? 1
            : std::is_same_v<A, message::action::update> ? 2 : std::is_same_v<A, message::action::delete_> ? 3 : -1;
    is(act == action, "action tag");
    is(message::has_uid<M> == !is_no<Uid>, "has_uid");
    is(message::has_payload<M> == !is_no<Payload>, "has_payload");
    is(message::has_private_payload<M> == !is_no<Private>, "has_private_payload");
    is(message::has_is_confirmed<M> == has_conf_slot, "has_is_confirmed");
    is(show(message::get_path(m)) == show(path), "path " + show(message::get_path(m)));
    std::string bound, want = show(path) + "|";
    if constexpr (!is_no<Uid> && message::has_uid<M>)
    { is(show(message::get_uid(m)) == show(uid), "uid " + show(message::get_uid(m))); want += show(uid) + "|"; }
    if constexpr (!is_no<Payload> && message::has_payload<M>)
    { is(show(message::get_payload(m)) == show(payload), "payload " + show(message::get_payload(m))); want += show(payload) + "|"; }
    if constexpr (!is_no<Private> && message::has_private_payload<M>)
    { is(show(message::get_private_payload(m)) == show(priv), "private payload " + show(message::get_private_payload(m))); want += show(priv) + "|"; }
    if constexpr (!is_no<Conf> && message::has_is_confirmed<M>)
    { is(bool(message::is_confirmed(m)) == bool(conf), "is_confirmed"); want += show(bool(conf)) + "|"; }
    else is(!bool(message::is_confirmed(m)), "a message without that slot is not confirmed");
    // serialization sees every member, in this order, and nothing else
    nbdl::bind_sequence(m, [&](auto const& ...x) { ((bound += show(x) + "|"), ...); });
    is(bound == want, "binds " + bound + " instead of " + want);
    // moving out of it gives the same values
    M m2 = m;
    is(show(message::get_path(std::move(m2))) == show(path), "path of an rvalue");
    M m3 = m;
    if constexpr (!is_no<Payload> && message::has_payload<M>)
      is(show(message::get_payload(std::move(m3))) == show(payload), "payload of an rvalue");
    mc::step();
    mc::state(mc::str(what, bound));
  }

  thing make_thing() { return mc::flip() ? thing{7, "long enough to live on the heap, so that moves show"} : thing{0, ""}; }
  root make_root() { return root{mc::choose(2)}; }
  key make_key() { return key{mc::flip() ? "k" : ""}; }

  template <typename F>
  void each_uid(F f)
  {
    int c = mc::choose(3);
    if (c == 0) f(message::no_uid); else f(id{c});
  }
  template <typename F>
  void each_private(F f)
  {
    int c = mc::choose(3);
    if (c == 0) f(message::no_private_payload); else f(secret{c == 1 ? "p" : ""});
  }
}

SCENARIO(read_update_delete)
{
  auto path = hana::make_tuple(make_root(), make_key());
  thing p = make_thing();
  bool conf = mc::flip();
  each_uid([&](auto uid)
  {
    auto r = message::make_upstream_read(path, uid);
    holds("upstream read", r, true, 1, path, uid, no{}, no{}, no{}, false);
    if constexpr (is_no<decltype(uid)>) holds("upstream read (path only)", message::make_upstream_read(path), true, 1, path, uid, no{}, no{}, no{}, false);
    auto u = message::make_upstream_update(path, uid, p);
    holds("upstream update", u, true, 2, path, uid, p, no{}, no{}, false);
    auto d = message::make_upstream_delete(path, uid);
    holds("upstream delete", d, true, 3, path, uid, no{}, no{}, no{}, false);

    holds("downstream read", message::make_downstream_read(path, uid, p), false, 1, path, uid, p, no{}, no{}, false);
    holds("downstream update", message::make_downstream_update(path, uid, p, conf), false, 2, path, uid, p, no{}, conf, true);
    holds("downstream delete", message::make_downstream_delete(path, uid, conf), false, 3, path, uid, no{}, no{}, conf, true);
    holds("downstream update, unmarked", message::make_downstream_update(path, uid, p, message::no_is_confirmed), false, 2, path, uid, p, no{}, no{}, false);
    holds("downstream delete, unmarked", message::make_downstream_delete(path, uid, message::no_is_confirmed), false, 3, path, uid, no{}, no{}, no{}, false);

    holds("read answered", message::to_downstream_read(r, p), false, 1, path, uid, p, no{}, no{}, false);
    holds("read answered, rvalue", message::to_downstream_read(decltype(r)(r), p), false, 1, path, uid, p, no{}, no{}, false);
    holds("update forwarded", message::to_downstream(u, conf), false, 2, path, uid, p, no{}, conf, true);
    holds("update confirmed", message::to_downstream_confirmed(u), false, 2, path, uid, p, no{}, true, true);
    holds("update forwarded, unmarked", message::to_downstream(u, message::no_is_confirmed), false, 2, path, uid, p, no{}, no{}, false);
    holds("update forwarded, rvalue", message::to_downstream(decltype(u)(u), conf), false, 2, path, uid, p, no{}, conf, true);
    holds("delete forwarded", message::to_downstream(d, conf), false, 3, path, uid, no{}, no{}, conf, true);
    holds("delete forwarded, rvalue", message::to_downstream(decltype(d)(d), conf), false, 3, path, uid, no{}, no{}, conf, true);
    holds("delete confirmed", message::to_downstream_confirmed(d), false, 3, path, uid, no{}, no{}, true, true);
    // the originals are untouched
    holds("upstream update after use", u, true, 2, path, uid, p, no{}, no{}, false);
    mc::check(show(message::get_normalized_path(u)) == show(path), "normalized path of an update");
    mc::check(message::is_path_normalizable<decltype(u)> && !message::requires_key_for_downstream<decltype(u)>, "an update has its whole path");
    mc::check(std::is_same_v<typename std::decay_t<decltype(message::get_path_type(u))>::type, std::decay_t<decltype(path)>>, "path type");
  });
}

SCENARIO(create_by_key)
{
  root r = make_root();
  key k = make_key();
  thing p = make_thing();
  bool conf = mc::flip();
  auto parent = hana::make_tuple(r);
  auto path = message::make_create_path<key>(parent);
  auto full = hana::make_tuple(r, k);
  each_uid([&](auto uid)
  {
    each_private([&](auto priv)
    {
      auto m = message::make_upstream_create(path, uid, p, priv);
      holds("upstream create", m, true, 0, path, uid, p, priv, no{}, false);
      if constexpr (is_no<decltype(priv)>)
      {
        auto m3 = message::make_upstream_create(path, uid, p);
        holds("upstream create (no private payload)", m3, true, 0, path, uid, p, no{}, no{}, false);
      }
      // the root producer picked key k; the private payload stays behind
      holds("create with key", message::to_downstream_with_key(m, k), false, 0, full, uid, p, no{}, no{}, false);
      holds("create with key, confirmed", message::to_downstream_with_key_confirmed(m, k), false, 0, full, uid, p, no{}, true, true);
      holds("create with key, rvalue", message::to_downstream_with_key(decltype(m)(m), key(k)), false, 0, full, uid, p, no{}, no{}, false);
      holds("upstream create after use", m, true, 0, path, uid, p, priv, no{}, false);
      if constexpr (is_no<decltype(uid)>)
      {
        mc::check(!message::is_path_normalizable<decltype(m)>, "the path of a create without a key is not complete");
        mc::check(message::requires_key_for_downstream<decltype(m)>, "such a create needs a key");
      }
      mc::check(std::is_same_v<typename std::decay_t<decltype(message::get_path_type(m))>::type, hana::tuple<root, key>>, "path type of a create");
    });
    holds("downstream create", message::make_downstream_create(full, uid, p, conf), false, 0, full, uid, p, no{}, conf, true);
    holds("downstream create, unmarked", message::make_downstream_create(full, uid, p, message::no_is_confirmed), false, 0, full, uid, p, no{}, no{}, false);
  });
}

SCENARIO(create_by_uid)
{
  // the uid is the key until the root producer replaces it
  using vk = my::variant_key;
  root r = make_root();
  thing p = make_thing();
  bool conf = mc::flip();
  id u{1 + mc::choose(2)};
  auto path = message::make_create_path<vk>(hana::make_tuple(r));
  auto as_uid = hana::make_tuple(r, vk(u));
  each_private([&](auto priv)
  {
    auto m = message::make_upstream_create(path, u, p, priv);
    holds("upstream create by uid", m, true, 0, path, u, p, priv, no{}, false);
    mc::check(message::is_path_normalizable<decltype(m)> && !message::requires_key_for_downstream<decltype(m)>, "the uid completes the path");
    if constexpr (message::is_path_normalizable<decltype(m)>)
      mc::check(show(vk(hana::at_c<1>(message::get_normalized_path(m)))) == show(vk(u)) && show(hana::at_c<0>(message::get_normalized_path(m))) == show(r), "normalized path ends in the uid");
    auto d = message::to_downstream(m, conf);
    holds("create by uid forwarded", d, false, 0, path, u, p, no{}, conf, true);
    key k = make_key();
    auto with = hana::make_tuple(r, vk(k));
    holds("create by uid, key known", message::to_downstream_with_key_confirmed(m, k), false, 0, with, u, p, no{}, true, true);
    holds("create by uid, key known, unmarked", message::to_downstream_with_key(m, k), false, 0, with, u, p, no{}, no{}, false);
  });
}

SCENARIO(create_single)
{
  // a key type with one value completes the path by itself
  root r = make_root();
  thing p = make_thing();
  bool conf = mc::flip();
  auto path = message::make_create_path<single>(hana::make_tuple(r));
  each_private([&](auto priv)
  {
    auto m = message::make_upstream_create(path, message::no_uid, p, priv);
    mc::check(message::is_path_normalizable<decltype(m)> && !message::requires_key_for_downstream<decltype(m)>, "an empty key completes the path");
    if constexpr (message::is_path_normalizable<decltype(m)>)
      mc::check(show(message::get_normalized_path(m)) == show(hana::make_tuple(r, single{})), "normalized path");
    holds("upstream create single", m, true, 0, path, message::no_uid, p, priv, no{}, false);
    holds("create single forwarded", message::to_downstream(m, conf), false, 0, path, message::no_uid, p, no{}, conf, true);
  });
}

