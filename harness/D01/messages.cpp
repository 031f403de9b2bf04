// mc-flags: -ljsoncpp
#include "jsonmessages.hpp"
namespace
{
  using namespace jt;
  namespace jb = nbdl::binder::jsoncpp;

  template <typename T> bool round(T const& v)
  {
    std::string out = jb::to_string(v);
    J want = enc(v);
    mc::note(text(want));
    auto got = parse(out);
    if (!mc::check(got && *got == want, mc::str("written as ", mc::show(out, 200), " instead of ", text(want)))) return false;
    T back{};
    try { jb::from_string(out, back); }
    catch (std::exception& e) { mc::fail(mc::str(out, " is not read: ", e.what())); return false; }
    mc::check(same(v, back), mc::str(out, " is read as ", text(enc(back))));
    mc::state(out); mc::step(); mc::eval();
    return true;
  }
  SCENARIO(upstream) { jt::width = mc::tier(4, 5); round(gen<my::up>()); }
  SCENARIO(downstream) { jt::width = mc::tier(4, 5); round(gen<my::down>()); }
  SCENARIO(system_messages) { jt::width = 9; auto m = gen<nbdl::system_message>(); if (round(m) && round(my::up(m))) round(my::down(m)); }
  // each message on its own, and what its accessors say afterwards
  SCENARIO(messages)
  {
    jt::width = mc::tier(3, 4);
    std::vector<int> hits;
    auto one = [&](auto v)
    {
      using V = decltype(v);
      int k = 1 + mc::choose(size_of<V>() - 1);
      alternatives(static_cast<decltype(as_base(v)) const*>(nullptr), [&](int i, auto t)
      {
        using T = typename decltype(t)::type;
        if constexpr (stored<T>) if (i == k)
        {
          T m = gen<T>();
          V made(m);
          mc::check(made.get_type_id() == i, mc::str("message type ", i, " makes a variant of type ", made.get_type_id()));
          if (!round(m)) return;
          T back{};
          jb::from_string(jb::to_string(m), back);
          mc::check(enc(message::get_path(back)) == enc(message::get_path(m)), "path");
          if constexpr (message::has_payload<T>)
            if constexpr (!std::is_empty_v<std::decay_t<decltype(message::get_payload(m))>>)
              mc::check(enc(message::get_payload(back)) == enc(message::get_payload(m)), "payload");
        }
      });
    };
    if (mc::flip()) one(my::up{}); else one(my::down{});
  }
  // messages with every part a message can have
  SCENARIO(full_messages)
  {
    jt::width = mc::tier(2, 3);
    using path = hana::tuple<my::room, my::guest>;
    auto p = gen<path>(); auto u = gen<nbdl::uid>(0); auto o = gen<my::one>(); auto priv = gen<my::point>(2); bool conf = mc::flip();
    auto cp = message::make_create_path<my::guest>(hana::make_tuple(p[hana::int_c<0>]));
    switch (mc::choose(10))
    {
    case 0: round(message::make_upstream_create(cp, u, o, priv)); break;
    case 1: round(message::make_upstream_create(p, u, o)); break;
    case 2: round(message::make_upstream_read(p, u)); break;
    case 3: round(message::make_upstream_update(p, u, o)); break;
    case 4: round(message::make_upstream_delete(p, u)); break;
    case 5: round(message::make_downstream_create(p, u, o, conf)); break;
    case 6: round(message::make_downstream_read(p, u, o)); break;
    case 7: round(message::make_downstream_update(p, u, o, conf)); break;
    case 8: round(message::make_downstream_delete(p, u, conf)); break;
    case 9: round(message::make_downstream_update(p, message::no_uid, o, conf)); break;
    }
  }
}
