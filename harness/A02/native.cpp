// mc-flags: -ljsoncpp
#include "messages.hpp"
#include <nbdl/app/serializer.hpp>
namespace
{
  using namespace a02;
  template <typename V> void sent(nbdl::app::serializer<my::chat, V>& s, nbdl::app::deserializer_fn<my::chat, V> d, V const& v)
  {
    J want = enc(v);
    mc::note(text(want));
    any_message(v, [&](auto m)
    {
      constexpr bool system = is_system<decltype(m)>;
      auto said = text(enc(m));
      std::string& buffer = s.serialize(m);
      mc::check(text(enc(m)) == said, "serializing changes the message");
      auto got = parse(buffer);
      if (!mc::check(&buffer == &s.buffer && got && *got == want, mc::str("is written as ", mc::show(buffer, 200)))) return;
      auto before = buffer;
      auto r = read<V>(d, buffer);
      mc::check(buffer == before, "the buffer changes");
      if constexpr (system) mc::check(r.errors == 1 && !r.messages && r.error == said, mc::str("a system message gives ", r.shown()));
      else if (mc::check(r.messages == 1 && !r.errors, mc::str("gives ", r.shown())))
        mc::check(same(v, r.message), mc::str("is read as ", text(enc(r.message))));
    });
    mc::state(text(want)); mc::step(); mc::eval();
  }
  template <typename V> void some(nbdl::app::deserializer_fn<my::chat, V> d, int w)
  {
    nbdl::app::serializer<my::chat, V> s;
    jt::width = w;
    V v = gen<V>();
    sent(s, d, v);
  }
  SCENARIO(upstream) { some<my::up>(nbdl::app::deserializer_upstream<my::chat>, mc::tier(4, 5)); }
  SCENARIO(downstream) { some<my::down>(nbdl::app::deserializer_downstream<my::chat>, mc::tier(4, 5)); }
  // one serializer for one message after the other
  template <typename V> void after_another(nbdl::app::deserializer_fn<my::chat, V> d)
  {
    nbdl::app::serializer<my::chat, V> s;
    jt::width = 2;
    for (int i = 0; i < 2 && !mc::failed(); i++)
    {
      int k = mc::choose(size_of<V>());
      V v;
      alternatives(static_cast<decltype(as_base(v)) const*>(nullptr), [&](int j, auto t)
      {
        using T = typename decltype(t)::type;
        if (j != k) return;
        if constexpr (std::is_empty_v<T>) v = V(T{});
        else v = V(jt::gen<T>(mc::tier(1, 0)));
      });
      sent(s, d, v);
    }
  }
  SCENARIO(one_after_another_up) { after_another(nbdl::app::deserializer_upstream<my::chat>); }
  SCENARIO(one_after_another_down) { after_another(nbdl::app::deserializer_downstream<my::chat>); }

  // whatever comes instead, there is one outcome: the message that is written there, or an error
  template <typename V> void received(nbdl::app::deserializer_fn<my::chat, V> d, std::string const& text_)
  {
    mc::note(mc::show(text_, 200));
    V want;
    bool message = true, system = false, thrown = false;
    try { nbdl::binder::jsoncpp::from_string(text_, want); } catch (...) { thrown = true; }
    if (!thrown) nbdl::match(want, hana::overload_linearly([&](nbdl::unresolved) { message = false; }, [&](nbdl::system_message const&) { system = true; }, [](auto const&) {}));
    else message = false;
    auto r = read<V>(d, text_);
    if (!mc::check(r.messages + r.errors == 1, mc::str("gives ", r.shown()), "outcomes")) return;
    mc::check(r.messages == (message && !system), mc::str("gives ", r.shown()), "kind");
    if (r.messages) mc::check(same(want, r.message), "another message");
    mc::state(mc::str(text_, r.messages)); mc::step(); mc::eval();
  }
  template <typename V> void garbage(nbdl::app::deserializer_fn<my::chat, V> d)
  {
    jt::width = 1;
    nbdl::app::serializer<my::chat, V> s;
    V v;
    int k = mc::choose(size_of<V>());
    alternatives(static_cast<decltype(as_base(v)) const*>(nullptr), [&](int j, auto t)
    {
      using T = typename decltype(t)::type;
      if (j != k) return;
      if constexpr (std::is_empty_v<T>) v = V(T{});
      else v = V(jt::gen<T>(9));
    });
    std::string t = nbdl::binder::jsoncpp::to_string(v);
    int how = mc::choose(4), at = mc::choose(int(t.size()));
    switch (how)
    {
    case 0: t = t.substr(0, at); break;
    case 1: t.erase(at, 1); break;
    case 2: t[at] = mc::pick(vector<char>{'0', '9', '-', '[', ']', '{', '}', '"', ',', ':', 'n', '\\', '\0'}); break;
    case 3: t.insert(at, 1, mc::pick(vector<char>{'0', '9', '-', '[', ']', '{', '}', '"', ',', ':', 'n', '\\', '\0'})); break;
    }
    received(d, t);
  }
  SCENARIO(garbage_up) { garbage(nbdl::app::deserializer_upstream<my::chat>); }
  SCENARIO(garbage_down) { garbage(nbdl::app::deserializer_downstream<my::chat>); }
  // short texts that are no message
  SCENARIO(nothing_like_it)
  {
    std::string t;
    for (int i = mc::choose(mc::tier(5, 6)); i--; ) t += mc::pick(vector<char>{'0', '3', '[', ']', '{', '}', '"', ','});
    if (mc::flip()) received(nbdl::app::deserializer_upstream<my::chat>, t); else received(nbdl::app::deserializer_downstream<my::chat>, t);
  }
}
