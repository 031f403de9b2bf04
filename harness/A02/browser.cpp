// mc-flags: --node -ljsoncpp
#include "webui.hpp"
#include "messages.hpp"
#include <nbdl/fwd/app/serializer.hpp>
#include <nbdl/app/serializer_js.hpp>
namespace
{
  using namespace a02;
  namespace jb = nbdl::binder::jsoncpp;
  std::string stringified(nbdl::js::val const& v)
  { return web::jsval::global("JSON").call<web::jsval>("stringify", static_cast<web::jsval>(v)).as<std::string>(); }
  void parsed(nbdl::js::val& v, std::string const& text)
  { EM_ASM_({ Module.NBDL_DETAIL_JS_SET($0, JSON.parse(UTF8ToString($1, $2))); }, nbdl::js::get_handle(v), text.data(), text.size()); }

  // a tuple of nothing is read whatever is written for it: null here, an empty array there
  bool means(J const& a, J const& b)
  {
    if (a.kind == J::null && b.kind == J::array && b.a.empty()) return true;
    if (a.kind == J::array && b.kind == J::array)
    {
      if (a.a.size() != b.a.size()) return false;
      for (std::size_t i = 0; i < a.a.size(); i++) if (!means(a.a[i], b.a[i])) return false;
      return true;
    }
    return a == b;
  }
  template <typename V> void reads(nbdl::app::deserializer_fn<my::chat, V> d, nbdl::js::val const& val, V const& v, std::string const& said, bool system, char const* whose)
  {
    auto r = read<V>(d, val);
    if (system) mc::check(r.errors == 1 && !r.messages && r.error == said, mc::str(whose, " system message gives ", r.shown()));
    else if (mc::check(r.messages == 1 && !r.errors, mc::str(whose, " message gives ", r.shown())))
      mc::check(same(v, r.message), mc::str(whose, " message is read as ", text(enc(r.message))));
  }
  template <typename V> void sent(nbdl::app::serializer<my::chat, V>& s, nbdl::app::deserializer_fn<my::chat, V> d, V const& v)
  {
    J want = enc(v);
    mc::note(text(want));
    any_message(v, [&](auto m)
    {
      constexpr bool system = is_system<decltype(m)>;
      auto said = text(enc(m));
      nbdl::js::val& val = s.serialize(m);
      mc::check(text(enc(m)) == said, "serializing changes the message");
      auto out = stringified(val);
      auto got = parse(out);
      if (!mc::check(&val == &s.val && got && means(want, *got), mc::str("is written as ", mc::show(out, 200)))) return;
      reads(d, val, v, said, system, "its own");
      mc::check(stringified(val) == out, "reading changes the value");
      // over to the server and back
      V there;
      try { jb::from_string(out, there); mc::check(same(v, there), mc::str("the server reads ", text(enc(there)))); }
      catch (std::exception& e) { mc::fail(mc::str("the server does not read ", out, ": ", e.what())); }
      nbdl::js::val in;
      parsed(in, jb::to_string(v));
      reads(d, in, v, said, system, "the server's");
    });
    mc::state(text(want)); mc::step(); mc::eval();
  }
  template <typename V> void some(nbdl::app::deserializer_fn<my::chat, V> d, int w)
  {
    nbdl::js::init();
    int before = web::registry();
    {
      nbdl::app::serializer<my::chat, V> s;
      jt::width = w;
      V v = gen<V>();
      sent(s, d, v);
    }
    mc::check(web::registry() == before, "values are left registered");
  }
  SCENARIO(upstream) { some<my::up>(nbdl::app::deserializer_upstream<my::chat>, mc::tier(4, 5)); }
  SCENARIO(downstream) { some<my::down>(nbdl::app::deserializer_downstream<my::chat>, mc::tier(4, 5)); }
  // one serializer for one message after the other
  template <typename V> void after_another(nbdl::app::deserializer_fn<my::chat, V> d)
  {
    nbdl::js::init();
    nbdl::app::serializer<my::chat, V> s;
    jt::width = 2;
    for (int i = 0; i < 2 && !mc::failed(); i++)
    {
      int k = mc::choose(size_of<V>());
      V v;
      alternatives(static_cast<decltype(as_base(v)) const*>(nullptr), [&](int j, auto t)
      {
        using T = typename decltype(t)::type;
        if (j != k) return;
        if constexpr (std::is_empty_v<T>) v = V(T{});
        else v = V(jt::gen<T>(mc::tier(1, 0)));
      });
      sent(s, d, v);
    }
  }
  SCENARIO(one_after_another_up) { after_another(nbdl::app::deserializer_upstream<my::chat>); }
  SCENARIO(one_after_another_down) { after_another(nbdl::app::deserializer_downstream<my::chat>); }
}
