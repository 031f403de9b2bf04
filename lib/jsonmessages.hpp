// A context whose messages (every action, three access points) are written to JSON.
#ifndef VERIF_JSONMESSAGES_HPP
#define VERIF_JSONMESSAGES_HPP
#include "jsontypes.hpp"
#include <nbdl/context.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/echo_producer.hpp>
#include <nbdl/message.hpp>
#include <nbdl/null_store.hpp>
namespace my
{
  struct room { int id; };
  struct lobby { };                    // a key with one value
  struct guest { nbdl::string name; };
  struct chat_consumer { };
  struct chat
  {
    static auto make_def()
    {
      using namespace nbdl_def;
      return Context(
        Producers(Producer(Type<nbdl::echo_producer>, Name(BOOST_HANA_STRING("echo")),
          AccessPoint(Name(BOOST_HANA_STRING("room")), PathKey<room>, Entity<point>, Actions(Create(), Read(), Update(), Delete()),
            AccessPoint(Name(BOOST_HANA_STRING("guest")), PathKey<guest>, Entity<one>, Actions(Create(), Read(), Update(), Delete())),
            AccessPoint(Name(BOOST_HANA_STRING("lobby")), PathKey<lobby>, Entity<vector_int>, Actions(Create(), Read(), Update(), Delete()))))),
        Consumers(Consumer(Type<chat_consumer>, Name(BOOST_HANA_STRING("consumer")))));
    }
    using vector_int = std::vector<int>;
  };
  using api = nbdl::message_api<chat>;
  using up = api::upstream_variant;
  using down = api::downstream_variant;
}
namespace nbdl
{
  NBDL_ENTITY(my::room, id);
  NBDL_ENTITY(my::guest, name);
}
namespace jt
{
  namespace message = nbdl::message;
  template <> struct ty<my::room> { static my::room gen(int d) { return {jt::gen<int>(d)}; } static J enc(my::room const& r) { return J::O({{"id", J::I(r.id)}}); }
    static verdict dec(J const& j, my::room& v) { verdict r = yes; r = both(r, member(j, "id", v.id)); return r; } };
  template <> struct ty<my::guest> { static my::guest gen(int d) { return {jt::gen<nbdl::string>(d)}; } static J enc(my::guest const& r) { return J::O({{"name", J::S(r.name)}}); }
    static verdict dec(J const& j, my::guest& v) { verdict r = yes; r = both(r, member(j, "name", v.name)); return r; } };
  template <> struct ty<nbdl::system_message>
  {
    static nbdl::system_message gen(int d)
    {
      nbdl::system_message s;
      s.level = decltype(s.level)(mc::choose(5));
      s.value = jt::gen<std::string>(d);
      return s;
    }
    static J enc(nbdl::system_message const& s) { return J::O({{"level", J::I(int(s.level))}, {"value", jt::enc(s.value)}}); }
    static verdict dec(J const& j, nbdl::system_message& v)
    {
      long long l = 0;
      verdict r = j.kind == J::object && j.o.count("level") ? whole(j.o.at("level"), 0, UINT_MAX, l) : no;
      v.level = decltype(v.level)(l);
      return both(r, member(j, "value", v.value));
    }
  };
  template <typename K, typename P> struct ty<message::create_path<K, P>>
  {
    static message::create_path<K, P> gen(int d) { return {jt::gen<P>(d)}; }
    static J enc(message::create_path<K, P> const& p) { return jt::enc(p.parent_path); }
    static verdict dec(J const& j, message::create_path<K, P>& p) { return jt::dec(j, p.parent_path); }
  };
  template <typename S> struct storage;
  template <typename ...T> struct storage<hana::basic_tuple<T...>>
  {
    template <typename X> static X one(int d) { if constexpr (std::is_empty_v<X>) return {}; else return jt::gen<X>(d); }
    static hana::basic_tuple<T...> gen(int d) { return hana::basic_tuple<T...>{one<T>(d + 1)...}; }
    static J enc(hana::basic_tuple<T...> const& t)
    {
      vector<J> v;
      hana::for_each(t, [&](auto const& x) { using X = std::decay_t<decltype(x)>; if constexpr (!std::is_empty_v<X>) v.push_back(jt::enc<X>(x)); });
      if (v.empty()) return J::N();
      return v.size() == 1 ? v[0] : J::A(v);
    }
  };
  template <typename T> concept stored = requires { typename T::storage_t; };
  template <stored T> struct ty<T>
  {
    using S = typename T::storage_t;
    static T gen(int d) { return T{storage<S>::gen(d)}; }
    static J enc(T const& m) { return storage<S>::enc(m.storage); }
    static verdict dec(J const& j, T& m) { return dec_sequence(j, m.storage); }
  };
  template <typename V> struct base_of;
  template <typename ...T> struct base_of<nbdl::detail::variant<T...>> { using type = nbdl::detail::variant<T...>; };
  template <typename ...T> nbdl::detail::variant<T...> as_base(nbdl::detail::variant<T...> const&);
  // message by number, as the sender makes it
  template <typename V, typename F> void each_alternative(V const&, F f);
  template <typename ...T, typename F> void alternatives(nbdl::detail::variant<T...> const*, F f) { int i = 0; (f(i++, hana::type_c<T>), ...); }
  template <typename ...T> constexpr int count(nbdl::detail::variant<T...> const*) { return int(sizeof...(T)); }
  template <typename V> constexpr int size_of() { return count(static_cast<decltype(as_base(std::declval<V>()))*>(nullptr)); }
  template <typename V> struct message_variant
  {
    using B = decltype(as_base(std::declval<V>()));
    static V gen(int d)
    {
      int k = mc::choose(size_of<V>());
      V v;
      alternatives(static_cast<B const*>(nullptr), [&](int i, auto t)
      {
        using T = typename decltype(t)::type;
        if (i == k) { if constexpr (std::is_empty_v<T>) v = V(T{}); else v = V(jt::gen<T>(d)); }
      });
      return v;
    }
    static J enc(V const& v) { return ty<B>::enc(v); }
    static verdict dec(J const& j, V& v) { return ty<B>::dec(j, v); }
  };
  template <> struct ty<my::up> : message_variant<my::up> { };
  template <> struct ty<my::down> : message_variant<my::down> { };
}
#endif
