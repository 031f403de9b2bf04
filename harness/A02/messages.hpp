// What a deserializer gives for what a serializer wrote.
#ifndef A02_MESSAGES_HPP
#define A02_MESSAGES_HPP
#include "jsonmessages.hpp"
#include <full_duplex.hpp>
namespace a02
{
  using namespace jt;
  // each time the deserializer resolves: a message, or an error and what it says
  template <typename V> struct outcomes
  {
    int messages = 0, errors = 0;
    V message;
    std::string error;
    std::string shown() const { return mc::str(messages, " messages and ", errors, " errors", errors ? " (" + error + ")" : ""); }
  };
  template <typename V> struct resolver
  {
    outcomes<V>& out;
    template <typename T> void operator()(full_duplex::error<T> e)
    {
      out.errors++;
      if constexpr (std::is_same_v<T, nbdl::system_message>) out.error = text(enc(e.value)); else out.error = e.value;
    }
    template <typename M> void operator()(M&& m) { out.messages++; out.message = V(std::forward<M>(m)); }
  };
  template <typename V, typename D, typename B> outcomes<V> read(D const& d, B const& b)
  {
    outcomes<V> out;
    resolver<V> r{out};
    auto p = d();
    p.fn(r, b);
    return out;
  }
  // every message and system message of a variant
  template <typename V, typename F> void any_message(V v, F f)
  {
    nbdl::match(std::move(v), hana::overload_linearly([](nbdl::unresolved) {}, [&](auto m) { f(std::move(m)); }));
  }
  // the text that stands for it is what D01 says it is
  template <typename M> constexpr bool is_system = std::is_same_v<std::decay_t<M>, nbdl::system_message>;
}
#endif
