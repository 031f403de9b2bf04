// A stand-in for the parts of full_duplex that nbdl::app's serializer and its reader of messages use: a promise holds
// a function of a resolver and an input, an error is a value marked as such.
#ifndef VERIF_FULL_DUPLEX_HPP
#define VERIF_FULL_DUPLEX_HPP
#include <type_traits>
#include <utility>
namespace full_duplex
{
  template <typename Fn> struct promise_t { Fn fn; };
  struct promise_fn { template <typename Fn> constexpr auto operator()(Fn fn) const { return promise_t<Fn>{std::move(fn)}; } };
  constexpr promise_fn promise{};
  struct tap_fn { template <typename Fn> constexpr auto operator()(Fn fn) const { return promise_t<Fn>{std::move(fn)}; } };
  constexpr tap_fn tap{};
  template <typename T> struct error { T value; };
  struct make_error_fn { template <typename T> constexpr auto operator()(T&& t) const { return error<std::decay_t<T>>{std::forward<T>(t)}; } };
  constexpr make_error_fn make_error{};
  struct void_input_t { };
  constexpr void_input_t void_input{};
  struct queue_full_t { };
}
#endif
