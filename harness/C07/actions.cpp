#include "trees.hpp"
using namespace my;
namespace
{
  // every order of every choice of actions
  template <typename L, char c> struct has;
  template <char ...x, char c> struct has<acts<x...>, c> : std::bool_constant<((x == c) || ...)> { };
  template <char ...x> constexpr bool distinct() { char v[] = {x..., 0}; for (unsigned i = 0; i + 1 < sizeof v; i++) for (unsigned j = 0; j < i; j++) if (v[i] == v[j]) return false; return true; }
  template <char ...x> auto grow(acts<x...>)
  {
    if constexpr (!distinct<x...>()) return pack<>{};
    else if constexpr (sizeof...(x) == 4) return pack<acts<x...>>{};
    else return mp11::mp_append<pack<acts<x...>>, decltype(grow(acts<x..., 'c'>{})), decltype(grow(acts<x..., 'r'>{})), decltype(grow(acts<x..., 'u'>{})), decltype(grow(acts<x..., 'd'>{}))>{};
  }
  using orders = decltype(grow(acts<>{}));
  static_assert(mp11::mp_size<orders>::value == 65);
  template <typename A> using plain = single<pt<3, A, 0>>;
  template <typename A> using stored = listed<pt<3, A, 1>>;
  template <typename A> using empty_key = single<pt<2, unsaid, 0, one<pt<103, A, 1>>>>;
  template <typename A> using below_empty = single<pt<102, A, 0, one<pt<3, A, 1>>>>;
}
SCENARIO(orders_of_actions) { apis(cat<mp11::mp_transform<plain, orders>, mp11::mp_transform<stored, orders>>{}); }
SCENARIO(keys_without_value) { apis(cat<mp11::mp_transform<empty_key, orders>, mp11::mp_transform<below_empty, orders>>{}); }
