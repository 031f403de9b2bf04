// Every tree of access points up to three levels.
#ifndef C07_TREES_HPP
#define C07_TREES_HPP
#include "contextdef.hpp"
namespace my
{
  using none = hears<>;
  template <int K, typename A, int St, typename ...G> using pt = ap<K, A, St, none, G...>;
  // what an access point itself has: nothing, actions, a store
  template <int K, int own, typename ...G> struct node_ { };
  template <int K, typename ...G> struct node_<K, 0, G...> { using type = pt<K, unsaid, 0, G...>; };
  template <int K, typename ...G> struct node_<K, 1, G...> { using type = pt<K, acts<'r', 'c'>, 0, G...>; };
  template <int K, typename ...G> struct node_<K, 2, G...> { using type = pt<K, unsaid, 1, G...>; };
  template <int K, typename ...G> struct node_<K, 3, G...> { using type = pt<K, acts<>, 0, G...>; };
  template <int K, typename ...G> struct node_<K, 4, G...> { using type = pt<K, acts<>, 9, G...>; };
  template <int K, typename ...G> struct node_<K, 5, G...> { using type = pt<K, acts<'d'>, 9, G...>; };
  template <int K, int own, typename ...G> using node = typename node_<K, own, G...>::type;
  template <int K, int ...own> using leaves = pack<node<K, own>...>;
  template <int K> using any_leaf = leaves<K, 0, 1, 2>;

  template <typename A, typename B> using cat = mp11::mp_append<A, B>;
  // node K with any own part and one group of each kind
  template <int K, int own> struct with
  {
    template <typename X> using a = node<K, own, one<X>>;
    template <typename X> using b = node<K, own, many<X>>;
    template <typename X, typename Y> using c = node<K, own, many<X, Y>>;
    template <typename X, typename Y> using d = node<K, own, one<X>, many<Y>>;
    template <typename X, typename Y> using e = node<K, own, many<X>, one<Y>>;
    template <typename Xs> using chains = cat<mp11::mp_transform<a, Xs>, mp11::mp_transform<b, Xs>>;
    template <typename Xs, typename Ys> using forks = cat<mp11::mp_product<c, Xs, Ys>, cat<mp11::mp_product<d, Xs, Ys>, mp11::mp_product<e, Xs, Ys>>>;
  };
  template <typename X> using single = shape<1, pack<prod<true, 0, one<X>>>, 2, pack<>, false>;
  template <typename X> using listed = shape<0, pack<prod<true, 0, many<X>>>, 2, pack<>, true>;
  template <typename Xs> using all_of = cat<mp11::mp_transform<single, Xs>, mp11::mp_transform<listed, Xs>>;
}
#endif
