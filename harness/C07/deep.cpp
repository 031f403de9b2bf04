#include "trees.hpp"
using namespace my;
namespace
{
  // below a root: a node that itself has a chain or a fork below
  template <int K, int own> using small = cat<typename with<K, own>::template chains<leaves<7, 1>>, cat<typename with<K, own>::template chains<leaves<7, 0, 2>>, typename with<K, own>::template forks<leaves<7, 1>, leaves<8, 1>>>>;
}
SCENARIO(three_levels) { apis(mp11::mp_transform<single, cat<with<7, 0>::chains<cat<small<7, 0>, small<8, 1>>>, with<7, 1>::chains<small<8, 0>>>>{}); }
SCENARIO(deep_forks) { apis(mp11::mp_transform<single, with<7, 1>::forks<small<7, 1>, leaves<8, 0, 2>>>{}); }
namespace
{
  template <typename X, typename Y> using beside = shape<0, pack<prod<true, 0, many<Y, X>>>, 2, pack<>, false>;
  template <typename X, typename Y> using two_producers = shape<0, pack<prod<true, 0, many<X>>, prod<true, 1, one<Y>>>, 2, pack<>, false>;
}
SCENARIO(beside_each_other) { apis(mp11::mp_product<beside, with<5, 1>::chains<any_leaf<7>>, any_leaf<6>>{}); }
SCENARIO(of_two_producers) { apis(mp11::mp_product<two_producers, with<5, 1>::chains<any_leaf<7>>, cat<any_leaf<6>, with<6, 0>::forks<leaves<5, 1>, leaves<6, 0, 1>>>>{}); }
