#include "trees.hpp"
using namespace my;
SCENARIO(leaves_) { apis(all_of<leaves<7, 0, 1, 2, 3, 4, 5>>{}); }
SCENARIO(chains) { apis(cat<all_of<with<7, 0>::chains<any_leaf<7>>>, all_of<with<7, 1>::chains<any_leaf<8>>>>{}); }
SCENARIO(forks) { apis(mp11::mp_transform<single, cat<with<7, 0>::forks<any_leaf<7>, any_leaf<8>>, with<7, 1>::forks<any_leaf<7>, any_leaf<8>>>>{}); }
