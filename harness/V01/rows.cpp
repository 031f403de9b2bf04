// mc-flags: --node
#include "specs.hpp"
// what the rows of a list can be
SCENARIO(of_text) { follow<el<rows<r_cat>>>(); }
SCENARIO(of_elements) { follow<el<rows<r_li>, rows<r_cat>>>(); }
SCENARIO(with_the_rest) { follow<el<rows<r_both>>>(); }
SCENARIO(that_may_be_empty) { follow<el<rows<r_opt>, fixed>>(); }
SCENARIO(by_predicate) { follow<el<fixed, rows<r_cond>>>(); }
SCENARIO(of_branches) { follow<el<rows<r_many>>>(); }
SCENARIO(two_lists) { follow<el<rows<r_opt>, text, rows<r_many>>>(); }
SCENARIO(without_element) { follow<rows<r_cond>>(); }
// a list that is there only with some alternatives
SCENARIO(of_a_choice) { follow<el<maybe_rows, fixed>>(); }
