// mc-flags: --node
#include "specs.hpp"
// parts within parts
SCENARIO(cond_in_opt) { follow<el<opt<cond<fixed, el<>, text>, el<fixed>>>>(); }
SCENARIO(opt_in_cond) { follow<el<cond<opt<otext, none>, opt<el<>, text>, none>>>(); }
SCENARIO(three_deep) { follow<opt<cond<var<none>, none, fixed>, cond<none, el<>, cat>>>(9000); }
SCENARIO(three_deep_between) { follow<el<text, opt<cond<opt<el<>, fixed>, opt<fixed, el<>>, none>, none>, text>>(); }
SCENARIO(opt_in_opt) { follow<el<opt<opt<el<>, fixed>, opt<fixed, el<otext_el>>>>>(); }
SCENARIO(rows_in_opt) { follow<el<opt<rows<r_li>, fixed>>>(); }
SCENARIO(rows_in_cond) { follow<el<cond<rows<r_cat>, el<rows<r_li>>, none>, fixed>>(); }
SCENARIO(parts_in_elements) { follow<el<el<opt<otext, none>, fixed>, el<cond<none, el<>, cat>>>>(); }
SCENARIO(no_element) { follow<cond<text, none, el<>>>(); }
// the value that a branch stands for decides further within it
SCENARIO(by_the_matched) { follow<el<matched>>(); }
