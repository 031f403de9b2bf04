// mc-flags: --node
#include "specs.hpp"
// parts that come and go, side by side with other parts
SCENARIO(opt_opt) { follow<el<opt<otext, none>, opt<otext, none>>>(); }
SCENARIO(opt_cond) { follow<el<opt<otext, none>, cond<cat, none, el<text>>>>(); }
SCENARIO(opt_var) { follow<el<opt<otext, none>, var<el<>>>>(); }
SCENARIO(opt_rows) { follow<el<opt<otext, none>, rows<r_li>>>(); }
SCENARIO(opt_text) { follow<el<opt<otext, none>, text>>(); }
SCENARIO(text_opt) { follow<el<text, opt<otext, none>>>(); }
SCENARIO(opt_elem) { follow<el<opt<otext, none>, el<cat>>>(); }
SCENARIO(elem_opt) { follow<el<el<cat>, opt<otext, none>>>(); }
