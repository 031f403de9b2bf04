// mc-flags: --node
#include "specs.hpp"
// parts that come and go, side by side with other parts
SCENARIO(cond_opt) { follow<el<cond<cat, none, el<text>>, opt<otext, none>>>(); }
SCENARIO(cond_cond) { follow<el<cond<cat, none, el<text>>, cond<cat, none, el<text>>>>(); }
SCENARIO(cond_var) { follow<el<cond<cat, none, el<text>>, var<el<>>>>(); }
SCENARIO(cond_rows) { follow<el<cond<cat, none, el<text>>, rows<r_li>>>(); }
SCENARIO(cond_text) { follow<el<cond<cat, none, el<text>>, text>>(); }
SCENARIO(text_cond) { follow<el<text, cond<cat, none, el<text>>>>(); }
SCENARIO(cond_elem) { follow<el<cond<cat, none, el<text>>, el<cat>>>(); }
SCENARIO(elem_cond) { follow<el<el<cat>, cond<cat, none, el<text>>>>(); }
