// mc-flags: --node
#include "specs.hpp"
// parts that come and go, side by side with other parts
SCENARIO(var_opt) { follow<el<var<el<>>, opt<otext, none>>>(); }
SCENARIO(var_cond) { follow<el<var<el<>>, cond<cat, none, el<text>>>>(); }
SCENARIO(var_var) { follow<el<var<el<>>, var<el<>>>>(); }
SCENARIO(var_rows) { follow<el<var<el<>>, rows<r_li>>>(); }
SCENARIO(var_text) { follow<el<var<el<>>, text>>(); }
SCENARIO(text_var) { follow<el<text, var<el<>>>>(); }
SCENARIO(var_elem) { follow<el<var<el<>>, el<cat>>>(); }
SCENARIO(elem_var) { follow<el<el<cat>, var<el<>>>>(); }
