// mc-flags: --node
#include "specs.hpp"
// parts that come and go, side by side with other parts
SCENARIO(rows_opt) { follow<el<rows<r_li>, opt<otext, none>>>(); }
SCENARIO(rows_cond) { follow<el<rows<r_li>, cond<cat, none, el<text>>>>(); }
SCENARIO(rows_var) { follow<el<rows<r_li>, var<el<>>>>(); }
SCENARIO(rows_rows) { follow<el<rows<r_li>, rows<r_li>>>(); }
SCENARIO(rows_text) { follow<el<rows<r_li>, text>>(); }
SCENARIO(text_rows) { follow<el<text, rows<r_li>>>(); }
SCENARIO(rows_elem) { follow<el<rows<r_li>, el<cat>>>(); }
SCENARIO(elem_rows) { follow<el<el<cat>, rows<r_li>>>(); }
