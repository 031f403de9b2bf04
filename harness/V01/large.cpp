// mc-flags: --node
#include "specs.hpp"
// long texts, lists of hundreds of rows
SCENARIO(large)
{
  large = true;
  switch (mc::choose(5))
  {
  case 0: follow<el<text, opt<matched, cat>>>(); break;
  case 1: follow<el<rows<r_both>, fixed>>(); break;
  case 2: follow<el<rows<r_cond>, rows<r_many>>>(); break;
  case 3: follow<el<maybe_rows, rows<r_opt>, var<text>>>(); break;
  case 4: follow<rows<r_cat>>(); break;
  }
  large = false;
}
