#ifndef C07_FORMS_HPP
#define C07_FORMS_HPP
#include "build.hpp"
namespace my
{
  template <bool n, int i> using pr = prod<n, i, one<pt<i + 1, acts<'u'>, 1>>>;
  template <bool n> using p0 = pack<prod<n, 0, unsaid>>;
  template <bool n> using p1 = pack<pr<n, 0>>;
  template <bool n> using p2 = pack<pr<n, 0>, prod<n, 1, many<pt<2, acts<'c'>, 0>, pt<3, unsaid, 0>>>>;
  template <bool n> using p3 = pack<prod<n, 1, many<pt<2, acts<'c', 'u'>, 1>, pt<3, acts<'d'>, 2>>>, prod<n, 2, unsaid>, pr<n, 0>>;
  template <typename P, int pf, bool n, bool rev> using with_consumers = pack<
    shape<pf, P, 2, pack<>, rev>
  , shape<pf, P, 0, pack<>, rev>
  , shape<pf, P, 1, pack<cons<n, 1, 5>>, rev>
  , shape<pf, P, 0, pack<cons<n, 3, 5>>, rev>
  , shape<pf, P, 0, pack<cons<n, 2, 6>, cons<n, 1, 5>>, rev>
  , shape<pf, P, 0, pack<cons<n, 1, 7>, cons<n, 3, 6>, cons<n, 2, 5>>, rev>>;
}
#endif
