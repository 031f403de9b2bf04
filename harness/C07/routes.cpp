#include "forms.hpp"
using namespace my;
namespace
{
  using all = acts<'c', 'r', 'u', 'd'>;
  using c3 = pack<cons<true, 1, 5>, cons<true, 2, 6>, cons<true, 3, 7>>;
  template <int pf, typename ...P> using sh = shape<pf, pack<P...>, 0, c3, false>;
  // one producer, a tree with stores of two kinds and none
  using tree = sh<1, prod<true, 0, one<ap<1, all, 1, none, one<ap<1, all, 2, none>>, many<ap<2, all, 0, none>, ap<103, all, 1, none>>>>>>;
  // three producers, each listening to others in every way
  template <typename H0, typename H1, typename H2> using hearing = sh<0
  , prod<true, 0, many<ap<1, acts<'u', 'r'>, 1, H0>>>
  , prod<true, 1, one<pt<2, unsaid, 0, one<ap<102, acts<'c', 'd'>, 2, H1>>>>>
  , prod<true, 2, many<ap<3, unsaid, 1, H2, one<ap<1, acts<'u'>, 9, hears<p<1>>>>>>>>;
  using a = p<1>; using b = p<2, 102>; using c = p<3>; using d = p<3, 1>;
  using hearings = pack<
    hearing<none, none, none>
  , hearing<hears<b>, none, none>, hearing<none, hears<a>, none>, hearing<none, none, hears<a>>
  , hearing<hears<a>, none, none>                              // itself
  , hearing<hears<b, d>, hears<a>, hears<a, b>>
  , hearing<hears<d>, hears<d>, hears<d>>
  , hearing<none, hears<p<9>>, hears<p<2>, p<1, 1>, b>>>;      // some lead nowhere
}
SCENARIO(stores_and_listeners) { routes(cat<pack<tree>, hearings>{}); }
