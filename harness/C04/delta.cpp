#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_delta.hpp>
#include <nbdl/delta.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_delta.hpp>
#include <string>

namespace hana = boost::hana;
namespace my
{
  struct inner { int x; bool y; };
  struct thing { int a; std::string b; bool c; };
  struct nested { int a; inner in; std::string s; };
  struct one { int v; };
}
namespace nbdl
{
  NBDL_ENTITY(my::inner, x, y);
  NBDL_ENTITY(my::thing, a, b, c);
  NBDL_ENTITY(my::nested, a, in, s);
  NBDL_ENTITY(my::one, v);
}
namespace
{
  using my::thing; using my::nested; using my::inner; using my::one;
  std::string show(thing const& t) { return mc::str("{", t.a, ",", t.b, ",", t.c, "}"); }
  std::string show(nested const& t) { return mc::str("{", t.a, ",{", t.in.x, ",", t.in.y, "},", t.s, "}"); }
  std::string show(one const& t) { return mc::str("{", t.v, "}"); }
  bool eq(thing const& x, thing const& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
  bool eq(nested const& x, nested const& y) { return x.a == y.a && x.in.x == y.in.x && x.in.y == y.in.y && x.s == y.s; }
  bool eq(one const& x, one const& y) { return x.v == y.v; }

  thing make_thing() { thing t; t.a = mc::choose(3) - 1; t.b = std::vector<std::string>{"", "x", "yy"}[mc::choose(3)]; t.c = mc::flip(); return t; }
  nested make_nested() { nested t; t.a = mc::choose(2); t.in.x = mc::choose(2); t.in.y = mc::flip(); t.s = mc::flip() ? "s" : ""; return t; }
  one make_one() { return {mc::choose(5)}; }

  // optional members of a delta as text
  template <typename D>
  std::string show_delta(D const& d)
  {
    std::string s;
    hana::for_each(d.storage, [&](auto const& o) { o.match([&](nbdl::nothing) { s += "_"; }, [&](auto const&) { s += "#"; }); });
    return s;
  }

  template <typename Make>
  void laws(Make make)
  {
    auto x = make(); auto y = make();
    using T = decltype(x);
    mc::note(mc::str(show(x), " -> ", show(y)));
    auto d = nbdl::make_delta<nbdl::delta_tag>(x, y);   // what turns y into x
    auto z = y;
    bool changed = nbdl::apply_delta(d, z);
    mc::check(eq(z, x), mc::str("applying the difference gives ", show(z)));
    mc::check(changed == !eq(x, y), mc::str("change reported as ", changed));
    bool again = nbdl::apply_delta(d, z);
    mc::check(eq(z, x) && !again, "applying it a second time must change nothing");
    // the complete delta
    auto full = nbdl::make_delta<nbdl::delta_tag>(x);
    auto w = y;
    bool ch2 = nbdl::apply_delta(full, w);
    mc::check(eq(w, x) && ch2 == !eq(x, y), mc::str("applying the complete delta gives ", show(w)));
    mc::check(show_delta(full).find('_') == std::string::npos, "complete delta lacks a member");
    // an empty delta
    nbdl::delta<T> none{};
    auto v = y;
    mc::check(!nbdl::apply_delta(none, v) && eq(v, y), "an empty delta changed something");
    mc::check(show_delta(none).find('#') == std::string::npos, "default delta is not empty");
    mc::state(show_delta(d));
  }
  // a delta contains exactly the members that differ
  template <typename Make, typename Mask>
  void minimal(Make make, Mask mask)
  {
    auto x = make(); auto y = make();
    auto d = nbdl::make_delta<nbdl::delta_tag>(x, y);
    mc::check(show_delta(d) == mask(x, y), mc::str("difference of ", show(x), " and ", show(y), " is ", show_delta(d)));
    mc::state(show_delta(d));
  }
  // deltas merge: applying d2 to d1 gives a delta with the effect of d1 then d2
  template <typename Make>
  void composition(Make make)
  {
    auto x = make(); auto y = make(); auto z = make();
    using T = decltype(x);
    bool partial = mc::flip();
    auto d1 = nbdl::make_delta<nbdl::delta_tag>(y, x);
    auto d2 = partial ? nbdl::make_delta<nbdl::delta_tag>(z, y) : nbdl::make_delta<nbdl::delta_tag>(z, x);
    auto want = x;
    nbdl::apply_delta(d1, want); nbdl::apply_delta(d2, want);
    nbdl::delta<T> sum{};
    nbdl::apply_delta(d1, sum);
    nbdl::apply_delta(d2, sum);
    auto got = x;
    nbdl::apply_delta(sum, got);
    mc::note(mc::str(show(x), show(y), show(z)));
    mc::check(eq(got, want), mc::str("merged deltas give ", show(got), " instead of ", show(want)));
    // and on an unrelated value every member of the later delta wins
    auto other = z, other2 = z;
    nbdl::apply_delta(d1, other); nbdl::apply_delta(d2, other);
    nbdl::apply_delta(sum, other2);
    mc::check(eq(other, other2), "merged deltas differ from their sequence on another value");
    mc::state(show_delta(sum));
  }
}

SCENARIO(laws_thing) { laws(make_thing); }
SCENARIO(laws_nested) { laws(make_nested); }
SCENARIO(laws_one) { laws(make_one); }
SCENARIO(minimal_thing) { minimal(make_thing, [](thing const& x, thing const& y) {
  return std::string(1, x.a == y.a ? '_' : '#') + (x.b == y.b ? '_' : '#') + (x.c == y.c ? '_' : '#'); }); }
SCENARIO(minimal_nested) { minimal(make_nested, [](nested const& x, nested const& y) {
  return std::string(1, x.a == y.a ? '_' : '#') + (x.in.x == y.in.x && x.in.y == y.in.y ? '_' : '#') + (x.s == y.s ? '_' : '#'); }); }
SCENARIO(composition_thing) { composition(make_thing); }
SCENARIO(composition_nested) { composition(make_nested); }
SCENARIO(delta_chains)
{
  // a chain of n partial deltas folded into one
  thing x = make_thing();
  int n = mc::tier(3, 4);
  thing seq = x; nbdl::delta<thing> sum{};
  for (int i = 0; i < n; i++)
  {
    nbdl::delta<thing> d{};
    switch (mc::choose(7))
    {
      case 0: break;
      case 1: hana::at_c<0>(d.storage) = nbdl::make_optional(i); break;
      case 2: hana::at_c<1>(d.storage) = nbdl::make_optional(std::string(i, 'q')); break;
      case 3: hana::at_c<2>(d.storage) = nbdl::make_optional(i % 2 == 0); break;
      case 4: d = nbdl::make_delta<nbdl::delta_tag>(thing{i, "f", true}); break;
      case 5: hana::at_c<0>(d.storage) = nbdl::make_optional(x.a); break;
      case 6: hana::at_c<1>(d.storage) = nbdl::make_optional(x.b); hana::at_c<2>(d.storage) = nbdl::make_optional(x.c); break;
    }
    thing before = seq;
    bool changed = nbdl::apply_delta(d, seq);
    mc::check(changed == !eq(before, seq), "apply_delta reports a change exactly when the value changed");
    nbdl::apply_delta(d, sum);
    mc::step();
  }
  thing y = x;
  nbdl::apply_delta(sum, y);
  mc::check(eq(y, seq), mc::str("folded chain gives ", show(y), " instead of ", show(seq)));
  mc::state(show(seq));
}
// long chains of deltas of one member each, in every rhythm, and long values
SCENARIO(long_chains)
{
  int n = mc::pick(std::vector<int>{50, 256, 1000}), period = 1 + mc::choose(6), len = mc::pick(std::vector<int>{0, 15, 16, 256, 5000});
  thing x{-1, "start", false}, seq = x; nbdl::delta<thing> sum{};
  auto t = [&](int i) { std::string r(len, 'a' + i % 26); return r + (i % 2 ? "x" : ""); };
  for (int i = 0; i < n && !mc::failed(); i++)
  {
    nbdl::delta<thing> d{}; thing want = seq;
    switch (i % period)
    {
    case 0: want.a = i / 2; hana::at_c<0>(d.storage) = nbdl::make_optional(want.a); break;
    case 1: want.b = t(i / 3); hana::at_c<1>(d.storage) = nbdl::make_optional(want.b); break;
    case 2: want.c = i % 4 < 2; hana::at_c<2>(d.storage) = nbdl::make_optional(want.c); break;
    case 3: break;
    case 4: want = {i, t(i), !seq.c}; d = nbdl::make_delta<nbdl::delta_tag>(want, seq); break;
    case 5: want = {0, "", false}; d = nbdl::make_delta<nbdl::delta_tag>(want); break;
    }
    bool differs = !eq(want, seq);
    mc::check(nbdl::apply_delta(d, seq) == differs && eq(seq, want), mc::str("delta ", i, " gives ", show(seq).substr(0, 100)));
    nbdl::apply_delta(d, sum);
    if (i % 50 == 0 || i == n - 1)
    {
      thing y = x; nbdl::apply_delta(sum, y);
      mc::check(eq(y, seq), mc::str("the first ", i + 1, " deltas folded give ", show(y).substr(0, 100), " instead of ", show(seq).substr(0, 100)));
    }
    mc::step();
  }
  mc::state(mc::str(n, ".", period, ".", len)); mc::eval();
}
