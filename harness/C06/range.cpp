#include "rawvariant.hpp"
// store_range: a container's elements as stores; strong_alias: a store under another name
#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_action.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/get.hpp>
#include <nbdl/match.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/store_compose.hpp>
#include <nbdl/store_range.hpp>
#include <nbdl/strong_alias.hpp>
#include <nbdl/variant.hpp>
#include <list>
#include <map>
#include <vector>

namespace hana = boost::hana;
namespace my { struct pt { int x; int y; }; }
namespace nbdl { NBDL_ENTITY(my::pt, x, y); }
namespace
{
  using my::pt;
  using V = nbdl::variant<int, std::string>;
  template <int i> struct K { friend constexpr auto operator==(K, K) { return hana::true_c; } };
  std::string show(nbdl::unresolved) { return "u"; }
  std::string show(int i) { return mc::str(i); }
  std::string show(std::string const& s) { return "'" + s + "'"; }

}

template <typename C, typename Wrap> void ranges(Wrap wrap)
{
  C c; std::vector<std::string> m;
  int len = mc::choose(mc::tier(4, 5));
  for (int i = 0; i < len; i++)
    switch (mc::choose(3))
    {
    case 0: c.push_back(V{}); m.push_back("u"); break;
    case 1: c.push_back(V{i}); m.push_back(mc::str(i)); break;
    case 2: c.push_back(V{std::string(i, 's')}); m.push_back("'" + std::string(i, 's') + "'"); break;
    }
  auto below = nbdl::store_compose(K<1>{}, std::string("below"), nbdl::store_compose(K<2>{}, 7, hana::make_map()));
  std::string mb = "'below'";
  auto range = nbdl::store_range(K<9>{}, c, wrap(below));
  int rounds = mc::tier(3, 3);
  for (int r = 0; r < rounds && !mc::failed(); r++)
  {
    auto walk = [&](auto& rg)
    {
      std::size_t i = 0;
      for (auto& s : rg)
      {
        int n = 0; std::string t; 
        nbdl::match(s, K<9>{}, [&](auto const& x) { n++; t = show(x); });
        mc::check(i < m.size(), "more elements than the container has");
        if (i >= m.size()) return;
        mc::check(n == 1 && t == m[i], mc::str("element ", i, " is ", t, " (", n, " calls) instead of ", m[i]));
        n = 0; t = "";
        nbdl::match(s, K<1>{}, [&](auto const& x) { n++; t += show(x); });
        nbdl::match(s, K<2>{}, [&](auto const& x) { n++; t += show(x); });
        mc::check(n == 2 && t == mb + "7", mc::str("the store below gives ", t, " instead of ", mb + "7"));
        ++i;
        mc::step(); mc::eval();
      }
      mc::check(i == m.size(), mc::str(i, " elements instead of ", m.size()));
    };
    walk(range);
    walk(std::as_const(range));
    mc::check(c.size() == m.size(), "the container changed");
    // act on one element through its iterator, on the store below, or on the container itself
    int what = mc::choose(4);
    if (what == 0 || what == 1)
    {
      if (m.empty()) continue;
      int k = mc::choose(int(m.size())), i = 0;
      for (auto& s : range) if (i++ == k)
      {
        bool res;
        if (what == 0) { res = nbdl::apply_action(s, nbdl::store_iterator_action<int>{50 + r}); m[k] = mc::str(50 + r); }
        else { res = nbdl::apply_action(s, nbdl::store_iterator_action<std::string>{"act"}); m[k] = "'act'"; }
        mc::check(res, "the action reports no change");
      }
    }
    else if (what == 2)
    {
      if constexpr (std::is_same_v<decltype(wrap(below)), std::reference_wrapper<decltype(below)>>)
      {
        if (m.empty()) continue;
        int k = mc::choose(int(m.size())), i = 0;
        for (auto& s : range) if (i++ == k)
          nbdl::apply_action(s, nbdl::store_composite_action(K<1>{}, [](auto& x) { x += 'z'; }));
        mb.insert(mb.size() - 1, "z");
      }
    }
    else { c.push_back(V{r}); m.push_back(mc::str(r)); }
    std::string all; for (auto& x : m) all += x + ",";
    mc::state(all + mb);
  }
}
SCENARIO(range_of_a_vector) { ranges<std::vector<V>>([](auto& s) { return std::ref(s); }); }
SCENARIO(range_of_a_list) { ranges<std::list<V>>([](auto& s) { return s; }); }
SCENARIO(range_of_a_copied_store) { ranges<std::vector<V>>([](auto& s) { return s; }); }

// each element is the object itself, and so is what is below
SCENARIO(the_elements_themselves)
{
  int n = mc::choose(4);
  auto below = nbdl::store_compose(K<1>{}, std::string("below"), nbdl::store_compose(K<2>{}, 7, hana::make_map()));
  auto go = [&](auto c)
  {
    for (int i = 0; i < n; i++) c.push_back(typename decltype(c)::value_type{});
    auto range = nbdl::store_range(K<9>{}, c, std::ref(below));
    auto at = c.begin(); int i = 0;
    void const* low = nullptr;
    nbdl::match(below, K<1>{}, [&](auto const& x) { low = &x; });
    for (auto& s : range)
    {
      int k = 0;
      nbdl::match(s, K<9>{}, [&](auto const& x)
      {
        k++;
        void const* want = nullptr;
        if constexpr (std::is_same_v<std::decay_t<decltype(*at)>, V>) std::visit([&](auto const& y) { want = &y; }, raw_variant(*at));
        else want = &*at;
        mc::check(static_cast<void const*>(&x) == want, mc::str("element ", i, " of ", n, " is another object"));
      });
      nbdl::match(s, K<1>{}, [&](auto const& x) { k++; mc::check(static_cast<void const*>(&x) == low, "the value of the store below is another object"); });
      mc::check(k == 2, "not called exactly once");
      ++at; ++i;
    }
    mc::check(i == n, mc::str(i, " elements instead of ", n));
  };
  switch (mc::choose(5))
  {
  case 0: go(std::vector<int>{}); break;
  case 1: go(std::list<std::string>{}); break;
  case 2: go(std::vector<V>{}); break;
  case 3: go(std::vector<std::vector<int>>{}); break;
  case 4: go(std::list<V>{}); break;
  }
  mc::state(mc::str(n)); mc::step(); mc::eval();
}

// containers of many elements: each is itself, and one is changed
SCENARIO(many_elements)
{
  int n = mc::pick(std::vector<int>{9, 16, 100, 127, 128, 129, 255, 256, 257, 1000, 65536});
  bool list = mc::flip();
  int at = mc::pick(std::vector<int>{0, 1, 7, 127, 128, 255, 256, -2, -1});
  if (at < 0) at += n;
  if (at >= n) return;
  auto below = nbdl::store_compose(K<1>{}, std::string("below"), nbdl::store_compose(K<2>{}, 7, hana::make_map()));
  auto go = [&](auto c)
  {
    for (int i = 0; i < n; i++) c.push_back(i % 3 == 2 ? V{} : V{i});
    auto range = nbdl::store_range(K<9>{}, c, std::ref(below));
    auto walk = [&](int changed)
    {
      int i = 0;
      for (auto& s : range)
      {
        std::string want = i == changed ? "'now'" : i % 3 == 2 ? "u" : mc::str(i), t; int k = 0;
        nbdl::match(s, K<9>{}, [&](auto const& x) { k++; t = show(x); });
        if (i % 16 == 0) nbdl::match(s, K<2>{}, [&](auto const& x) { k += show(x) == "7"; }); else k++;
        if (k != 2 || t != want) { mc::fail(mc::str("element ", i, " of ", n, " is ", t, " instead of ", want)); return; }
        if (changed < 0 && i == at) mc::check(nbdl::apply_action(s, nbdl::store_iterator_action<std::string>{"now"}), "the action reports no change");
        i++;
      }
      mc::check(i == n, mc::str(i, " elements instead of ", n));
    };
    walk(-1);
    walk(at);
    mc::check(int(c.size()) == n, "the container changed");
  };
  if (list) go(std::list<V>{}); else go(std::vector<V>{});
  mc::state(mc::str(list, n, ".", at)); mc::step(); mc::eval();
}
namespace
{
  using VA = nbdl::strong_alias<V>;
}
SCENARIO(aliases)
{
  int k = mc::choose(3);
  V v = k == 0 ? V{} : k == 1 ? V{5} : V{std::string("x")};
  std::string want = k == 0 ? "u" : k == 1 ? "5" : "'x'";
  VA a(v);
  auto look = [&](auto&& s, char const* w)
  {
    int n = 0; std::string t;
    nbdl::match(static_cast<decltype(s)>(s), [&](auto const& x) { n++; t = show(x); });
    mc::check(n == 1 && t == want, mc::str(w, ": ", t, " instead of ", want, ", ", n, " calls"));
    mc::step(); mc::eval();
  };
  look(a, "alias"); look(std::as_const(a), "const alias");
  VA b = a; look(b, "copy");
  VA const c = std::as_const(a); look(c, "copy of const");
  look(VA(a), "temporary");
  VA d = std::move(b); look(d, "moved");
  a = 9;
  look(d, "moved, after the original changed");
  want = "9"; look(a, "assigned");
  mc::state(want);
  // identity: what match gives is the object inside, not a copy
  nbdl::match(a, [&](auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, int>) { x = 77; } });
  want = "77"; look(a, "changed through match");
}
