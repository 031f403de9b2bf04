#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_action.hpp>
#include <nbdl/bind_variant.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/variant_holder.hpp>
#include <optional>

namespace hana = boost::hana;
namespace
{
  // every object of it is accounted for
  struct tracked
  {
    static inline long live = 0;
    int v; tracked const* self;
    tracked(int v = 0) : v(v), self(this) { live++; }
    tracked(tracked const& o) : v(o.v), self(this) { o.valid(); live++; }
    tracked(tracked&& o) noexcept : v(o.v), self(this) { o.valid(); o.v = -1; live++; }
    tracked& operator=(tracked const& o) { valid(); o.valid(); v = o.v; return *this; }
    tracked& operator=(tracked&& o) noexcept { valid(); o.valid(); if (&o != this) { v = o.v; o.v = -1; } return *this; }
    ~tracked() { valid(); self = nullptr; live--; }
    void valid() const { mc::check(self == this, "an object that does not exist is used"); }
    friend bool operator==(tracked const& a, tracked const& b) { return a.v == b.v; }
  };
  struct tag { };
  struct other { };                        // no alternative
  struct pt { int x; int y; };
  using inner = nbdl::optional<int>;
}
namespace nbdl { NBDL_ENTITY(pt, x, y); }
namespace
{
  // alternatives: 0 unresolved 1 tag 2 int 3 tracked 4 inner 5 pt
  template <typename ...T> struct list { };
  using V = nbdl::variant<tag, int, tracked, inner, pt>;
  using H = nbdl::variant_holder<nbdl::unresolved, tag, int, tracked, inner, pt>;
  struct model
  {
    int id = 0, v = 0;                     // v of inner: -2 nothing
    bool operator==(model const& o) const { return id == o.id && (id < 2 || v == o.v); }
  };
  std::string show(model const& m) { return mc::str(m.id, ":", m.v); }
  struct seen { int calls = 0, id = -1, v = 0; };

  // takes exactly the alternatives, without conversions
  auto visitor(seen& s)
  {
    return [&](auto const& x)
    {
      using X = std::decay_t<decltype(x)>;
      s.calls++;
      if constexpr (std::is_same_v<X, nbdl::unresolved>) s.id = 0;
      else if constexpr (std::is_same_v<X, tag>) s.id = 1;
      else if constexpr (std::is_same_v<X, int>) { s.id = 2; s.v = x; }
      else if constexpr (std::is_same_v<X, tracked>) { x.valid(); s.id = 3; s.v = x.v; }
      else if constexpr (std::is_same_v<X, inner>) { s.id = 4; s.v = -2; x.match([&](int n) { s.v = n; }, [](nbdl::nothing) { }); }
      else if constexpr (std::is_same_v<X, pt>) { s.id = 5; s.v = x.x * 100 + x.y; }
      else s.id = 99;
    };
  }
  // nbdl::match goes through what is a store itself
  auto deep_visitor(seen& s)
  {
    return hana::overload_linearly(
      [&](nbdl::unresolved) { s.calls++; s.id = 0; },
      [&](tag) { s.calls++; s.id = 1; },
      [&](nbdl::nothing) { s.calls++; s.id = 4; s.v = -2; },
      [&](int const& i) { s.calls++; s.id = 2; s.v = i; },
      [&](tracked const& t) { t.valid(); s.calls++; s.id = 3; s.v = t.v; },
      [&](pt const& p) { s.calls++; s.id = 5; s.v = p.x * 100 + p.y; },
      [&](auto const&) { s.calls++; s.id = 99; });
  }
  void expect(char const* what, seen const& s, model const& m, bool deep = false)
  {
    int id = m.id;
    if (deep && id == 4 && m.v != -2) id = 2;
    mc::check(s.calls == 1, mc::str(what, " calls ", s.calls, " functions"));
    mc::check(s.id == id && (id < 2 || s.v == m.v), mc::str(what, " sees ", s.id, ":", s.v, " instead of ", show(m)));
  }
  template <typename T> bool current(int id) 
  { return id == (std::is_same_v<T, nbdl::unresolved> ? 0 : std::is_same_v<T, tag> ? 1 : std::is_same_v<T, int> ? 2 : std::is_same_v<T, tracked> ? 3 : std::is_same_v<T, inner> ? 4 : std::is_same_v<T, pt> ? 5 : -1); }
  template <typename T, typename X> void check_when(X& x, model const& m)
  {
    int calls = 0;
    auto f = [&](auto&& v) { using U = std::decay_t<decltype(v)>; mc::check(std::is_same_v<U, T>, "match_when passes another type"); calls++; };
    bool want = current<T>(m.id);
    nbdl::match(x, nbdl::match_when<T>(f));
    mc::check(calls == want, mc::str("match_when calls ", calls, " times for ", show(m)));
    nbdl::match_when<T>(std::as_const(x), f);
    mc::check(calls == 2 * want, "match_when of a const variant");
    X copy(x);
    nbdl::match(std::move(copy), nbdl::match_when<T>(f));
    mc::check(calls == 3 * want, "match_when of a temporary");
  }
  void check_same(V& v, model const& m)
  {
    mc::check(v.get_type_id() == m.id, mc::str("get_type_id is ", v.get_type_id(), " instead of ", m.id));
    mc::check(v.is<nbdl::unresolved>() == (m.id == 0) && v.is<tag>() == (m.id == 1) && v.is<int>() == (m.id == 2)
      && v.is<tracked>() == (m.id == 3) && v.is<inner>() == (m.id == 4) && v.is<pt>() == (m.id == 5), "is<T>");
    { seen s; v.match(visitor(s)); expect("match", s, m); }
    { seen s; std::as_const(v).match(visitor(s)); expect("const match", s, m); }
    { seen s; nbdl::match(v, deep_visitor(s)); expect("nbdl::match", s, m, true); }
    { seen s; nbdl::match(std::as_const(v), deep_visitor(s)); expect("nbdl::match of const", s, m, true); }
    { seen s; V c(v); nbdl::match(std::move(c), deep_visitor(s)); expect("nbdl::match of a temporary", s, m, true); }
    check_when<nbdl::unresolved>(v, m); check_when<tag>(v, m); check_when<tracked>(v, m); check_when<pt>(v, m); check_when<other>(v, m);
    { // what is written is the id and, unless it is empty, the value
      int n = -1, id = -1; seen s;
      nbdl::bind_variant(v, hana::overload_linearly(
        [&](int i) { n = 1; id = i; },
        [&](int i, auto const& x) { n = 2; id = i; visitor(s)(x); }));
      mc::check(id == m.id && n == (m.id < 2 ? 1 : 2), mc::str("bind_variant of ", show(m), " gives ", id, " and ", n - 1, " values"));
      if (n == 2) expect("bind_variant", s, m);
    }
    { // matching by type tells the alternative with an id
      for (int k = -2; k < 8; k++)
      {
        int calls = 0;
        v.match_by_type(k, [&](auto t) { calls++; mc::check(current<typename decltype(t)::type>(k), mc::str("match_by_type(", k, ") names another type")); });
        mc::check(calls == (k >= 0 && k < 6), mc::str("match_by_type(", k, ") calls ", calls, " times"));
      }
    }
  }
  std::vector<model> const& values()
  {
    static std::vector<model> v{{0, 0}, {1, 0}, {2, 7}, {2, 8}, {3, 7}, {3, 8}, {4, -2}, {4, 7}, {5, 701}, {5, 702}};
    return v;
  }
  V make(model const& m)
  {
    switch (m.id)
    {
    case 0: return V{};
    case 1: return V(tag{});
    case 2: return V(m.v);
    case 3: return V(tracked(m.v));
    case 4: return m.v == -2 ? V(inner{}) : V(inner(m.v));
    default: return V(pt{m.v / 100, m.v % 100});
    }
  }
  // reading by id: the alternative is value-initialised, then written by f
  model read(V& v, int id, int n)
  {
    model m;
    int calls = 0;
    nbdl::bind_variant(id, v, hana::overload_linearly(
      [&](int i) { calls++; mc::check(i == id, "bind_variant by id passes another id"); m = {i, 0}; },
      [&](int i, int& x) { calls++; mc::check(x == 0, "the number read into is not fresh"); x = n; m = {i, n}; },
      [&](int i, tracked& x) { calls++; mc::check(x.v == tracked().v, "the object read into is not fresh"); x.v = n; m = {i, n}; },
      [&](int i, pt& x) { calls++; mc::check(x.x == 0 && x.y == 0, "the value read into is not fresh"); x = {n, n}; m = {i, n * 100 + n}; },
      [&](int i, inner& x) { calls++; mc::check(x.is<nbdl::nothing>(), "the optional read into is not fresh"); x = inner(n); m = {i, n}; }));
    mc::check(calls == (id >= 0 && id < 6), mc::str("bind_variant by id ", id, " calls ", calls, " times"));
    if (calls) mc::check(m.id == id, "bind_variant by id reads another alternative");
    return calls ? m : model{-1, 0};
  }
  // a value that has been moved from keeps its alternative
  void moved(model& m) { if (m.id == 3) m.v = -1; }
}

SCENARIO(histories)
{
  mc::check(tracked::live == 0, "objects left over");
  {
    V a, b;
    model ma, mb;
    int depth = mc::tier(3, 4);
    for (int k = 0; k < depth && !mc::failed(); k++)
    {
      int op = mc::choose(24);
      mc::note(mc::str("op ", op));
      if (op < 10) { ma = values()[op]; a = make(ma); }
      else if (op < 17)
      {
        int id = op == 10 ? 9 : op - 11;
        model r = read(a, id, 3);
        if (r.id >= 0) ma = r;
      }
      else switch (op)
      {
      case 17: b = a; mb = ma; break;
      case 18: b = std::move(a); mb = ma; moved(ma); break;
      case 19: std::swap(a, b); std::swap(ma, mb); break;
      case 20: a = *&a; break;
      case 21: { V c(std::move(a)); model mc_ = ma; moved(ma); check_same(c, mc_); a = c; ma = mc_; break; }
      case 22: // the value is there to be changed
        a.match([&](auto& x) { using X = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<X, tracked>) x.v = 9; else if constexpr (std::is_same_v<X, int>) x = 9; else if constexpr (std::is_same_v<X, pt>) x.x = 9; });
        if (ma.id == 2 || ma.id == 3) ma.v = 9; else if (ma.id == 5) ma.v = 900 + ma.v % 100;
        break;
      case 23:
        nbdl::match(a, [&](auto& x) { using X = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<X, tracked>) x.v = 6; else if constexpr (std::is_same_v<X, int>) x = 6; });
        if (ma.id == 2 || ma.id == 3) ma.v = 6; else if (ma.id == 4 && ma.v != -2) ma.v = 6;
        break;
      }
      check_same(a, ma);
      if (k + 1 == depth) check_same(b, mb);
      mc::check(hana::equal(a, b) == (ma == mb) && hana::equal(b, a) == (ma == mb), mc::str("equal(", show(ma), ", ", show(mb), ")"));
      mc::check(hana::equal(a, a), "a variant equals itself");
      mc::check(hana::not_equal(a, b) == !(ma == mb), "not_equal");
      mc::check(tracked::live == (ma.id == 3) + (mb.id == 3), mc::str(tracked::live, " objects alive for ", show(ma), " and ", show(mb)));
      mc::state(show(ma) + "," + show(mb)); mc::step(); mc::eval();
    }
  }
  mc::check(tracked::live == 0, "objects left over after the variants");
}
// equality over all pairs of values, and its laws
SCENARIO(equality)
{
  auto const& m1 = mc::pick(values()); auto const& m2 = mc::pick(values());
  V a = make(m1), b = make(m2);
  bool e = hana::equal(a, b);
  mc::check(e == (m1 == m2), mc::str("equal(", show(m1), ", ", show(m2), ") is ", e));
  for (auto const& m3 : values()) { V c = make(m3); if (e && hana::equal(b, c)) mc::check(hana::equal(a, c), "equality is transitive"); }
  using W = nbdl::optional<V>;
  W x(a), y(b), z;
  mc::check(hana::equal(x, y) == e && !hana::equal(x, z) && !hana::equal(z, x) && hana::equal(z, W{}), "equality of optional variants");
  mc::state(show(m1) + show(m2)); mc::step(); mc::eval();
}
SCENARIO(optionals)
{
  int v = mc::choose(2); bool c = mc::flip();
  auto check = [&](auto const& o, bool there)
  {
    int calls = 0;
    o.match([&](nbdl::nothing) { calls++; mc::check(!there, "nothing instead of a value"); },
            [&](tracked const& t) { calls++; mc::check(there && t.v == v, "a value instead of nothing"); });
    mc::check(calls == 1 && o.get_type_id() == there && o.template is<tracked>() == there && o.template is<nbdl::nothing>() == !there, "optional");
  };
  {
    tracked t(v);
    check(nbdl::make_optional(t), true);
    check(nbdl::make_optional(tracked(v)), true);
    check(nbdl::make_optional_if(c, t), c);
    check(nbdl::make_optional_if(c, tracked(v)), c);
    check(nbdl::optional<tracked>{}, false);
    mc::check(t.v == v, "make_optional of an lvalue leaves it");
  }
  mc::check(tracked::live == 0, "objects left over");
  mc::state(mc::str(v, c)); mc::step(); mc::eval();
}
// a key goes on to what the variant holds
SCENARIO(keys)
{
  using E = nbdl::variant<pt>;
  int x = mc::choose(3), y = mc::choose(3), got = -1, calls = 0;
  E e; if (x) e = pt{x, y};
  auto f = hana::overload_linearly([&](nbdl::unresolved) { calls++; }, [&](int const& i) { calls++; got = i; });
  nbdl::match(e, NBDL_MEMBER(&pt::y){}, f);
  mc::check(calls == 1 && got == (x ? y : -1), "match of a member of the entity in a variant");
  using O = nbdl::optional<E>;
  O o(e); got = -1; calls = 0;
  nbdl::match(o, NBDL_MEMBER(&pt::x){}, hana::overload_linearly([&](nbdl::unresolved) { calls++; }, [&](nbdl::nothing) { calls += 9; }, [&](int const& i) { calls++; got = i; }));
  mc::check(calls == 1 && got == (x ? x : -1), "match through two variants");
  mc::state(mc::str(x, y)); mc::step(); mc::eval();
}
SCENARIO(holders)
{
  {
    H h; model m;
    int depth = mc::tier(2, 3);
    for (int k = 0; k < depth; k++)
    {
      int op = mc::choose(18);
      if (op < 10) { m = values()[op]; h = H{}; h.value = make(m); }
      else
      {
        int id = op - 11, calls = 0;
        nbdl::bind_variant(id, h, hana::overload_linearly(
          [&](int i) { calls++; m = {i, 0}; },
          [&](int i, int& x) { calls++; mc::check(x == 0, "the number read into is not fresh"); x = 4; m = {i, 4}; },
          [&](int i, tracked& x) { calls++; mc::check(x.v == tracked().v, "the object read into is not fresh"); x.v = 4; m = {i, 4}; },
          [&](int i, pt& x) { calls++; x = {4, 4}; m = {i, 404}; },
          [&](int i, inner& x) { calls++; mc::check(x.is<nbdl::nothing>(), "the optional read into is not fresh"); x = inner(4); m = {i, 4}; }));
        mc::check(calls == (id >= 0 && id < 6), "bind_variant of a holder by id");
      }
      std::size_t index = 99;
      nbdl::match(h, nbdl::variant_index, [&](std::size_t i) { index = i; });
      mc::check(int(index) == m.id, mc::str("holder's index ", index, " instead of ", m.id));
      { seen s; nbdl::match(h, nbdl::variant_value, visitor(s)); expect("holder's value", s, m); }
      { seen s; nbdl::match(std::as_const(h), nbdl::variant_value, visitor(s)); expect("const holder's value", s, m); }
      int n = -1, id = -1; seen s;
      nbdl::bind_variant(h, hana::overload_linearly([&](int i) { n = 1; id = i; }, [&](int i, auto const& x) { n = 2; id = i; visitor(s)(x); }));
      mc::check(id == m.id && n == (m.id < 2 ? 1 : 2), "bind_variant of a holder");
      if (n == 2) expect("bind_variant of a holder", s, m);
      mc::check(tracked::live == (m.id == 3), "objects of a holder");
      mc::state(show(m)); mc::step(); mc::eval();
    }
  }
  mc::check(tracked::live == 0, "objects left over");
}
// replacing the value of a variant store is an action
SCENARIO(actions)
{
  auto const& m1 = mc::pick(values());
  V v = make(m1);
  model m = m1;
  switch (mc::choose(4))
  {
  case 0: nbdl::apply_action(v, 5); m = {2, 5}; break;
  case 1: nbdl::apply_action(v, tracked(5)); m = {3, 5}; break;
  case 2: nbdl::apply_action(v, pt{5, 5}); m = {5, 505}; break;
  case 3: nbdl::apply_action(v, tag{}); m = {1, 0}; break;
  }
  check_same(v, m);
  mc::state(show(m1) + show(m)); mc::step(); mc::eval();
}
