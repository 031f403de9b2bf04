#include "rawvariant.hpp"
#include "mc.hpp"
#include <boost/hana.hpp>
#include <boost/hana/ext/std/pair.hpp>
#include <nbdl/binder/hash.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/key.hpp>
#include <nbdl/local_version.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/string.hpp>
#include <nbdl/uid.hpp>
#include <memory>
#include <nbdl/variant.hpp>
#include <array>
#include <functional>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>

namespace hana = boost::hana;
namespace
{
  struct nil { };
  struct pt { char c; int x; };                 // with padding
  struct named { std::string name; pt at; bool flag; };
  struct wrapper { nbdl::variant<int, pt, std::string> v; nbdl::optional<std::string> o; };
  struct tags { int id; std::unordered_set<std::string> names; std::unordered_map<int, bool> marks; };
  struct boss { named who; std::vector<int> n; hana::tuple<int, std::string> t; };
}
namespace nbdl
{
  NBDL_ENTITY(pt, c, x);
  NBDL_ENTITY(named, name, at, flag);
  NBDL_ENTITY(wrapper, v, o);
  NBDL_ENTITY(boss, who, n, t);
  NBDL_ENTITY(tags, id, names, marks);
}
namespace
{
  using std::string; using std::vector;
  // gen: a value; key: what the value consists of, unambiguously
  template <typename T> struct ty;
  template <> struct ty<int> { static int gen() { return mc::pick(vector<int>{0, 1, -5}); } static string key(int v) { return mc::str(v, ";"); } };
  template <> struct ty<bool> { static bool gen() { return mc::flip(); } static string key(bool v) { return v ? "t;" : "f;"; } };
  template <> struct ty<string> { static string gen() { return mc::pick(vector<string>{"", "ab", "ba", string("a\0", 2)}); } static string key(string const& s) { return mc::str(s.size(), ":", s); } };
  template <> struct ty<nil> { static nil gen() { return {}; } static string key(nil) { return "nil"; } };
  template <> struct ty<pt>
  {
    static pt gen() { pt p; std::memset(static_cast<void*>(&p), mc::flip() ? 0xff : 0, sizeof p); p.c = mc::flip() ? 'x' : 'y'; p.x = ty<int>::gen(); return p; }
    static string key(pt const& p) { return mc::str("(", p.c, p.x, ")"); }
  };
  template <> struct ty<named>
  {
    static named gen() { named n; n.name = ty<string>::gen(); n.at = {mc::flip() ? 'x' : 'y', mc::choose(2)}; n.flag = mc::flip(); return n; }
    static string key(named const& n) { return ty<string>::key(n.name) + ty<pt>::key(n.at) + ty<bool>::key(n.flag); }
  };
  template <typename ...T> struct ty<nbdl::detail::variant<T...>>
  {
    using V = nbdl::detail::variant<T...>;
    static V gen()
    {
      int k = mc::choose(sizeof...(T)), i = 0; V v;
      ([&] { if (i++ == k) { if constexpr (std::is_empty_v<T>) v = V(T{}); else v = V(ty<T>::gen()); } }(), ...);
      return v;
    }
    static string key(V const& v)
    {
      string r = mc::str("<", raw_variant(v).index()); int i = 0;
      ([&] { if (std::size_t(i++) == raw_variant(v).index()) if constexpr (!std::is_empty_v<T>) r += ty<T>::key(std::get<T>(raw_variant(v))); }(), ...);
      return r + ">";
    }
  };
  template <> struct ty<wrapper>
  {
    static wrapper gen() { wrapper w; w.v = ty<decltype(w.v)>::gen(); w.o = ty<decltype(w.o)>::gen(); return w; }
    static string key(wrapper const& w) { return ty<decltype(w.v)>::key(w.v) + ty<decltype(w.o)>::key(w.o); }
  };
  template <typename T> struct ty<vector<T>>
  {
    static vector<T> gen() { vector<T> v; int n = mc::choose(3); while (n--) v.push_back(ty<T>::gen()); return v; }
    static string key(vector<T> const& v) { string r = mc::str(v.size(), "["); for (auto const& x : v) r += ty<T>::key(x); return r; }
  };
  template <typename ...T> struct ty<hana::tuple<T...>>
  {
    static hana::tuple<T...> gen() { return hana::tuple<T...>{ty<T>::gen()...}; }
    static string key(hana::tuple<T...> const& t) { string r = "("; hana::for_each(t, [&](auto const& x) { r += ty<std::decay_t<decltype(x)>>::key(x); }); return r; }
  };
  template <> struct ty<boss>
  {
    static boss gen() { boss b; b.who = {ty<string>::gen(), {'c', 1}, mc::flip()}; b.n = vector<int>(mc::choose(2), 4); b.t = ty<decltype(b.t)>::gen(); return b; }
    static string key(boss const& b) { return ty<named>::key(b.who) + ty<vector<int>>::key(b.n) + ty<decltype(b.t)>::key(b.t); }
  };
  template <> struct ty<nbdl::uid>
  {
    static nbdl::uid gen() { nbdl::uid u; int k = mc::choose(18); for (int i = 0; i < 16; i++) u[i] = k == 17 ? 0xff : k == i ? 1 : 0; return u; }
    static string key(nbdl::uid const& u) { return string(u.begin(), u.end()); }
  };
  // all equal elements of vectors are compared by operator==, which entities do not have
  template <typename T> void pairs()
  {
    T a = ty<T>::gen(), b = ty<T>::gen();
    string ka = ty<T>::key(a), kb = ty<T>::key(b);
    bool want = ka == kb;
    bool e = hana::equal(a, b);
    mc::check(e == want, mc::str("equal(", mc::show(ka), ", ", mc::show(kb), ") is ", e));
    mc::check(hana::equal(b, a) == want && hana::not_equal(a, b) == !want, "equality is symmetric");
    mc::check(hana::equal(a, a), "a value equals itself");
    auto ha = nbdl::binder::hash(a), hb = nbdl::binder::hash(b);
    if (want) mc::check(ha == hb, mc::str(mc::show(ka), " has two hashes"));
    T copy(a), moved(std::move(copy));
    mc::check(hana::equal(moved, a) && nbdl::binder::hash(moved) == ha, "a copy equals its original");
    mc::state(ka + kb); mc::step(); mc::eval();
  }
}
SCENARIO(pairs_of_values)
{
  switch (mc::choose(12))
  {
  case 0: return pairs<pt>();
  case 1: return pairs<named>();
  case 2: return pairs<wrapper>();
  case 3: return pairs<nbdl::variant<int, nil, string>>();
  case 4: return pairs<hana::tuple<int, string>>();
  case 5: return pairs<hana::tuple<pt, nbdl::optional<string>>>();
  case 6: return pairs<nbdl::uid>();
  case 7: return pairs<nbdl::variant<nbdl::optional<int>, nbdl::optional<string>, pt>>();
  case 8: return pairs<hana::tuple<nbdl::uid, int>>();
  case 9: return pairs<boss>();
  case 10: return pairs<string>();
  case 11: return pairs<hana::tuple<>>();
  }
}
// the hash of values equality is not defined for is still one value
SCENARIO(hashes_of_containers)
{
  auto one = [](auto a, auto b)
  {
    using T = decltype(a);
    if (ty<T>::key(a) == ty<T>::key(b)) mc::check(nbdl::binder::hash(a) == nbdl::binder::hash(b), mc::show(ty<T>::key(a)) + " has two hashes");
    T c; c.reserve(50); for (auto const& x : a) c.push_back(x);
    mc::check(nbdl::binder::hash(c) == nbdl::binder::hash(a), "the capacity is hashed");
    mc::state(ty<T>::key(a) + ty<T>::key(b)); mc::step(); mc::eval();
  };
  switch (mc::choose(4))
  {
  case 0: return one(ty<vector<int>>::gen(), ty<vector<int>>::gen());
  case 1: return one(ty<vector<bool>>::gen(), ty<vector<bool>>::gen());
  case 2: { auto g = [] { vector<pt> v; int n = mc::choose(3); while (n--) v.push_back({mc::flip() ? 'x' : 'y', 1}); return v; }; auto a = g(); return one(a, g()); }
  case 3: return one(ty<vector<nbdl::optional<int>>>::gen(), ty<vector<nbdl::optional<int>>>::gen());
  }
}
// the order in which an unordered container happens to keep its elements is no part of its value
namespace
{
  template <typename C, typename Put> void histories(Put put)
  {
    auto one = [&]
    {
      C c(mc::pick(vector<int>{1, 16, 100}));
      for (int i = 0; i < mc::tier(3, 4); i++) { int k = mc::choose(5); if (k == 4) { if (!c.empty()) c.erase(c.begin()); } else put(c, k); }
      return c;
    };
    C a = one(), b = one();
    auto ha = nbdl::binder::hash(a), hb = nbdl::binder::hash(b);
    if (a == b) mc::check(ha == hb, mc::str("equal unordered containers of ", a.size(), " elements have two hashes"));
    C c = a; c.rehash(1000);
    mc::check(nbdl::binder::hash(c) == ha, "the number of buckets is hashed");
    mc::state(mc::str(ha, ",", hb)); mc::step(); mc::eval();
  }
}
SCENARIO(hashes_of_unordered_containers)
{
  switch (mc::choose(5))
  {
  case 0: return histories<std::unordered_set<int>>([](auto& c, int k) { c.insert(k * 16); });
  case 1: return histories<std::unordered_set<string>>([](auto& c, int k) { c.insert(string(k, 'x')); });
  case 2: return histories<std::unordered_map<int, string>>([](auto& c, int k) { c[k * 16] += "v"; });
  case 3: return histories<std::unordered_multiset<int>>([](auto& c, int k) { c.insert(k / 2); });
  case 4:
  {
    auto one = []
    {
      tags t{mc::choose(2), std::unordered_set<string>(mc::flip() ? 1 : 50), {}};
      for (int i = 0; i < 3; i++) { int k = mc::choose(3); t.names.insert(string(k, 'n')); t.marks[k * 8] = true; }
      return t;
    };
    tags a = one(), b = one();
    bool want = a.id == b.id && a.names == b.names && a.marks == b.marks;
    if (want) mc::check(nbdl::binder::hash(a) == nbdl::binder::hash(b), "equal entities with unordered members have two hashes");
    auto t = [](tags const& x) { return hana::make_tuple(x.names, x.marks); };
    if (a.names == b.names && a.marks == b.marks) mc::check(nbdl::binder::hash(t(a)) == nbdl::binder::hash(t(b)), "equal tuples of unordered containers have two hashes");
    mc::state(mc::str(nbdl::binder::hash(a))); mc::step(); mc::eval();
  }
  }
}
// an ordered one hashes by its elements in order, whatever its history
SCENARIO(hashes_of_ordered_containers)
{
  auto one = [] { std::map<int, string> m; for (int i = 0; i < 4; i++) { int k = mc::choose(4); if (k == 3) { if (!m.empty()) m.erase(m.begin()); } else m[k] = string(k, 'v'); } return m; };
  auto a = one(), b = one();
  if (a == b) mc::check(nbdl::binder::hash(a) == nbdl::binder::hash(b), "equal maps have two hashes");
  std::set<int> s, r; for (auto& [k, v] : a) s.insert(k); for (auto i = a.rbegin(); i != a.rend(); ++i) r.insert(i->first);
  mc::check(nbdl::binder::hash(s) == nbdl::binder::hash(r), "equal sets have two hashes");
  mc::state(mc::str(nbdl::binder::hash(a))); mc::step(); mc::eval();
}
// an unordered container of them behaves as a set of keys
SCENARIO(sets)
{
  auto run = [](auto t)
  {
    using T = decltype(t);
    std::unordered_set<T, nbdl::binder::hash_fn, hana::equal_t> s(mc::choose(2) ? 1 : 64);
    std::set<string> model;
    int depth = mc::tier(2, 3);
    for (int i = 0; i < depth; i++)
    {
      T v = ty<T>::gen();
      string k = ty<T>::key(v);
      if (mc::flip()) mc::check(s.insert(v).second == model.insert(k).second, "insertion of " + mc::show(k));
      else mc::check(s.erase(v) == model.erase(k), "removal of " + mc::show(k));
      mc::check(s.size() == model.size() && (s.count(v) == model.count(k)), "membership of " + mc::show(k));
      mc::step(); mc::eval();
    }
    string all; for (auto& k : model) all += k;
    mc::state(all);
  };
  switch (mc::choose(4))
  {
  case 0: return run(pt{});
  case 1: return run(nbdl::variant<int, nil, string>{});
  case 2: return run(hana::tuple<int, nbdl::optional<string>>{});
  case 3: return run(nbdl::uid{});
  }
}
// equality of entities with one member different at a time, for every member
SCENARIO(uids)
{
  nbdl::uid a{}, b{};
  int i = mc::choose(16), x = mc::choose(256);
  for (int k = 0; k < 16; k++) a[k] = b[k] = k;
  b[i] = x;
  bool same = x == i;
  mc::check((a == b) == same && (a != b) == !same && hana::equal(a, b) == same, mc::str("uids that differ in byte ", i));
  mc::check(a.size() == 16 && std::size(a) == 16 && a.end() - a.begin() == 16, "a uid has sixteen bytes");
  if (same) mc::check(std::hash<nbdl::uid>{}(a) == std::hash<nbdl::uid>{}(b) && nbdl::binder::hash(a) == nbdl::binder::hash(b), "hash of equal uids");
  nbdl::uid c = a, d = b;
  swap(c, d);
  mc::check(c == b && d == a, "swap of uids");
  mc::state(mc::str(i, ".", x)); mc::step(); mc::eval();
}
SCENARIO(keys)
{
  using K = nbdl::key<pt>; using S = nbdl::key<pt, string>; using U = nbdl::unique_key<pt>;
  int kind = mc::choose(3);
  if (kind == 0)
  {
  unsigned x = mc::pick(vector<unsigned>{0, 1, 0xffffffffu}), y = mc::pick(vector<unsigned>{0, 1, 0xffffffffu});
  mc::check((K(x) == K(y)) == (x == y) && K(x).value == x, "keys are equal when their values are");
  }
  if (kind == 1)
  {
  string s = ty<string>::gen(), t = ty<string>::gen();
  mc::check((S(s) == S(t)) == (s == t), "string keys");
  }
  if (kind == 2)
  {
  nbdl::uid u = ty<nbdl::uid>::gen(), v = ty<nbdl::uid>::gen();
  mc::check((U(u) == U(v)) == (u == v), "unique keys");
  }
  mc::step(); mc::eval();
}
// long values with one difference at any place, and with none
SCENARIO(long_values)
{
  int what = mc::choose(4), n = mc::pick(vector<int>{8, 16, 64, 256, 1024}) + mc::choose(3) - 1;
  int at = mc::pick(vector<int>{0, 1, 7, 8, 15, 16, 63, 64, 127, 255, 256, 1000, -1, -2, -3});   // -1: equal, -2: last, -3: longer
  if (at == -2) at = n - 1;
  if (at >= n) return;
  bool want = at == -1;
  auto one = [&](auto const& a, auto const& b, bool eq)
  {
    mc::check(hana::equal(a, b) == want && hana::equal(b, a) == want && hana::not_equal(a, b) == !want, mc::str("equality of long values, different at ", at, " of ", n));
    mc::check(eq == want, "its own equality");
    if (want) mc::check(nbdl::binder::hash(a) == nbdl::binder::hash(b), mc::str("a long value has two hashes: ", n));
    mc::step(); mc::eval();
  };
  string s; for (int i = 0; i < n; i++) s += char('a' + i % 26);
  string t = s; if (at >= 0) t[at]++; if (at == -3) t += '\0';
  t.reserve(3 * n);
  vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i * i;
  vector<int> w = v; if (at >= 0) w[at] ^= 1 << 30; if (at == -3) w.push_back(0);
  w.reserve(5 * n);
  named x{s, {'c', 1}, true}, y{t, {'c', 1}, true};
  nbdl::variant<int, nil, string> p{s}, q{t};
  switch (what)
  {
  case 0: return one(s, t, s == t);
  case 1: return one(x, y, want);
  case 2: return one(p, q, want);
  case 3: return one(hana::make_tuple(v, s), hana::make_tuple(w, s), want);
  }
}
// a set of some thousand
SCENARIO(many_keys)
{
  int n = mc::pick(vector<int>{100, 256, 1000, 5000});
  int step = mc::pick(vector<int>{1, 3, 16, 64, 256, 65536});
  std::unordered_set<hana::tuple<int, nbdl::optional<string>>, nbdl::binder::hash_fn, hana::equal_t> s;
  std::unordered_set<nbdl::uid, nbdl::binder::hash_fn, hana::equal_t> u;
  auto k = [&](int i) { return hana::tuple<int, nbdl::optional<string>>{i * step, i % 3 ? nbdl::optional<string>(std::to_string(i)) : nbdl::optional<string>{}}; };
  auto id = [&](int i) { nbdl::uid x{}; std::uint64_t y = std::uint64_t(i) * step; for (int b = 0; b < 8; b++) x[15 - b] = x[b] = y >> 8 * b; return x; };
  for (int i = 0; i < n; i++) mc::check(s.insert(k(i)).second && u.insert(id(i)).second, "a new key is taken for one that is there");
  for (int i = 0; i < n; i++) mc::check(!s.insert(k(i)).second && !u.insert(id(i)).second, "a key is not found again");
  for (int i = 0; i < n; i += 2) mc::check(s.erase(k(i)) == 1 && u.erase(id(i)) == 1, "a key is not removed");
  for (int i = 0; i < n; i++) mc::check(int(s.count(k(i))) == i % 2 && int(u.count(id(i))) == i % 2, "membership");
  mc::state(mc::str(n, ".", step)); mc::step(n); mc::eval();
}
// the identifiers that are made are different from each other, whatever becomes of the generators
SCENARIO(new_identifiers)
{
  std::set<string> all; int made = 0;
  auto put = [&](nbdl::uid const& u) { made++; mc::check(all.insert(ty<nbdl::uid>::key(u)).second, mc::str("identifier ", made, " was made before")); };
  using G = decltype(nbdl::make_uid_generator());
  vector<std::unique_ptr<G>> gens;
  gens.push_back(std::make_unique<G>(nbdl::make_uid_generator()));
  for (int i = 0; i < 4; i++)
  {
    auto& g = gens[mc::choose(gens.size())];
    switch (mc::choose(4))
    {
    case 0: put((*g)()); break;
    case 1: for (int k = 0; k < 20; k++) put((*g)()); break;
    case 2: if (gens.size() < 2) gens.push_back(std::make_unique<G>(nbdl::make_uid_generator())); break;
    case 3: g = std::make_unique<G>(std::move(*g)); break;
    }
    mc::step(); mc::eval();
  }
}
// all of the bytes of an identifier come from the source of randomness, whatever the generator
SCENARIO(every_byte_varies)
{
  using G = decltype(nbdl::make_uid_generator());
  int how = mc::choose(3);
  G g = nbdl::make_uid_generator();
  std::array<std::set<int>, 16> seen;
  std::set<std::pair<int, int>> tied; // pairs of bytes that are always the same
  for (int i = 0; i < 16; i++) for (int k = 0; k < i; k++) tied.insert({k, i});
  // as vectors of bits, the identifiers and the first one span nearly everything: no byte is made of others
  std::array<std::array<std::uint64_t, 2>, 128> basis{}; nbdl::uid first{}; int rank = 0;
  for (int n = 0; n < 200; n++)
  {
    nbdl::uid u = how == 0 ? g() : how == 1 ? nbdl::make_uid_generator()() : G(g)();
    if (how == 2) g();
    if (n == 0) first = u;
    std::array<std::uint64_t, 2> x{};
    for (int i = 0; i < 16; i++) x[i / 8] |= std::uint64_t((u[i] ^ first[i]) & 255) << i % 8 * 8;
    for (int b = 0; b < 128; b++) if (x[b / 64] >> b % 64 & 1)
    {
      if (!(basis[b][0] | basis[b][1])) { basis[b] = x; rank++; break; }
      x[0] ^= basis[b][0]; x[1] ^= basis[b][1];
    }
    for (int i = 0; i < 16; i++) seen[i].insert(u[i]);
    for (auto it = tied.begin(); it != tied.end();) it = u[it->first] == u[it->second] ? std::next(it) : tied.erase(it);
    mc::step();
  }
  for (int i = 0; i < 16; i++) mc::check(seen[i].size() > 32, mc::str("byte ", i, " of 200 identifiers has ", seen[i].size(), " values"));
  // (one bit less than all: how mt19937 is seeded leaves one sum of bits of the first four numbers constant)
  mc::check(rank > 120, mc::str("the bits of identifiers depend on each other: ", rank, " of 128 are free"));
  mc::check(tied.empty(), "two bytes of identifiers are always the same");
  mc::eval();
}
