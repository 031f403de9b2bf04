// The types bound to JSON by harness/D01 and harness/D02: what values they take, how the
// documented format writes them (enc), and when two are the same.
#ifndef VERIF_JSONTYPES_HPP
#define VERIF_JSONTYPES_HPP
#include "rawvariant.hpp"
#include "jsonref.hpp"
#include <boost/hana.hpp>
#include <nbdl/binder/jsoncpp.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/message_api.hpp>
#include <nbdl/string.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/variant.hpp>
#include <array>
#include <climits>
#include <deque>
#include <list>
#include <set>

namespace hana = boost::hana;
namespace my
{
  using bytes = std::vector<unsigned char>;
  enum color : unsigned { red, green = 7, blue = 0x7fffffff };
  enum temperature : int { cold = -40, mild = 0, hot = 40 };
  enum level : unsigned char { empty = 0, half = 127, full = 255 };
  enum step : signed char { step_down = -128, stay = 0, step_up = 127 };
  enum port : unsigned short { any_port = 0, http = 80, last_port = 65535 };
  enum offset : long { far_back = LONG_MIN, here = 0, far_ahead = LONG_MAX };
  struct none { };
  struct nil { };
  struct point { int x; int y; };
  struct one { nbdl::string only; };
  struct person
  {
    nbdl::string name;
    bool alive;
    int age;
    unsigned id;
    double weight;
    color eyes;
    point at;
    bytes key;
  };
  using shape = nbdl::variant<nil, int, point, nbdl::string, one, std::vector<int>, hana::tuple<int, bool>, bool>;
  using maybe = nbdl::optional<point>;
  struct drawing
  {
    std::vector<shape> shapes;
    maybe centre;
    nbdl::optional<nbdl::variant<int, one>> nested;
    hana::tuple<int, hana::tuple<nbdl::string, bool>, nil> pair;
    std::list<std::vector<point>> paths;
  };
  using holder = nbdl::uid;
}
namespace nbdl
{
  NBDL_ENTITY(my::point, x, y);
  NBDL_ENTITY(my::one, only);
  NBDL_ENTITY(my::person, name, alive, age, id, weight, eyes, at, key);
  NBDL_ENTITY(my::drawing, shapes, centre, nested, pair, paths);
}

namespace jt
{
  using namespace jr;
  using std::vector;

  // what reading a document into a new T must come to
  enum verdict { no, yes, any };      // any: left unspecified
  inline verdict both(verdict a, verdict b) { return a == no || b == no ? no : a == any || b == any ? any : yes; }
  template <typename T> struct ty;     // gen(depth), enc(v), dec(J, v)
  template <typename T> verdict dec(J const& j, T& v) { return ty<T>::dec(j, v); }
  inline verdict whole(J const& j, long long lo, long long hi, long long& v)
  {
    if (j.kind == J::real) return j.d == std::floor(j.d) && std::fabs(j.d) < 1e19 ? any : no;
    if (j.kind != J::integer) return no;
    v = j.i;
    return v >= lo && v <= hi ? yes : no;
  }
  template <typename T> T gen(int d = 0) { return ty<T>::gen(d); }
  template <typename T> J enc(T const& v) { return ty<T>::enc(v); }
  template <typename T> bool same(T const& a, T const& b) { return enc(a) == enc(b); }   // ref is injective for each type below

  inline int width = 3;    // how many values a leaf takes, and how many elements a container has at most
  template <typename T> T one_of(vector<T> v) { if (int(v.size()) > width) v.resize(width); return mc::pick(v); }

  template <> struct ty<bool> { static bool gen(int) { return mc::flip(); } static J enc(bool b) { return J::B(b); }
    static verdict dec(J const& j, bool& v) { v = j.b; return j.kind == J::boolean ? yes : no; } };
  template <> struct ty<int> { static int gen(int) { return one_of<int>({7, INT_MIN, INT_MAX, 0, -1}); } static J enc(int v) { return J::I(v); }
    static verdict dec(J const& j, int& v) { long long x = 0; auto r = whole(j, INT_MIN, INT_MAX, x); v = int(x); return r; } };
  template <> struct ty<unsigned> { static unsigned gen(int) { return one_of<unsigned>({7, UINT_MAX, 0x80000000u, 0, 0x7fffffffu}); } static J enc(unsigned v) { return J::I(v); }
    static verdict dec(J const& j, unsigned& v) { long long x = 0; auto r = whole(j, 0, UINT_MAX, x); v = unsigned(x); return r; } };
  template <> struct ty<double> { static double gen(int) { return one_of<double>({0.1, -1e300, 5, -0.0, 1.0 / 3, 4294967296.0, 1e-300}); } static J enc(double v) { return J::D(v); }
    static verdict dec(J const& j, double& v) { v = j.kind == J::real ? j.d : double(j.i); return j.kind == J::real || j.kind == J::integer ? yes : no; } };
  template <> struct ty<my::color> { static my::color gen(int) { return one_of<my::color>({my::green, my::blue, my::red}); } static J enc(my::color v) { return J::I(v); }
    static verdict dec(J const& j, my::color& v) { long long x = 0; auto r = whole(j, 0, UINT_MAX, x); v = my::color(x); return r; } };
  template <> struct ty<my::temperature> { static my::temperature gen(int) { return one_of<my::temperature>({my::cold, my::mild, my::hot}); } static J enc(my::temperature v) { return J::I(v); }
    static verdict dec(J const& j, my::temperature& v) { long long x = 0; auto r = whole(j, INT_MIN, INT_MAX, x); v = my::temperature(x); return r; } };
  template <typename E, long long lo, long long hi> struct enumeration
  {
    static E gen(int) { return one_of<E>({E(hi), E(lo), E(0), E(7)}); }
    static J enc(E v) { return J::I((long long)(v)); }
    static verdict dec(J const& j, E& v) { long long x = 0; auto r = whole(j, lo, hi, x); v = E(x); return r; }
  };
  template <> struct ty<my::level> : enumeration<my::level, 0, 255> { };
  template <> struct ty<my::step> : enumeration<my::step, -128, 127> { };
  template <> struct ty<my::port> : enumeration<my::port, 0, 65535> { };
  template <> struct ty<my::offset> : enumeration<my::offset, LONG_MIN, LONG_MAX> { };
  template <> struct ty<nbdl::string>
  {
    static nbdl::string gen(int) { using namespace std::literals; return one_of<nbdl::string>({nbdl::string(""s), nbdl::string("a\"\\/\n\0b\x7f"s), nbdl::string("\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80"s), nbdl::string("QUJD"s)}); }
    static J enc(nbdl::string const& v) { return J::S(v); }
    static verdict dec(J const& j, nbdl::string& v) { v = nbdl::string(j.s); return j.kind == J::string ? yes : no; }
  };
  template <> struct ty<my::bytes>
  {
    static my::bytes gen(int) { return one_of<my::bytes>({{}, {0}, {0xff, 0x00}, {1, 2, 3}, {0xff, 0xfe, 0xfd, 0xfc}}); }
    static J enc(my::bytes const& v) { return J::S(base64(v)); }
    static verdict dec(J const& j, my::bytes& v)
    {
      if (j.kind != J::string) return no;
      auto b = unbase64(j.s);
      if (!b) return no;
      v = *b;
      return yes;
    }
  };
  template <std::size_t n> struct ty<std::array<unsigned char, n>>
  {
    using A = std::array<unsigned char, n>;
    static A gen(int) { int k = mc::choose(3); A a; for (std::size_t i = 0; i < n; i++) a[i] = k == 0 ? 0 : k == 1 ? 0xff : 17 * i + 3; return a; }
    static J enc(A const& a) { return J::S(base64(my::bytes(a.begin(), a.end()))); }
    static verdict dec(J const& j, A& v)
    {
      if (j.kind != J::string) return no;
      auto b = unbase64(j.s);
      if (!b || b->size() != n) return no;
      std::copy(b->begin(), b->end(), v.begin());
      return yes;
    }
  };
  template <> struct ty<nbdl::uid>
  {
    static nbdl::uid gen(int) { int k = mc::choose(3); nbdl::uid u; for (int i = 0; i < 16; i++) u[i] = k == 0 ? 0 : k == 1 ? 0xff : 17 * i + 3; return u; }
    static J enc(nbdl::uid const& u) { return J::S(base64(my::bytes(u.begin(), u.end()))); }
    static verdict dec(J const& j, nbdl::uid& v)
    {
      if (j.kind != J::string) return no;
      auto b = unbase64(j.s);
      if (!b || b->size() != 16) return no;
      for (int i = 0; i < 16; i++) v[i] = (*b)[i];
      return yes;
    }
  };
  template <> struct ty<std::string>    // not a nbdl::String: a buffer
  {
    static std::string gen(int) { using namespace std::literals; return one_of<std::string>({"oops"s, ""s, "\0\xff"s}); }
    static J enc(std::string const& s) { return J::S(base64(my::bytes(s.begin(), s.end()))); }
    static verdict dec(J const& j, std::string& v)
    {
      if (j.kind != J::string) return no;
      auto b = unbase64(j.s);
      if (!b) return no;
      v.assign(b->begin(), b->end());
      return yes;
    }
  };
  template <typename T> verdict member(J const& j, char const* name, T& v)
  { auto i = j.o.find(name); if (j.kind != J::object) return no; return i == j.o.end() ? no : jt::dec<T>(i->second, v); }
  template <typename C> struct container
  {
    using T = typename C::value_type;
    static C gen(int d) { C c; int n = mc::choose(d > 0 ? 2 : width); for (int i = 0; i < n; i++) c.insert(c.end(), jt::gen<T>(d + 1)); return c; }
    static J enc(C const& c) { J j = J::A(); for (auto const& x : c) j.a.push_back(jt::enc<T>(x)); return j; }
    static verdict dec(J const& j, C& c)
    {
      if (j.kind != J::array) return no;
      verdict r = yes;
      for (auto const& x : j.a) { T t{}; r = both(r, jt::dec<T>(x, t)); c.insert(c.end(), std::move(t)); }
      return r;
    }
  };
  template <typename T> struct ty<vector<T>> : container<vector<T>> { };
  template <typename T> struct ty<std::list<T>> : container<std::list<T>> { };
  template <typename T> struct ty<std::deque<T>> : container<std::deque<T>> { };
  template <typename T> struct ty<std::set<T>> : container<std::set<T>> { };

  template <> struct ty<my::point>
  {
    static my::point gen(int d) { if (d > 1) return {mc::choose(2), 5}; int x = jt::gen<int>(); return {x, jt::gen<int>()}; }
    static J enc(my::point const& p) { return J::O({{"x", J::I(p.x)}, {"y", J::I(p.y)}}); }
    static verdict dec(J const& j, my::point& v) { verdict r = yes; r = both(r, member(j, "x", v.x)); r = both(r, member(j, "y", v.y)); return r; }
  };
  template <> struct ty<my::one>
  {
    static my::one gen(int d) { return {jt::gen<nbdl::string>(d)}; }
    static J enc(my::one const& o) { return J::O({{"only", J::S(o.only)}}); }
    static verdict dec(J const& j, my::one& v) { verdict r = yes; r = both(r, member(j, "only", v.only)); return r; }
  };
  template <> struct ty<my::person>
  {
    static my::person gen(int d)
    {
      my::person p;
      p.name = jt::gen<nbdl::string>(d); p.alive = jt::gen<bool>(d); p.age = jt::gen<int>(d); p.id = jt::gen<unsigned>(d);
      p.weight = jt::gen<double>(d); p.eyes = jt::gen<my::color>(d); p.at = jt::gen<my::point>(2); p.key = jt::gen<my::bytes>(d);
      return p;
    }
    static J enc(my::person const& p)
    {
      return J::O({{"name", jt::enc(p.name)}, {"alive", jt::enc(p.alive)}, {"age", jt::enc(p.age)}, {"id", jt::enc(p.id)}, {"weight", jt::enc(p.weight)},
                   {"eyes", jt::enc(p.eyes)}, {"at", jt::enc(p.at)}, {"key", jt::enc(p.key)}});
    }
    static verdict dec(J const& j, my::person& v) { verdict r = yes; r = both(r, member(j, "name", v.name)); r = both(r, member(j, "alive", v.alive)); r = both(r, member(j, "age", v.age)); r = both(r, member(j, "id", v.id)); r = both(r, member(j, "weight", v.weight)); r = both(r, member(j, "eyes", v.eyes)); r = both(r, member(j, "at", v.at)); r = both(r, member(j, "key", v.key)); return r; }
  };
  // nothing of a sequence without values is read; a single value stands for itself
  template <typename U> verdict dec_sequence(J const& j, U& t)
  {
    std::size_t n = 0, k = 0;
    hana::for_each(t, [&](auto const& x) { if constexpr (!std::is_empty_v<std::decay_t<decltype(x)>>) n++; });
    if (n == 0) return yes;
    if (n > 1 && (j.kind != J::array || j.a.size() != n)) return no;
    verdict r = yes;
    hana::for_each(t, [&](auto& x) { using X = std::decay_t<decltype(x)>; if constexpr (!std::is_empty_v<X>) r = both(r, jt::dec<X>(n == 1 ? j : j.a[k++], x)); });
    return r;
  }
  template <typename ...T> struct ty<hana::tuple<T...>>
  {
    using U = hana::tuple<T...>;
    static U gen(int d) { return U{jt_gen<T>(d + 1)...}; }
    template <typename X> static X jt_gen(int d) { if constexpr (std::is_empty_v<X>) return {}; else return jt::gen<X>(d); }
    static J enc(U const& t)
    {
      vector<J> v;
      hana::for_each(t, [&](auto const& x) { using X = std::decay_t<decltype(x)>; if constexpr (!std::is_empty_v<X>) v.push_back(jt::enc<X>(x)); });
      if (v.empty()) return J::N();
      return v.size() == 1 ? v[0] : J::A(v);
    }
    static verdict dec(J const& j, U& t) { return dec_sequence(j, t); }
  };
  // a variant is the index of its alternative, with its value unless that is an empty type
  template <typename ...T> struct ty<nbdl::detail::variant<T...>>
  {
    using V = nbdl::detail::variant<T...>;
    static V gen(int d)
    {
      int k = mc::choose(sizeof...(T));
      V v;
      int i = 0;
      ([&] { if (i++ == k) { if constexpr (std::is_empty_v<T>) v = V(T{}); else v = V(jt::gen<T>(d + 1)); } }(), ...);
      return v;
    }
    static J enc(V const& v)
    {
      J j;
      int i = 0;
      ([&] {
        if (std::size_t(i++) == raw_variant(v).index())
        { if constexpr (std::is_empty_v<T>) j = J::I(i - 1); else j = J::A({J::I(i - 1), jt::enc<T>(std::get<T>(raw_variant(v)))}); }
      }(), ...);
      return j;
    }
    static verdict dec(J const& j, V& v)
    {
      bool pair = j.kind == J::array;
      if (pair && j.a.size() != 2) return no;
      long long id = -1;
      verdict r = whole(pair ? j.a[0] : j, 0, sizeof...(T) - 1, id);
      if (r != yes) return r;
      int i = 0;
      ([&] {
        if (i++ == id)
        {
          if constexpr (std::is_empty_v<T>) { if (pair) r = no; v = V(T{}); }
          else { T t{}; r = pair ? jt::dec<T>(j.a[1], t) : no; v = V(std::move(t)); }
        }
      }(), ...);
      return r;
    }
  };
  template <> struct ty<my::drawing>
  {
    static my::drawing gen(int d)
    {
      my::drawing r;
      int k = mc::choose(8);
      r.pair = decltype(r.pair){k & 1 ? -1 : 7, hana::tuple<nbdl::string, bool>{nbdl::string(k & 2 ? "" : "a\"b"), (k & 4) != 0}, my::nil{}};
      r.shapes = jt::gen<decltype(r.shapes)>(1);
      r.centre = jt::gen<decltype(r.centre)>(2);
      r.nested = jt::gen<decltype(r.nested)>(2);
      r.paths = jt::gen<decltype(r.paths)>(1);
      return r;
    }
    static J enc(my::drawing const& r)
    {
      return J::O({{"shapes", jt::enc(r.shapes)}, {"centre", jt::enc(r.centre)}, {"nested", jt::enc(r.nested)}, {"pair", jt::enc(r.pair)}, {"paths", jt::enc(r.paths)}});
    }
    static verdict dec(J const& j, my::drawing& v) { verdict r = yes; r = both(r, member(j, "shapes", v.shapes)); r = both(r, member(j, "centre", v.centre)); r = both(r, member(j, "nested", v.nested)); r = both(r, member(j, "pair", v.pair)); r = both(r, member(j, "paths", v.paths)); return r; }
  };
}
#endif
