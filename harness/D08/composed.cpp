// mc-flags: --node -ljsoncpp
#include "round.hpp"
namespace my
{
  struct member { nbdl::string name; bool alive; int age; unsigned id; color eyes; point at; bytes key; temperature t; };
}
namespace nbdl { NBDL_ENTITY(my::member, name, alive, age, id, eyes, at, key, t); }
namespace jt
{
  template <> struct ty<my::member>
  {
    static my::member gen(int d)
    {
      my::member p;
      p.name = jt::gen<nbdl::string>(d); p.alive = jt::gen<bool>(d); p.age = jt::gen<int>(d); p.id = jt::gen<unsigned>(d);
      p.eyes = jt::gen<my::color>(d); p.at = jt::gen<my::point>(2); p.key = jt::gen<my::bytes>(d); p.t = jt::gen<my::temperature>(d);
      return p;
    }
    static J enc(my::member const& p)
    {
      return J::O({{"name", jt::enc(p.name)}, {"alive", jt::enc(p.alive)}, {"age", jt::enc(p.age)}, {"id", jt::enc(p.id)},
                   {"eyes", jt::enc(p.eyes)}, {"at", jt::enc(p.at)}, {"key", jt::enc(p.key)}, {"t", jt::enc(p.t)}});
    }
  };
}
namespace
{
  SCENARIO(containers)
  {
    switch (mc::choose(9))
    {
    case 0: return generated<vector<int>>(4, 5);
    case 1: return generated<std::deque<bool>>(5, 9);
    case 2: return generated<std::list<nbdl::string>>(4);
    case 3: return generated<vector<vector<int>>>(4, 5);
    case 4: return generated<vector<std::list<std::deque<bool>>>>(4, 5);
    case 5: return generated<vector<my::point>>(3);
    case 6: return generated<vector<hana::tuple<int, bool>>>(3);
    case 7: return generated<vector<my::color>>(4);
    case 8: return generated<vector<my::maybe>>(4);
    }
  }
  SCENARIO(tuples)
  {
    switch (mc::choose(7))
    {
    case 0: return generated<hana::tuple<int>>(5);
    case 1: return generated<hana::tuple<my::nil, int>>(5);
    case 2: return generated<hana::tuple<int, nbdl::string>>(5);
    case 3: return generated<hana::tuple<int, my::nil, nbdl::string, bool>>(4);
    case 4: return generated<hana::tuple<hana::tuple<int, bool>, hana::tuple<nbdl::string>, vector<int>>>(3);
    case 5: return generated<hana::tuple<my::point, my::maybe, my::bytes, unsigned, my::color>>(3);
    case 6: return generated<hana::tuple<vector<int>>>(4);
    }
  }
  SCENARIO(variants)
  {
    switch (mc::choose(6))
    {
    case 0: return generated<my::shape>(5);
    case 1: return generated<my::maybe>(5);
    case 2: return generated<vector<my::shape>>(3);
    case 3: return generated<nbdl::optional<my::shape>>(4);
    case 4: return generated<nbdl::variant<my::maybe, my::shape, my::none>>(3);
    case 5: return generated<nbdl::variant<int, nbdl::string, bool, unsigned, my::color>>(9);
    }
  }
  // what is read takes the place of what was there
  template <typename T> void over(int w)
  {
    jt::width = w;
    T v = gen<T>(), old = gen<T>();
    nbdl::js::init();
    nbdl::js::val out;
    js::bind_to(out, v);
    T back = old;
    js::bind_from(out, back);
    mc::note(mc::str(text(enc(v)), " over ", text(enc(old))));
    mc::check(same(v, back), mc::str(text(enc(v)), " read into ", text(enc(old)), " gives ", text(enc(back))));
    mc::state(text(enc(v))); mc::step(); mc::eval();
  }
  SCENARIO(read_over)
  {
    switch (mc::choose(12))
    {
    case 0: return over<vector<int>>(4);
    case 1: return over<std::list<nbdl::string>>(3);
    case 2: return over<vector<vector<int>>>(3);
    case 3: return over<std::deque<bool>>(4);
    case 4: return over<my::bytes>(5);
    case 5: return over<nbdl::string>(4);
    case 6: return over<my::maybe>(3);
    case 7: return over<my::shape>(2);
    case 8: return over<hana::tuple<int, nbdl::string>>(3);
    case 9: return over<hana::tuple<vector<int>, my::maybe>>(2);
    case 10: return over<std::list<my::maybe>>(2);
    case 11: return over<my::point>(5);
    }
  }
  SCENARIO(entity) { generated<my::member>(2, 3); }
  SCENARIO(entities) { jt::width = 2; my::member p = gen<my::member>(); round(vector<my::member>{p, my::member{}}); }
  SCENARIO(nested_entity) { jt::width = 2; round(gen<my::drawing>()); }
}
