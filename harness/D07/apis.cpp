// the signatures of the messages of all contexts of a list, each pair compared
#include "contextdef.hpp"
#include <nbdl/api_signature.hpp>
namespace nbdl
{
  template <int i, int my::key<i>::*p> struct member_name_impl<member<my::key<i>, int, p>> { static auto apply() { return hana::string<'k', char('a' + i % 100)>{}; } };
  template <int i, int my::ent<i>::*p> struct member_name_impl<member<my::ent<i>, int, p>> { static auto apply() { return hana::string<'e', char('a' + i % 100)>{}; } };
}
namespace
{
  using namespace my;
  // what the messages consist of, from the definition
  std::string key_text(int k) { return k >= 100 ? "map()" : mc::str("map(k", char('a' + k), ":int)"); }
  std::string ent_text(int k) { return mc::str("map(e", char('a' + k % 100), ":int)"); }
  std::string path_of(std::vector<int> const& v, std::size_t n)
  { std::string r; for (std::size_t i = 0; i < n; i++) r += (i ? "," : "") + key_text(v[i]); return "seq(" + r + ")"; }
  std::string structure(model const& m, bool up)
  {
    std::string r = "one of(system";
    for (auto& q : m.points)
    {
      std::string path = path_of(q.path, q.path.size()), e = ent_text(q.path.back());
      // who makes a new key does not know it yet, unless there is only one
      std::string parent = q.path.back() >= 100 ? path : path_of(q.path, q.path.size() - 1);
      for (char c : q.acts) switch (c)
      {
        case 'c': r += ",seq(" + (up ? parent : path) + "," + e + ")"; break;
        case 'r': if (up) r += ",seq(" + path + ")"; else r += ",seq(" + path + "," + e + "),seq(" + path + ")"; break;
        case 'u': r += ",seq(" + path + "," + e + ")"; break;
        case 'd': r += ",seq(" + path + ")"; break;
      }
    }
    return r + ")";
  }
  struct entry { std::string name, text, sign; };
  template <typename T> std::string sign_of() { auto x = nbdl::api_signature<T>(hana::string<'j', 's', 'o', 'n'>{}); return {x.begin(), x.end()}; }
  template <typename ...S> std::vector<entry> table(pack<S...>)
  {
    std::vector<entry> r;
    int i = 0;
    ([&]
    {
      auto m = meaning(S{});
      r.push_back({mc::str("upstream messages of definition ", i), structure(m, true), sign_of<typename nbdl::message_api<S>::upstream_variant>()});
      r.push_back({mc::str("downstream messages of definition ", i), structure(m, false), sign_of<typename nbdl::message_api<S>::downstream_variant>()});
      i++;
    }(), ...);
    return r;
  }
  template <typename A, int k = 1> using single = shape<0, pack<prod<true, 0, many<ap<k, A, 1, hears<>>>>>, 2, pack<>, false>;
  template <typename A, int k = 1> using single_rev = shape<1, pack<prod<false, 3, one<ap<k, A, 2, hears<>>>>>, 0, pack<cons<true, 1, 7>>, true>;
  template <typename A, typename B, int k = 1, int l = 2> using below = shape<0, pack<prod<true, 0, many<ap<k, A, 1, hears<>, many<ap<l, B, 1, hears<>>>>>>>, 2, pack<>, false>;
  template <typename A, typename B, int k = 1, int l = 2> using beside = shape<0, pack<prod<true, 0, many<ap<k, A, 1, hears<>>, ap<l, B, 1, hears<>>>>>, 2, pack<>, false>;
  template <typename A, typename B, int k = 1, int l = 2> using apart = shape<0, pack<prod<true, 0, many<ap<k, A, 1, hears<>>>>, prod<true, 1, many<ap<l, B, 1, hears<>>>>>, 2, pack<>, false>;
  using c = acts<'c'>; using r = acts<'r'>; using u = acts<'u'>; using d = acts<'d'>;
  using cr = acts<'c', 'r'>; using rc = acts<'r', 'c'>; using crud = acts<'c', 'r', 'u', 'd'>; using durc = acts<'d', 'u', 'r', 'c'>; using ud = acts<'u', 'd'>;
  using definitions = pack<
    single<c>, single<r>, single<u>, single<d>, single<cr>, single<rc>, single<crud>, single<durc>, single<crud, 2>, single<crud, 101>, single<c, 101>, single<c, 2>
  , single_rev<c>, single_rev<crud>, single_rev<rc>, single_rev<crud, 101>
  , below<crud, crud>, below<c, c>, below<unsaid, crud>, below<crud, unsaid>, below<crud, crud, 2, 1>, below<crud, crud, 1, 101>, below<r, c>, below<c, r>, below<unsaid, c, 1, 101>
  , beside<crud, crud>, beside<crud, crud, 2, 1>, beside<c, c>, beside<c, r>, beside<cr, ud>, beside<r, r, 1, 101>
  , apart<crud, crud>, apart<crud, crud, 2, 1>, apart<c, c>, apart<cr, ud>>;
  std::vector<entry> const& entries() { static auto t = table(definitions{}); return t; }
}
SCENARIO(every_pair_of_apis)
{
  auto& t = entries();
  auto& x = t[mc::choose(int(t.size()))];
  mc::state(x.text);
  mc::note(x.name + ": " + x.text);
  for (auto& y : t)
  {
    mc::step(); mc::eval();
    bool same = x.text == y.text;
    if ((x.sign == y.sign) != same) mc::fail(x.name + " and " + y.name + (same ? " have different signatures: " : " have the same signature: ") + x.text + (same ? "" : " and " + y.text));
  }
}
