// Reading documents that may or may not be right.
#ifndef VERIF_JSONBAD_HPP
#define VERIF_JSONBAD_HPP
#include "jsontypes.hpp"
namespace jt
{
  namespace jb = nbdl::binder::jsoncpp;
  // must: what has to happen (any: anything that is not undefined)
  template <typename T> void read_text(std::string const& t, verdict must, T const& want)
  {
    T got{};
    bool accepted = false;
    std::string why;
    try { jb::from_string(t, got); accepted = true; }
    catch (std::exception& e) { why = e.what(); }
    catch (...) { mc::fail(mc::str("reading ", mc::show(t, 300), " throws something that is no std::exception")); }
    if (must == yes) mc::check(accepted, mc::str(mc::show(t, 300), " is refused: ", why));
    if (must == no) mc::check(!accepted, mc::str("malformed: ", mc::show(t, 300), " is accepted as ", accepted ? text(enc(got)) : ""));
    if (must == yes && accepted) mc::check(same(got, want), mc::str(mc::show(t, 300), " is read as ", text(enc(got))));
    if (accepted)
    { // whatever was accepted is a value like any other
      std::string out;
      try { out = jb::to_string(got); } catch (std::exception& e) { mc::fail(mc::str("what was read from ", mc::show(t, 300), " cannot be written: ", e.what())); }
      T again{};
      if (parse(out)) { try { jb::from_string(out, again); } catch (std::exception& e) { mc::fail(mc::str("what was read from ", mc::show(t, 300), " and written as ", out, " is refused: ", e.what())); } }
    }
    mc::eval(); mc::step();
  }
  template <typename T> void read_tree(J const& j)
  {
    T want{};
    verdict v = dec(j, want);
    read_text(text(j), v, want);
  }
  inline vector<J> const& replacements()
  {
    static vector<J> const r = [] {
      using std::string;
      vector<J> v{J::N(), J::B(true), J::B(false), J::I(0), J::I(-1), J::I(1), J::I(2), J::I(3), J::I(8), J::I(1000), J::I(2147483647), J::I(2147483648ll), J::I(-2147483648ll), J::I(-2147483649ll),
        J::I(4294967295ll), J::I(4294967296ll), J::I(9223372036854775807ll), J::D(0.5), J::D(2.0), J::D(-3e9), J::D(1e300),
        J::S(""), J::S("x"), J::S("QUJD"), J::S("QQ=="), J::S("QUI="), J::S("!!!!"), J::S("Q==="), J::S("QUJD\n"), J::S("AAAAAAAAAAAAAAAAAAAAAA=="), J::S("AAAAAAAAAAAAAAAAAAAAAAA="), J::S(string("a\0b", 3)), J::S("true"), J::S("1"),
        J::A(), J::O()};
      v.push_back(J::A({J::I(0)})); v.push_back(J::A({J::I(0), J::I(0)})); v.push_back(J::A({J::I(1), J::I(2)})); v.push_back(J::A({J::I(2), J::A({J::I(1), J::B(true)})}));
      v.push_back(J::A({J::I(0), J::N()})); v.push_back(J::A({J::I(0), J::A()})); v.push_back(J::A({J::I(-1), J::I(2)})); v.push_back(J::A({J::I(8), J::I(2)})); v.push_back(J::A({J::D(1.5), J::I(2)}));
      v.push_back(J::A({J::I(4294967297ll), J::I(2)})); v.push_back(J::A({J::S("1"), J::I(2)})); v.push_back(J::A({J::B(true), J::I(2)}));
      v.push_back(J::A({J::I(1), J::I(2), J::I(3)})); v.push_back(J::A({J::A()})); v.push_back(J::A({J::N()})); v.push_back(J::A({J::S("x"), J::B(true)})); v.push_back(J::A({J::O()}));
      v.push_back(J::O({{"x", J::I(1)}})); v.push_back(J::O({{"x", J::I(1)}, {"y", J::I(2)}})); v.push_back(J::O({{"only", J::S("")}})); v.push_back(J::O({{"0", J::I(1)}, {"1", J::I(1)}}));
      v.push_back(J::A({J::I(1), J::O({{"x", J::I(1)}, {"y", J::I(2)}})}));
      return v;
    }();
    return r;
  }
  inline void nodes(J& j, vector<J*>& out) { out.push_back(&j); for (auto& x : j.a) nodes(x, out); for (auto& [k, x] : j.o) nodes(x, out); }
  inline void damage(J& j)
  {
    vector<J*> all;
    nodes(j, all);
    J& at = *all[mc::choose(int(all.size()))];
    int n = int(replacements().size());
    int k = mc::choose(n + int(at.a.size()) * 2 + int(at.o.size()));
    if (k < n) { J r = replacements()[k]; at = std::move(r); return; }
    k -= n;
    if (k < int(at.a.size())) { at.a.erase(at.a.begin() + k); return; }
    k -= at.a.size();
    if (k < int(at.a.size())) { J c = at.a[k]; at.a.insert(at.a.begin() + k, c); return; }
    k -= at.a.size();
    at.o.erase(std::next(at.o.begin(), k));
  }
  // one node of a good document replaced, removed or doubled (and then another)
  template <typename T> void damaged(int times = 1)
  {
    J j = enc(gen<T>());
    while (times--) damage(j);
    mc::note(text(j));
    read_tree<T>(j);
    mc::state(text(j));
  }
  // every prefix, and every byte replaced
  template <typename T> void mangled()
  {
    T v = gen<T>();
    J j = enc(v);
    std::string t = mc::flip() ? jb::to_string(v) : text(j);
    mc::note(t);
    for (std::size_t n = 0; n < t.size() && !mc::failed(); n++)
    {
      std::string p = t.substr(0, n);
      bool delimited = j.kind == J::array || j.kind == J::object || j.kind == J::string;
      if (delimited) read_text(p, no, T{}); else read_text(p, any, T{});
    }
    static char const with[] = {'0', '9', '-', '.', 'e', '"', '\\', '[', ']', '{', '}', ',', ':', ' ', 'u', 't', '=', 'A', '\0', '\x80', '\xff', '\n'};
    for (std::size_t n = 0; n < t.size() && !mc::failed(); n++)
      for (int kind = 0; kind < 3; kind++)
        for (char c : with)
        {
          std::string p = t;
          if (kind == 0) p[n] = c; else if (kind == 1) p.insert(n, 1, c); else if (c == with[0]) p.erase(n, 1); else break;
          auto tree = parse(p);
          T want{};
          verdict must = any;
          if (tree) must = dec(*tree, want);
          read_text(p, must, want);
        }
    mc::state(t);
  }
}
#endif
