// mc-flags: -O1
// every sequence of making, joining, copying, assigning and dropping of string_concat_views, beside the texts themselves
#include "mc.hpp"
#include <nbdl/string.hpp>
#include <nbdl/detail/string_concat_view.hpp>
#include <boost/hana.hpp>
#include <functional>
#include <list>
#include <optional>
#include <vector>
using namespace boost::hana::literals;
namespace
{
  using std::string; using std::vector; using nbdl::detail::string_concat_view;
  namespace d = nbdl::detail;
  // the texts; the third has a null in it
  struct texts
  {
    string none{}, one{"a"}, odd{"b\0c", 3}, grown{"xyz"};
    nbdl::string own{};
    texts() { for (char c : {'o', 'w', '\0', 'n'}) own.push_back(c); }
  };
  constexpr int leaves = 9;
  string_concat_view leaf(int k, texts const& t)
  {
    switch (k)
    {
    case 0: return d::make_string_concat_view(t.one);
    case 1: return d::make_string_concat_view(t.odd);
    case 2: return d::make_string_concat_view(t.none);
    case 3: return d::make_string_concat_view(std::cref(t.grown));
    case 4: return d::make_string_concat_view(t.own);
    case 5: return d::make_string_concat_view(boost::hana::string<'f', '\0', 'o'>{});
    case 6: return d::make_string_concat_view(""_s);
    case 7: return string_concat_view();
    default: return d::make_string_concat_view();
    }
  }
  string leaf_text(int k, texts const& t)
  {
    switch (k) { case 0: return t.one; case 1: return t.odd; case 3: return t.grown; case 4: return string(t.own.begin(), t.own.end()); case 5: return string("f\0o", 3); default: return ""; }
  }
  struct both { string_concat_view v; string s; };
  void same(both const& b, char const* what)
  {
    if (mc::failed()) return;
    auto shown = [](string s) { for (char& c : s) if (!c) c = '0'; return s; };
    string said = mc::str(what, " '", shown(b.s), "': ");
    mc::check(b.v.length() == b.s.size(), mc::str(said, "length ", b.v.length()));
    if (mc::failed()) return;
    mc::check(b.v.to_string() == b.s, said + "to_string gives '" + shown(b.v.to_string()) + "'");
    // copied into the middle of another text: nothing before or behind is touched
    string room(b.s.size() + 4, '.');
    b.v.copy(room.begin() + 2);
    mc::check(room == ".." + b.s + "..", said + "copy gives '" + shown(room) + "'");
    // the same text, each text with another letter, and the text with more behind
    mc::check(b.v.equal(std::as_const(b.s).begin()), said + "not equal to its own text");
    string more = b.s + "!";
    mc::check(b.v.equal(std::as_const(more).begin()), said + "not equal with more text behind");
    for (std::size_t i = 0; i < b.s.size(); i++)
    {
      string other = b.s;
      other[i] = char(other[i] + 1);
      mc::check(!b.v.equal(std::as_const(other).begin()), mc::str(said, "equal to a text whose letter ", i, " is another"));
    }
    mc::eval();
  }
  void join(bool plain)
  {
    texts t;
    vector<both> all;
    int steps = plain ? mc::tier(4, 5) : mc::tier(3, 4);
    for (int n = 0; n < steps && !mc::failed(); n++)
    {
      auto any = [&](char const*) { return std::size_t(mc::choose(int(all.size()))); };
      int op = all.empty() ? 0 : plain ? mc::choose(all.size() > 1 ? 5 : 4) : mc::choose(all.size() > 1 ? 9 : 7);
      switch (op)
      {
      case 0: { int k = mc::choose(plain ? 3 : leaves); all.push_back({leaf(k, t), leaf_text(k, t)}); break; }
      case 1: { auto i = any(""), j = any(""); all.push_back({d::make_string_concat_view(all[i].v, all[j].v), all[i].s + all[j].s}); break; }
      // among texts of other kinds
      case 2: { auto i = any(""); all.push_back({d::make_string_concat_view(t.one, all[i].v, "-"_s), t.one + all[i].s + "-"}); break; }
      case 3: { auto i = any(""); all.push_back({d::make_string_concat_view("<"_s, all[i].v, t.odd, all[i].v), "<" + all[i].s + t.odd + all[i].s}); break; }
      case 4:
        if (plain) { auto i = any(""), j = any(""), k = any(""); all.push_back({d::make_string_concat_view(all[i].v, all[j].v, all[k].v), all[i].s + all[j].s + all[k].s}); break; }
        { auto i = any(""); all.push_back({d::make_string_concat_view(all[i].v), all[i].s}); break; }
      case 5: { auto i = any(""); both c = all[i]; all.push_back(c); break; }
      case 6: { auto i = any(""); both c{std::move(all[i].v), all[i].s}; all[i].v = string_concat_view{}; all[i].s.clear(); all.push_back(std::move(c)); break; }
      case 7: { auto i = any(""), j = any(""); all[i].v = all[j].v; all[i].s = string(all[j].s); break; }
      // what was joined outlives its parts
      case 8: { auto i = any(""); all.erase(all.begin() + long(i)); break; }
      }
      for (auto const& b : all) same(b, "the view");
      string s; for (auto const& b : all) s += b.s + "|";
      mc::state(s); mc::step();
    }
    // the views see the texts: these letters are changed in place
    if (mc::failed()) return;
    auto change = [&](both& b) { for (char& c : b.s) if (c == 'a') c = 'A'; else if (c == 'y') c = 'Y'; };
    t.one[0] = 'A'; t.grown[1] = 'Y';
    for (auto& b : all) { change(b); same(b, "after the texts changed, the view"); }
  }
}
SCENARIO(joins) { join(true); }
SCENARIO(all_operations) { join(false); }
