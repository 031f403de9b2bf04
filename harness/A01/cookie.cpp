// every cookie header made of up to seven pieces that matter, and every short text
#include "mc.hpp"
#include <string>
#include <string_view>
#include <nbdl/app/detail/cookie_parser.hpp>
#include <vector>

namespace
{
  using std::string; using std::vector;
  // the cookies are what the semicolons separate; the session is the value of the first one of that name
  string meaning(string const& s)
  {
    static string const name = "NBDL_SESS=";
    std::size_t at = 0;
    for (;;)
    {
      auto end = s.find(';', at);
      string c = s.substr(at, end == string::npos ? end : end - at);
      while (c.size() && (c[0] == ' ' || (c[0] >= 9 && c[0] <= 13))) c.erase(0, 1);
      if (c.compare(0, name.size(), name) == 0) return c.substr(name.size());
      if (end == string::npos) return "";
      at = end + 1;
    }
  }
  void one(string const& s)
  {
    mc::eval();
    vector<char> in(s.begin(), s.end()); in.shrink_to_fit();     // nothing behind it
    auto got = nbdl::app::detail::get_session_cookie(std::string_view(in.data(), in.size()));
    auto want = meaning(s);
    if (got != want) mc::fail(mc::str("the session in '", mc::show(s), "' is '", mc::show(string(got)), "' instead of '", mc::show(want), "'"));
    if (got.size() && (got.data() < in.data() || got.data() + got.size() > in.data() + in.size())) mc::fail("the session is not a part of the header");
  }
  void pieces(vector<string> const& p, int depth)
  {
    int n = mc::choose(depth + 1);
    string s;
    int fixed = std::min(n, 2);
    for (int i = 0; i < fixed; i++) s += p[mc::choose(int(p.size()))];
    auto rest = [&](auto& self, int left) -> void
    {
      if (mc::failed()) return;
      if (!left) { one(s); return; }
      auto size = s.size();
      for (auto& x : p) { s += x; self(self, left - 1); s.resize(size); }
    };
    rest(rest, n - fixed);
  }
}

SCENARIO(headers) { pieces({"NBDL_SESS=", "NBDL_SESS", "=", ";", " ", "x", "; "}, mc::tier(7, 8)); }
SCENARIO(cookies)
{
  // whole cookies, with and without values, names that contain the name, quotes, other whitespace
  pieces({"NBDL_SESS=abc", "a=b", "flag", "", "=", "XNBDL_SESS=no", "NBDL_SESSION=no", "a=NBDL_SESS=no", "nbdl_sess=no", "NBDL_SESS=", ";", "; ", ";\t", "NBDL_SESS=\"q\""}, mc::tier(5, 6));
}
SCENARIO(bytes)
{
  int a = mc::choose(256);
  for (int b = 0; b < 256; b++)
  {
    string t{char(a), char(b)};
    one(t + "NBDL_SESS=x"); one("NBDL_SESS=" + t); one("NBDL_SESS=x" + t); one("a" + t + "NBDL_SESS=x"); one("a=b;" + t + "NBDL_SESS=x"); one(t);
  }
}
SCENARIO(long_headers)
{
  // many cookies and long ones around, before and in the session
  int n = mc::pick(vector<int>{0, 1, 2, 7, 31, 63, 64, 65, 127, 128, 255, 256, 300});
  int size = mc::pick(vector<int>{0, 1, 30, 31, 32, 63, 64, 100, 127, 128, 129, 254, 255, 256, 257, 1000, 4095, 4096, 5000, 65535, 65536, 70000});
  for (char const* sep : {";", "; ", " ;  "}) for (int where = 0; where < 4; where++) for (int other : {0, 1, 300})
  {
    string s, session = "NBDL_SESS=" + string(size, 'v');
    auto add = [&](string const& c) { if (s.size()) s += sep; s += c; };
    if (where == 0) add(session);
    for (int i = 0; i < n; i++)
    {
      if (where == 1 && i == n / 2) add(session);
      add(i % 7 == 3 ? "flag" : i % 5 == 2 ? "XNBDL_SESS=no" : "c" + std::to_string(i) + "=" + string(other, 'o'));
    }
    if (where >= 2) add(session);
    if (where == 3) add("NBDL_SESS=second");
    one(s);
  }
}
