// A JSON tree, a strict parser for it (RFC 8259) and a serialiser, none of them nbdl's or JsonCpp's.
#ifndef VERIF_JSONREF_HPP
#define VERIF_JSONREF_HPP
#include "mc.hpp"
#include <cerrno>
#include <map>
#include <cmath>
#include <optional>
namespace jr
{
  struct J
  {
    enum kind_t { null, boolean, integer, real, string, array, object } kind = null;
    bool b = false;
    long long i = 0;
    double d = 0;
    std::string s;
    std::vector<J> a;
    std::map<std::string, J> o;
    static J N() { return {}; }
    static J B(bool v) { J j; j.kind = boolean; j.b = v; return j; }
    static J I(long long v) { J j; j.kind = integer; j.i = v; return j; }
    static J D(double v) { J j; j.kind = real; j.d = v; return j; }
    static J S(std::string v) { J j; j.kind = string; j.s = std::move(v); return j; }
    static J A(std::vector<J> v = {}) { J j; j.kind = array; j.a = std::move(v); return j; }
    static J O(std::map<std::string, J> v = {}) { J j; j.kind = object; j.o = std::move(v); return j; }
    bool operator==(J const& x) const
    {
      if (kind != x.kind) return false;
      return b == x.b && i == x.i && ((d == x.d && std::signbit(d) == std::signbit(x.d)) || (d != d && x.d != x.d)) && s == x.s && a == x.a && o == x.o;
    }
  };
  inline void utf8(std::string& r, unsigned c)
  {
    if (c < 0x80) r += char(c);
    else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
  }
  struct parser
  {
    std::string const& t;
    std::size_t p = 0;
    bool bad = false;
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) p++; }
    bool eat(char c) { ws(); if (p < t.size() && t[p] == c) { p++; return true; } return false; }
    bool word(char const* w) { std::size_t n = std::strlen(w); if (t.compare(p, n, w) == 0) { p += n; return true; } return false; }
    unsigned hex4()
    {
      unsigned v = 0;
      for (int k = 0; k < 4; k++)
      {
        if (p >= t.size() || !std::isxdigit((unsigned char)t[p])) { bad = true; return 0; }
        char c = t[p++];
        v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
      }
      return v;
    }
    std::string str()
    {
      std::string r;
      if (!eat('"')) { bad = true; return r; }
      for (;;)
      {
        if (p >= t.size() || (unsigned char)t[p] < 0x20) { bad = true; return r; }
        char c = t[p++];
        if (c == '"') return r;
        if (c != '\\') { r += c; continue; }
        if (p >= t.size()) { bad = true; return r; }
        c = t[p++];
        switch (c)
        {
        case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
        case 'b': r += '\b'; break; case 'f': r += '\f'; break;
        case '"': case '\\': case '/': r += c; break;
        case 'u':
        {
          unsigned v = hex4();
          if (v >= 0xD800 && v < 0xDC00)
          {
            if (!(p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u')) { bad = true; return r; }
            p += 2;
            unsigned w = hex4();
            if (w < 0xDC00 || w >= 0xE000) bad = true;
            v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
          }
          if (v >= 0xDC00 && v < 0xE000) bad = true;
          utf8(r, v);
          break;
        }
        default: bad = true; return r;
        }
      }
    }
    J value()
    {
      ws();
      if (p >= t.size() || bad) { bad = true; return {}; }
      if (t[p] == '"') return J::S(str());
      if (word("true")) return J::B(true);
      if (word("false")) return J::B(false);
      if (word("null")) return J::N();
      if (eat('['))
      {
        J j = J::A();
        if (eat(']')) return j;
        do j.a.push_back(value()); while (!bad && eat(','));
        if (!eat(']')) bad = true;
        return j;
      }
      if (eat('{'))
      {
        J j = J::O();
        if (eat('}')) return j;
        do
        {
          std::string k = str();
          if (!eat(':')) { bad = true; break; }
          if (j.o.count(k)) bad = true;
          j.o[k] = value();
        } while (!bad && eat(','));
        if (!eat('}')) bad = true;
        return j;
      }
      std::size_t q = p;
      bool is_real = false;
      auto digits = [&] { std::size_t k = p; while (p < t.size() && std::isdigit((unsigned char)t[p])) p++; return p > k; };
      if (t[p] == '-') p++;
      if (p < t.size() && t[p] == '0') p++; else if (!digits()) { bad = true; return {}; }
      if (p < t.size() && t[p] == '.') { p++; is_real = true; if (!digits()) bad = true; }
      if (p < t.size() && (t[p] | 32) == 'e')
      { p++; is_real = true; if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++; if (!digits()) bad = true; }
      std::string n = t.substr(q, p - q);
      errno = 0;
      long long v = is_real ? 0 : std::strtoll(n.c_str(), nullptr, 10);
      if (!is_real && !errno) return J::I(v);
      errno = 0;
      double d = std::strtod(n.c_str(), nullptr);
      if (errno) bad = true;           // no double: what becomes of it is left open
      return J::D(d);
    }
  };
  inline std::optional<J> parse(std::string const& t)
  {
    parser p{t};
    J j = p.value();
    p.ws();
    if (p.bad || p.p != t.size()) return {};
    return j;
  }
  inline void write(std::string& r, J const& j)
  {
    char b[40];
    switch (j.kind)
    {
    case J::null: r += "null"; break;
    case J::boolean: r += j.b ? "true" : "false"; break;
    case J::integer: r += std::to_string(j.i); break;
    case J::real: std::snprintf(b, sizeof b, "%.17e", j.d); r += b; break;
    case J::string:
      r += '"';
      for (unsigned char c : j.s)
        if (c < 0x20 || c == '"' || c == '\\') { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += char(c);
      r += '"';
      break;
    case J::array: { r += '['; bool f = true; for (auto& x : j.a) { if (!f) r += ','; f = false; write(r, x); } r += ']'; break; }
    case J::object: { r += '{'; bool f = true; for (auto& [k, x] : j.o) { if (!f) r += ','; f = false; write(r, J::S(k)); r += ':'; write(r, x); } r += '}'; break; }
    }
  }
  inline std::string text(J const& j) { std::string r; write(r, j); return r; }
  // strict: nothing for malformed text
  inline std::optional<std::vector<unsigned char>> unbase64(std::string const& t)
  {
    std::vector<unsigned char> r;
    if (t.size() % 4) return {};
    std::size_t n = t.size();
    for (int k = 0; k < 2 && n && t[n - 1] == '='; k++) n--;
    unsigned acc = 0; int bits = 0;
    for (std::size_t k = 0; k < n; k++)
    {
      char c = t[k];
      int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
      if (v < 0) return {};
      acc = acc << 6 | v; bits += 6;
      if (bits >= 8) { bits -= 8; r.push_back(acc >> bits & 255); }
    }
    return r;
  }
  inline std::string base64(std::vector<unsigned char> const& in)
  {
    static char const* abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    unsigned acc = 0; int n = 0;
    for (auto c : in) { acc = acc << 8 | c; n += 8; while (n >= 6) { n -= 6; r += abc[acc >> n & 63]; } }
    if (n) r += abc[acc << (6 - n) & 63];
    while (r.size() % 4) r += '=';
    return r;
  }
}
#endif
