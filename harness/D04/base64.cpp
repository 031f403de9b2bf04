#include "mc.hpp"
#include <nbdl/util/base64_decode.hpp>
#include <nbdl/util/base64_encode.hpp>
#include <array>
#include <optional>
#include <string>
#include <vector>

namespace
{
  using bytes = std::vector<unsigned char>;
  char const* abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

  // RFC 4648, one bit at a time
  std::string reference_encode(bytes const& in)
  {
    std::vector<int> bits;
    for (auto b : in) for (int i = 7; i >= 0; i--) bits.push_back(b >> i & 1);
    while (bits.size() % 6) bits.push_back(0);
    std::string r;
    for (std::size_t i = 0; i < bits.size(); i += 6)
    { int v = 0; for (int j = 0; j < 6; j++) v = v * 2 + bits[i + j]; r += abc[v]; }
    while (r.size() % 4) r += '=';
    return r;
  }
  std::optional<bytes> reference_decode(std::string const& in)
  {
    if (in.size() % 4) return {};
    std::size_t pad = 0;
    while (pad < in.size() && in[in.size() - 1 - pad] == '=') pad++;
    if (pad > 2) return {};
    std::vector<int> bits;
    for (std::size_t i = 0; i < in.size() - pad; i++)
    {
      char const* p = in[i] ? std::strchr(abc, in[i]) : nullptr;
      if (!p) return {};
      for (int j = 5; j >= 0; j--) bits.push_back((p - abc) >> j & 1);
    }
    bytes r;
    for (std::size_t i = 0; i + 8 <= bits.size(); i += 8)
    { int v = 0; for (int j = 0; j < 8; j++) v = v * 2 + bits[i + j]; r.push_back(v); }
    return r;
  }
  std::string hex(bytes const& b) { std::string r; char t[8]; for (auto c : b) { std::snprintf(t, 8, "%02x", c); r += t; } return r; }

  template <typename Out> bytes to_bytes(Out const& o) { bytes r; for (auto c : o) r.push_back(static_cast<unsigned char>(c)); return r; }

  template <typename Out> void decode_into(std::string const& in, std::optional<bytes> const& want, Out out, char const* what)
  {
    bool ok = nbdl::util::base64_decode(in, out);
    mc::check(ok == want.has_value(), mc::str(what, ": decoding ", mc::show(in), ok ? " succeeds" : " fails"));
    if (ok && want) mc::check(to_bytes(out) == *want, mc::str(what, ": ", mc::show(in), " decodes to ", hex(to_bytes(out)), " instead of ", hex(*want)));
  }
  template <std::size_t n> void decode_fixed(std::string const& in, std::optional<bytes> const& want)
  {
    std::array<unsigned char, n> a;
    a.fill(0xEE);
    bool ok = nbdl::util::base64_decode(in, a);
    bool expected = want && want->size() == n;
    mc::check(ok == expected, mc::str("array of ", n, ": decoding ", mc::show(in), ok ? " succeeds" : " fails"));
    if (ok && expected) mc::check(to_bytes(a) == *want, mc::str("array of ", n, ": wrong bytes for ", mc::show(in)));
  }
  void decode_all(std::string const& in)
  {
    auto want = reference_decode(in);
    auto v = nbdl::util::base64_decode(in);
    mc::check(v == want.value_or(bytes{}), mc::str("decoding ", mc::show(in), " yields ", hex(v)));
    decode_into(in, want, bytes{1, 2, 3, 4, 5}, "vector<unsigned char>");
    decode_into(in, want, std::vector<char>{}, "vector<char>");
    decode_into(in, want, std::string("previous content, rather long"), "string");
    decode_fixed<0>(in, want); decode_fixed<1>(in, want); decode_fixed<2>(in, want); decode_fixed<3>(in, want); decode_fixed<4>(in, want); decode_fixed<5>(in, want); decode_fixed<6>(in, want);
    mc::eval(); mc::step();
  }
  template <std::size_t n> void encode_fixed(bytes const& in, std::string const& want)
  {
    if (in.size() != n) return;
    std::array<unsigned char, n> a; std::array<char, n> c; std::array<signed char, n> s;
    for (std::size_t i = 0; i < n; i++) { a[i] = in[i]; c[i] = char(in[i]); s[i] = static_cast<signed char>(in[i]); }
    mc::check(nbdl::util::base64_encode(a) == want, "array<unsigned char> " + hex(in));
    mc::check(nbdl::util::base64_encode(c) == want, "array<char> " + hex(in));
    mc::check(nbdl::util::base64_encode(s) == want, "array<signed char> " + hex(in));
  }
  void round(bytes const& in)
  {
    auto want = reference_encode(in);
    auto got = nbdl::util::base64_encode(in);
    mc::check(got == want, mc::str(hex(in), " encodes to ", got, " instead of ", want));
    mc::check(nbdl::util::base64_encode(std::string(in.begin(), in.end())) == want, "string " + hex(in) + " encodes wrongly");
    mc::check(nbdl::util::base64_encode(std::vector<char>(in.begin(), in.end())) == want, "vector<char> " + hex(in) + " encodes wrongly");
    encode_fixed<0>(in, want); encode_fixed<1>(in, want); encode_fixed<2>(in, want); encode_fixed<3>(in, want); encode_fixed<4>(in, want); encode_fixed<7>(in, want);
    mc::check(nbdl::util::base64_decode(want) == in, "decoding " + want);
    bytes out;
    mc::check(nbdl::util::base64_decode(want, out) && out == in, "decoding into a buffer " + want);
    mc::eval(); mc::step();
  }
  // the first of a triple decides the first character, and so on: all of each position
  SCENARIO(every_byte_at_every_place)
  {
    int n = 1 + mc::choose(mc::tier(9, 12)), at = mc::choose(n);
    unsigned char rest = mc::pick(std::vector<unsigned char>{0, 0xff, 0x5a});
    for (int b = 0; b < 256; b++) { bytes in(n, rest); in[at] = b; round(in); if (mc::failed()) return; }
    mc::state(mc::str(n, ".", at, ".", rest));
  }
  SCENARIO(every_pair)
  {
    int a = mc::choose(256);
    for (int b = 0; b < 256; b++)
    {
      round({(unsigned char)a, (unsigned char)b});
      if (mc::thorough()) for (int c : {0, 1, 0x7f, 0x80, 0xff}) round({(unsigned char)b, (unsigned char)a, (unsigned char)c});
    }
    mc::state(mc::str(a));
  }
  SCENARIO(short_strings_of_bytes)
  {
    int n = mc::choose(mc::tier(8, 9));
    bytes in;
    for (int i = 0; i < n; i++) in.push_back(mc::pick(std::vector<unsigned char>{0x00, 0xff, 0x83}));
    round(in);
    mc::state(hex(in));
  }
  SCENARIO(long_strings)
  {
    int n = mc::pick(std::vector<int>{62, 63, 64, 255, 256, 1000, 65535, 65536, 65537});
    bytes in;
    for (int i = 0; i < n; i++) in.push_back((i * 131 + 7) >> (i % 3));
    round(in);
    mc::state(mc::str(n));
  }
  // every text of up to four characters over the interesting ones, and eight over fewer
  SCENARIO(texts)
  {
    std::string s;
    int n = mc::choose(6);
    for (int i = 0; i < n; i++) s += mc::pick(n == 5 ? std::vector<char>{'A', '/', '=', '*'} : std::vector<char>{'A', 'Z', 'a', '9', '+', '/', '=', '-', '\n', '\0', '\x80', '\xff'});
    decode_all(s);
    mc::state(s);
  }
  SCENARIO(longer_texts)
  {
    std::string s;
    int n = 6 + mc::choose(4);
    for (int i = 0; i < n; i++) s += mc::pick(n == 8 || mc::thorough() ? std::vector<char>{'B', '/', '=', '*'} : std::vector<char>{'B', '=', '*'});
    decode_all(s);
    mc::state(s);
  }
  // one wrong character anywhere in a good text
  SCENARIO(one_wrong)
  {
    std::string good = mc::pick(std::vector<std::string>{"QUJDREVGR0hJ", "QUJDREVGR0g=", "QUJDREVGRw=="});
    int at = mc::choose(good.size());
    for (int c = 0; c < 256; c++) { std::string s = good; s[at] = c; decode_all(s); s.insert(s.begin() + at, char(c)); decode_all(s); s = good; s.erase(at); decode_all(s); }
    mc::state(mc::str(good, at));
  }
}
