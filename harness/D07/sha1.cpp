// the digest of every length, however the bytes arrive
#include "mc.hpp"
#include <nbdl/detail/beast_sha1.hpp>
#include <array>
#include <vector>

namespace
{
  // FIPS 180-4, of all the bytes at once
  std::string reference(std::string const& m)
  {
    std::string b = m + char(0x80);
    while (b.size() % 64 != 56) b += char(0);
    std::uint64_t bits = std::uint64_t(m.size()) * 8;
    for (int i = 7; i >= 0; i--) b += char(bits >> (8 * i));
    std::array<std::uint32_t, 5> h{0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u};
    auto rot = [](std::uint32_t x, int n) { return x << n | x >> (32 - n); };
    std::vector<std::uint32_t> w(80);
    for (std::size_t at = 0; at < b.size(); at += 64)
    {
      for (int t = 0; t < 16; t++)
      { w[t] = 0; for (int i = 0; i < 4; i++) w[t] = w[t] << 8 | (unsigned char)b[at + 4 * t + i]; }
      for (int t = 16; t < 80; t++) w[t] = rot(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
      auto v = h;
      for (int t = 0; t < 80; t++)
      {
        auto [a, x, y, z, e] = v;
        std::uint32_t f = t < 20 ? ((x & y) | (~x & z)) + 0x5A827999u : t < 40 ? (x ^ y ^ z) + 0x6ED9EBA1u
          : t < 60 ? ((x & y) | (x & z) | (y & z)) + 0x8F1BBCDCu : (x ^ y ^ z) + 0xCA62C1D6u;
        v = {rot(a, 5) + f + e + w[t], a, rot(x, 30), y, z};
      }
      for (int i = 0; i < 5; i++) h[i] += v[i];
    }
    std::string r;
    for (auto x : h) for (int i = 3; i >= 0; i--) r += char(x >> (8 * i));
    return r;
  }
  char byte(int pattern, std::size_t i)
  { return pattern == 0 ? char(0) : pattern == 1 ? char(0xff) : pattern == 2 ? char(i * 7 + i / 64) : char(0x80 >> (i % 9)); }
  std::string content(int pattern, std::size_t n) { std::string s; for (std::size_t i = 0; i < n; i++) s += byte(pattern, i); return s; }
  std::string digest(std::string const& s, std::vector<std::size_t> const& cuts)
  {
    namespace sha1 = nbdl::detail::beast_sha1;
    sha1::sha1_context c;
    std::memset(&c, 0xA5, sizeof c);
    sha1::init(c);
    std::size_t from = 0;
    auto part = [&](std::size_t to) { std::vector<char> piece(s.begin() + from, s.begin() + to); piece.reserve(1); sha1::update(c, piece.data(), piece.size()); from = to; };
    for (auto to : cuts) part(to);
    part(s.size());
    std::string out(20, 'x');
    sha1::finish(c, out.data());
    return out;
  }
  void compare(int pattern, std::size_t n, std::vector<std::size_t> const& cuts, std::string const& want, std::string const& s)
  {
    mc::step(); mc::eval();
    std::string got = digest(s, cuts);
    if (got != want)
    {
      std::string how; for (auto x : cuts) how += mc::str(" ", x);
      mc::fail(mc::str("SHA-1 of ", n, " bytes of pattern ", pattern, ", cut at", how, " is ", mc::show(got, 40), " instead of ", mc::show(want, 40)));
    }
  }
}
SCENARIO(known_answers)
{
  struct { char const* text; char const* hex; } const all[] = {
    {"", "da39a3ee5e6b4b0d3255bfef95601890afd80709"}, {"abc", "a9993e364706816aba3e25717850c26c9cd0d89d"},
    {"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "84983e441c3bd26ebaae4aa1f95129e5e54670f1"},
    {"The quick brown fox jumps over the lazy dog", "2fd4e1c67a2d28fced849ee1bb76e7391b93eb12"}};
  auto& x = all[mc::choose(4)];
  std::string hex; char b[4];
  for (unsigned char c : reference(x.text)) { std::snprintf(b, sizeof b, "%02x", c); hex += b; }
  mc::check(hex == x.hex, "the reference itself is wrong");
  compare(9, std::strlen(x.text), {}, reference(x.text), x.text);
  mc::state(x.text);
}
// every length, cut once at every place
SCENARIO(every_length)
{
  int n = mc::choose(mc::tier(270, 700)), pattern = mc::choose(4);
  auto s = content(pattern, n); auto want = reference(s);
  mc::state(mc::str(n, " ", pattern));
  compare(pattern, n, {}, want, s);
  for (int i = 0; i <= n; i++) compare(pattern, n, {std::size_t(i)}, want, s);
}
// cut into equal pieces, and twice at every pair of places
SCENARIO(every_cut)
{
  static std::vector<int> const some{0, 1, 3, 55, 56, 63, 64, 65, 119, 120, 127, 128, 129, 192}, more{2, 54, 57, 62, 66, 118, 121, 126, 130, 183, 184, 191, 193, 200, 256};
  auto lengths = some;
  if (mc::thorough()) lengths.insert(lengths.end(), more.begin(), more.end());
  int n = mc::pick(lengths), pattern = 2;
  auto s = content(pattern, n); auto want = reference(s);
  mc::state(mc::str(n));
  for (int k = 1; k <= n; k++)
  { std::vector<std::size_t> cuts; for (int i = k; i < n; i += k) cuts.push_back(i); compare(pattern, n, cuts, want, s); }
  int first = n ? mc::choose(n + 1) : 0;
  for (int second = first; second <= n; second++) compare(pattern, n, {std::size_t(first), std::size_t(second)}, want, s);
}
