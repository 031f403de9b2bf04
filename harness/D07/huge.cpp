// mc-flags: -O2 -fno-sanitize=all
// more bits than fit into 32 bits, and more bytes; the digests were made with another implementation (Python's hashlib)
#include "mc.hpp"
#include <nbdl/detail/beast_sha1.hpp>
namespace
{
  void huge(std::size_t n, std::string const& want, std::size_t piece)
  {
    namespace sha1 = nbdl::detail::beast_sha1;
    std::string s(piece, 'n');
    sha1::sha1_context c;
    std::memset(&c, 0x5A, sizeof c);
    sha1::init(c);
    for (std::size_t left = n; left; ) { auto k = std::min(left, piece); sha1::update(c, s.data(), k); left -= k; }
    unsigned char out[20];
    sha1::finish(c, out);
    std::string hex; char b[4];
    for (unsigned char x : out) { std::snprintf(b, sizeof b, "%02x", x); hex += b; }
    mc::check(hex == want, mc::str("SHA-1 of ", n, " bytes in pieces of ", piece, " is ", hex, " instead of ", want));
    mc::state(mc::str(n, " ", piece)); mc::step(); mc::eval();
  }
}
SCENARIO(half_a_gigabyte)
{
  int k = mc::choose(3);
  char const* const want[] = {"718c2135f61c2b9e78d3420c4ea5ab7d89776c40", "6c7459a169478a04b63d49b30629ac2d7255d122", "3622bae2a4b2298659b7f4fe58350ab2c173bd33"};
  huge((std::size_t(1) << 29) - 1 + k, want[k], k == 1 ? 1000001 : std::size_t(1) << 29);
}
SCENARIO_T(four_gigabytes, 2)
{
  huge((std::size_t(1) << 32) + 63, "c8c5cc30bc0815475f613aa18df5c6db5408e2e5", mc::choose(2) ? 12345677 : std::size_t(1) << 20);
}
