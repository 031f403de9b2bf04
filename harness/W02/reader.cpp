// mc-flags: -lpthread
#include "ws.hpp"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/detail/message_reader.hpp>
#include <memory>

namespace hana = boost::hana;
namespace wsd = nbdl::websocket::detail;
namespace re = nbdl::websocket::detail::read_event;
using ws::bytes;
using ws::frame;

namespace
{
  struct event { char kind; bytes data; };   // M C P O B E
  bool operator==(event const& a, event const& b) { return a.kind == b.kind && a.data == b.data; }
  std::string show(std::vector<event> const& v)
  {
    std::string s;
    for (auto& e : v) s += mc::str(e.kind, e.data.empty() ? std::string() : mc::show(e.data, 24), " ");
    return s;
  }

  // What RFC 6455 says a receiver must see for this byte stream.  `closed`:
  // the peer shuts the connection down after the last byte.
  std::vector<event> reference(std::string_view s, bool closed)
  {
    std::vector<event> out; bytes msg;
    for (;;)
    {
      if (s.size() >= 2)
      {
        int op = s[0] & 15;
        auto before = s; frame f; bool m;
        // a reserved opcode, or a length nothing can hold, is refused
        bool complete = ws::decode(s, f, m);
        if (!complete)
        {
          s = before;
          break;
        }
        if (op >= 8 && op <= 10 && (f.payload.size() > 125 || !f.fin)) { out.push_back({'B', ""}); return out; }
        if (op == 8) { out.push_back({'C', f.payload}); return out; }
        if (op == 9) { out.push_back({'P', ""}); continue; }
        if (op == 10) { out.push_back({'O', ""}); continue; }
        if (op > 2) { out.push_back({'B', ""}); return out; }
        msg += f.payload;
        if (f.fin) { out.push_back({'M', msg}); msg.clear(); }
        continue;
      }
      break;
    }
    if (closed) out.push_back({'E', ""});
    return out;
  }

  struct result { std::vector<event> events; bool released = false; int err_kind = 0; };

  // Feed the byte stream in the given chunks, running the reader until it is
  // blocked between chunks.
  result run(std::vector<bytes> const& chunks, bool closed)
  {
    result r;
    ws::asio::io_context io;
    ws::pair p;
    {
      ws::tcp::socket sock(io, ws::tcp::v4(), p.a);
      ws::raw peer(p.b);
      auto put = [&](char kind) {
        return [&r, kind](auto, auto const& ctx) {
          r.events.push_back({kind, kind == 'M' || kind == 'C' ? bytes(ctx.payload.begin(), ctx.payload.end()) : bytes()});
        };
      };
      auto reader = wsd::make_message_reader(
        hana::type_c<bytes>, sock,
        hana::make_map(
          hana::make_pair(re::message, put('M')), hana::make_pair(re::close, put('C')),
          hana::make_pair(re::ping, put('P')), hana::make_pair(re::pong, put('O')),
          hana::make_pair(re::bad_input, put('B')),
          hana::make_pair(hana::type_c<std::error_code>, put('E'))));
      auto token = std::make_shared<int>(1);
      std::weak_ptr<int> alive = token;
      reader.keep_reading(std::move(token));
      for (auto& c : chunks)
      {
        peer.put(c);
        io.restart(); io.poll();
      }
      if (closed) { peer.close(); io.restart(); io.poll(); }
      r.released = alive.expired();
      bool over = !r.events.empty() && (r.events.back().kind == 'C' || r.events.back().kind == 'B' || r.events.back().kind == 'E');
      if (over) mc::check(r.released, "reader ended but still holds the connection alive");
      else mc::check(!r.released, "reader stopped reading without reporting an event");
      if (!over)
      {
        // tear down: the pending read must be cancelled cleanly
        boost::system::error_code ec;
        sock.close(ec);
        io.restart(); io.poll();
        mc::check(alive.expired(), "cancelled reader still holds the connection alive");
        if (!r.events.empty() && r.events.back().kind == 'E') r.events.pop_back();
        else mc::fail("cancelled read not reported");
      }
    }
    return r;
  }

  void compare(bytes const& stream, std::vector<bytes> const& chunks, bool closed)
  {
    auto want = reference(stream, closed);
    auto got = run(chunks, closed);
    mc::step(chunks.size());
    std::string sizes; for (auto& c : chunks) sizes += mc::str(c.size(), "+");
    mc::note(mc::str("stream ", mc::show(stream, 40), " chunks ", sizes, closed ? "eof" : ""));
    mc::state(show(want));
    mc::check(got.events == want, mc::str("delivered ", show(got.events), " expected ", show(want)));
  }

  frame make(bool fin, int op, bytes p, int mask)
  {
    frame f; f.fin = fin; f.opcode = op; f.payload = std::move(p);
    static const unsigned char keys[3][4] = {{0x37, 0xfa, 0x21, 0x3d}, {0x01, 0x80, 0xff, 0x00}, {0, 0, 0, 0}};
    if (mask) { f.masked = true; std::memcpy(f.key, keys[mask - 1], 4); }
    return f;
  }

  // every way to cut into at most `cuts`+1 chunks
  std::vector<bytes> cut(bytes const& s, int cuts)
  {
    std::vector<bytes> out; std::size_t at = 0;
    for (int i = 0; i < cuts && at < s.size(); i++)
    {
      std::size_t n = mc::choose(int(s.size() - at) + 1);
      if (n == 0) break;
      out.push_back(s.substr(at, n)); at += n;
    }
    if (at < s.size()) out.push_back(s.substr(at));
    return out;
  }
  std::vector<bytes> whole(bytes const& s) { return {s}; }
  std::vector<bytes> single(bytes const& s) { std::vector<bytes> v; for (char c : s) v.push_back(bytes(1, c)); return v; }
}

// one frame, every payload length up to the bound, masked and not
SCENARIO(every_length)
{
  int len = mc::choose(mc::tier(300, 1200));
  int mask = mc::choose(3), op = 1 + mc::choose(2), form = mc::choose(3);
  frame f = make(true, op, ws::pattern(len, len), mask);
  f.len_form = form;
  bytes s = ws::encode(f) + ws::encode(make(true, 1, "after", mask));
  compare(s, whole(s), false);
}

// both sides of every length encoding boundary
SCENARIO(large_lengths)
{
  static const std::vector<long> lens = {125, 126, 127, 128, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
  long len = mc::pick(lens);
  int mask = mc::choose(2);
  frame f = make(true, 2, ws::pattern(len, 3), mask);
  f.len_form = mc::choose(3);
  bytes s = ws::encode(f) + ws::encode(make(true, 1, "after", mask));
  // cut somewhere inside the header or at the end of the payload
  std::vector<bytes> c;
  int at = mc::choose(18);
  if (at >= 16) at = int(s.size()) - (at == 16 ? 1 : 9);
  if (at) { c.push_back(s.substr(0, at)); c.push_back(s.substr(at)); } else c.push_back(s);
  if (s.size() > 200000)
  {
    // stay below the socket buffer
    std::vector<bytes> d;
    for (auto& x : c) for (std::size_t i = 0; i < x.size(); i += 100000) d.push_back(x.substr(i, 100000));
    c = d;
  }
  compare(s, c, false);
}

// lengths that cannot be held: reported as bad input, never a crash, never an
// allocation of a wrapped size
SCENARIO(impossible_lengths)
{
  static const std::vector<uint64_t> lens = {0x80000000ull, 0xffffffffull, 0x100000000ull, 0x1000000000ull, 0x7fffffffffffffffull,
                                            0x7fffffffull, 0x7ffffffeull, 0x7ffffff0ull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffffffeull, 0x00ff000000000000ull};
  uint64_t n = mc::pick(lens);
  int mask = mc::choose(2), op = std::vector<int>{1, 2, 0, 8, 9, 10}[mc::choose(6)];
  bool begun = mc::flip();
  if (n < 0x80000000ull) { op = 0; begun = true; }     // too long together with what has arrived of the message
  bytes s = begun ? ws::encode(make(false, 1, n == 0x7ffffff0ull ? bytes(16, 'b') : bytes("begin"), mask)) : bytes();
  s += char(0x80 | op); s += char((mask ? 0x80 : 0) | 127);
  for (int i = 7; i >= 0; i--) s += char(n >> (8 * i));
  if (mask) s += "\x01\x02\x03\x04";
  s += "tail";
  auto got = run(whole(s), false);
  mc::step();
  mc::note(mc::str("opcode ", op, " declared length ", n));
  mc::state(mc::str(n, op, mask));
  mc::check(got.events == std::vector<event>{{'B', ""}}, mc::str("delivered ", show(got.events), " for a declared length of ", n));
}

// control frames of every length and some more, whole or not, within a message or not
SCENARIO(control_lengths)
{
  int op = 8 + mc::choose(3), len = mc::choose(140), mask = mc::choose(3);
  bool fin = mc::flip(), inside = mc::flip();
  bytes s;
  if (inside) s += ws::encode(make(false, 1, "be", mask));
  s += ws::encode(make(fin, op, ws::pattern(len, len), mask));
  s += inside ? ws::encode(make(true, 0, "gin", mask)) : ws::encode(make(true, 1, "next", mask));
  compare(s, mc::flip() ? whole(s) : std::vector<bytes>{s.substr(0, 3), s.substr(3)}, false);
}

// every sequence of frames up to the depth: data frames, continuations,
// control frames with and without payload, masked or not, in one chunk
SCENARIO(frame_sequences)
{
  int depth = mc::tier(4, 5);
  bytes s; int n = 1 + mc::choose(depth);
  bool open = false;
  for (int i = 0; i < n; i++)
  {
    int k = mc::choose(9);
    int mask = (i & 1) ? 0 : 1 + (i / 2) % 2;
    if (k >= 7) mask = mask ? 0 : 2;
    switch (k)
    {
      case 0: s += ws::encode(make(true, open ? 0 : 1, mc::str("full", i), mask)); open = false; break;
      case 1: s += ws::encode(make(false, open ? 0 : 2, mc::str("part", i, "x"), mask)); open = true; break;
      case 2: s += ws::encode(make(false, open ? 0 : 1, "", mask)); open = true; break;
      case 3: s += ws::encode(make(true, 9, mc::str("ping", i), mask)); break;
      case 4: s += ws::encode(make(true, 10, "", mask)); break;
      case 5: s += ws::encode(make(true, 8, mc::flip() ? "\x03\xe8" : "", mask)); i = n; break;
      case 6: s += ws::encode(make(true, 3 + 8 * mc::choose(2), "z", mask)); i = n; break;
      case 7: s += ws::encode(make(true, open ? 0 : 2, "", mask)); open = false; break;
      case 8: s += ws::encode(make(true, 9, "", mask)); s += ws::encode(make(true, 10, "po", mask)); break;
    }
  }
  compare(s, whole(s), mc::flip());
}

// fragmented message, every mask combination per fragment, every fragment size
SCENARIO(masked_fragments)
{
  int n = 1 + mc::choose(mc::tier(3, 4));
  bytes s;
  bool ctl = mc::flip();
  for (int i = 0; i < n; i++)
  {
    if (ctl && i) s += ws::encode(make(true, 9, mc::str("p", i, i, i), 1));
    s += ws::encode(make(i == n - 1, i ? 0 : 1, ws::pattern(mc::choose(7), i), mc::choose(3)));
  }
  s += ws::encode(make(true, 2, "next", 1));
  compare(s, whole(s), false);
}

// every opcode nibble, with and without FIN and mask
SCENARIO(every_first_byte)
{
  int b0 = mc::choose(256); int mask = mc::choose(2); int len = mc::choose(4);
  if (b0 & 0x70) { /* reserved bits: opcode dispatch must not change */ }
  frame f; f.fin = b0 >> 7; f.rsv = (b0 >> 4) & 7; f.opcode = b0 & 15; f.payload = ws::pattern(len, 1);
  if (mask) { f.masked = true; f.key[0] = 9; f.key[1] = 8; f.key[2] = 7; f.key[3] = 200; }
  if (f.rsv) return;    // extensions are not negotiated; meaning of reserved bits is left open
  bytes s = ws::encode(f) + ws::encode(make(true, 1, "tail", mask));
  compare(s, whole(s), true);
}

// every chunking (all compositions) of short streams
SCENARIO(every_chunking)
{
  int which = mc::choose(6); bytes s;
  switch (which)
  {
    case 0: s = ws::encode(make(true, 1, "hey", 1)); break;
    case 1: s = ws::encode(make(false, 1, "ab", 0)) + ws::encode(make(true, 0, "c", 0)); break;
    case 2: s = ws::encode(make(true, 9, "pi", 0)) + ws::encode(make(true, 1, "ok", 0)); break;
    case 3: s = ws::encode(make(true, 8, "\x03\xe8", 1)); break;
    case 4: { frame f = make(true, 1, "four", 0); f.len_form = 1; s = ws::encode(f); } break;
    case 5: s = ws::encode(make(false, 2, "q", 2)) + ws::encode(make(true, 10, "", 0)); break;
  }
  std::vector<bytes> c; bytes cur;
  for (std::size_t i = 0; i < s.size(); i++)
  {
    cur += s[i];
    if (i + 1 == s.size() || mc::flip()) { c.push_back(cur); cur.clear(); }
  }
  compare(s, c, mc::flip());
}

// longer streams, every pair of cut points, or a byte at a time
SCENARIO(chunked_conversations)
{
  bytes s;
  switch (mc::choose(3))
  {
    case 0:
      s = ws::encode(make(true, 1, "Hello", 1)) + ws::encode(make(false, 2, "wor", 2)) + ws::encode(make(true, 9, "hb", 1))
        + ws::encode(make(true, 0, "ld", 1)) + ws::encode(make(true, 8, "", 0)); break;
    case 1:
      s = ws::encode(make(true, 10, "x", 0)) + ws::encode(make(true, 2, "", 0)) + ws::encode(make(false, 1, "", 1))
        + ws::encode(make(false, 0, "mm", 0)) + ws::encode(make(true, 0, "", 1)) + ws::encode(make(true, 5, "no", 0)); break;
    case 2:
      s = ws::encode(make(true, 1, ws::pattern(126), 1)); break;
  }
  bool closed = mc::flip();
  if (mc::flip()) compare(s, single(s), closed);
  else if (s.size() > 100)
  {
    int a = 1 + mc::choose(12); compare(s, {s.substr(0, a), s.substr(a)}, closed);
  }
  else compare(s, cut(s, mc::tier(2, 3)), closed);
}

// the connection is lost after every prefix of the stream
SCENARIO(truncated_everywhere)
{
  bytes s;
  switch (mc::choose(3))
  {
    case 0: s = ws::encode(make(true, 1, "Hello", 1)) + ws::encode(make(false, 2, "wor", 2)) + ws::encode(make(true, 0, "ld", 1)); break;
    case 1: s = ws::encode(make(true, 9, "pp", 0)) + ws::encode(make(true, 1, ws::pattern(130), 1)); break;
    case 2: s = ws::encode(make(true, 8, "bye", 1)); break;
  }
  int n = mc::choose(int(s.size()) + 1);
  bytes t = s.substr(0, n);
  compare(t, t.empty() ? std::vector<bytes>{} : mc::flip() ? whole(t) : single(t), true);
}

// many frames: messages of many fragments, long rows of messages and of control frames
SCENARIO(long_conversations)
{
  int kind = mc::choose(5), mask = mc::choose(2);
  int n = mc::pick(std::vector<int>{5, 6, 8, 9, 16, 17, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300});
  int size = mc::pick(std::vector<int>{0, 1, 7, 130});
  bytes s;
  for (int i = 0; i < n; i++)
  {
    bytes p = ws::pattern(size + (size == 7 ? i % 3 : 0), i);
    switch (kind)
    {
      case 0: s += ws::encode(make(i == n - 1, i ? 0 : 1, p, mask)); break;
      case 1: s += ws::encode(make(i == n - 1, i ? 0 : 2, p, mask ? 1 + i % 2 : 0)); if (i % 3 == 0) s += ws::encode(make(true, 9, mc::str("p", i), mask)); break;
      case 2: s += ws::encode(make(true, 1 + i % 2, p, mask)); break;
      case 3: s += ws::encode(make(true, 9 + i % 2, p.substr(0, 125), mask)); break;
      default: s += ws::encode(make(i % 4 == 3, i % 4 ? 0 : 1, p, mask)); if (i % 16 == 2) s += ws::encode(make(true, 10, p.substr(0, 125), mask));
    }
  }
  if (kind == 4 && n % 4) s += ws::encode(make(true, 0, "end", mask));
  s += ws::encode(make(true, 8, "\x03\xe8", mask));
  std::vector<bytes> c;
  int piece = mc::pick(std::vector<int>{100000, 512, 513, 13});
  if (piece == 13 && size == 130) piece = 131;
  for (std::size_t i = 0; i < s.size(); i += piece) c.push_back(s.substr(i, piece));
  compare(s, c, false);
}
