// mc-flags: -lpthread
#include "ws.hpp"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/detail/message_sender.hpp>

namespace hana = boost::hana;
namespace wsd = nbdl::websocket::detail;
using ws::bytes;

namespace
{
  struct outcome { int resolved = 0, rejected = 0; std::error_code err; std::size_t at_resolve = 0; };

  template <typename Sender>
  struct resolver_t
  {
    outcome* o; Sender* sender; ws::raw* peer; bytes* wire;
    void resolve(Sender& s)
    {
      o->resolved++;
      mc::check(&s == sender, "resolved with something other than the sender");
      *wire += peer->get();
      o->at_resolve = wire->size();
    }
    void reject(std::error_code e) { o->rejected++; o->err = e; }
  };

  // run one message through a real sender on a real socket; returns raw bytes
  template <std::size_t Max, typename Send>
  bytes send_one(bytes const& payload, Send const& send, outcome& o, int hook_mode, bytes* before = nullptr)
  {
    ws::asio::io_context io;
    ws::pair p;
    ws::tcp::socket sock(io, ws::tcp::v4(), p.a);
    ws::raw peer(p.b);
    wsd::message_sender<bytes, hana::size_t<Max>> sender(sock);
    sender.payload() = payload;
    bytes wire;

    int budget = 3;           // partial writes decided by the explorer
    int calls = 0;
    if (hook_mode)
      ws::send_hook = [&](int, std::size_t want) -> long {
        calls++;
        if (budget > 0 && want > 0)
        {
          if (hook_mode == 1)
          {
            // full, 1 byte, half, all but one
            budget--;
            int c = want > 1 ? mc::choose(want > 3 ? 4 : 2) : 0;
            return c == 0 ? long(want) : c == 1 ? 1 : c == 2 ? long(want / 2) : long(want - 1);
          }
          else
          {
            // partial write and then fail, or fail now
            int c = mc::choose(3);
            budget--;
            if (c == 1) { budget = 0; return -ECONNRESET; }
            if (c == 2) return want > 1 ? long(want / 2) : long(want);
          }
        }
        return long(want);
      };

    resolver_t<decltype(sender)> resolver{&o, &sender, &peer, &wire};
    send(resolver, sender);
    int guard = 0;
    while (io.poll_one() && ++guard < 1000000) { wire += peer.get(); }
    ws::send_hook = nullptr;
    wire += peer.get();
    // keep polling for anything scheduled late
    io.restart();
    io.poll();
    wire += peer.get();
    return wire;
  }

  template <std::size_t Max, typename Send>
  void verify(bytes const& payload, Send const& send, int opcode, int hook_mode)
  {
    outcome o;
    bytes wire = send_one<Max>(payload, send, o, hook_mode);
    mc::step();
    mc::note(mc::str("opcode ", opcode, " length ", payload.size(), " frame limit ", Max, " wire ", wire.size(), " bytes"));
    if (o.rejected && !o.resolved)
    {
      mc::check(o.rejected == 1, "rejected more than once");
      mc::check(hook_mode == 2, mc::str("send rejected without a socket error: ", o.err.message()));
      mc::check(bool(o.err), "rejected with no error");
      mc::state(mc::str("reject ", wire.size()));
      return;
    }
    if (!mc::check(o.resolved == 1 && o.rejected == 0,
          mc::str("send of ", payload.size(), " bytes resolved ", o.resolved, " times and rejected ", o.rejected))) return;
    if (!mc::check(o.at_resolve == wire.size(), "resolved before the message was completely written")) return;
    std::vector<ws::message> out;
    bytes err = ws::decode_stream(wire, out, Max);
    if (!mc::check(err.empty(), mc::str("message of ", payload.size(), " bytes: ", err))) return;
    if (!mc::check(out.size() == 1, mc::str("one message sent, peer decodes ", out.size()))) return;
    mc::check(out[0].opcode == opcode, mc::str("opcode ", out[0].opcode, " sent for ", opcode));
    mc::check(out[0].payload == payload, mc::str("payload of ", payload.size(), " bytes altered on the wire"));
    std::string_view v = wire; ws::frame f; bool m; std::string shape;
    while (ws::decode(v, f, m)) shape += mc::str(f.payload.size(), f.fin ? "F" : "", ",");
    mc::state(shape);
  }

  template <std::size_t Max>
  void by_opcode(bytes const& payload, int which, int hook)
  {
    if constexpr(Max == 125 || Max == 4)
    {
      if (which == 0) return verify<Max>(payload, wsd::send_text, 1, hook);
    }
    if constexpr(Max == 125)
    {
      if (which == 2) return verify<Max>(payload, wsd::send_close, 8, hook);
      if (which == 3) return verify<Max>(payload, wsd::send_ping, 9, hook);
      if (which == 4) return verify<Max>(payload, wsd::send_pong, 10, hook);
    }
    verify<Max>(payload, wsd::send_binary, 2, hook);
  }
}

// every payload length up to the bound with the default frame size
SCENARIO(every_length)
{
  int len = mc::choose(mc::tier(640, 4100));
  by_opcode<125>(ws::pattern(len, len), mc::choose(2), 0);
}

// all byte values, in every position modulo the frame size
SCENARIO(every_byte_value)
{
  int v = mc::choose(256);
  bytes p(mc::pick(std::vector<int>{1, 2, 125, 126, 251}), char(v));
  by_opcode<125>(p, 1, 0);
}

// control messages of every legal size
SCENARIO(control_messages)
{
  by_opcode<125>(ws::pattern(mc::choose(125), 3), 2 + mc::choose(3), 0);
}

// frame size limits around each length encoding, lengths around each multiple
SCENARIO(frame_limits)
{
  int which = mc::choose(9);
  auto around = [](long m) {
    std::vector<long> r;
    for (long k = 0; k <= 3; k++) for (long d = -2; d <= 2; d++) if (k * m + d >= 0) r.push_back(k * m + d);
    return r[mc::choose(int(r.size()))];
  };
  switch (which)
  {
    case 0: by_opcode<1>(ws::pattern(mc::choose(12), 5), mc::choose(2), 0); break;
    case 1: by_opcode<2>(ws::pattern(mc::choose(12), 5), 0, 0); break;
    case 2: by_opcode<3>(ws::pattern(mc::choose(12), 5), 0, 0); break;
    case 3: by_opcode<126>(ws::pattern(around(126), 5), 0, 0); break;
    case 4: by_opcode<127>(ws::pattern(around(127), 5), 0, 0); break;
    case 5: by_opcode<300>(ws::pattern(around(300), 5), 1, 0); break;
    case 6: by_opcode<65535>(ws::pattern(around(65535), 5), 0, 0); break;
    case 7: by_opcode<65536>(ws::pattern(around(65536), 5), 0, 0); break;
    case 8: by_opcode<200000>(ws::pattern(mc::pick(std::vector<long>{0, 125, 126, 255, 256, 511, 512, 32767, 32768, 65534, 65535, 65536, 65537,
                                                                    131072, 199999, 200000, 200001}), 5), 1, 0); break;
  }
}

// large messages with the default frame size, around the multiples of 125
SCENARIO(large_messages)
{
  long base = mc::pick(std::vector<long>{1000, 12500, 32750, 65500, 65536, 65625});
  by_opcode<125>(ws::pattern(base - 1 + mc::choose(3), 9), 1, 0);
}

// partial writes at every system call
SCENARIO(partial_writes)
{
  by_opcode<4>(ws::pattern(mc::choose(14), 1), mc::choose(2), 1);
}

// the socket fails at any write
SCENARIO(write_errors)
{
  by_opcode<4>(ws::pattern(mc::choose(14), 1), mc::choose(2), 2);
}

// one sender object used for every sequence of up to three messages
SCENARIO(message_sequences)
{
  ws::asio::io_context io;
  ws::pair p;
  ws::tcp::socket sock(io, ws::tcp::v4(), p.a);
  ws::raw peer(p.b);
  wsd::message_sender<bytes, hana::size_t<3>> sender(sock);
  std::vector<ws::message> sent;
  int n = mc::tier(3, 4);
  for (int i = 0; i < n; i++)
  {
    int op = mc::choose(3), len = mc::choose(8);
    if (op == 2 && len > 3) len = 3;
    int resolved = 0;
    sender.payload() = ws::pattern(len, i);
    sent.push_back({op == 0 ? 1 : op == 1 ? 2 : 9, sender.payload()});
    nbdl::run_async(hana::make_tuple(
      nbdl::promise([&](auto& r)
      {
        if (op == 0) wsd::send_text(r, sender);
        else if (op == 1) wsd::send_binary(r, sender);
        else wsd::send_ping(r, sender);
      })
    , [&](auto&) { resolved++; }
    , nbdl::catch_([&](std::error_code) { resolved += 100; })
    ));
    io.restart(); io.poll();
    mc::step();
    if (!mc::check(resolved == 1, "message not resolved exactly once")) return;
  }
  std::vector<ws::message> got;
  bytes err = ws::decode_stream(peer.get(), got, 125);
  std::string d; for (auto& m : sent) d += mc::str(m.opcode, ":", m.payload.size(), " ");
  mc::note(d); mc::state(d);
  if (!mc::check(err.empty(), mc::str("sequence ", d, ": ", err))) return;
  bool same = got.size() == sent.size();
  for (std::size_t i = 0; same && i < got.size(); i++) same = got[i].opcode == sent[i].opcode && got[i].payload == sent[i].payload;
  mc::check(same, mc::str("sequence ", d, " arrived as ", got.size(), " messages"));
}

// one sender used for hundreds of messages of changing sizes
SCENARIO(many_messages)
{
  ws::asio::io_context io;
  ws::pair p;
  ws::tcp::socket sock(io, ws::tcp::v4(), p.a);
  ws::raw peer(p.b);
  wsd::message_sender<bytes, hana::size_t<125>> sender(sock);
  std::vector<ws::message> sent;
  int n = mc::pick(std::vector<int>{50, 257, 1000}), rhythm = mc::choose(5), top = mc::pick(std::vector<int>{10, 126, 700, 5000});
  bytes all; int chunks = 0;
  // each message is cut in another way by the system
  bool cut = mc::flip();
  if (cut) ws::send_hook = [&](int, std::size_t want) -> long { chunks++; return chunks % 3 == 0 && want > 1 ? long(want / 2) : long(want); };
  for (int i = 0; i < n && !mc::failed(); i++)
  {
    int op = rhythm == 4 ? (i * 5 + 1) % 3 : rhythm % 3, len = int((i * 2654435761u >> 7) % (top + 1));
    if (op == 2 && len > 125) len %= 126;
    int resolved = 0;
    sender.payload() = ws::pattern(len, i);
    sent.push_back({op == 0 ? 1 : op == 1 ? 2 : 9, sender.payload()});
    nbdl::run_async(hana::make_tuple(
      nbdl::promise([&](auto& r) { if (op == 0) wsd::send_text(r, sender); else if (op == 1) wsd::send_binary(r, sender); else wsd::send_ping(r, sender); })
    , [&](auto&) { resolved++; }
    , nbdl::catch_([&](std::error_code) { resolved += 100; })));
    for (int k = 0; k < 1000 && !resolved; k++) { io.restart(); io.poll(); all += peer.get(); }
    all += peer.get();
    mc::step();
    mc::check(resolved == 1, mc::str("message ", i, " of ", len, " bytes resolved ", resolved, " times"));
  }
  ws::send_hook = nullptr;
  std::vector<ws::message> got;
  bytes err = ws::decode_stream(all, got, 125);
  if (!mc::check(err.empty(), err)) return;
  mc::check(got.size() == sent.size(), mc::str(sent.size(), " messages arrive as ", got.size()));
  for (std::size_t i = 0; i < std::min(got.size(), sent.size()); i++)
    if (got[i].opcode != sent[i].opcode || got[i].payload != sent[i].payload) { mc::fail(mc::str("message ", i, " of ", sent[i].payload.size(), " bytes arrives as another")); break; }
  mc::state(mc::str(n, ".", rhythm, ".", top)); mc::eval();
}
