// mc-flags: -lpthread
// both ends are endpoints of nbdl: whatever one does, the other sees
#include "ws.hpp"
#include <boost/hana.hpp>
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include <nbdl/endpoint_send_close.hpp>
#include <nbdl/endpoint_send_message.hpp>
#include <nbdl/websocket/client_endpoint.hpp>
#include <nbdl/websocket/server_endpoint.hpp>
#include <functional>
#include <memory>
#include <queue>

namespace hana = boost::hana;
namespace event = nbdl::websocket::event;
using ws::bytes;

namespace
{
  struct side
  {
    int ready = 0, closes = 0, bad = 0, errors = 0, after_stop = 0;
    bool stopped = false, closed = false;
    std::vector<bytes> sent, got;
    std::function<void(bytes)> send;
    std::function<void()> close, stop, drop;
    std::function<void()> on_message;
    std::weak_ptr<int> token;
    void heard() { if (stopped) after_stop++; }
    std::string sum() const { return mc::str("sent ", sent.size(), " got ", got.size(), " ready ", ready, " closes ", closes, " bad ", bad, " errors ", errors, closed ? " closed" : "", stopped ? " stopped" : ""); }
  };
  template <typename Ready> auto handler(side& s, Ready ready)
  {
    auto tok = std::make_shared<int>(1);
    s.token = tok;
    return nbdl::endpoint_handler(
        event::on_ready = ready
      , event::on_message = [&s, tok](auto&, auto const& m) { s.heard(); s.got.push_back(m); if (s.on_message) s.on_message(); }
      , event::on_close = [&s](auto&&...) { s.heard(); s.closes++; }
      , event::on_bad_request = [&s](auto&&...) { s.heard(); s.bad++; }
      , event::on<std::error_code> = [&s](auto&&...) { s.heard(); s.errors++; });
  }
  template <typename P> void attach(side& s, P p)
  {
    auto w = std::weak_ptr(p);
    auto hold = std::make_shared<P>(std::move(p));
    s.send = [&s, w](bytes m) { if (auto q = w.lock()) { s.sent.push_back(m); nbdl::endpoint_send_message(*q, m); } };
    s.close = [&s, w] { if (auto q = w.lock()) { s.closed = true; nbdl::endpoint_send_close(*q); } };
    s.stop = [&s, w] { if (auto q = w.lock()) { s.stopped = true; q->stop(); } };
    s.drop = [hold] { hold->reset(); };
  }
  struct conversation
  {
    ws::asio::io_context io;
    ws::pair p;
    side c, s;
    std::unique_ptr<ws::tcp::socket> cs;
    conversation(bool small)
    {
      if (small) { int n = 1; ::setsockopt(p.a, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); ::setsockopt(p.b, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); }
      cs = std::make_unique<ws::tcp::socket>(io, ws::tcp::v4(), p.b);
      attach(s, nbdl::endpoint_open(nbdl::websocket::server_endpoint{ws::tcp::socket(io, ws::tcp::v4(), p.a)}, std::queue<bytes>{}
        , handler(s, [this](auto& self, nbdl::auth_token_t const& t) { s.ready++; mc::check(t.value == "tok", "token lost"); self.start_messaging(); })));
      attach(c, nbdl::endpoint_open(nbdl::websocket::client_endpoint{*cs, nbdl::auth_token_t{"tok"}, nbdl::websocket::origin_t{"o"}}, std::queue<bytes>{}
        , handler(c, [this](auto& self) { c.ready++; self.start_messaging(); })));
    }
    void drain() { for (int i = 0; i < 500; i++) { io.restart(); if (!io.poll()) break; } }
    void end()
    {
      drain();
      mc::note("client " + c.sum() + ", server " + s.sum());
      std::string sum = "client " + c.sum() + ", server " + s.sum();
      mc::state(sum);
      bool quiet = !c.closed && !s.closed, healthy = !c.stopped && !s.stopped;
      auto one = [&](side& a, side& b, char const* name)
      {
        if (!mc::check(b.got.size() <= a.sent.size(), mc::str("more messages came from the ", name, " than it sent (", sum, ")"))) return;
        for (std::size_t i = 0; i < b.got.size(); i++)
          if (!mc::check(b.got[i] == a.sent[i], mc::str("message ", i, " of the ", name, " arrived as ", mc::show(b.got[i], 30), " (", sum, ")"))) return;
        if (healthy && quiet) mc::check(b.got.size() == a.sent.size(), mc::str("messages of the ", name, " were lost (", sum, ")"));
        mc::check(a.closes <= 1, mc::str("the ", name, " was told ", a.closes, " times of the close (", sum, ")"));
        if (healthy) mc::check(a.closes == (quiet ? 0 : 1), mc::str("the ", name, " was told ", a.closes, " times of the close (", sum, ")"));
        if (healthy) mc::check(a.ready == 1 && !a.errors, mc::str("a healthy conversation: ", sum));
        mc::check(!a.bad, mc::str("the ", name, " did not understand the other (", sum, ")"));
        mc::check(!a.after_stop, mc::str("the ", name, " was called after stop (", sum, ")"));
        if (a.stopped && b.ready && !b.stopped && quiet) mc::check(b.errors >= 1 && b.closes == 0, mc::str("the end of the ", name, " was not reported (", sum, ")"));
      };
      one(c, s, "client"); one(s, c, "server");
      c.stop(); s.stop(); drain();
      c.drop(); s.drop(); drain();
      mc::check(c.token.expired() && s.token.expired(), mc::str("an endpoint was leaked (", sum, ")"));
    }
  };
}

// every history of both sides; the event loop runs to rest, one handler, or not at all after each
SCENARIO(both_sides)
{
  conversation w(mc::flip());
  bool early = mc::flip();       // before the handshake as well
  if (!early) w.drain();
  int depth = mc::tier(4, 6);
  bool step = mc::flip();
  for (int i = 0; i < depth && !mc::failed(); i++)
  {
    int op = mc::choose(8);
    if (op == 0) break;
    mc::step();
    static char const* const names[] = {"", "poll", "client sends", "server sends", "client closes", "server closes", "client stops", "server stops"};
    mc::note(names[op]);
    side& a = op % 2 ? w.s : w.c;
    switch (op)
    {
      case 1: w.io.restart(); if (step) w.io.poll_one(); else w.drain(); break;
      case 2: case 3: a.send(i % 2 ? mc::str("m", i) : ws::pattern(125 * 12 + i, i)); break;
      case 4: case 5: a.close(); break;
      default: a.stop();
    }
    if (!step) { w.io.restart(); w.io.poll(); }
  }
  w.end();
}

// handlers that answer each other a number of times, then one of them ends it
SCENARIO(answers)
{
  conversation w(mc::flip());
  int n = mc::pick(std::vector<int>{1, 2, 3, 10, 100}), end = mc::choose(5), size = mc::pick(std::vector<int>{0, 1, 124, 125, 126, 250, 300});
  int left = n;
  auto m = [&](int i) { return ws::pattern(size, i); };
  w.s.on_message = [&] { if (left-- > 0) w.s.send(m(left)); else if (end == 1) w.s.close(); else if (end == 2) w.s.stop(); };
  w.c.on_message = [&] { if (left-- > 0) w.c.send(m(left)); else if (end == 1) w.s.close(); else if (end == 2) w.s.stop(); else if (end == 3) w.c.close(); else if (end == 4) w.c.stop(); };
  w.c.send("begin");
  w.drain();
  mc::step(n);
  if (end == 0 || !(w.s.closed || w.s.stopped || w.c.closed || w.c.stopped)) mc::check(int(w.s.got.size() + w.c.got.size()) == n + 1, mc::str("the answers ended early: ", w.s.sum()));
  w.end();
}
