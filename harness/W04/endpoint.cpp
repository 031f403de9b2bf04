// mc-flags: -lpthread
#include "ws.hpp"
#include <boost/hana.hpp>
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include <nbdl/endpoint_send_close.hpp>
#include <nbdl/endpoint_send_message.hpp>
#include <nbdl/websocket/server_endpoint.hpp>
#include <memory>
#include <queue>

namespace hana = boost::hana;
namespace event = nbdl::websocket::event;
using ws::bytes;
using ws::frame;

namespace
{
  constexpr auto request =
    "GET / HTTP/1.1\r\nHost: nbdl\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nCookies: nbdl_auth=tok;\r\n\r\n";

  struct base_session
  {
    virtual ~base_session() { }
    virtual void send(bytes const&) = 0;
    virtual void close() = 0;
    virtual void stop() = 0;
    virtual void start() = 0;
    virtual void drop() = 0;
    virtual bool alive() = 0;
  };

  // what the handler of the endpoint under test does with each event
  enum reaction { nothing, echo, do_close, do_stop, do_drop };

  struct world
  {
    ws::asio::io_context io;
    std::unique_ptr<ws::raw> peer;
    std::unique_ptr<base_session> s;
    // observations
    std::vector<bytes> delivered;
    int ready = 0, closes = 0, bad = 0, errors = 0, after_stop = 0;
    bytes wire;
    // what the environment did
    std::vector<bytes> enqueued, peer_sent;
    std::vector<bytes> pings;
    bool user_closed = false, user_stopped = false, dropped = false;
    bool peer_close = false, peer_gone = false, peer_bad = false, io_fault = false;
    bool started = false;
    bool after_peer_close = false;
    reaction on_message = nothing, on_close = nothing;
    std::weak_ptr<int> token;
    int enq_before_close = -1;

    void handler_called() { if (user_stopped) after_stop++; }
    int sends_after_error = 0;
    void act_send(bytes m) { if (!s) return; if (errors) sends_after_error++; enqueued.push_back(m); s->send(m); }
    void act_close() { if (!s) return; if (errors) sends_after_error++; user_closed = true; s->close(); }
    void act_stop() { if (!s) return; user_stopped = true; s->stop(); }
    void act_drop() { if (!s) return; dropped = true; s->drop(); }
    void react(reaction r, bytes const& m)
    {
      switch (r)
      {
        case nothing: break;
        case echo: act_send(bytes("re:") + m); break;
        case do_close: act_close(); break;
        case do_stop: act_stop(); break;
        case do_drop: act_drop(); break;
      }
    }
    void drain()
    {
      for (int i = 0; i < 200; i++)
      {
        io.restart();
        std::size_t n = io.poll();
        bytes b = peer->fd >= 0 ? peer->get() : bytes();
        wire += b;
        if (!n && b.empty()) break;
      }
    }
  };

  template <typename Ptr>
  struct session : base_session
  {
    Ptr p; // shared_ptr to the endpoint
    std::weak_ptr<typename Ptr::element_type> w;
    session(Ptr x) : p(std::move(x)), w(p) { }
    void send(bytes const& m) override { if (auto q = w.lock()) nbdl::endpoint_send_message(*q, m); }
    void close() override { if (auto q = w.lock()) nbdl::endpoint_send_close(*q); }
    void stop() override { if (auto q = w.lock()) q->stop(); }
    void start() override { if (auto q = w.lock()) q->start_messaging(); }
    void drop() override { p.reset(); }
    bool alive() override { return !w.expired(); }
  };

  // an open, started server endpoint; the peer has read the handshake answer
  std::unique_ptr<world> open(bool small_buffer, bool start_now = true)
  {
    auto wp = std::make_unique<world>();
    world* w = wp.get();
    ws::pair p;
    if (small_buffer) { int n = 1; ::setsockopt(p.a, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); }
    w->peer = std::make_unique<ws::raw>(p.b);
    auto tok = std::make_shared<int>(1);
    w->token = tok;
    auto ep = nbdl::endpoint_open(
      nbdl::websocket::server_endpoint{ws::tcp::socket(w->io, ws::tcp::v4(), p.a)}
    , std::queue<bytes>{}
    , nbdl::endpoint_handler(
        event::on_ready = [w](auto&, nbdl::auth_token_t const& t) { w->ready++; if (t.value != "tok") mc::fail("auth token lost"); }
      , event::on_message = [w](auto&, auto const& m)
        {
          w->handler_called();
          bytes copy = m;
          w->delivered.push_back(copy);
          w->react(w->on_message, copy);
        }
      , event::on_close = [w, tok](auto&&...) { w->handler_called(); w->closes++; w->react(w->on_close, ""); }
      , event::on_bad_request = [w](auto&&...) { w->handler_called(); w->bad++; }
      , event::on<std::error_code> = [w](auto&&...) { w->handler_called(); w->errors++; }
      ));
    tok.reset();
    w->s = std::make_unique<session<decltype(ep)>>(std::move(ep));
    w->peer->put(request);
    w->io.poll();
    bytes answer = w->peer->get();
    if (w->ready != 1 || answer.find("101") == bytes::npos) mc::fail("handshake failed");
    if (start_now) { w->s->start(); w->started = true; }
    return wp;
  }

  bytes client_frame(int op, bytes p, bool fin = true)
  {
    frame f; f.opcode = op; f.payload = p; f.fin = fin; f.masked = true;
    f.key[0] = 1; f.key[1] = 200; f.key[2] = 3; f.key[3] = 77;
    return ws::encode(f);
  }

  // actions of the environment
  enum action { A_SEND, A_SEND_BIG, A_CLOSE, A_STOP, A_DROP, A_PEER_MSG, A_PEER_PING, A_PEER_CLOSE, A_PEER_READ, A_PEER_GONE, A_PEER_BAD, A_PEER_HALF, A_POLL_ONE, A_POLL, A_START };
  char const* const names[] = {"send", "send_big", "send_close", "stop", "drop", "peer:message", "peer:ping", "peer:close", "peer:read", "peer:reset", "peer:bad", "peer:half message", "poll_one", "poll", "start"};

  void perform(world& w, action a, int i)
  {
    mc::step();
    mc::note(names[a]);
    bool peer_open = w.peer->fd >= 0 && !w.peer_close && !w.peer_bad;
    switch (a)
    {
      case A_SEND: w.act_send(mc::str("m", i)); break;
      case A_SEND_BIG: w.act_send(ws::pattern(125 * 30 + i, i)); break;
      case A_CLOSE: w.act_close(); break;
      case A_STOP: w.act_stop(); break;
      case A_DROP: w.act_drop(); break;
      case A_PEER_MSG: if (peer_open) { bytes m = mc::str("p", i); if (w.peer->put(client_frame(1, m))) w.peer_sent.push_back(m); } break;
      case A_PEER_HALF: if (peer_open) {
        bytes m = mc::str("h", i, "+", "t"); 
        w.peer->put(client_frame(1, m.substr(0, 2), false)); w.peer->put(client_frame(9, "mid"));
        w.pings.push_back("mid");
        if (w.peer->put(client_frame(0, m.substr(2)))) w.peer_sent.push_back(m); } break;
      case A_PEER_PING: if (peer_open) { bytes m = i % 3 == 2 ? ws::pattern(125, i) : i % 3 == 1 ? bytes() : mc::str("ping", i); w.peer->put(client_frame(9, m)); w.pings.push_back(m); } break;
      case A_PEER_CLOSE: if (peer_open) { w.peer_close = true; w.peer->put(client_frame(8, "\x03\xe8")); } break;
      case A_PEER_READ: if (w.peer->fd >= 0) w.wire += w.peer->get(); break;
      case A_PEER_GONE: if (w.peer->fd >= 0) { w.wire += w.peer->get(); w.peer_gone = true; w.peer->close(); } break;
      case A_PEER_BAD: if (peer_open) { w.peer_bad = true; w.peer->put(client_frame(5, "??")); } break;
      case A_POLL_ONE: w.io.restart(); w.io.poll_one(); break;
      case A_POLL: w.io.restart(); w.io.poll(); break;
      case A_START: if (w.s && w.s->alive()) { w.s->start(); w.started = true; } break;
    }
  }

  // Invariants that must hold however the environment behaved.
  void verify(world& w)
  {
    // quiescence: the peer reads everything it can
    w.drain();
    bool healthy = !w.user_stopped && !w.peer_gone && !w.io_fault && w.started;

    std::vector<ws::message> got; bool partial = false;
    bytes err = ws::decode_stream(w.wire, got, 125, &partial);
    std::string sum = mc::str("enqueued ", w.enqueued.size(), " wire ", got.size(), " delivered ", w.delivered.size(), " of ", w.peer_sent.size(),
      " closes ", w.closes, " errors ", w.errors, " bad ", w.bad, w.user_closed ? " user_close" : "", w.peer_close ? " peer_close" : "",
      w.user_stopped ? " stopped" : "", w.peer_gone ? " gone" : "", w.dropped ? " dropped" : "");
    mc::state(sum);
    if (!mc::check(err.empty(), mc::str("bytes written are not a valid frame stream: ", err, " (", sum, ")"))) return;
    if (healthy) mc::check(!partial, mc::str("a message was left half written (", sum, ")"));

    // data frames: a prefix of what was enqueued, in order, each once
    std::size_t data = 0, pongs = 0, answered = 0; int close_frames = 0; bool after_close = false; bytes last_pong;
    for (auto& m : got)
    {
      if (close_frames) after_close = true;
      if (m.opcode == 8) close_frames++;
      else if (m.opcode == 10)
      {
        // pongs answer pings, latest payload wins, never invented
        while (answered < w.pings.size() && w.pings[answered] != m.payload) answered++;
        mc::check(answered < w.pings.size(), mc::str("pong with payload ", mc::show(m.payload), " answers no ping, or one before those already answered (", sum, ")"));
        answered++; last_pong = m.payload;
        pongs++;
      }
      else if (m.opcode == 9) mc::fail("endpoint invented a ping");
      else
      {
        if (!mc::check(data < w.enqueued.size(), mc::str("more messages on the wire than were sent (", sum, ")"))) return;
        if (!mc::check(m.payload == w.enqueued[data], mc::str("message ", data, " on the wire is ", mc::show(m.payload, 20), " but ",
             mc::show(w.enqueued[data], 20), " was sent in that position"))) return;
        mc::check(m.opcode == 2, "binary endpoint sent a text message");
        data++;
      }
    }
    mc::check(close_frames <= 1, mc::str("close frame sent ", close_frames, " times (", sum, ")"));
    mc::check(!after_close, mc::str("something was sent after the close frame (", sum, ")"));
    bool closing = w.user_closed || w.peer_close;
    mc::check(closing || close_frames == 0, "close frame sent although nobody closed");
    if (healthy && !w.peer_bad)
    {
      if (!closing) mc::check(data == w.enqueued.size(), mc::str("only ", data, " of ", w.enqueued.size(), " messages reached the peer (", sum, ")"));
      else mc::check(close_frames == 1, mc::str("close was requested but no close frame was sent (", sum, ")"));
      if (!closing && !w.pings.empty()) mc::check(pongs >= 1 && pongs <= w.pings.size(), mc::str("pings answered with ", pongs, " pongs (", sum, ")"));
      if (!closing && !w.pings.empty()) mc::check(last_pong == w.pings.back(), mc::str("the last ping ", mc::show(w.pings.back()), " was not answered but ", mc::show(last_pong), " (", sum, ")"));
    }

    // messages from the peer: in order, exactly once
    if (!mc::check(w.delivered.size() <= w.peer_sent.size(), mc::str("delivered more messages than were received (", sum, ")"))) return;
    for (std::size_t i = 0; i < w.delivered.size(); i++)
      if (!mc::check(w.delivered[i] == w.peer_sent[i], mc::str("message ", i, " delivered as ", mc::show(w.delivered[i]), " instead of ", mc::show(w.peer_sent[i])))) return;
    if (w.started && !w.user_stopped && !w.io_fault)
      mc::check(w.delivered.size() == w.peer_sent.size(), mc::str("delivered ", w.delivered.size(), " of ", w.peer_sent.size(), " messages (", sum, ")"));

    // events
    mc::check(w.after_stop == 0, "handler called after stop()");
    mc::check(w.closes <= 1, mc::str("close event reported ", w.closes, " times (", sum, ")"));
    if (healthy && w.peer_close) mc::check(w.closes == 1, mc::str("closing handshake complete but the close event was reported ", w.closes, " times (", sum, ")"));
    if (healthy && !w.peer_close) mc::check(w.closes == 0, mc::str("close event although the peer did not close (", sum, ")"));
    if (healthy) mc::check(w.errors == 0, mc::str("error event on a healthy connection (", sum, ")"));
    if (w.started && w.peer_bad && !w.user_stopped && !w.io_fault) mc::check(w.bad == 1, mc::str("malformed frame reported ", w.bad, " times (", sum, ")"));
    if (!w.peer_bad) mc::check(w.bad == 0, "malformed frame event without a malformed frame");
    if (w.peer_gone && w.started && !w.user_stopped && !w.peer_close && !w.peer_bad && !w.io_fault)
      mc::check(w.errors + w.closes >= 1, mc::str("connection loss not reported (", sum, ")"));

    // teardown releases everything
    if (w.peer->fd >= 0) w.peer->close();
    w.drain();
    w.act_drop();
    w.drain();
    // A write that is started on a socket whose failure has already been reported
    // may never complete (asio waits for an edge that will not come), so the
    // release of everything is only demanded of users who stop sending then.
    if (!w.sends_after_error) mc::check(w.token.expired(), mc::str("endpoint leaked after the connection ended and every reference was dropped (", sum, ")"));
  }

  void explore(world& w, std::vector<action> const& acts, int depth, bool poll_each)
  {
    for (int i = 0; i < depth; i++)
    {
      int c = mc::choose(int(acts.size()) + 1);
      if (c == 0) break;
      perform(w, acts[c - 1], i);
      if (poll_each) { w.io.restart(); w.io.poll(); }
      if (mc::failed()) return;
    }
    verify(w);
  }
}

// every sequence of user and peer actions, the event loop idle in between
SCENARIO(action_sequences)
{
  auto w = open(false);
  explore(*w, {A_SEND, A_CLOSE, A_STOP, A_DROP, A_PEER_MSG, A_PEER_PING, A_PEER_CLOSE, A_PEER_GONE, A_PEER_BAD}, mc::tier(4, 5), true);
}

// the peer does not read: writes stay in flight while everything else happens
SCENARIO(blocked_writes)
{
  auto w = open(true);
  explore(*w, {A_SEND_BIG, A_SEND, A_CLOSE, A_PEER_MSG, A_PEER_CLOSE, A_PEER_READ, A_DROP, A_STOP, A_PEER_GONE}, mc::tier(4, 6), true);
}

// writes in flight from the start
SCENARIO(blocked_then)
{
  auto w = open(true);
  perform(*w, A_SEND_BIG, 9);
  w->io.restart(); w->io.poll();
  explore(*w, {A_SEND, A_CLOSE, A_PEER_PING, A_PEER_CLOSE, A_PEER_READ, A_DROP, A_PEER_GONE}, mc::tier(4, 6), true);
}

// the event loop is stepped one handler at a time between actions
SCENARIO(handler_interleavings)
{
  auto w = open(mc::flip());
  explore(*w, {A_POLL_ONE, A_SEND_BIG, A_CLOSE, A_PEER_CLOSE, A_PEER_HALF}, mc::tier(6, 8), false);
}
SCENARIO(handler_interleavings_teardown)
{
  auto w = open(mc::flip());
  explore(*w, {A_POLL_ONE, A_SEND, A_PEER_CLOSE, A_DROP, A_PEER_GONE}, mc::tier(6, 8), false);
}
SCENARIO(handler_interleavings_stop)
{
  auto w = open(false);
  explore(*w, {A_POLL_ONE, A_SEND, A_PEER_MSG, A_STOP, A_CLOSE}, mc::tier(6, 8), false);
}

// a connection that was reset cannot be shut down: stop() is not harmed by that
SCENARIO(stop_after_reset)
{
  auto w = open(mc::flip());
  int e = mc::flip() ? ENOTCONN : EINVAL;
  ws::shutdown_hook = [e](int) { return e; };
  explore(*w, {A_POLL_ONE, A_SEND, A_PEER_MSG, A_STOP, A_PEER_CLOSE, A_PEER_GONE}, mc::tier(4, 6), mc::flip());
  ws::shutdown_hook = nullptr;
}
// pings that arrive while something else is being written
SCENARIO(pings)
{
  auto w = open(true);
  perform(*w, A_SEND_BIG, 9);
  explore(*w, {A_POLL_ONE, A_PEER_PING, A_PEER_READ, A_PEER_HALF, A_SEND_BIG}, mc::tier(5, 7), false);
}

// messaging is started late: everything can already have happened
SCENARIO(late_start)
{
  auto w = open(mc::flip(), false);
  explore(*w, {A_START, A_SEND, A_CLOSE, A_PEER_MSG, A_PEER_CLOSE, A_STOP}, mc::tier(4, 6), true);
}

// handlers that call back into the endpoint
SCENARIO(reentrant_handlers)
{
  auto w = open(mc::flip());
  w->on_message = reaction(mc::choose(5));
  w->on_close = reaction(mc::choose(5));
  explore(*w, {A_PEER_MSG, A_SEND, A_CLOSE, A_PEER_CLOSE, A_PEER_READ}, mc::tier(3, 5), true);
}

// a socket error on any write
SCENARIO(write_faults)
{
  auto w = open(false);
  int at = mc::choose(6), err = mc::flip() ? ECONNRESET : EPIPE, n = 0;
  auto* wp = w.get();
  ws::send_hook = [=, &n](int, std::size_t want) -> long {
    if (n++ >= at) { wp->io_fault = true; return -err; }
    return long(want);
  };
  explore(*w, {A_SEND, A_CLOSE, A_PEER_CLOSE, A_DROP}, mc::tier(4, 5), mc::flip());
  ws::send_hook = nullptr;
}

// a socket error on any read
SCENARIO(read_faults)
{
  auto w = open(false);
  int at = mc::choose(8), n = 0;
  auto* wp = w.get();
  ws::recv_hook = [=, &n](int, std::size_t want) -> long {
    if (n++ >= at) { wp->io_fault = true; return -ECONNRESET; }
    return long(want);
  };
  explore(*w, {A_SEND, A_PEER_MSG, A_PEER_CLOSE, A_CLOSE}, mc::tier(4, 5), true);
  ws::recv_hook = nullptr;
}

// long conversations: queues and pings of many lengths, written at once, in bursts or one by one
SCENARIO(long_conversations)
{
  auto w = open(mc::flip());
  int n = mc::pick(std::vector<int>{5, 8, 9, 16, 17, 33, 64, 100, mc::tier(130, 300)});
  int burst = mc::pick(std::vector<int>{1, 2, 7, 1000});
  int peer = mc::choose(4), end = mc::choose(3), big = mc::choose(2);
  for (int i = 0; i < n && !mc::failed(); i++)
  {
    if (big && i % 4 == 1) w->act_send(ws::pattern(125 * (i % 5) + i % 3, i)); else w->act_send(mc::str("m", i));
    if (peer & 1) perform(*w, A_PEER_MSG, i);
    if (peer & 2) { if (i % 3 == 0) perform(*w, A_PEER_PING, i); if (i % 5 == 4) perform(*w, A_PEER_HALF, i); }
    mc::step();
    if (i % burst == burst - 1) { w->io.restart(); w->io.poll(); if (i % 2) perform(*w, A_PEER_READ, i); }
  }
  if (mc::failed()) return;
  // what was queued before a close need not all be written after it
  if (end == 1) perform(*w, A_CLOSE, n);
  if (end == 2) perform(*w, A_PEER_CLOSE, n);
  verify(*w);
}
