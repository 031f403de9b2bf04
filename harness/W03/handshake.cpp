// mc-flags: -lpthread
#include "ws.hpp"
#include <boost/hana.hpp>
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include <nbdl/endpoint_send_message.hpp>
#include <nbdl/websocket/client_endpoint.hpp>
#include <nbdl/websocket/server_endpoint.hpp>
#include <cctype>
#include <map>
#include <memory>
#include <queue>

namespace hana = boost::hana;
namespace event = nbdl::websocket::event;
using ws::bytes;

namespace
{
  // ---- independent SHA-1 and base64 ---------------------------------------
  bytes ref_sha1(bytes m)
  {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    uint64_t bits = m.size() * 8ull;
    m += char(0x80);
    while (m.size() % 64 != 56) m += char(0);
    for (int i = 7; i >= 0; i--) m += char(bits >> (8 * i));
    auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
    for (std::size_t o = 0; o < m.size(); o += 64)
    {
      uint32_t w[80];
      for (int i = 0; i < 16; i++)
        w[i] = uint32_t((unsigned char)m[o + 4 * i]) << 24 | uint32_t((unsigned char)m[o + 4 * i + 1]) << 16
             | uint32_t((unsigned char)m[o + 4 * i + 2]) << 8 | (unsigned char)m[o + 4 * i + 3];
      for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
      uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
      for (int i = 0; i < 80; i++)
      {
        uint32_t f, k;
        if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; }
        else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; }
        else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; }
        else { f = b ^ c ^ d; k = 0xCA62C1D6; }
        uint32_t t = rol(a, 5) + f + e + k + w[i];
        e = d; d = c; c = rol(b, 30); b = a; a = t;
      }
      h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    bytes r;
    for (int i = 0; i < 5; i++) for (int j = 3; j >= 0; j--) r += char(h[i] >> (8 * j));
    return r;
  }
  bytes ref_base64(bytes const& s)
  {
    static char const* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    bytes r; unsigned acc = 0; int n = 0;
    for (unsigned char c : s) { acc = (acc << 8 | c) & 0xffffff; n += 8; while (n >= 6) { n -= 6; r += t[acc >> n & 63]; } }
    if (n) r += t[acc << (6 - n) & 63];
    while (r.size() % 4) r += '=';
    return r;
  }
  bytes accept_for(bytes const& key) { return ref_base64(ref_sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }

  bytes lower(bytes s) { for (auto& c : s) c = char(std::tolower((unsigned char)c)); return s; }

  // start line + headers (names lower case); false if not one complete HTTP head
  bool parse_head(bytes const& s, bytes& first, std::map<bytes, bytes>& h)
  {
    auto end = s.find("\r\n\r\n");
    if (end == bytes::npos || end + 4 != s.size()) return false;
    std::size_t pos = 0; bool start = true;
    while (pos < end + 2)
    {
      auto e = s.find("\r\n", pos);
      bytes line = s.substr(pos, e - pos);
      pos = e + 2;
      if (start) { first = line; start = false; continue; }
      auto c = line.find(':');
      if (c == bytes::npos) return false;
      auto v = line.find_first_not_of(' ', c + 1);
      bytes name = lower(line.substr(0, c));
      if (h.count(name)) return false;
      h[name] = v == bytes::npos ? "" : line.substr(v);
    }
    return true;
  }

  struct observed
  {
    int ready = 0, bad = 0, errors = 0, closes = 0;
    bytes token;
    std::vector<bytes> delivered;
    std::string sum() const { return mc::str("ready ", ready, " bad_request ", bad, " errors ", errors, " close ", closes); }
  };

  template <typename Start>
  auto server_handler(observed& o, Start start)
  {
    return nbdl::endpoint_handler(
        event::on_ready = [&o, start](auto& self, nbdl::auth_token_t const& t) { o.ready++; o.token = t.value; start(self); }
      , event::on_message = [&o](auto&, auto const& m) { o.delivered.push_back(m); }
      , event::on_close = [&o](auto&&...) { o.closes++; }
      , event::on_bad_request = [&o](auto&&...) { o.bad++; }
      , event::on<std::error_code> = [&o](auto&&...) { o.errors++; });
  }
  template <typename Start>
  auto client_handler(observed& o, Start start)
  {
    return nbdl::endpoint_handler(
        event::on_ready = [&o, start](auto& self) { o.ready++; start(self); }
      , event::on_message = [&o](auto&, auto const& m) { o.delivered.push_back(m); }
      , event::on_close = [&o](auto&&...) { o.closes++; }
      , event::on_bad_request = [&o](auto&&...) { o.bad++; }
      , event::on<std::error_code> = [&o](auto&&...) { o.errors++; });
  }
  auto no_start = [](auto&) { };

  struct server
  {
    ws::asio::io_context io;
    std::unique_ptr<ws::raw> peer;
    observed o;
    std::shared_ptr<void> ep;
    bytes wire;
    server()
    {
      ws::pair p;
      peer = std::make_unique<ws::raw>(p.b);
      ep = nbdl::endpoint_open(
        nbdl::websocket::server_endpoint{ws::tcp::socket(io, ws::tcp::v4(), p.a)}
      , std::queue<bytes>{}, server_handler(o, no_start));
      run();
    }
    ~server() { peer->close(); run(); ep.reset(); run(); }
    void run()
    {
      for (;;)
      {
        io.restart();
        auto n = io.poll();
        bytes b = peer->fd >= 0 ? peer->get() : bytes();
        wire += b;
        if (!n && b.empty()) break;
      }
    }
    void feed(bytes const& s) { mc::step(); peer->put(s); run(); }
  };

  void expect_accepted(server& s, bytes const& key, bytes const& token)
  {
    if (!mc::check(s.o.ready == 1 && !s.o.bad && !s.o.errors && !s.o.closes, mc::str("valid handshake: ", s.o.sum()))) return;
    mc::check(s.o.token == token, mc::str("ready event carries the token ", mc::show(s.o.token), " instead of ", mc::show(token)));
    bytes first; std::map<bytes, bytes> h;
    if (!mc::check(parse_head(s.wire, first, h), mc::str("answer is not a HTTP response head: ", mc::show(s.wire)))) return;
    mc::check(first == "HTTP/1.1 101 Switching Protocols", mc::str("status line ", mc::show(first)));
    mc::check(lower(h["upgrade"]) == "websocket" && lower(h["connection"]) == "upgrade", "Upgrade/Connection headers missing");
    mc::check(h["sec-websocket-accept"] == accept_for(key), mc::str("accept token ", h["sec-websocket-accept"], " for key ", mc::show(key), " should be ", accept_for(key)));
    mc::state(h["sec-websocket-accept"] + token);
  }
  void expect_refused(server& s, bool bad_request)
  {
    mc::check(s.o.ready == 0, mc::str("handshake accepted (", s.o.sum(), ")"));
    mc::check(s.wire.empty(), mc::str("refused handshake was answered with ", mc::show(s.wire)));
    mc::check((bad_request ? s.o.bad : s.o.errors) == 1 && s.o.bad + s.o.errors + s.o.closes == 1,
      mc::str("refused handshake must be reported once as ", bad_request ? "bad_request" : "error", ": ", s.o.sum()));
    mc::state(s.o.sum());
  }

  bytes const good_key = "dGhlIHNhbXBsZSBub25jZQ==";
  bytes request(bytes const& key, bytes const& cookies)
  {
    return "GET / HTTP/1.1\r\nHost: nbdl\r\nUpgrade: websocket\r\nSec-WebSocket-Key: " + key +
      "\r\nSec-WebSocket-Version: 13\r\n" + (cookies.empty() ? "" : "Cookies: " + cookies + "\r\n") + "\r\n";
  }
  bytes printable(int n, int salt) { bytes s; for (int i = 0; i < n; i++) s += char('!' + (i * 37 + salt * 11) % 94); return s; }
}

SCENARIO(every_key_length)
{
  int n = mc::choose(mc::tier(200, 234));
  bytes key = printable(n, mc::choose(mc::tier(2, 5)));
  mc::note(key);
  server s;
  s.feed(request(key, ""));
  expect_accepted(s, key, "");
}

SCENARIO(header_layout)
{
  std::vector<bytes> names = {"Sec-WebSocket-Key", "Cookies", "Host", "X-Sec-WebSocket-Key"};
  std::vector<bytes> values = {"a2V5", "nbdl_auth=tok", "h:80", "decoy"};
  std::vector<int> left = {0, 1, 2, 3};
  bytes req = "GET / HTTP/1.1\r\n";
  int casing = mc::choose(3);
  int spaces = mc::choose(3);
  int omit_cookie = mc::choose(2);
  int decoy = mc::choose(4);
  if (decoy == 1) { names[3] = "Cookies2"; values[3] = "nbdl_auth=other"; }
  if (decoy == 2) { names[3] = "Sec-WebSocket-Ke"; }
  if (decoy == 3) { names[3] = "X"; values[3] = ""; }
  while (!left.empty())
  {
    int i = mc::choose(int(left.size()));
    int k = left[i]; left.erase(left.begin() + i);
    if (k == 1 && omit_cookie) continue;
    bytes n = names[k];
    for (std::size_t j = 0; j < n.size(); j++)
    {
      if (casing == 0) n[j] = char(std::tolower(n[j]));
      if (casing == 1) n[j] = char(std::toupper(n[j]));
    }
    req += n + ":" + bytes(spaces, ' ') + values[k] + "\r\n";
  }
  req += "\r\n";
  mc::note(req);
  server s;
  s.feed(req);
  expect_accepted(s, "a2V5", omit_cookie ? "" : "tok");
}

SCENARIO(every_chunking)
{
  bytes r = "GET / HTTP/1.1\r\nA: b\r\nSec-WebSocket-Key: a2V5\r\nCookies: nbdl_auth=t\r\n\r\n";
  int n = int(r.size());
  int a = 1 + mc::choose(n - 1);
  int b = a + mc::choose(n - a);
  mc::note(mc::str("chunks ", a, ", ", b - a, ", ", n - b));
  server s;
  s.feed(r.substr(0, a));
  if (b > a) s.feed(r.substr(a, b - a));
  mc::check(s.o.ready == 0 && s.wire.empty(), "handshake answered before the request was complete");
  s.feed(r.substr(b));
  expect_accepted(s, "a2V5", "t");
}
SCENARIO(tiny_reads)
{
  int k = 1 + mc::choose(20);
  int blocked = mc::choose(3);
  int n = 0;
  ws::recv_hook = [=, &n](int, std::size_t want) -> long {
    if (blocked && n++ % (blocked + 1) == 0) return -EINTR;
    return std::min<long>(want, k); };
  ws::send_hook = [=](int, std::size_t want) -> long { return std::min<long>(want, k); };
  {
    server s;
    s.feed(request(good_key, "nbdl_auth=abc"));
    expect_accepted(s, good_key, "abc");
    ws::recv_hook = nullptr; ws::send_hook = nullptr;
  }
}

SCENARIO(wrong_request_line)
{
  bytes r = request(good_key, "");
  int at = mc::choose(16);
  int how = mc::choose(mc::tier(12, 64));
  static bytes const repl = "X \r\n/1gPOST.0\t\0:?#";
  char c = how < int(repl.size()) ? repl[how] : char(how * 4 + 3);
  if (r[at] == c) mc::note("unchanged");
  bool same = r[at] == c;
  r[at] = c;
  bool split = mc::flip();
  server s;
  if (split) { s.feed(r.substr(0, at + 1)); s.feed(r.substr(at + 1)); } else s.feed(r);
  if (same) expect_accepted(s, good_key, "");
  else expect_refused(s, true);
}

SCENARIO(truncated_request)
{
  bytes r = request(good_key, "nbdl_auth=abc");
  int at = mc::choose(int(r.size()));
  bool half = mc::flip();
  server s;
  s.feed(r.substr(0, at));
  if (half) s.peer->shutdown_write(); else s.peer->close();
  s.run();
  // 16 bytes of something else than the request line would be a bad request;
  // a truncated one is a read error
  expect_refused(s, false);
}

SCENARIO(overlong_header)
{
  int n = 250 + mc::choose(mc::tier(40, 800));
  bool complete = mc::flip();
  server s;
  s.feed("GET / HTTP/1.1\r\nX: " + bytes(n, 'x') + (complete ? "\r\nSec-WebSocket-Key: k\r\n\r\n" : ""));
  if (!complete && n + 3 < 256) { s.peer->close(); s.run(); }
  // up to the limit accepted; beyond it refused; never both, never a crash
  if (s.o.ready) expect_accepted(s, "k", ""); else expect_refused(s, false);
  if (n + 5 <= 256 && complete) mc::check(s.o.ready == 1, "header line within 256 bytes refused");
}

namespace
{
  // the value of the cookie called nbdl_auth
  bytes cookie_value(std::vector<std::pair<bytes, bytes>> const& v)
  {
    for (auto& p : v) if (p.first == "nbdl_auth") return p.second;
    return "";
  }
}
SCENARIO(cookie_strings)
{
  static std::vector<std::pair<bytes, bytes>> const c = {
    {"nbdl_auth", "T"}, {"a", "1"}, {"xnbdl_auth", "Z"}, {"nbdl_authx", "Q"}, {"b", "nbdl_auth=W"}, {"nbdl_auth", "longer==token"},
    {"nbdl_aut", "h"}, {"n", ""}, {"nbdl_auth", ""}, {"session", "nbdl_auth"} };
  int n = 1 + mc::choose(mc::tier(3, 4));
  std::vector<std::pair<bytes, bytes>> v;
  bytes s; bool have = false;
  for (int i = 0; i < n; i++)
  {
    auto& p = c[mc::choose(int(c.size()))];
    if (p.first == "nbdl_auth") { if (have) return; have = true; }
    v.push_back(p);
    if (i) s += "; ";
    s += p.first + "=" + p.second;
  }
  if (mc::flip()) s += ";";
  mc::note(s);
  server sv;
  sv.feed(request(good_key, s));
  expect_accepted(sv, good_key, cookie_value(v));
}
SCENARIO(arbitrary_cookie_text)
{
  static std::vector<bytes> const t = {";", " ", "=", "nbdl_auth", "nbdl_auth=", "x"};
  int n = 1 + mc::choose(mc::tier(4, 6));
  bytes s;
  for (int i = 0; i < n; i++) s += t[mc::choose(int(t.size()))];
  mc::note(s);
  server sv;
  sv.feed(request(good_key, s));
  mc::check(sv.o.ready == 1 && !sv.o.bad && !sv.o.errors, mc::str("cookie text ", mc::show(s), ": ", sv.o.sum()));
  mc::check(s.find(sv.o.token) != bytes::npos, "token is not part of what the client sent");
  mc::check(s.find("nbdl_auth=") != bytes::npos || sv.o.token.empty(), "token invented");
  mc::state(sv.o.token);
}
SCENARIO(arbitrary_header_lines)
{
  static std::vector<bytes> const t = {":", " ", "Sec-WebSocket-Key", "Cookies", "x", "\r", "\n"};
  int n = 1 + mc::choose(mc::tier(4, 5));
  bytes s;
  for (int i = 0; i < n; i++) s += t[mc::choose(int(t.size()))];
  mc::note(mc::show(s));
  server sv;
  sv.feed("GET / HTTP/1.1\r\n" + s + "\r\n\r\n");
  mc::check(sv.o.ready + sv.o.bad + sv.o.errors <= 1, "handshake ended twice");
  mc::state(sv.o.sum());
}

// the owner lets go of the endpoint, or the connection fails, at any point
SCENARIO(abandoned)
{
  bytes r = "GET / HTTP/1.1\r\nSec-WebSocket-Key: a2V5\r\nCookies: nbdl_auth=t\r\n\r\n";
  int at = mc::choose(int(r.size()) + 1);
  int how = mc::choose(3);
  server s;
  s.peer->put(r.substr(0, at));
  mc::step();
  if (how == 0) s.run();
  if (how == 1) { s.io.restart(); s.io.poll_one(); }
  s.ep.reset();
  s.run();
  mc::check(s.o.ready + s.o.bad + s.o.errors <= 1, mc::str("abandoned handshake ended twice: ", s.o.sum()));
  mc::state(s.o.sum());
}

// ---- client ---------------------------------------------------------------
namespace
{
  struct client
  {
    ws::asio::io_context io;
    std::unique_ptr<ws::raw> peer;
    observed o;
    std::shared_ptr<void> ep;
    bytes wire;
    std::unique_ptr<ws::tcp::socket> sock;
    client(bytes const& origin, bytes const& token)
    {
      ws::pair p;
      peer = std::make_unique<ws::raw>(p.b);
      sock = std::make_unique<ws::tcp::socket>(io, ws::tcp::v4(), p.a);
      ep = nbdl::endpoint_open(
        nbdl::websocket::client_endpoint{*sock, nbdl::auth_token_t{token}, nbdl::websocket::origin_t{origin}}
      , std::queue<bytes>{}, client_handler(o, no_start));
      run();
    }
    ~client() { peer->close(); run(); ep.reset(); run(); }
    void run()
    {
      for (;;)
      {
        io.restart();
        auto n = io.poll();
        bytes b = peer->fd >= 0 ? peer->get() : bytes();
        wire += b;
        if (!n && b.empty()) break;
      }
    }
    void feed(bytes const& s) { mc::step(); peer->put(s); run(); }
  };
  bytes response() { return "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n\r\n"; }
}

SCENARIO(client_request)
{
  static std::vector<bytes> const origins = {"", "x", "http://example.com", bytes(200, 'o')};
  static std::vector<bytes> const tokens = {"", "t", "a=b==", bytes(200, 'k')};
  bytes o = origins[mc::choose(4)], t = tokens[mc::choose(4)];
  int k = mc::choose(4);
  if (k) ws::send_hook = [=](int, std::size_t want) -> long { return std::min<long>(want, k * k * 7); };
  {
    client c(o, t);
    ws::send_hook = nullptr;
    bytes first; std::map<bytes, bytes> h;
    if (mc::check(parse_head(c.wire, first, h), mc::str("request is not a HTTP request head: ", mc::show(c.wire))))
    {
      mc::check(first == "GET / HTTP/1.1", "request line");
      mc::check(h.count("host") && lower(h["upgrade"]) == "websocket" && lower(h["connection"]) == "upgrade" && h["sec-websocket-version"] == "13",
        "a header required by RFC 6455 is missing");
      mc::check(h["sec-websocket-key"].size() == 24, "key is not 16 base64 encoded bytes");
      mc::check(h["origin"] == o, mc::str("origin ", mc::show(h["origin"])));
      mc::check(h["cookies"] == "nbdl_auth=" + t + ";", mc::str("cookies ", mc::show(h["cookies"])));
    }
    mc::check(c.o.ready + c.o.bad + c.o.errors == 0, "client ready before the server answered");
    bytes r = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + accept_for(h["sec-websocket-key"]) + "\r\n\r\n";
    c.feed(r);
    mc::check(c.o.ready == 1 && !c.o.bad && !c.o.errors, mc::str("valid answer: ", c.o.sum()));
  }
}
SCENARIO(client_wrong_answer)
{
  bytes r = response();
  int at = mc::choose(int(r.size()));
  int how = mc::choose(mc::tier(3, 8));
  // names and blanks may vary under RFC 6455; only alterations that no client
  // may accept: the status code and the accept token
  auto tok = r.find("s3pP"), code = r.find("101");
  bool essential = (at >= int(tok) && at < int(tok) + 28) || (at >= int(code) && at < int(code) + 3);
  if (!essential) return;
  char was = r[at];
  r[at] = char(was ^ (how + 1));
  client c("o", "t");
  c.feed(r);
  mc::check(c.o.ready == 0, "client accepted a wrong answer");
  mc::check(c.o.bad == 1 && c.o.errors == 0, mc::str("wrong answer must be reported once as bad_request: ", c.o.sum()));
  mc::state(mc::str(at));
}
SCENARIO(client_truncated_answer)
{
  bytes r = response();
  int at = mc::choose(int(r.size()));
  client c("o", "t");
  c.feed(r.substr(0, at));
  mc::check(c.o.ready + c.o.bad + c.o.errors == 0, "handshake ended before the answer was complete");
  c.peer->close();
  c.run();
  mc::check(c.o.ready == 0 && c.o.errors == 1 && c.o.bad == 0, mc::str("connection lost in the handshake: ", c.o.sum()));
}
SCENARIO(client_chunked_answer)
{
  bytes r = response();
  int at = mc::choose(int(r.size()) + 1);
  client c("o", "t");
  c.feed(r.substr(0, at));
  c.feed(r.substr(at));
  mc::check(c.o.ready == 1 && !c.o.errors && !c.o.bad, mc::str("chunked answer: ", c.o.sum()));
}
SCENARIO(client_abandoned)
{
  bytes r = response();
  int at = mc::choose(int(r.size()) + 1);
  int how = mc::choose(3);
  client c("o", "t");
  c.peer->put(r.substr(0, at));
  if (how == 0) c.run();
  if (how == 1) { c.io.restart(); c.io.poll_one(); }
  c.ep.reset();
  c.run();
  mc::check(c.o.ready + c.o.bad + c.o.errors <= 1, mc::str("abandoned handshake ended twice: ", c.o.sum()));
}

// ---- a write of the handshake fails or is cut -----------------------------
namespace
{
  struct write_fault
  {
    int n = 0; bool failed = false;
    write_fault(int at, int part, int err)
    {
      ws::send_hook = [=, this](int, std::size_t want) -> long {
        if (n++ < at) return std::min<long>(want, part);
        failed = true;
        return -err; };
    }
    ~write_fault() { ws::send_hook = nullptr; }
  };
  int fault_part() { static std::vector<int> const v = {1, 2, 33, 1 << 20}; return mc::pick(v); }
  int fault_err() { static std::vector<int> const v = {ECONNRESET, EPIPE, ENETDOWN}; return mc::pick(v); }
}
SCENARIO(server_write_fault)
{
  server s;
  int at = mc::choose(5);
  write_fault f(at, fault_part(), fault_err());
  s.feed(request(good_key, "nbdl_auth=t"));
  if (!f.failed) { expect_accepted(s, good_key, "t"); return; }
  mc::check(s.o.ready == 0 && s.o.errors == 1 && !s.o.bad && !s.o.closes, mc::str("the answer could not be written: ", s.o.sum()));
  s.peer->put(bytes("\x81\x84\0\0\0\0late", 10));
  s.run();
  mc::check(s.o.delivered.empty() && s.o.ready == 0 && s.o.errors == 1, mc::str("after a failed handshake: ", s.o.sum()));
  mc::state(mc::str(at, s.o.sum()));
}
SCENARIO(client_write_fault)
{
  int at = mc::choose(5);
  write_fault f(at, fault_part(), fault_err());
  client c("o", "t");
  c.feed(response());
  if (!f.failed) { mc::check(c.o.ready == 1 && !c.o.errors && !c.o.bad, mc::str("cut request: ", c.o.sum())); return; }
  mc::check(c.o.ready == 0 && c.o.errors == 1 && !c.o.bad && !c.o.closes, mc::str("the request could not be written: ", c.o.sum()));
  mc::state(mc::str(at, c.o.sum()));
}

// ---- both ends ------------------------------------------------------------
SCENARIO(client_and_server)
{
  static std::vector<bytes> const tokens = {"", "t", "tok-en_1.2~", bytes(200, 'k')};
  bytes t = tokens[mc::choose(4)];
  int k = 1 + mc::choose(mc::tier(6, 30)), blocked = mc::choose(3);
  int from_client = mc::choose(3), from_server = mc::choose(3);
  ws::asio::io_context io;
  ws::pair p;
  observed co, so;
  ws::tcp::socket cs(io, ws::tcp::v4(), p.b);
  int n = 0;
  ws::recv_hook = [=, &n](int, std::size_t want) -> long {
    if (blocked && n++ % (blocked + 1) == 0) return -EINTR;
    return std::min<long>(want, k * k); };
  {
    auto s = nbdl::endpoint_open(nbdl::websocket::server_endpoint{ws::tcp::socket(io, ws::tcp::v4(), p.a)}
      , std::queue<bytes>{}, server_handler(so, [](auto& self) { self.start_messaging(); }));
    auto c = nbdl::endpoint_open(nbdl::websocket::client_endpoint{cs, nbdl::auth_token_t{t}, nbdl::websocket::origin_t{"o"}}
      , std::queue<bytes>{}, client_handler(co, [](auto& self) { self.start_messaging(); }));
    for (int i = 0; i < from_client; i++) nbdl::endpoint_send_message(*c, mc::str("c", i));
    for (int i = 0; i < from_server; i++) nbdl::endpoint_send_message(*s, mc::str("s", i));
    io.poll();
    mc::step();
    mc::check(so.ready == 1 && co.ready == 1, mc::str("server ", so.sum(), ", client ", co.sum()));
    mc::check(so.token == t, mc::str("server got token ", mc::show(so.token), " instead of ", mc::show(t)));
    mc::check(so.delivered.size() == std::size_t(from_client) && co.delivered.size() == std::size_t(from_server), "messages queued before the handshake ended were lost");
    for (std::size_t i = 0; i < so.delivered.size(); i++) mc::check(so.delivered[i] == mc::str("c", i), "wrong message");
    for (std::size_t i = 0; i < co.delivered.size(); i++) mc::check(co.delivered[i] == mc::str("s", i), "wrong message");
    mc::check(so.bad + so.errors + co.bad + co.errors == 0, "error in a healthy conversation");
    mc::state(mc::str(so.sum(), co.sum(), so.delivered.size(), co.delivered.size()));
    c->stop(); s->stop();
    io.restart(); io.poll();
  }
  ws::recv_hook = nullptr;
}

// ---- many headers, many cookies -------------------------------------------
SCENARIO(many_headers)
{
  int before = mc::pick(std::vector<int>{0, 1, 2, 7, 15, 16, 31, 32, 33, 63, 64, 100, 130, 256, 300}), between = mc::choose(3) * 9, after = mc::choose(3) * 20;
  int len = mc::pick(std::vector<int>{0, 1, 30, 200});
  bool key_first = mc::flip();
  bytes r = "GET / HTTP/1.1\r\n";
  auto more = [&](int n, char c) { for (int i = 0; i < n; i++) r += mc::str("X-", c, i, ": ") + printable(i % 5 ? len : 0, i) + "\r\n"; };
  more(before, 'a');
  r += key_first ? "Sec-WebSocket-Key: " + good_key + "\r\n" : "Cookies: a=b; nbdl_auth=tok; c\r\n";
  more(between, 'b');
  r += key_first ? "Cookies: a=b; nbdl_auth=tok; c\r\n" : "Sec-WebSocket-Key: " + good_key + "\r\n";
  more(after, 'c');
  r += "\r\n";
  mc::note(mc::str("request of ", r.size(), " bytes, ", before, " headers first"));
  server s;
  int cut = mc::choose(3);
  if (cut == 0) s.feed(r);
  else for (std::size_t i = 0, n = cut == 1 ? 256 : 1000; i < r.size(); i += n) s.feed(r.substr(i, n));
  expect_accepted(s, good_key, "tok");
}
SCENARIO(many_cookies)
{
  int n = mc::choose(40), at = mc::choose(n + 1), len = mc::pick(std::vector<int>{0, 1, 20, 100});
  bytes c;
  for (int i = 0; i <= n; i++)
  {
    if (i) c += "; ";
    c += i == at ? "nbdl_auth=" + bytes(len, 'q') : mc::str("c", i % 10, "=", i % 10);
  }
  if (c.size() > 240) return;
  mc::note(c);
  server s;
  s.feed(request(good_key, c));
  expect_accepted(s, good_key, bytes(len, 'q'));
}
