// mc-flags: -I@HERE@/../../lib/asio -ljsoncpp -lpthread -O1
// The pipes example: messages with their length before them, over a stream that
// may be cut anywhere
#include "ws.hpp"
#include <asio.hpp>
#include <boost/hana.hpp>
#include <iostream>
#include <nbdl.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/binder/jsoncpp.hpp>
#include <../example/pipes/read_raw_message.hpp>
#include <../example/pipes/receive_messages_until.hpp>
#include <../example/pipes/write_raw_message.hpp>
#include <sstream>
#include <memory>

namespace hana = boost::hana;
namespace my
{
  struct person { std::string first; std::string last; };
  struct user { int id; person who; };
  struct terminate { };
}
namespace nbdl
{
  NBDL_ENTITY(my::person, first, last);
  NBDL_ENTITY(my::user, id, who);
  NBDL_EMPTY(my::terminate);
}
namespace
{
  using ws::bytes;
  using tcp = asio::ip::tcp;
  bytes framed(bytes const& b)
  {
    bytes r;
    for (int i = 3; i >= 0; i--) r += char(b.size() >> (8 * i));
    return r + b;
  }
  // the example prints what it receives
  struct quiet { std::ostringstream to; std::streambuf* was; quiet() : was(std::cout.rdbuf(to.rdbuf())) { } ~quiet() { std::cout.rdbuf(was); } };
  std::vector<std::size_t> sizes{0, 1, 2, 3, 4, 5, 255, 256, 257, 65535, 65536, 70001};

  // the next pieces in which the system takes or gives bytes
  struct pieces
  {
    pieces(int first, int rest)
    {
      auto limit = [=, n = 0](int, std::size_t want) mutable -> long { long m = n++ ? rest : first; return m && m < long(want) ? m : long(want); };
      ws::send_hook = limit; ws::recv_hook = limit;
    }
    ~pieces() { ws::send_hook = nullptr; ws::recv_hook = nullptr; }
  };
  struct line
  {
    asio::io_context io;
    ws::pair p;
    tcp::socket socket;
    ws::raw peer;
    line() : socket(io, tcp::v4(), p.a), peer(p.b) { }
    void run() { for (int i = 0; i < 1000000; i++) { io.restart(); if (!io.poll()) break; } }
  };
}

// messages of every length, one after another, written in pieces
SCENARIO(write)
{
  line l;
  int n = mc::choose(3);
  pieces cut(mc::choose(6), mc::pick(std::vector<int>{0, 1000, 50}));
  bytes want, got;
  for (int i = 0; i <= n && !mc::failed(); i++)
  {
    bytes body = ws::pattern(n == 2 ? mc::pick(std::vector<std::size_t>{0, 1, 256}) : mc::pick(sizes), i);
    if (mc::failed()) return;
    want += framed(body);
    int done = 0, failed = 0;
    nbdl::run_async(nbdl::pipe(hana::always(body), example::write_raw_message(l.socket), nbdl::tap([&] { done++; }), nbdl::catch_([&](auto&&...) { failed++; })));
    // (the system takes more when the peer has read)
    for (;;) { l.run(); bytes b = l.peer.get(); if (b.empty()) break; got += b; }
    mc::check(done == 1 && !failed, mc::str("writing ", body.size(), " bytes: resolved ", done, ", rejected ", failed, " times"));
    mc::step();
  }
  got += l.peer.get();
  mc::check(got == want, mc::str("the stream is ", mc::show(got, 40), " instead of ", mc::show(want, 40)));
  mc::state(mc::str(want.size())); mc::eval();
}

// the peer goes away
SCENARIO(write_fails)
{
  line l;
  std::size_t size = mc::pick(sizes);
  l.peer.close();
  int done = 0, failed = 0;
  bytes body = ws::pattern(size);
  nbdl::run_async(nbdl::pipe(hana::always(body), example::write_raw_message(l.socket), nbdl::tap([&] { done++; }), nbdl::catch_([&](auto&&...) { failed++; })));
  l.run();
  mc::check(!done && failed == 1, mc::str("writing to nobody: resolved ", done, ", rejected ", failed, " times"));
  mc::state(mc::str(size)); mc::step();
}

// one message read in pieces, of a stream that ends anywhere
SCENARIO(read)
{
  line l;
  std::size_t size = mc::pick(sizes);
  pieces cut(mc::choose(6), mc::pick(size < 1000 ? std::vector<int>{0, 1000, 3} : std::vector<int>{0, 1000}));
  if (mc::failed()) return;
  bytes body = ws::pattern(size), stream = framed(body) + "next";
  // where it ends, and where there is a pause before
  std::vector<std::size_t> ends{stream.size()};
  for (std::size_t e = 0; e < std::min<std::size_t>(size + 4, 9); e++) ends.push_back(e);
  if (size > 5) ends.push_back(size + 3);
  if (size > 500) ends.push_back(size / 2);
  std::size_t end = mc::pick(ends), pause = mc::choose(10);
  if (pause == 9) pause = end > 0 ? end - 1 : 0;
  if (pause > end) pause = end;
  int done = 0, failed = 0; bytes got;
  nbdl::run_async(nbdl::pipe(example::read_raw_message(l.socket), nbdl::tap([&](bytes const& b) { done++; got = b; }), nbdl::catch_([&](auto&&...) { failed++; })));
  std::string_view s(stream); s = s.substr(0, end);
  auto put = [&](std::string_view x) { while (x.size()) { auto y = x.substr(0, 50000); l.peer.put(y); x.remove_prefix(y.size()); l.run(); } l.run(); };
  put(s.substr(0, pause));
  if (pause < size + 4) mc::check(!done && !failed, "the message is there before its bytes");
  put(s.substr(pause));
  if (end < size + 4)
  {
    mc::check(!done && !failed, "the message is there before its end");
    l.peer.close(); l.run();
    mc::check(!done && failed == 1, mc::str("a message that was cut at ", end, " of ", size + 4, ": resolved ", done, ", rejected ", failed, " times"));
  }
  else
    mc::check(done == 1 && !failed && got == body, mc::str("a message of ", size, ": resolved ", done, ", rejected ", failed, " times with ", mc::show(got, 30)));
  mc::state(mc::str(size, ".", end)); mc::step(); mc::eval();
}

// the whole conversation: messages until one says to end it
namespace
{
  using any = nbdl::variant<my::person, my::user, my::terminate>;
  struct sent { bytes raw; std::string what; };   // what: "" if it is no message
  sent make(int k)
  {
    auto json = [](auto const& x) { return framed(nbdl::binder::jsoncpp::to_string(any(x))); };
    switch (k)
    {
      case 0: return {json(my::terminate{}), "end"};
      case 1: return {json(my::person{"a\"\xc3\xa9", ""}), "person a\"\xc3\xa9,"};
      case 2: return {json(my::user{7, {"b", std::string(300, 'x')}}), "user 7,b," + std::string(300, 'x')};
      case 3: return {framed(""), ""};
      case 4: return {framed("[1,"), ""};
      case 5: return {framed("[1,{\"first\":\"x\"}]"), ""};
      default: return {framed("[99,[]]"), ""};
    }
  }
}
SCENARIO(receive_until)
{
  quiet q;
  line l;
  pieces cut(mc::choose(5), mc::pick(std::vector<int>{0, 3}));
  std::vector<std::string> got, want; int done = 0, failed = 0; std::string last;
  bool thrown = mc::flip();        // the action refuses the second message
  auto action = hana::overload_linearly(
    [&](my::person const& p) { got.push_back("person " + p.first + "," + p.last); if (thrown && got.size() == 2) throw std::runtime_error("no"); }
  , [&](my::user const& u) { got.push_back(mc::str("user ", u.id, ",", u.who.first, ",", u.who.last)); if (thrown && got.size() == 2) throw std::runtime_error("no"); }
  , [&](my::terminate) { got.push_back("end"); if (thrown && got.size() == 2) throw std::runtime_error("no"); }
  , [&](auto const&) { mc::fail("another message"); });
  nbdl::run_async(nbdl::pipe(
    [&]() -> tcp::socket& { return l.socket; }
  , example::receive_messages_until(hana::type_c<any>, hana::type_c<my::terminate>, action)
  , nbdl::tap([&](any const& m) { done++; last = m.template is<my::terminate>() ? "end" : "other"; })
  , nbdl::catch_([&](auto&&...) { failed++; })));
  bool over = false, together = mc::flip();       // all of it arrives at once
  auto run = [&] { if (!together) l.run(); };
  int n = mc::tier(3, 4);
  for (int i = 0; i < n && !over && !mc::failed(); i++)
  {
    int k = mc::choose(9);
    mc::step();
    if (k == 7) { over = true; l.peer.close(); run(); break; }
    sent m = k == 8 ? make(1) : make(k);
    if (k == 8)      // the connection is lost within the message
    {
      int at = mc::choose(4);
      std::size_t e = at == 0 ? 1 : at == 1 ? 4 : at == 2 ? 5 : m.raw.size() - 1;
      l.peer.put(m.raw.substr(0, e)); run(); l.peer.close(); run();
      over = true; break;
    }
    l.peer.put(m.raw); run();
    if (m.what.empty()) { over = true; break; }
    want.push_back(m.what);
    if (thrown && want.size() == 2) { over = true; break; }
    if (m.what == "end") { over = true; l.run(); mc::check(done == 1 && !failed && last == "end", mc::str("the last message: resolved ", done, ", rejected ", failed, " times")); done--; failed++; break; }
    mc::check(!done && !failed, "it is over before the end");
  }
  l.run();
  std::string w; for (auto& x : want) w += x.substr(0, 10) + ";";
  mc::note(w);
  mc::check(got == want, mc::str(got.size(), " messages of ", want.size(), " came to the action"));
  if (over) mc::check(!done && failed == 1, mc::str("the end: resolved ", done, ", rejected ", failed, " times"));
  mc::state(mc::str(w, over, thrown)); mc::eval();
}
