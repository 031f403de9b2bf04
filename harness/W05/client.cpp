// mc-flags: --node
#include "webui.hpp"
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include <nbdl/websocket_api/client_endpoint.hpp>
#include <nbdl/websocket_api/json_payload.hpp>
#include <functional>
#include <queue>
namespace
{
  namespace event = nbdl::endpoint_event;
  namespace det = nbdl::websocket_api::detail;
  using nbdl::websocket_api::json_payload;
  using std::string;

  napi_value handle_callback(napi_env e, napi_callback_info info)
  {
    napi_value a[1], r; std::size_t n = 1;
    napi_get_cb_info(e, info, &n, a, nullptr, nullptr);
    napi_create_int32(e, det::_nbdl_endpoint_value_handle(web::pointer_arg(a[0])), &r);
    return r;
  }
  web::at_module exports{[](napi_value m)
  {
    web::function("__nbdl_endpoint_ready", web::callback1<&det::_nbdl_endpoint_ready>, m);
    web::function("__nbdl_endpoint_message", web::callback1<&det::_nbdl_endpoint_message>, m);
    web::function("__nbdl_endpoint_close", web::callback1<&det::_nbdl_endpoint_close>, m);
    web::function("__nbdl_endpoint_value_handle", handle_callback, m);
  }};

  string hex(string const& b) { string r; char t[3]; for (unsigned char c : b) { std::snprintf(t, 3, "%02x", c); r += t; } return r; }
  string quoted(string const& s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += "\\n"; continue; } r += c; } return r + "\""; }

  // kinds of payload: a message of content s, and the content of a message
  template <typename Payload> struct kind;
  template <typename Char> struct kind<std::vector<Char>>
  {
    static std::vector<Char> make(string const& s) { return std::vector<Char>(s.begin(), s.end()); }
    static string content(std::vector<Char> const& p) { return string(p.begin(), p.end()); }
    static string sent(string const& s) { return "bytes " + hex(s); }
  };
  template <> struct kind<json_payload>
  {
    static json_payload make(string const& s)
    {
      json_payload p;
      EM_ASM_({ Module.NBDL_DETAIL_JS_SET($0, UTF8ToString($1, $2)); }, nbdl::js::get_handle(p), s.data(), s.size());
      return p;
    }
    static string content(json_payload const& p) { return static_cast<web::jsval>(p).as<string>(); }
    static string sent(string const& s) { return "text " + quoted(s); }
  };
  struct on_ { std::function<void()> ready, close; std::function<void(string)> message; };
  template <typename Payload>
  auto open(on_& on)
  {
    return nbdl::endpoint_open(nbdl::websocket_api::client_endpoint{"ws://127.0.0.1:8080/x", {"token"}, {}}, std::queue<Payload>{}
    , nbdl::endpoint_handler(
        event::on_ready([&on](auto&) { on.ready(); })
      , event::on_message([&on](auto&, Payload const& p) { on.message(kind<Payload>::content(p)); })
      , event::on_close([&on](auto&, auto&&...) { on.close(); })));
  }
  template <typename Payload>
  using endpoint_t = decltype(open<Payload>(std::declval<on_&>()));
  template <typename Payload> struct held { endpoint_t<Payload> e; held(on_& on) : e(open<Payload>(on)) { } };

  std::vector<string> texts{"", "b\"\n\xc3\xa9\xf0\x9f\x98\x80"};
  string joined(std::vector<string> const& c) { string r; for (auto& x : c) r += (r.empty() ? "" : ", ") + mc::show(x, 60); return r.empty() ? "nothing" : r; }

  enum reaction { nothing, send, close, drop };
  // every history of the network and of the owner, and every reaction of the handlers
  template <typename Payload>
  void histories(int depth)
  {
    constexpr bool json = std::is_same_v<Payload, json_payload>;
    web::new_root();
    EM_ASM({ nbdl_sockets.length = 0; });
    int before = web::registry();
    long slots = web::live_slots;
    std::vector<string> got, want, sent;
    {
      on_ on;
      std::unique_ptr<held<Payload>> e;
      reaction at_ready = reaction(mc::choose(4)), at_message = reaction(mc::choose(4)), at_close = mc::flip() ? drop : nothing;
      int k = 0;
      auto react = [&](reaction r)
      {
        if (r == send) { string t = "re" + std::to_string(k); e->e.send_message(kind<Payload>::make(t)); }
        else if (r == close) e->e.send_close();
        else if (r == drop) e.reset();
      };
      on.ready = [&] { got.push_back("ready"); react(at_ready); };
      on.message = [&](string m) { got.push_back("message " + m); react(at_message); };
      on.close = [&] { got.push_back("close"); react(at_close); };
      e.reset(new held<Payload>(on));
      auto socket = web::jsval::global("nbdl_sockets")[0];
      mc::check(socket["url"].as<string>() == "ws://127.0.0.1:8080/x", "the URL");
      // the model: state 0 connecting, 1 open, 2 closing, 3 closed
      int state = 0, errors = 0; bool held_ = true;
      auto model = [&](reaction r)
      {
        if (r == send) { if (state == 1) sent.push_back(kind<Payload>::sent("re" + std::to_string(k))); }
        else if (r == close) { if (state < 2) state = 2; }
        else if (r == drop) held_ = false;
      };
      for (int i = 0; i < depth && !mc::failed(); i++)
      {
        mc::step(); mc::eval();
        k = i;
        std::vector<int> can;
        if (state == 0) can.push_back(0);
        if (state != 3) { can.push_back(1); can.push_back(2); }
        if (json && state == 1) can.push_back(3);
        if (held_) { if (state != 0) can.push_back(4); can.push_back(5); can.push_back(6); }
        if (can.empty()) break;
        switch (mc::pick(can))
        {
          case 0:
            mc::note("the connection opens");
            if (state == 0) { state = 1; if (held_) { want.push_back("ready"); model(at_ready); } socket.call<void>("s_open"); }
            break;
          case 1:
          {
            string t = texts[mc::choose(int(texts.size()))];
            bool binary = !json && mc::flip();
            if (binary) t += string("\x00\xff\x80", 3);
            mc::note(mc::str("a message ", mc::show(t, 40), binary ? " of bytes" : ""));
            bool given = state == 1 && held_;
            if (given) { want.push_back("message " + t); model(at_message); }
            if (binary) socket.call<void>("s_message", web::jsval(""), web::jsval(hex(t)));
            else socket.call<void>("s_message", web::jsval(json ? quoted(t) : t));
            break;
          }
          case 2:
          {
            bool clean = mc::flip();
            mc::note(clean ? "the connection is closed" : "the connection fails");
            if (state != 3) { state = 3; if (held_) { want.push_back("close"); model(at_close); } }
            socket.call<void>("s_close", web::jsval(clean ? 1000 : 1006), web::jsval(!clean));
            break;
          }
          case 3:
          {
            // what is not JSON is not given
            bool binary = mc::flip();
            mc::note(binary ? "bytes" : "text that is no JSON");
            if (held_) errors++;
            if (binary) socket.call<void>("s_message", web::jsval(""), web::jsval("2231220a"));
            else socket.call<void>("s_message", web::jsval("{"));
            break;
          }
          case 4:
          {
            string t = texts[mc::choose(int(texts.size()))];
            if (!json) t += string("\x00\xff", 2);
            mc::note(mc::str("send ", mc::show(t, 40)));
            if (state == 1) sent.push_back(kind<Payload>::sent(t));
            e->e.send_message(kind<Payload>::make(t));
            break;
          }
          case 5: mc::note("close"); e->e.send_close(); model(close); break;
          case 6: mc::note("drop"); e.reset(); held_ = false; break;
        }
        std::vector<string> out;
        for (int j = 0, n = socket["sent"]["length"].as<int>(); j < n; j++) out.push_back(socket["sent"][j].as<string>());
        mc::check(got == want, mc::str("the handlers were given ", joined(got), " instead of ", joined(want)));
        mc::check(out == sent, mc::str("sent was ", joined(out), " instead of ", joined(sent)));
        mc::check(socket["errors"]["length"].as<int>() == errors, mc::str("a listener threw ", socket["errors"].call<string>("join", web::jsval(", "))));
        mc::check((state >= 2) == (socket["readyState"].as<int>() >= 2) || !held_, "the socket is closed or not");
        mc::state(mc::str(state, held_, joined(got), "|", joined(out)));
      }
    }
    EM_ASM({ nbdl_sockets.length = 0; });
    mc::check(web::registry() == before, "values are left registered");
    mc::check(web::live_slots == slots, "handles are left");
  }
}
SCENARIO(of_bytes) { histories<std::vector<unsigned char>>(mc::tier(4, 5)); }
SCENARIO(of_characters) { histories<std::vector<char>>(mc::tier(3, 4)); }
SCENARIO(of_json) { histories<json_payload>(mc::tier(4, 5)); }

namespace
{
  // every content: given as it came and sent as it is
  template <typename Payload>
  void contents(bool binary, string const& t)
  {
    EM_ASM({ nbdl_sockets.length = 0; });
    int before = web::registry();
    {
      on_ on; std::vector<string> got;
      on.ready = [] { }; on.close = [] { };
      on.message = [&](string m) { got.push_back(m); };
      held<Payload> e(on);
      auto socket = web::jsval::global("nbdl_sockets")[0];
      socket.call<void>("s_open");
      mc::note(mc::show(t, 60));
      for (int twice = 0; twice < 2; twice++)
      {
        mc::step(); mc::eval();
        if (binary) socket.call<void>("s_message", web::jsval(""), web::jsval(hex(t)));
        else socket.call<void>("s_message", web::jsval(std::is_same_v<Payload, json_payload> ? quoted(t) : t));
        e.e.send_message(kind<Payload>::make(t));
        mc::check(got.size() == std::size_t(twice + 1) && got.back() == t, mc::str("given ", mc::show(got.empty() ? "nothing" : got.back(), 60), " instead of ", mc::show(t, 60)));
        mc::check(socket["sent"]["length"].as<int>() == twice + 1 && socket["sent"][twice].as<string>() == kind<Payload>::sent(t)
        , mc::str("sent ", socket["sent"].call<string>("join", web::jsval(", ")).substr(0, 60), " instead of ", mc::show(t, 60)));
      }
      mc::check(socket["errors"]["length"].as<int>() == 0, "a listener threw");
      socket.call<void>("s_close", web::jsval(1000), web::jsval(false));
      mc::state(t);
    }
    EM_ASM({ nbdl_sockets.length = 0; });
    mc::check(web::registry() == before, "values are left registered");
  }
  string any_bytes()
  {
    int n = mc::choose(4);
    static const char c[] = "\x00\x01\x7f\x80\xc3\xbf\xff" "a";
    switch (n)
    {
      case 0: return string(1, char(mc::choose(256)));
      case 1: { string r; for (int i = 0, m = mc::tier(3, 4); i < m; i++) r += c[mc::choose(8)]; return r; }
      case 2: return string(std::vector<int>{0, 125, 126, 127, 1024, 65535, 65536, 70000}[mc::choose(8)], char(mc::flip() ? 0xfe : 'q'));
      default: { string r; int x = mc::flip() ? 0xff : 0; for (int i = 0; i < 256; i++) r += char(i ^ x); return r; }
    }
  }
  string any_text()
  {
    static const std::vector<string> c{"a", "\"", "\\", "\n", "\x7f", "\xc2\x80", "\xc3\xbf", "\xdf\xbf", "\xe0\xa0\x80", "\xe2\x80\xa8", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf"};
    string r;
    if (mc::flip()) { for (int i = 0, n = std::vector<int>{1, 1024, 65536}[mc::choose(3)]; i < n; i++) r += c[(i * 7) % c.size()]; return r; }
    for (int i = 0, n = mc::choose(mc::tier(3, 4)); i < n; i++) r += c[mc::choose(int(c.size()))];
    return r;
  }
}
SCENARIO(contents_of_bytes) { contents<std::vector<unsigned char>>(true, any_bytes()); }
SCENARIO(contents_of_characters) { contents<std::vector<char>>(true, any_bytes()); }
SCENARIO(contents_of_text) { contents<json_payload>(false, any_text()); }
