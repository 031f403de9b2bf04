#ifndef D08_ROUND_HPP
#define D08_ROUND_HPP
#include "webui.hpp"
#include "jsontypes.hpp"
#include <nbdl/binder/js.hpp>
namespace
{
  using namespace jt;
  namespace jb = nbdl::binder::jsoncpp;
  namespace js = nbdl::binder::js;

  // the text of a JavaScript value, and the value of a text
  std::string stringified(nbdl::js::val const& v)
  {
    return web::jsval::global("JSON").call<web::jsval>("stringify", static_cast<web::jsval>(v)).as<std::string>();
  }
  void parsed(nbdl::js::val& v, std::string const& text)
  {
    EM_ASM_({ Module.NBDL_DETAIL_JS_SET($0, JSON.parse(UTF8ToString($1, $2))); }, nbdl::js::get_handle(v), text.data(), text.size());
  }
  template <typename T> void reads_back(T const& v, nbdl::js::val const& from, std::string const& shown, char const* what)
  {
    T back{};
    js::bind_from(from, back);
    mc::check(same(v, back), mc::str(what, " ", shown, " is read as ", text(enc(back))));
  }
  template <typename T> void round(T const& v)
  {
    nbdl::js::init();
    int before = web::registry();
    {
      J want = enc(v);
      mc::note(text(want));
      nbdl::js::val out;
      js::bind_to(out, v);
      std::string got_text = stringified(out);
      auto got = parse(got_text);
      mc::check(got && *got == want, mc::str("written as ", mc::show(got_text, 200), " instead of ", text(want)));
      if (mc::failed()) return;
      // the server's binder reads what the browser writes, and the browser what the server writes
      {
        T back{};
        try { jb::from_string(got_text, back); mc::check(same(v, back), "the server reads another value"); }
        catch (std::exception& e) { mc::fail(mc::str("the server does not read ", got_text, ": ", e.what())); }
      }
      reads_back(v, out, got_text, "its own value");
      nbdl::js::val in;
      std::string served = jb::to_string(v);
      parsed(in, served);
      reads_back(v, in, served, "the server's");
      mc::check(web::jsval::global("JSON").call<web::jsval>("stringify", static_cast<web::jsval>(out)).as<std::string>() == got_text, "reading changed the value");
      mc::state(got_text); mc::step(); mc::eval();
    }
    mc::check(web::registry() == before, "values are left registered");
  }
  template <typename T> void generated(int quick, int deep = 0) { jt::width = mc::tier(quick, deep ? deep : quick + 1); round(gen<T>()); }

}
#endif
