// A store that receives messages and may tell the renderer at once.
#ifndef V02_APP_HPP
#define V02_APP_HPP
#include "webui.hpp"
#include <nbdl/apply_message.hpp>
#include <nbdl/match.hpp>
#include <nbdl/notify_state_change.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/webui/detail/dom_manips.hpp>
#include <nbdl/webui/html.hpp>
#include <boost/hana.hpp>
#include <functional>

namespace hana = boost::hana;
namespace html = nbdl::webui::html;
namespace ui = nbdl::ui_spec;
using namespace hana::literals;
using std::string;

inline auto row_of(string const& t) { return hana::make_map(hana::make_pair("t"_s, t)); }
using row_t = decltype(row_of(""));
using rows_t = std::vector<row_t>;
inline rows_t rows_of(std::vector<string> const& ts) { rows_t r; for (auto& t : ts) r.push_back(row_of(t)); return r; }
inline auto values()
{
  return hana::make_map(hana::make_pair("n"_s, 0), hana::make_pair("s"_s, string("x")), hana::make_pair("o"_s, nbdl::optional<string>())
  , hana::make_pair("l"_s, rows_t{}));
}
struct app_tag { };
struct app
{
  using hana_tag = app_tag;
  decltype(values()) v = values();
  std::function<void()> changed;
  int messages = 0;
  app() = default;
  app(app const&) = delete;
};
namespace nbdl
{
  template <> struct apply_message_impl<app_tag>
  {
    template <typename Store, typename Message>
    static bool apply(Store& s, Message&& m)
    {
      s.messages++;
      m(s.v);
      if (s.changed) s.changed();
      return true;
    }
  };
  template <> struct get_impl<app_tag>
  {
    template <typename Store, typename Key>
    static constexpr decltype(auto) apply(Store&& s, Key&& k) { return nbdl::get(std::forward<Store>(s).v, std::forward<Key>(k)); }
  };
}
inline std::vector<string> calls;
template <typename ...A> void called(A const&... a) { calls.push_back(mc::str(a...)); }
inline string joined(std::vector<string> const& c) { string r; for (auto& x : c) r += (r.empty() ? "" : ", ") + x; return r.empty() ? "nothing" : r; }
inline std::vector<web::jsval> find(web::jsval const& root, char const* tag)
{
  auto a = web::jsval::global("nbdl_find")(root, web::jsval(tag));
  std::vector<web::jsval> r;
  for (int i = 0, n = a["length"].as<int>(); i < n; i++) r.push_back(a[i]);
  return r;
}
inline web::jsval dispatch(web::jsval const& el, char const* type, char const* key = "")
{
  auto ev = web::jsval::global("nbdl_event")(web::jsval(type), web::jsval(key));
  el.call<void>("dispatchEvent", ev);
  return ev;
}
inline string js_text(nbdl::js::val const& v) { return static_cast<emscripten::val>(v).as<string>(); }
#endif
