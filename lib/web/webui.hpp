// The document, events and JavaScript values of the browser harnesses.
#ifndef WEB_WEBUI_HPP
#define WEB_WEBUI_HPP
#include "mc.hpp"
#include <nbdl/webui/detail/event_receiver.hpp>
#include <nbdl/js.hpp>

namespace web
{
  // what Emscripten exports as Module.__nbdl_webui_detail_event_callback
  inline at_module export_callback{[](napi_value m)
  {
    function("__nbdl_webui_detail_event_callback", callback1<&nbdl::webui::detail::_nbdl_webui_detail_event_callback>, m);
  }};
  using jsval = emscripten::val;
  inline jsval new_root()
  {
    nbdl::js::init();
    return jsval::global("document").call<jsval>("createElement", jsval("root"));
  }
  inline std::string dump(jsval const& el) { return jsval::global("nbdl_dump")(el).as<std::string>(); }
  inline int listeners() { return jsval::global("nbdl_listeners")().as<int>(); }
  // how many entries the table of nbdl's own values has
  inline int registry() { return jsval::global("nbdl_registry")().as<int>(); }
}
#endif
