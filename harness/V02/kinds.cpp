// mc-flags: --node
#include "app.hpp"
// kinds of events, file inputs, handlers that end the renderer
namespace
{
  constexpr auto key_of = [](auto const& ev) { return emscripten::val(ev)["key"].template as<string>(); };
  constexpr auto h_ev = [](auto, auto const& ev, int n) { called("ev ", emscripten::val(ev)["type"].template as<string>(), key_of(ev), n); };
  constexpr auto h_two = [](auto, int n, auto const& ev, string const& s, auto const& again) { called("two ", n, key_of(ev), s, key_of(again)); };
  constexpr auto h_plain = [](auto) { called("plain"); };
  auto spec()
  {
    auto ev = ui::get(html::event_data); auto n = ui::get("n"_s);
    return html::element("outer"_s, html::event_attribute("submit"_s, h_plain), html::event_attribute("input"_s, h_two, n, ev, ui::get("s"_s), ev)
    , html::element("form"_s, html::event_attribute("submit"_s, h_ev, ev, n), html::event_attribute("input"_s, h_ev, ev, n), html::event_attribute("change"_s, h_ev, ev, n), html::event_attribute("input"_s, h_plain)
      , html::on_click(h_ev, ev, n), html::on_key_down(h_ev, ev, n), html::on_key_up(h_ev, ev, n)));
  }
  struct set_n { int n; template <typename V> void operator()(V& v) const { v["n"_s] = n; } };
  struct set_l { rows_t l; template <typename V> void operator()(V& v) const { v["l"_s] = l; } };
  constexpr auto h_quit = [](auto send, int n) { send(set_n{n + 1}); called("quit ", n); };
  constexpr auto h_file = [](auto, auto const& ev, int n, string const& s) { called("file ", emscripten::val(ev)["type"].template as<string>(), key_of(ev), n, s); };
  constexpr auto h_pair = [](auto, string const& o, int n) { called("pair ", o, n); };
}
SCENARIO(event_types)
{
  calls.clear();
  auto root = web::new_root();
  app a;
  auto r = nbdl::webui::make_renderer<nbdl::webui::renderer<decltype(spec())>>(std::ref(a), root);
  int depth = mc::tier(3, 4);
  for (int i = 0; i < depth && !mc::failed(); i++)
  {
    mc::step(); mc::eval();
    auto type = mc::pick(std::vector<char const*>{"submit", "input", "change", "click", "keydown", "keyup"});
    bool outer = mc::flip(); if (mc::flip()) { a.v["n"_s]++; a.v["s"_s] += "z"; }
    mc::note(mc::str(type, outer ? " outside" : " inside"));
    string key(1, char('a' + i)), t = type;
    calls.clear();
    auto ev = dispatch(find(root, outer ? "outer" : "form").at(0), type, key.c_str());
    std::vector<string> w;
    int n = a.v["n"_s]; string s = a.v["s"_s];
    if (!outer) { w.push_back(mc::str("ev ", t, key, n)); if (t == "input") w.push_back("plain"); }
    if (t == "submit") w.push_back("plain");
    if (t == "input") w.push_back(mc::str("two ", n, key, s, key));
    mc::check(calls == w, mc::str(type, " calls ", joined(calls), " instead of ", joined(w)));
    mc::check(ev["defaultPrevented"].as<bool>() == (t == "submit"), mc::str("the default of ", type, " is ", ev["defaultPrevented"].as<bool>() ? "prevented" : "not prevented"));
    mc::state(joined(calls));
  }
}
// the store a file input is in says what its handler gets
namespace
{
  auto file_spec()
  {
    return html::div(html::element("a"_s, html::hidden_file_input(h_file, ui::get(html::event_data), ui::get("n"_s), ui::get("s"_s)), html::text_node(ui::get("s"_s)))
    , ui::match(ui::get("o"_s), ui::when<string>([](auto p) { return html::element("b"_s, html::hidden_file_input(h_pair, p, ui::get("n"_s))); }), ui::when<>(html::element("c"_s))));
  }
}
SCENARIO(file_inputs)
{
  calls.clear();
  long slots = web::live_slots;
  {
    auto root = web::new_root();
    int before = web::registry(), opened = 0, want_opened = 0;
    app a; a.v["o"_s] = string("o");
    {
      auto r = nbdl::webui::make_renderer<nbdl::webui::renderer<decltype(file_spec())>>(std::ref(a), root);
      bool shown = true;
      auto inputs = find(root, "input");
      mc::check(inputs.size() == 2, mc::str(inputs.size(), " inputs instead of two"));
      auto count = web::jsval::global("nbdl_counter")();
      for (auto& x : inputs) x.call<void>("addEventListener", web::jsval("click"), count);
      for (auto& x : inputs) mc::check(x.call<string>("getAttribute", web::jsval("type")) == "file", "the input is not for files");
      for (int i = 0; i < mc::tier(4, 5) && !mc::failed(); i++)
      {
        mc::step(); mc::eval();
        calls.clear();
        std::vector<string> w;
        int n = a.v["n"_s]; string s = a.v["s"_s], o; bool has = false;
        nbdl::match(a.v["o"_s], hana::overload([&](string const& x) { o = x; has = true; }, [](auto const&) { }));
        switch (mc::choose(7))
        {
          case 0: a.v["n"_s]++; mc::note("n changes"); break;
          case 1: if (has) a.v["o"_s] = nbdl::optional<string>(); else a.v["o"_s] = string("p"); mc::note("o changes"); break;
          case 2: nbdl::notify_state_change(r, hana::type_c<void>); shown = has; mc::note("update"); break;
          case 3: dispatch(find(root, "a").at(0), "click"); want_opened++; mc::note("click a"); break;
          case 4: mc::check(find(root, "b").size() == shown, "the branch is not there"); if (shown) { dispatch(find(root, "b").at(0), "click"); want_opened++; } mc::note("click b"); break;
          case 5: dispatch(inputs[0], "change", "f"); w = {mc::str("file changef", n, s)}; mc::note("a file"); break;
          case 6: if (shown) { dispatch(inputs[1], "change", "g"); if (has) w = {mc::str("pair ", o, n)}; } mc::note("a file in b"); break;
        }
        opened = count["times"].as<int>();
        mc::check(opened == want_opened, mc::str("file inputs were opened ", opened, " times instead of ", want_opened));
        mc::check(calls == w, mc::str("the handlers called are ", joined(calls), " instead of ", joined(w)));
        mc::state(mc::str(joined(calls), web::dump(root)));
      }
      for (auto& x : inputs) x.call<void>("removeEventListener", web::jsval("click"), count);
    }
    mc::check(web::listeners() == 0, "listeners are left when the renderer is gone");
    mc::check(web::registry() == before, "values of the renderer are still registered after it is gone");
  }
  mc::check(web::live_slots == slots, "handles are left");
}
// a message may end the renderer whose handler sends it
namespace
{
  auto quit_spec()
  {
    return html::element("p"_s, html::on_click(h_plain), html::element("q"_s, html::on_click(h_quit, ui::get("n"_s)), html::on_click(h_plain)
    , html::on_key_down(h_quit, ui::get("n"_s))), html::element("f"_s, html::hidden_file_input(h_quit, ui::get("n"_s)))
    , ui::match_if(ui::get("n"_s), ui::cond(ui::equal(hana::int_c<0>), html::element("z"_s, html::on_click(h_quit, ui::get("n"_s)))), ui::otherwise(html::element("z"_s, html::on_click(h_quit, ui::get("n"_s))))));
  }
}
SCENARIO(a_handler_ends_the_renderer)
{
  calls.clear();
  long slots = web::live_slots;
  {
    auto root = web::new_root();
    int before = web::registry();
    app a;
    using R = decltype(nbdl::webui::make_renderer<nbdl::webui::renderer<decltype(quit_spec())>>(std::ref(a), root));
    auto make = [&] { return std::unique_ptr<R>(new R(nbdl::webui::make_renderer<nbdl::webui::renderer<decltype(quit_spec())>>(std::ref(a), root))); };
    auto r = make();
    int left = mc::choose(2);
    a.changed = [&] { if (left-- == 0) { r.reset(); } else if (r) nbdl::notify_state_change(*r, hana::type_c<void>); };
    for (int i = 0; i < 2 && !mc::failed() && r; i++)
    {
      mc::step(); mc::eval();
      int n = a.v["n"_s];
      calls.clear();
      auto q = find(root, "q").at(0);
      std::vector<string> w;
      bool ends = left == 0;
      switch (mc::choose(4))
      {
        case 0: dispatch(q, "click"); w = {mc::str("quit ", n)}; if (!ends) { w.push_back("plain"); w.push_back("plain"); } mc::note("click q"); break;
        case 1: dispatch(q, "keydown"); w = {mc::str("quit ", n)}; mc::note("key"); break;
        case 2: dispatch(find(root, "input").at(0), "change"); w = {mc::str("quit ", n)}; mc::note("file"); break;
        case 3: dispatch(find(root, "z").at(0), "click"); w = {mc::str("quit ", n)}; if (!ends) w.push_back("plain"); mc::note("click z"); break;
      }
      mc::check(calls == w, mc::str("the handlers called are ", joined(calls), " instead of ", joined(w)));
      mc::check(a.v["n"_s] == n + 1, "the message did not come");
      mc::check(!r == ends, "the renderer");
      mc::state(joined(calls));
    }
    r.reset();
    mc::check(web::listeners() == 0, "listeners are left when the renderer is gone");
    mc::check(web::registry() == before, "values of the renderer are still registered after it is gone");
  }
  mc::check(web::live_slots == slots, "handles are left");
}
