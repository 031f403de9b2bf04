// mc-flags: --node
#include "app.hpp"
// histories of changes, updates and events on every element there is
namespace
{
  constexpr auto h_top = [](auto) { called("top"); };
  constexpr auto h_one = [](auto, int n, string const& s, auto c) { called("one ", n, s, hana::to<char const*>(c)); };
  constexpr auto h_some = [](auto, string const& o) { called("some ", o); };
  constexpr auto h_none = [](auto) { called("none"); };
  constexpr auto h_row = [](auto, string const& t, int n) { called("row ", t, n); };
  constexpr auto h_key = [](auto, auto const& ev, string const& s) { called("key ", js_text(nbdl::js::val(ev)) == "[object Object]" ? emscripten::val(ev)["key"].template as<string>() : "?", s); };
  constexpr auto twice = [](int n) { return n * 2; };
  constexpr auto h_fn = [](auto, int n, auto const& o) { called("fn ", n, string(hana::to<char const*>(o))); };
  struct row_spec { template <typename X> constexpr auto operator()(X x) const { return html::li(html::on_click(h_row, ui::get(x, "t"_s), ui::get("n"_s)), html::text_node(ui::get(x, "t"_s))); } };
  template <typename V> bool has_o(V& v) { bool r = false; nbdl::match(v["o"_s], hana::overload([&](string const&) { r = true; }, [](auto const&) { })); return r; }
  auto spec()
  {
    return html::div(html::on_click(h_top)
    , html::element("one"_s, html::on_click(h_one, ui::get("n"_s), ui::get("s"_s), "c"_s), html::on_key_up(h_key, ui::get(html::event_data), ui::get("s"_s)))
    , html::element("fn"_s, html::on_key_down(h_fn, ui::apply(twice)(ui::get("n"_s)), ui::match(ui::get("o"_s), ui::when<string>("yes"_s), ui::when<>("no"_s))))
    , ui::match(ui::get("o"_s), ui::when<string>([](auto p) { return html::element("some"_s, html::on_click(h_some, p), html::text_node(p)); }), ui::when<>(html::element("none"_s, html::on_click(h_none))))
    , html::ul(ui::for_each(ui::get("l"_s), row_spec{})));
  }
}
void events(int first, int depth)
{
  calls.clear();
  long slots = web::live_slots;
  {
    auto root = web::new_root();
    int before = web::registry();
    app a;
    bool shown_some = false; std::vector<string> rows;
    {
      auto r = nbdl::webui::make_renderer<nbdl::webui::renderer<decltype(spec())>>(std::ref(a), root);
      auto& v = a.v;
      for (int i = 0; i < depth && !mc::failed(); i++)
      {
        mc::step();
        std::vector<string> want;
        auto click = [&](char const* tag, std::vector<string> w)
        {
          calls.clear();
          auto els = find(root, tag);
          mc::note(mc::str("click ", tag));
          if (els.size() != 1) { mc::fail(mc::str(els.size(), " elements ", tag)); return; }
          dispatch(els[0], "click");
          w.push_back("top");
          mc::check(calls == w, mc::str("a click on ", tag, " calls ", joined(calls), " instead of ", joined(w)));
        };
        mc::eval();
        switch (i == 0 && first >= 0 ? first : mc::choose(10))
        {
          case 0: v["n"_s]++; mc::note("n changes"); break;
          case 1: v["s"_s] += "y"; mc::note("s changes"); break;
          case 2:
            if (has_o(v)) v["o"_s] = nbdl::optional<string>();
            else v["o"_s] = string("o") + std::to_string(v["n"_s]);
            mc::note("o changes"); break;
          case 3:
          {
            nbdl::notify_state_change(r, hana::type_c<void>);
            shown_some = has_o(v);
            mc::note("update"); break;
          }
          case 4: case 5:
          {
            // rows change along with an update
            if (rows.size() < 2 && mc::flip()) rows.push_back(rows.empty() ? "a" : "b"); else if (!rows.empty()) rows.erase(rows.begin());
            v["l"_s] = rows_of(rows);
            nbdl::notify_state_change(r, hana::type_c<void>);
            shown_some = has_o(v);
            mc::note("rows change"); break;
          }
          case 6: click("one", {mc::str("one ", v["n"_s], v["s"_s], "c")}); break;
          case 7:
          {
            string o; bool has = false;
            nbdl::match(v["o"_s], hana::overload([&](string const& x) { o = x; has = true; }, [](auto const&) { }));
            if (!shown_some) click("none", {"none"});
            else click("some", has ? std::vector<string>{"some " + o} : std::vector<string>{});
            break;
          }
          case 8:
          {
            auto els = find(root, "li");
            mc::check(els.size() == rows.size(), "rows are missing");
            if (els.size() != rows.size() || els.empty()) break;
            int k = mc::choose(int(els.size()));
            mc::note(mc::str("click row ", k));
            calls.clear();
            dispatch(els[k], "click");
            std::vector<string> w{mc::str("row ", rows[k], v["n"_s]), "top"};
            mc::check(calls == w, mc::str("a click on a row calls ", joined(calls), " instead of ", joined(w)));
            break;
          }
          case 9:
          {
            bool has = has_o(v);
            bool up = mc::flip();
            mc::note(up ? "key up" : "key down");
            calls.clear();
            dispatch(find(root, up ? "one" : "fn").at(0), up ? "keyup" : "keydown", "k");
            std::vector<string> w{up ? mc::str("key k", v["s"_s]) : mc::str("fn ", v["n"_s] * 2, has ? "yes" : "no")};
            mc::check(calls == w, mc::str("a key calls ", joined(calls), " instead of ", joined(w)));
            break;
          }
        }
        mc::state(mc::str(joined(calls), "|", web::dump(root)));
      }
    }
    mc::check(web::listeners() == 0, "listeners are left when the renderer is gone");
    mc::check(web::registry() == before, "values of the renderer are still registered after it is gone");
  }
  mc::check(web::live_slots == slots, "handles are left");
}
SCENARIO(histories) { events(-1, mc::tier(4, 5)); }
// hundreds of rows, each of which has a handler of its own
SCENARIO(many_rows)
{
  calls.clear();
  int was = mc::pick(std::vector<int>{0, 1, 100}), n = mc::pick(std::vector<int>{100, 257});
  auto root = web::new_root();
  int before = web::registry();
  app a;
  auto fill = [&](int n, int salt) { std::vector<string> t; for (int i = 0; i < n; i++) t.push_back(mc::str("r", i * 7 + salt)); a.v["l"_s] = rows_of(t); };
  fill(was, 0);
  {
    auto r = nbdl::webui::make_renderer<nbdl::webui::renderer<decltype(spec())>>(std::ref(a), root);
    fill(n, 3);
    nbdl::notify_state_change(r, hana::type_c<void>);
    auto els = find(root, "li");
    mc::check(int(els.size()) == n, "rows are missing");
    for (int i = 0; i < n && !mc::failed(); i += i < 3 || i > n - 3 ? 1 : 9)
    {
      calls.clear();
      a.v["n"_s] = i;
      dispatch(els[i], "click");
      std::vector<string> w{mc::str("row r", i * 7 + 3, i), "top"};
      mc::check(calls == w, mc::str("a click on row ", i, " of ", n, " calls ", joined(calls), " instead of ", joined(w)));
      mc::step();
    }
    mc::eval();
  }
  mc::check(web::listeners() == 0, "listeners are left when the renderer is gone");
  mc::check(web::registry() == before, "values of the renderer are still registered after it is gone");
}
