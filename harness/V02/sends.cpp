// mc-flags: --node
#include "app.hpp"
// handlers that send, while the document follows at once, later or not at all
namespace
{
  struct set_n { int n; template <typename V> void operator()(V& v) const { v["n"_s] = n; } };
  struct set_o { nbdl::optional<string> o; template <typename V> void operator()(V& v) const { v["o"_s] = o; } };
  struct set_l { rows_t l; template <typename V> void operator()(V& v) const { v["l"_s] = l; } };
  struct add { template <typename V> void operator()(V& v) const { v["n"_s]++; } };
  string text(row_t const& r) { return r["t"_s]; }
  rows_t without(rows_t const& l, string const& t) { rows_t r; for (auto& x : l) if (text(x) != t) r.push_back(x); return r; }
  constexpr auto h_inc = [](auto send, int n) { send(set_n{n + 1}); called("inc ", n); };
  constexpr auto h_thrice = [](auto send) { send(add{}); send(add{}); send(add{}); called("thrice"); };
  constexpr auto h_clear = [](auto send, string o) { send(set_o{{}}); send(add{}); called("clear ", o); };
  constexpr auto h_set = [](auto send, string s) { send(add{}); send(set_o{s}); called("set ", s); };
  constexpr auto h_remove = [](auto send, string t, rows_t l, int n) { send(set_l{without(l, t)}); send(set_n{n + 10}); called("remove ", t); };
  constexpr auto h_twin = [](auto send, string t, rows_t l) { send(add{}); l.push_back(row_of(t + "'")); send(set_l{l}); send(add{}); called("twin ", t); };
  constexpr auto h_top = [](auto send) { send(add{}); called("top"); };
  struct row_spec { template <typename X> constexpr auto operator()(X x) const { return html::li(html::element("b"_s, html::on_click(h_remove, ui::get(x, "t"_s), ui::get("l"_s), ui::get("n"_s)))
    , html::element("i"_s, html::on_click(h_twin, ui::get(x, "t"_s), ui::get("l"_s))), html::text_node(ui::get(x, "t"_s))); } };
  auto spec()
  {
    return html::div(html::element("inc"_s, html::on_click(h_inc, ui::get("n"_s))), html::element("thrice"_s, html::on_click(h_thrice))
    , ui::match(ui::get("o"_s), ui::when<string>([](auto p) { return html::element("clear"_s, html::on_click(h_clear, p), html::text_node(p)); }), ui::when<>(html::element("set"_s, html::on_click(h_set, ui::get("s"_s)))))
    , html::ul(html::on_click(h_top), ui::for_each(ui::get("l"_s), row_spec{})));
  }
  string esc(string const& s) { return s; }
  string wanted(int n, bool some, string const& o, std::vector<string> const& l)
  {
    (void)n;
    string r = "<root><div><inc></inc><thrice></thrice>";
    r += some ? "<clear>\"" + o + "\"</clear>" : "<set></set>";
    r += "<ul>";
    for (auto& t : l) r += "<li><b></b><i></i>\"" + t + "\"</li>";
    return r + "</ul></div></root>";
  }
}
void sends(int depth, bool at_once)
{
  calls.clear();
  long slots = web::live_slots;
  {
    auto root = web::new_root();
    int before = web::registry();
    app a;
    a.v["l"_s] = rows_of({"a", "b"});
    // the model
    int n = 0, sent = 0; bool some = false; std::vector<string> l{"a", "b"}; string const s = "x";
    {
      auto r = nbdl::webui::make_renderer<nbdl::webui::renderer<decltype(spec())>>(std::ref(a), root);
      int renders = 0;
      auto render = [&] { renders++; nbdl::notify_state_change(r, hana::type_c<void>); };
      if (at_once) a.changed = render;
      for (int i = 0; i < depth && !mc::failed(); i++)
      {
        mc::step(); mc::eval();
        int max = 3 + 2 * int(l.size());
        int c = mc::choose(max);
        std::vector<string> want;
        auto click = [&](char const* tag, int k = 0)
        {
          auto els = find(root, tag);
          mc::note(mc::str("click ", tag, " ", k));
          if (int(els.size()) <= k) { mc::fail(mc::str("no element ", tag, " ", k)); return; }
          calls.clear();
          dispatch(els[k], "click");
        };
        if (c == 0) { click("inc"); want = {mc::str("inc ", n)}; n++; sent++; }
        else if (c == 1) { click("thrice"); want = {"thrice"}; n += 3; sent += 3; }
        else if (c == 2)
        {
          click(some ? "clear" : "set"); want = {some ? "clear x" : "set x"}; some = !some; n++; sent += 2;
        }
        else
        {
          int k = (c - 3) / 2; string t = l[k];
          if (c % 2) { click("b", k); want = {"remove " + t, "top"}; l.erase(std::remove(l.begin(), l.end(), t), l.end()); n += 10; sent += 2; }
          else { click("i", k); want = {"twin " + t, "top"}; l.push_back(t + "'"); n += 2; sent += 3; }
          n++; sent++;
        }
        if (!at_once) render();
        mc::check(calls == want, mc::str("the handlers called are ", joined(calls), " instead of ", joined(want)));
        mc::check(a.messages == sent, mc::str(a.messages, " messages came instead of ", sent));
        mc::check(a.v["n"_s] == n, mc::str("n is ", a.v["n"_s], " instead of ", n));
        if (at_once) mc::check(renders == sent, "the document was not updated for each message");
        string d = web::dump(root), w = wanted(n, some, s, l);
        mc::check(d == w, mc::str("the document is ", d, " instead of ", w));
        mc::state(mc::str(n, "|", d));
      }
    }
    mc::check(web::listeners() == 0, "listeners are left when the renderer is gone");
    mc::check(web::registry() == before, "values of the renderer are still registered after it is gone");
  }
  mc::check(web::live_slots == slots, "handles are left");
}
SCENARIO(sent_and_shown_at_once) { sends(mc::tier(4, 5), true); }
SCENARIO(sent_and_shown_later) { sends(mc::tier(4, 5), false); }
