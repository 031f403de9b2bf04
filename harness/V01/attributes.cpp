// mc-flags: --node
#include "specs.hpp"
// attributes, properties and classes
namespace
{
  // an element with things on it; want() gives its start tag's contents
  template <typename ...P>
  struct with
  {
    static constexpr unsigned uses = (P::uses | ... | 0);
    static constexpr auto make() { return html::div(P::make()...); }
    static void want(doc& d, at a)
    {
      std::map<string, string> m; string classes;
      (P::put(m, a), ...);
      d.raw("<div");
      for (auto& [k, v] : m) if (k != "class" && k[0] != '.') d.raw(" " + k + "=\"" + esc(v) + "\"");
        else if (k == "class" && !v.empty()) d.raw(" class=\"" + esc(v) + "\"");
      for (auto& [k, v] : m) if (k[0] == '.') d.raw(" " + k + "=\"" + esc(v) + "\"");
      d.raw(">");
      (P::inside(d, a), ...);
      d.raw("</div>");
    }
    static string esc(string const& t) { string r; for (char c : t) { if (c == '&') r += "&amp;"; else if (c == '<') r += "&lt;"; else if (c == '"') r += "&quot;"; else r += c; } return r; }
  };
  using attrs = std::map<string, string>;
  struct on { static constexpr unsigned uses = 0; static void inside(doc&, at) { } };
  struct const_attr : on { static constexpr auto make() { return html::attribute("id"_s, "a \"b\""_s); } static void put(attrs& m, at) { m["id"] = "a \"b\""; } };
  struct path_attr : on { static constexpr unsigned uses = S; static constexpr auto make() { return html::attribute("title"_s, ui::get("s"_s)); } static void put(attrs& m, at a) { m["title"] = a.s.s; } };
  struct cat_attr : on { static constexpr unsigned uses = S | O; static constexpr auto make()
    { return html::attribute("href"_s, ui::concat("/"_s, ui::get("s"_s), "?"_s, ui::match(ui::get("o"_s), ui::when<string>([](auto p) { return ui::concat("o="_s, p); }), ui::when<>("none"_s)), ui::get("s"_s))); }
    static void put(attrs& m, at a) { m["href"] = "/" + a.s.s + "?" + (a.s.o ? "o=" + *a.s.o : "none") + a.s.s; } };
  struct cond_attr : on { static constexpr unsigned uses = S | N; static constexpr auto make()
    { return html::attribute("rel"_s, ui::match_if(ui::get("n"_s), ui::cond(ui::equal(hana::int_c<0>), ui::get("s"_s)), ui::cond(ui::equal(hana::int_c<7>), ""_s), ui::otherwise(ui::concat("("_s, ui::get("s"_s), ")"_s)))); }
    static void put(attrs& m, at a) { m["rel"] = a.s.n == 0 ? a.s.s : a.s.n == 7 ? "" : "(" + a.s.s + ")"; } };
  struct const_prop : on { static constexpr auto make() { return html::set_property("type"_s, "text"_s); } static void put(attrs& m, at) { m[".type"] = "text"; } };
  struct path_prop : on { static constexpr unsigned uses = S; static constexpr auto make() { return html::set_property("value"_s, ui::concat(ui::get("s"_s), "!"_s)); } static void put(attrs& m, at a) { m[".value"] = a.s.s + "!"; } };
  inline constexpr auto positive = [](int n) { return n > 0; };
  inline constexpr auto empty = [](string const& s) { return s.empty(); };
  struct attr_if : on { static constexpr unsigned uses = N; static constexpr auto make() { return html::add_attribute_if("disabled"_s, ui::get("n"_s), positive); } static void put(attrs& m, at a) { if (a.s.n > 0) m["disabled"] = ""; } };
  struct attr_if_empty : on { static constexpr unsigned uses = S; static constexpr auto make() { return html::add_attribute_if("hidden"_s, ui::get("s"_s), empty); } static void put(attrs& m, at a) { if (a.s.s.empty()) m["hidden"] = ""; } };
  inline void add_class(attrs& m, string const& c)
  {
    std::set<string> all; auto& v = m["class"];
    for (auto const& l : {v, c}) { std::stringstream ss(l); string t; while (ss >> t) all.insert(t); }
    v.clear();
    for (auto& t : all) v += (v.empty() ? "" : " ") + t;
  }
  struct const_class : on { static constexpr auto make() { return html::attr_class("one two"_s); } static void put(attrs& m, at) { add_class(m, "one two"); } };
  struct class_if : on { static constexpr unsigned uses = N; static constexpr auto make() { return html::add_class_if("pos"_s, ui::get("n"_s), positive); } static void put(attrs& m, at a) { if (a.s.n > 0) add_class(m, "pos"); } };
  struct class_when : on { static constexpr unsigned uses = V; static constexpr auto make() { return html::add_class_when<string>("str"_s, ui::get("v"_s)); } static void put(attrs& m, at a) { if (a.s.v.index() == 2) add_class(m, "str"); } };
  struct class_when_int : on { static constexpr unsigned uses = V; static constexpr auto make() { return html::add_class_when<int>("num"_s, ui::get("v"_s)); } static void put(attrs& m, at a) { if (a.s.v.index() == 1) add_class(m, "num"); } };
  struct class_none : on { static constexpr unsigned uses = O; static constexpr auto make() { return html::add_class_when<nbdl::nothing>("none"_s, ui::get("o"_s)); } static void put(attrs& m, at a) { if (!a.s.o) add_class(m, "none"); } };
  template <typename P> struct child { static constexpr unsigned uses = P::uses; static constexpr auto make() { return P::make(); } static void put(attrs&, at) { } static void inside(doc& d, at a) { P::want(d, a); } };
  // a row with its own
  inline constexpr auto is_a = [](string const& s) { return s == "a"; };
  struct r_attrs
  {
    static constexpr unsigned uses = S;
    template <typename X> static constexpr auto make()
    {
      return html::li(html::attribute("title"_s, ui::concat(ui::get(X{}, "t"_s), ui::get("s"_s))), html::add_class_if("is-a"_s, ui::get(X{}, "t"_s), is_a)
      , html::add_class_when<string>("has"_s, ui::get(X{}, "o"_s)), html::text_node(ui::get(X{}, "t"_s)));
    }
    static void want(doc& d, at a)
    {
      string c = a.r->o ? "has" : "";
      if (a.r->t == "a") c += c.empty() ? "is-a" : " is-a";
      d.raw("<li" + (c.empty() ? "" : " class=\"" + c + "\"") + " title=\"" + with<>::esc(a.r->t + a.s.s) + "\">");
      d.text(a.r->t); d.raw("</li>");
    }
  };
}
SCENARIO(constants) { follow<with<const_attr, const_prop, const_class, child<text>>>(); }
SCENARIO(from_paths) { follow<with<path_attr, path_prop, child<fixed>>>(); }
SCENARIO(concatenated) { follow<with<cat_attr, path_prop>>(9000); }
SCENARIO(by_predicates) { follow<with<cond_attr, const_attr>>(9000); }
SCENARIO(added_and_removed) { follow<with<attr_if, attr_if_empty, path_attr>>(9000); }
SCENARIO(classes) { follow<with<const_class, class_if, class_when, class_when_int, class_none>>(9000); }
SCENARIO(classes_alone) { follow<with<class_if, class_when>>(9000); }
SCENARIO(in_branches) { follow<el<opt<with<path_attr, class_if>, with<attr_if, const_class>>>>(9000); }
SCENARIO(in_rows) { follow<el<rows<r_attrs>>>(9000); }
SCENARIO(between_children) { follow<with<child<el<>>, path_attr, child<opt<otext, none>>, class_if, child<cat>>>(9000); }

// every kind of number and of text
SCENARIO(kinds_of_values)
{
  long long n = mc::pick(std::vector<long long>{0, 1, -1, 127, -128, 2147483647, -2147483648LL});
  string s = mc::pick(std::vector<string>{"", "a", string("\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80"), "a\nb", "<b>&amp;</b>", string(300, 'x')});
  auto root = web::new_root();
  auto store = hana::make_map(
    hana::make_pair("i"_s, int(n)), hana::make_pair("u"_s, unsigned(n)), hana::make_pair("l"_s, n), hana::make_pair("h"_s, short(n)), hana::make_pair("b"_s, n != 0)
  , hana::make_pair("s"_s, s), hana::make_pair("k"_s, hana::int_c<3>));
  constexpr auto spec = html::p(html::text_node(ui::concat(ui::get("i"_s), ","_s, ui::get("u"_s), ","_s, ui::get("l"_s), ","_s, ui::get("h"_s), ","_s, ui::get("b"_s), ","_s, ui::get("s"_s), ","_s))
  , html::text_node(hana::int_c<-4>), html::text_node("\xc3\xa9"_s));
  using tag = nbdl::webui::renderer<std::decay_t<decltype(spec)>>;
  auto r = nbdl::webui::make_renderer<tag>(std::ref(store), root);
  doc d; d.raw("<root><p>");
  d.text(std::to_string(int(n)) + "," + std::to_string(unsigned(n)) + "," + std::to_string(n) + "," + std::to_string(short(n)) + "," + (n ? "1," : "0,") + s + ",-4\xc3\xa9");
  d.raw("</p></root>");
  string got = web::dump(root);
  mc::eval();
  mc::check(got == d.s, mc::str("numbers and texts: ", got, " instead of ", d.s));
}

// trusted markup is put in as it is
SCENARIO(markup)
{
  auto root = web::new_root();
  auto store = hana::make_map();
  constexpr auto spec = html::pre(html::attr_class("m"_s), html::unsafe_set_inner_html("<i class=\"x\">&amp;\"</i>"_s));
  using tag = nbdl::webui::renderer<std::decay_t<decltype(spec)>>;
  auto r = nbdl::webui::make_renderer<tag>(std::ref(store), root);
  mc::check(web::dump(root) == "<root><pre class=\"m\"><i class=\"x\">&amp;\"</i></pre></root>", web::dump(root));
  nbdl::notify_state_change(r, hana::type_c<void>);
  mc::check(web::dump(root) == "<root><pre class=\"m\"><i class=\"x\">&amp;\"</i></pre></root>", web::dump(root));
}
