// mc-flags: --node
// Every history of the location and of the store that follow each other, in a
// browser where pushState tells nobody and every address is kept encoded.
#include <boost/hana.hpp>
#include "webui.hpp"
#include <nbdl/def/directives.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/context.hpp>
#include <nbdl/notify_state_change.hpp>
#include <nbdl/string.hpp>
#include <nbdl/webui/nav_route.hpp>
#include <nbdl/webui/route_map.hpp>
#include <nbdl/webui/set_route.hpp>
#include <map>

namespace hana = boost::hana;
using namespace hana::literals;
namespace message = nbdl::message;
namespace my
{
  struct item { std::size_t id; };
  struct named { nbdl::string name; };
  struct both { nbdl::string name; int id; };
  struct about { };
}
namespace nbdl
{
  NBDL_ENTITY(my::item, id);
  NBDL_ENTITY(my::named, name);
  NBDL_ENTITY(my::both, name, id);
  NBDL_EMPTY(my::about);
}
namespace
{
  using std::string;
  constexpr auto routes = nbdl::webui::make_route_map(
    nbdl::webui::route_pair<>          (""_s)
  , nbdl::webui::route_pair<my::item>  ("item"_s)
  , nbdl::webui::route_pair<my::named> ("n"_s)
  , nbdl::webui::route_pair<my::both>  ("both"_s)
  , nbdl::webui::route_pair<my::about> ("about"_s)
  );
  using variant = decltype(routes)::variant;
  using home = decltype(decltype(routes)::get_type(""_s))::type;
  constexpr auto set_route = nbdl::webui::make_set_route(routes);

  string show(nbdl::webui::route_not_found) { return "nothing"; }
  string show(home const&) { return "home"; }
  string show(my::item const& x) { return mc::str("item ", x.id); }
  string show(my::named const& x) { return mc::str("named ", mc::show(x.name, 60)); }
  string show(my::both const& x) { return mc::str("both ", mc::show(x.name, 60), " ", x.id); }
  string show(my::about const&) { return "about"; }

  constexpr auto nav = hana::make_tuple("nav_route"_s);
  constexpr auto nav_string = hana::make_tuple("nav_route"_s, hana::type_c<nbdl::string>);
  template <typename C> string seen(C const& c)
  {
    string r = "?";
    nbdl::match(c, nav, [&](auto const& x) { r = show(x); });
    nbdl::match(c, nav_string, [&](nbdl::string const& s) { r += " at " + mc::show(s, 60); });
    return r;
  }
  std::vector<string> told;
  struct watcher_tag { };
  template <typename Context> struct watcher
  {
    using hana_tag = watcher_tag;
    Context context;
    template <typename A> watcher(nbdl::actor_initializer<Context, A>&& x) : context(x.context) { }
  };
  struct app { };
  constexpr auto make_app = []
  {
    using namespace nbdl_def;
    return Context(Producers(NavRouteProducer(routes)), Consumers(Consumer(Type<watcher_tag>)));
  };

  string text(my::item const& x) { return mc::str("/item/", x.id); }
  string text(my::named const& x) { return "/n/" + x.name; }
  string text(my::both const& x) { return "/both/" + x.name + "/" + std::to_string(x.id); }
  std::vector<string> const names{
    "a", "a b", "\xc3\xa9\xf0\x9f\x98\x80", "50%", "%41", "?q=1", "#x", "a&b=c+d;,:@$!'()*~", "\"<>`{}|\\^[]", "\x01\x7f", "...", "\xe2\x80\xa8", ".a", "%2E", "%zz" };
}
namespace nbdl
{
  template <> struct make_def_impl<::app> { static constexpr auto apply() -> decltype(make_app()) { return {}; } };
  template <typename C> struct actor_type<::watcher_tag, C> { using type = ::watcher<C>; };
  template <> struct notify_state_change_impl<::watcher_tag>
  { template <typename P, typename X> static void apply(P& p, X const&) { ::told.push_back(::seen(p.context)); } };
}
namespace
{
  struct page { string path, route; };          // the decoded part behind the prefix, and its route
  struct world
  {
    string prefix;
    std::vector<page> entries;
    int at = 0;
    string now() const { return entries[at].route + " at " + mc::show(entries[at].path, 60); }
    void push(page p) { entries.resize(at + 1); entries.push_back(p); at++; }
  };
  string quote(string const& s) { return mc::show(s, 80); }

  using web::jsval;
  auto make() { return nbdl::make_unique_context<app>(); }
  struct life
  {
    web::jsval history = jsval::global("history");
    int before;
    world w;
    decltype(make()) ctx;
    life(string prefix, string url, page p)
    {
      web::new_root();
      before = web::registry();
      told.clear();
      w.prefix = prefix;
      w.entries = {p};
      history.call<void>("s_start", jsval(prefix + url));
      mc::note(mc::str("begin at ", prefix + url));
      jsval::global("Module").set("NBDL_WEBUI_NAV_URI_PREFIX", jsval(prefix));
      ctx = make();
    }
    // both show where we are, and who is told last saw that
    void same(bool changed)
    {
      mc::step(); mc::eval();
      string s = seen(*ctx);
      mc::check(s == w.now(), mc::str("the store is ", s, " instead of ", w.now()));
      if (changed) mc::check(!told.empty() && told.back() == w.now(), mc::str("a consumer that is told saw ", told.empty() ? "nothing" : told.back(), " instead of ", w.now()));
      // the location read the way a page does
      string path = jsval::global("location")["pathname"].as<string>();
      string decoded = "?";
      try { decoded = jsval::global("nbdl_decoded")(path).as<string>(); } catch (std::exception const&) { decoded = path; }
      mc::check(decoded == w.prefix + w.entries[w.at].path, mc::str("the location is ", quote(decoded), " instead of ", quote(w.prefix + w.entries[w.at].path)));
      mc::check(jsval::global("location")["search"].as<string>() == "" && jsval::global("location")["hash"].as<string>() == "", "the path went elsewhere in the address");
      mc::check(history["length"].as<int>() == int(w.entries.size()), "entries of the history");
      mc::state(mc::str(w.prefix, w.at, w.entries.size(), w.now()));
    }
    template <typename P> void send(P const& payload, page p)
    {
      mc::note(mc::str("send ", p.route, " ", p.path));
      w.push(p);
      told.clear();
      nbdl::apply_message(*ctx, message::make_upstream_update(nav, message::no_uid, payload));
    }
    template <typename R> void send_route(R const& r, int how)
    {
      page p{text(r), show(r)};
      if (how == 0) send(r, p);
      else if (how == 1) send(variant(r), p);
      else
      {
        mc::note("set_route");
        w.push(p); told.clear();
        auto go = [&](auto&& m) { nbdl::apply_message(*ctx, std::forward<decltype(m)>(m)); };
        if constexpr (std::is_same_v<R, my::item>) set_route("item"_s)(go, r);
        else if constexpr (std::is_same_v<R, my::named>) set_route("n"_s)(go, r);
        else set_route("both"_s)(go, r);
      }
    }
    void send_string(string const& s, string route)
    {
      mc::note(mc::str("send the path ", quote(s)));
      w.push({s, route}); told.clear();
      nbdl::apply_message(*ctx, message::make_upstream_update(nav_string, message::no_uid, nbdl::string(s)));
    }
    void end()
    {
      ctx.reset();
      told.clear();
      // an event that comes later
      mc::note("after the end");
      try { history.call<void>("s_pop"); }
      catch (std::exception const& e) { mc::fail(mc::str("after the context is gone: ", e.what())); }
      mc::check(told.empty(), "told after the end");
      mc::check(web::registry() == before, "values are left registered");
    }
  };
  template <typename F> void guarded(F f)
  { try { f(); } catch (web::js_error const& e) { mc::fail(e.what()); } catch (std::exception const& e) { mc::fail(mc::str("threw ", e.what())); } }

  // ---- sequences
  void sequences(int depth)
  {
    guarded([&]
    {
      string prefix = mc::flip() ? "/app" : "";
      life l(prefix, mc::flip() ? "/item/3" : "/", {"/", "home"});
      if (jsval::global("location")["pathname"].as<string>() == prefix + "/item/3") l.w.entries[0] = {"/item/3", "item 3"};
      l.same(false);
      for (int i = 0; i < depth && !mc::failed(); i++)
      {
        bool back = l.w.at > 0, forth = l.w.at + 1 < int(l.w.entries.size());
        std::vector<int> can{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10};
        if (back) can.push_back(11);
        if (forth) can.push_back(12);
        bool changed = true;
        switch (mc::pick(can))
        {
          case 0: l.send_route(my::item{7}, 0); break;
          case 1: l.send_route(my::item{8}, 1); break;
          case 2: l.send_route(my::named{"a b"}, 2); break;
          case 3: l.send_string("/both/x/2", "both \"x\" 2"); break;
          case 4: l.send_string("/elsewhere", "nothing"); break;
          case 5:
            mc::note("send no route"); changed = false; told.clear();
            nbdl::apply_message(*l.ctx, message::make_upstream_update(nav, message::no_uid, variant{}));
            break;
          case 6:
            mc::note("visit"); told.clear();
            l.w.push({"/n/a c", "named \"a c\""});
            l.history.call<void>("s_visit", jsval(l.w.prefix + "/n/a%20c"));
            break;
          case 7: 
            mc::note("visit what is no route"); told.clear();
            l.w.push({"/item/x", "nothing"});
            l.history.call<void>("s_visit", jsval(l.w.prefix + "/item/x"));
            break;
          case 8: l.send(home{}, {"/", "home"}); break;
          case 9: l.send(my::about{}, {"/about", "about"}); break;
          case 10: mc::note("set_route about"); l.w.push({"/about", "about"}); told.clear(); set_route("about"_s)([&](auto&& m) { nbdl::apply_message(*l.ctx, std::forward<decltype(m)>(m)); }); break;
          case 11: mc::note("back"); l.w.at--; told.clear(); l.history.call<void>("s_go", jsval(-1)); break;
          case 12: mc::note("forth"); l.w.at++; told.clear(); l.history.call<void>("s_go", jsval(1)); break;
        }
        l.same(changed);
      }
      l.end();
    });
  }
  // ---- every content of a path
  string name()
  {
    int const how = mc::choose(3);
    if (how == 0) return mc::pick(names);
    if (how == 1)
    {
      // each ASCII character on its own, and between others
      string c(1, char(1 + mc::choose(127)));
      if (c == "/" || c == ".") c = "x";
      return mc::flip() ? c : "a" + c + "b";
    }
    string r;
    static const std::vector<string> parts{"a", "%", " ", "2", "5", "0", "?", "#", "\xc3\xa9", "."};
    for (int i = 0, n = mc::tier(2, 3); i <= n; i++) r += mc::pick(parts);
    if (r.find_first_not_of('.') == string::npos) r += "x";
    return r;
  }
  void contents()
  {
    guarded([&]
    {
      string const n = name();
      life l(mc::flip() ? "/app" : "", "/", {"/", "home"});
      switch (mc::choose(4))
      {
        case 0: l.send_route(my::named{n}, 0); break;
        case 1: l.send_route(my::both{n, -5}, 1); l.w.entries.back().route = "nothing"; break;
        case 2: l.send_route(my::both{n, 5}, 2); break;
        case 3: l.send_string("/n/" + n, "named " + mc::show(n, 60)); break;
      }
      l.same(true);
      l.send_route(my::item{1}, 0);
      l.same(true);
      mc::note("back"); l.w.at--; told.clear(); l.history.call<void>("s_go", jsval(-1));
      l.same(true);
      l.end();
    });
  }
  // ---- every address that a user may come from
  void addresses()
  {
    struct a { string url, path, route; };
    static const std::vector<a> all{
      {"/", "/", "home"}, {"/item/12", "/item/12", "item 12"}, {"/item/12?x=1#y", "/item/12", "item 12"}, {"/item/0", "/item/0", "nothing"},
      {"/n/caf%C3%A9", "/n/caf\xc3\xa9", "named \"caf\\xc3\\xa9\""}, {"/n/a+b", "/n/a+b", "named \"a+b\""}, {"/n/a%20b", "/n/a b", "named \"a b\""},
      {"/n/%25", "/n/%", "named \"%\""}, {"/n/%F0%9F%98%80", "/n/\xf0\x9f\x98\x80", "named \"\\xf0\\x9f\\x98\\x80\""}, {"/n/x/", "/n/x/", "named \"x\""}, {"/both/a%3Fb/3", "/both/a?b/3", "both \"a?b\" 3"},
      {"/nothing/of/this", "/nothing/of/this", "nothing"}, {"/about", "/about", "about"}, {"/about/", "/about/", "about"},
      {"/n/%zz", "/n/%zz", ""}, {"/n/%C3", "/n/%C3", ""}, {"/%zz/%41", "/%zz/%41", ""}, {"", "", "nothing"} };
    guarded([&]
    {
      auto const& x = mc::pick(all);
      string prefix = mc::flip() ? "/app" : "";
      if (prefix.empty() && x.url.empty()) return;
      bool visit = mc::flip();
      life l(prefix, visit ? "/item/9" : x.url, visit ? page{"/item/9", "item 9"} : page{x.path, x.route});
      if (visit)
      {
        l.same(false); mc::note("visit " + x.url); told.clear(); l.w.push({x.path, x.route});
        l.history.call<void>("s_visit", jsval(prefix + x.url));
      }
      // what is not well encoded is something, but nothing breaks
      if (x.route.empty()) { seen(*l.ctx); mc::step(); mc::eval(); mc::state(x.url); }
      else
      {
        string s = seen(*l.ctx);
        mc::step(); mc::eval(); mc::state(prefix + x.url + s);
        mc::check(s == l.w.now(), mc::str("at ", x.url, " the store is ", s, " instead of ", l.w.now()));
      }
      l.send_route(my::item{1}, 0);
      if (x.url.find_first_of("?#") == string::npos) l.same(true);
      l.end();
    });
  }
  // ---- an address outside the prefix
  void outside()
  {
    guarded([&]
    {
      static const std::vector<string> all{"/", "/x", "/ap", "/other/item/1"};
      web::new_root();
      jsval::global("history").call<void>("s_start", jsval(mc::pick(all)));
      jsval::global("Module").set("NBDL_WEBUI_NAV_URI_PREFIX", jsval("/app"));
      auto ctx = make();
      mc::step(); mc::eval();
      string s = seen(*ctx);
      mc::check(s.find("nothing") == 0, mc::str("outside the prefix is the route ", s));
      nbdl::apply_message(*ctx, message::make_upstream_update(nav, message::no_uid, my::item{1}));
      s = seen(*ctx);
      mc::check(s == "item 1 at \"/item/1\"", mc::str("then ", s));
      mc::state(s);
    });
  }
}
SCENARIO(histories) { sequences(mc::tier(4, 5)); }
SCENARIO(every_content) { contents(); }
SCENARIO(every_address) { addresses(); }
SCENARIO(outside_of_the_prefix) { outside(); }
