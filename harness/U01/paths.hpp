#pragma once
// every path spec over a store of three levels with optional parts, in every state of the store
#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/ui_helper/match_path_spec.hpp>
#include <nbdl/ui_helper/match_params_spec.hpp>
#include <nbdl/variant.hpp>
#include <string>

namespace hana = boost::hana;
namespace spec = nbdl::ui_spec;

namespace
{
  constexpr int depth = 3;
  template <int d> struct level;
  template <> struct level<depth> { using type = std::string; static type make() { return mc::str("leaf"); } };
  template <int d> struct level
  {
    using next = typename level<d + 1>::type;
    using type = hana::map<hana::pair<hana::int_<0>, nbdl::optional<next>>, hana::pair<hana::int_<1>, next>>;
    static type make()
    {
      nbdl::optional<next> o;
      if (mc::flip()) o = level<d + 1>::make();
      return hana::make_map(hana::make_pair(hana::int_c<0>, o), hana::make_pair(hana::int_c<1>, level<d + 1>::make()));
    }
  };
  using root = level<0>::type;
  struct wrong { };

  // what a spec must find: nothing, or this object
  struct found { void const* at = nullptr; char const* type = ""; int calls = 0; };
  template <typename T> char const* type_name() { return typeid(T).name(); }
  template <typename T> found hit(T const& x) { return {&x, type_name<T>(), 1}; }

  enum op { end_, get0, get1, when0, nothing0, wrong0, when1, wrong1 };

  // the model: walk the store
  template <int d, op ...> struct walk;
  template <int d> struct walk<d>
  {
    template <typename T> static found at(T const& x) { return hit(x); }
    template <typename T> static found after_optional(T const& o) { return after(o); }
    template <typename T> static found after(T const& o)
    { found f; o.match([&](nbdl::nothing const& n) { f = hit(n); }, [&](auto const& x) { f = hit(x); }); return f; }
  };
  template <int d, op o, op ...rest> struct walk<d, o, rest...>
  {
    template <typename T> static found at(T const& x)
    {
      using next = typename level<d>::next;
      auto& opt = x[hana::int_c<0>];
      auto& sub = x[hana::int_c<1>];
      found f;
      if constexpr (o == get1 || o == when1) return walk<d + 1, rest...>::at(sub);
      else if constexpr (o == wrong1 || o == wrong0) return f;
      else if constexpr (o == nothing0) { opt.match([&](nbdl::nothing const& n) { f = hit(n); }, [](auto const&) { }); return f; }
      else if constexpr (o == when0) { opt.match([](nbdl::nothing const&) { }, [&](next const& y) { f = walk<d + 1, rest...>::at(y); }); return f; }
      else { opt.match([&](nbdl::nothing const& n) { f = stay<rest...>(n); }, [&](next const& y) { f = walk<d + 1, rest...>::at(y); }); return f; }
    }
    // where there is nothing, the keys that follow find nothing
    template <op ...more> static found stay(nbdl::nothing const& n)
    {
      found f = hit(n); bool done = false;
      ([&](op m) { if (!done && m != get0 && m != get1) { done = true; if (m != nothing0) f = found{}; } }(more), ...);
      return f;
    }
  };

  // the spec
  template <int d, op ...> struct build { template <typename P> static auto on(P p) { return p; } };
  template <int d, op o, op ...rest> struct build<d, o, rest...>
  {
    template <typename P> static auto on(P p)
    {
      using next = typename level<d>::next;
      constexpr auto k = [] { if constexpr (o == get1 || o == when1 || o == wrong1) return hana::int_c<1>; else return hana::int_c<0>; }();
      auto q = [&] { if constexpr (d == 0) return spec::get(k); else return spec::get(p, k); }();
      if constexpr (o == get0 || o == get1) return build<d + 1, rest...>::on(q);
      else if constexpr (o == when0 || o == when1) return build<d + 1, rest...>::on(spec::match_when<next>(q));
      else if constexpr (o == nothing0) return spec::match_when<nbdl::nothing>(q);
      else return build<d + 1, rest...>::on(spec::match_when<wrong>(q));
    }
  };
  char const* op_names[] = {"", "0", "1", "0?", "0:nothing", "0:wrong", "1!", "1:wrong"};

  template <op ...ops> void one(root const& store)
  {
    if (mc::failed()) return;
    mc::eval();
    auto s = build<0, ops...>::on(0);
    std::string name = "path"; ((name += std::string(" ") + op_names[ops]), ...);
    found want = walk<0, ops...>::at(store);
    found got;
    nbdl::ui_helper::match_path_spec(store, s, [&](auto const& x) { int c = got.calls; got = hit(x); got.calls = c + 1; });
    mc::check(got.calls == want.calls, mc::str(name, ": called ", got.calls, " times instead of ", want.calls));
    mc::check(got.at == want.at && std::string(got.type) == want.type, mc::str(name, ": another value is found"));

    // as a parameter: the same object
    if constexpr (sizeof...(ops) > 2) return;
    found param;
    nbdl::ui_helper::match_params_spec(std::cref(store), mpdef::make_list(s), [&](auto const& x) { int c = param.calls; param = hit(x); param.calls = c + 1; });
    mc::check(param.calls == want.calls && param.at == want.at, mc::str(name, " as a parameter: another value is found"));
  }
  // the predicate: is there a value of this type
  template <typename T, op ...ops> void is_there(root const& store)
  {
    auto s = build<0, ops...>::on(0);
    found want = walk<0, ops...>::at(store);
    bool got = nbdl::ui_helper::match_path_spec_predicate<T, decltype(s)>(store);
    mc::check(got == (want.calls == 1 && std::string(want.type) == type_name<T>()), mc::str("predicate of path", (std::string(" ") + ... + op_names[ops])));
    bool all = nbdl::ui_helper::match_path_spec_predicate<void, decltype(s)>(store);
    mc::check(all, "predicate of any type");
  }

  // all sequences
  template <op ...ops> void all(root const& store)
  {
    constexpr int n = sizeof...(ops);
    constexpr op last = [] { op l = end_; ((l = ops), ...); return l; }();
    if constexpr (n > 0)
    {
      one<ops...>(store);
      if constexpr (last == get0 || last == get1 || last == when0)
      {
        is_there<typename level<n>::type, ops...>(store);
        is_there<nbdl::nothing, ops...>(store);
      }
    }
    // behind a wrong type the compiler looks at nothing; one level more is enough
    if constexpr (n < depth && last != nothing0 && last != wrong0 && last != wrong1)
    {
      all<ops..., get0>(store); all<ops..., get1>(store); all<ops..., when0>(store);
      all<ops..., nothing0>(store); all<ops..., wrong0>(store); all<ops..., when1>(store);
      if constexpr (n < 2) all<ops..., wrong1>(store);
    }
    if constexpr (n > 0 && n < 2 && (last == wrong0 || last == wrong1)) one<ops..., get1>(store);
  }
}

