// Pipelines of three stages of every kind, every behaviour of every stage, against an interpreter.
#ifndef R01_PIPES_HPP
#define R01_PIPES_HPP
#include "mc.hpp"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/try.hpp>
#include <deque>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace hana = boost::hana;

namespace my
{
  inline int& alive() { static int n = 0; return n; }
  // counted: every copy must be gone when the pipe has ended
  struct token
  {
    int* canary = new int(1234);
    token() { alive()++; }
    token(token const& o) { (void)*o.canary; alive()++; }
    token(token&& o) { (void)*o.canary; alive()++; }
    token& operator=(token const&) { return *this; }
    ~token() { alive()--; delete canary; }
    void use() const { if (*canary != 1234) mc::fail("a stage ran after it was destroyed"); }
  };
  struct value { std::string trail; token t; };
  struct A { std::string why; token t; };
  struct B { std::string why; token t; };

  inline std::vector<std::string>& log() { static std::vector<std::string> l; return l; }
  inline std::deque<std::function<void()>>& queue() { static std::deque<std::function<void()>> q; return q; }
  inline void drain() { while (!queue().empty()) { auto f = std::move(queue().front()); queue().pop_front(); f(); } }

  inline std::string show() { return "()"; }
  inline std::string show(value const& v) { v.t.use(); return v.trail; }
  inline std::string show(A const& v) { v.t.use(); return "A" + v.why; }
  inline std::string show(B const& v) { v.t.use(); return "B" + v.why; }
  inline std::string show(std::exception const& e) { return std::string("E") + e.what(); }

  // behaviours of a promise stage
  enum { sync_, later, reject_a, reject_b, reject_a_later, end_, nothing_, behaviours };
  inline std::vector<int>& plan() { static std::vector<int> p; return p; } // by stage
  inline bool& may_defer() { static bool b = true; return b; }

  inline value next(int i) { return value{"v" }; }
  inline value next(int i, value const& v) { return value{mc::str(v.trail, i)}; }

  struct P                              // a promise that does as planned
  {
    int i; token t;
    template <typename R, typename ...X> void operator()(R&& r, X&& ...x)
    {
      t.use();
      log().push_back(mc::str(i, "P", show(x...)));
      switch (plan()[i])
      {
        case sync_: { value v = next(i, x...); r.resolve(v); return; }
        case later: queue().push_back([&r, v = next(i, x...)]() mutable { r.resolve(std::move(v)); }); return;
        case reject_a: r.reject(A{mc::str(i)}); return;
        case reject_b: { B b{mc::str(i)}; r.reject(b); return; }
        case reject_a_later: queue().push_back([&r, i = i] { r.reject(A{mc::str(i)}); }); return;
        case end_: r.terminate(); return;
        default: r(next(i, x...)); return;       // calling the resolver resolves
      }
    }
  };
  struct F                              // a function
  {
    int i; token t;
    template <typename ...X> value operator()(X&& ...x) const { t.use(); log().push_back(mc::str(i, "F", show(x...))); return next(i, x...); }
  };
  struct V                              // a function without a result
  {
    int i; token t;
    template <typename ...X> void operator()(X&& ...x) const { t.use(); log().push_back(mc::str(i, "V", show(x...))); }
  };
  struct T                              // for nbdl::tap
  {
    int i; token t;
    template <typename ...X> void operator()(X&& ...x) const { t.use(); log().push_back(mc::str(i, "T", show(x...))); }
  };
  struct CA { int i; token t; void operator()(A const& a) const { t.use(); log().push_back(mc::str(i, "C", show(a))); } };
  struct CB { int i; token t; void operator()(B const& a) const { t.use(); log().push_back(mc::str(i, "C", show(a))); } };
  struct X                              // for nbdl::try_
  {
    int i; token t;
    template <typename ...Xs> value operator()(Xs&& ...x) const
    {
      t.use();
      log().push_back(mc::str(i, "X", show(x...)));
      if (plan()[i] == 1) throw std::logic_error(mc::str(i));
      if (plan()[i] == 2) throw 42;
      return next(i, x...);
    }
  };
  // rejected or resolved, whatever it is
  struct CZ { int i; token t; template <typename Y> void operator()(Y const& y) const { t.use(); log().push_back(mc::str(i, "Z", show(y))); } };

  enum kind { kP, kF, kV, kT, kCA, kCB, kX, kinds };
  template <int k> auto stage(int i)
  {
    if constexpr (k == kP) return nbdl::promise(P{i});
    else if constexpr (k == kF) return F{i};
    else if constexpr (k == kV) return V{i};
    else if constexpr (k == kT) return nbdl::tap(T{i});
    else if constexpr (k == kCA) return nbdl::catch_(CA{i});
    else if constexpr (k == kCB) return nbdl::catch_(CB{i});
    else return nbdl::try_(X{i});
  }
  inline std::vector<int> choices_of(int k)
  {
    if (k == kP) { if (may_defer()) return {sync_, later, reject_a, reject_b, reject_a_later, end_, nothing_}; return {sync_, reject_a, reject_b, end_, nothing_}; }
    if (k == kX) return {0, 1, 2};
    return {0};
  }

  // the interpreter: what the log must be
  struct ref
  {
    int mode = 0;                       // 0 resolved, 1 rejected, 2 over
    std::string v;                      // value trail, "()" for none
    std::vector<std::string> log;
    void stage(int i, int k, int plan)
    {
      if (mode == 2) return;
      auto advance = [&] { v = v == "()" ? "v" : v + mc::str(i); };
      auto reject = [&](std::string w) { mode = 1; v = w; };
      if (mode == 1)
      {
        if ((k == kCA && v[0] == 'A') || (k == kCB && v[0] == 'B')) { log.push_back(mc::str(i, "C", v)); mode = 2; }
        return;
      }
      switch (k)
      {
        case kP:
          log.push_back(mc::str(i, "P", v));
          if (plan == reject_a || plan == reject_a_later) reject(mc::str("A", i));
          else if (plan == reject_b) reject(mc::str("B", i));
          else if (plan == end_) mode = 2;
          else advance();
          break;
        case kF: log.push_back(mc::str(i, "F", v)); advance(); break;
        case kV: log.push_back(mc::str(i, "V", v)); v = "()"; break;
        case kT: log.push_back(mc::str(i, "T", v)); break;
        case kX:
          log.push_back(mc::str(i, "X", v));
          if (plan == 1) reject(mc::str("E", i)); else if (plan == 2) reject("E?"); else advance();
          break;
        default: break;                  // a catch lets a value pass
      }
    }
    void last(int i) { if (mode == 1) { log.push_back(mc::str(i, "Z", v)); mode = 2; } }
  };
  inline std::string join(std::vector<std::string> const& l) { std::string r; for (auto& s : l) r += s + " "; return r; }

  inline void compare(ref const& want, std::string const& what)
  {
    auto got = log();
    for (auto& s : got) if (s.find("EUnknown") != s.npos) s = s.substr(0, s.find("E")) + "E?";
    mc::check(got == want.log, what + ": stages ran as [" + join(got) + "] instead of [" + join(want.log) + "]");
    mc::check(alive() == 0, mc::str(what, ": ", alive(), " objects of an ended pipe are still there"));
    mc::check(queue().empty(), "queue");
    mc::step(want.log.size());
    mc::state(what + join(want.log));
  }

  template <int a, int b, int c> void run_three()
  {
    alive() = 0; log().clear(); queue().clear();
    int ks[] = {a, b, c};
    plan().assign(4, 0);
    for (int i = 0; i < 3; i++) plan()[i] = mc::pick(choices_of(ks[i]));
    bool with = mc::flip();
    ref want;
    want.v = with ? "s" : "()";
    for (int i = 0; i < 3; i++) want.stage(i, ks[i], plan()[i]);
    want.last(3);
    {
      auto p = nbdl::pipe(stage<a>(0), stage<b>(1), stage<c>(2), nbdl::catch_(CZ{3}));
      if (with) nbdl::run_async(std::move(p), value{"s"}); else nbdl::run_async(std::move(p));
    }
    drain();
    compare(want, mc::str("pipe ", a, b, c, with));
  }
  template <int a> void run_with_first()
  {
    int b = mc::choose(kinds), c = mc::choose(kinds);
    [&]<std::size_t ...n>(std::index_sequence<n...>)
    { ((int(n) == b * kinds + c ? run_three<a, int(n) / kinds, int(n) % kinds>() : void()), ...); }(std::make_index_sequence<kinds * kinds>{});
  }
}
#endif
