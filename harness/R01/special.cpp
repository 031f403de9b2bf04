#include "pipes.hpp"
#include <nbdl/hold.hpp>
#include <nbdl/hold_lazy.hpp>
#include <memory>

namespace
{
  using namespace my;
  void begin() { alive() = 0; log().clear(); queue().clear(); plan().assign(8, 0); }
  void end(std::string const& what)
  {
    drain();
    mc::check(alive() == 0, mc::str(what, ": ", alive(), " objects are still there after the end"));
    mc::step();
  }

  // a promise that decides each time it is asked; what must come next is tracked
  struct machine
  {
    int stages; int budget;
    int at = 0; std::string arg = "s";
    bool over = false;
    int calls = 0;
    std::string history;
  };
  machine* m;
  template <bool sync_only> struct D
  {
    int i; token t;
    template <typename R> void operator()(R& r, value const& v)
    {
      t.use(); v.t.use();
      mc::check(!m->over, "a stage ran after the end of the loop");
      mc::check(m->at == i && m->arg == v.trail, mc::str("stage ", i, " ran with ", v.trail, " instead of stage ", m->at, " with ", m->arg));
      m->calls++;
      int c = m->calls > m->budget ? 2 : mc::choose(sync_only ? 4 : 5);
      m->history += mc::str(i, "abcdef"[c]);
      m->at = (i + 1) % m->stages;
      value next{mc::str(v.trail, i)};
      m->arg = next.trail;
      switch (c)
      {
        case 0: r.resolve(next); return;
        case 1: r(std::move(next)); return;
        case 2: m->over = true; r.terminate(); return;
        case 3: m->over = true; r.reject(A{"x"}); return;
        default: queue().push_back([&r, next]() mutable { r.resolve(next); }); return;
      }
    }
  };
  struct Stop { token t; template <typename Y> void operator()(Y const& y) const { t.use(); log().push_back("stop" + show(y)); } };
}

SCENARIO(loops)
{
  begin();
  machine mm{3, mc::tier(7, 9)}; m = &mm;
  nbdl::run_async_loop(nbdl::pipe(nbdl::promise(D<false>{0}), nbdl::promise(D<false>{1}), nbdl::promise(D<false>{2}), nbdl::catch_(Stop{})), value{"s"});
  drain();
  mc::check(mm.over, "the loop stopped by itself");
  bool rejected = !mm.history.empty() && mm.history.back() == 'd';
  mc::check(log().size() == (rejected ? 1u : 0u), "the handler runs for a rejection, once");
  mc::state(mm.history);
  end("loop");
}

// the last stage's result is the first stage's argument, also around a catch, a tap and a nested pipe
SCENARIO(nested_loops)
{
  begin();
  machine mm{4, mc::tier(6, 8)}; m = &mm;
  auto inner = nbdl::pipe(nbdl::promise(D<false>{1}), nbdl::pipe(nbdl::promise(D<false>{2})), nbdl::catch_([](B const&) { mc::fail("wrong handler"); }));
  nbdl::run_async_loop(nbdl::pipe(nbdl::promise(D<false>{0}), inner, nbdl::tap(T{9}), nbdl::pipe(nbdl::promise(D<false>{3}), nbdl::catch_(Stop{}))), value{"s"});
  drain();
  int taps = 0;
  for (auto& l : log()) taps += l[0] == '9';
  int passed = 0;
  for (std::size_t i = 0; i + 1 < mm.history.size(); i += 2) passed += mm.history[i] == '2' && mm.history[i + 1] != 'c' && mm.history[i + 1] != 'd';
  mc::check(mm.over, "the loop stopped by itself");
  mc::check(taps == passed, mc::str("tap ran ", taps, " times instead of ", passed));
  mc::state(mm.history);
  inner = decltype(inner)(inner);
  alive() -= 2;                          // inner itself
  end("nested loop");
}

// a nested pipe does what its stages would do in its place
SCENARIO(nested)
{
  begin();
  int shape = mc::choose(5);
  int ks[5] = {kP, kF, kCA, kP, kCB};
  for (int i = 0; i < 5; i++) plan()[i] = mc::pick(choices_of(ks[i]));
  ref want; want.v = "s";
  for (int i = 0; i < 5; i++) want.stage(i, ks[i], plan()[i]);
  want.last(5);
  auto z = [] { return nbdl::catch_(CZ{5}); };
  switch (shape)
  {
    case 0: nbdl::run_async(nbdl::pipe(nbdl::pipe(stage<kP>(0), stage<kF>(1)), stage<kCA>(2), nbdl::pipe(stage<kP>(3), stage<kCB>(4)), z()), value{"s"}); break;
    case 1: nbdl::run_async(nbdl::pipe(stage<kP>(0), nbdl::pipe(stage<kF>(1), nbdl::pipe(stage<kCA>(2), stage<kP>(3))), stage<kCB>(4), z()), value{"s"}); break;
    case 2: nbdl::run_async(nbdl::pipe(nbdl::pipe(nbdl::pipe(stage<kP>(0)), stage<kF>(1), stage<kCA>(2), stage<kP>(3), stage<kCB>(4), z())), value{"s"}); break;
    case 3: nbdl::run_async(nbdl::pipe(stage<kP>(0), stage<kF>(1), nbdl::pipe(stage<kCA>(2), stage<kP>(3), stage<kCB>(4), z())), value{"s"}); break;
    default: nbdl::run_async(nbdl::pipe(nbdl::pipe(stage<kP>(0), stage<kF>(1), stage<kCA>(2)), nbdl::pipe(stage<kP>(3)), nbdl::pipe(stage<kCB>(4)), z()), value{"s"}); break;
  }
  drain();
  compare(want, mc::str("nested ", shape));
}

// run_sync: the same, and everything has happened when it returns; a pipe can be run again
SCENARIO(sync_runs)
{
  begin();
  may_defer() = false;
  int ks[4] = {kP, kX, kCA, kP};
  auto p = nbdl::pipe(stage<kP>(0), stage<kX>(1), stage<kCA>(2), stage<kP>(3), nbdl::catch_(CZ{4}));
  int own = alive();
  for (int n = 0; n < 2; n++)
  {
    log().clear();
    for (int i = 0; i < 4; i++) plan()[i] = mc::pick(choices_of(ks[i]));
    ref want; want.v = "s";
    for (int i = 0; i < 4; i++) want.stage(i, ks[i], plan()[i]);
    want.last(4);
    nbdl::run_sync(p, value{"s"});
    mc::check(queue().empty() && alive() == own, mc::str("run_sync leaves ", alive() - own, " objects"));
    auto keep = alive(); alive() = 0; compare(want, mc::str("sync", n)); alive() = keep;
  }
  may_defer() = true;
}

// values reach the next stage as they were passed: moved, referenced or several of them
SCENARIO(arguments)
{
  begin();
  int how = mc::choose(7);
  std::string seen;
  auto last = [&seen](auto&& ...x)
  {
    auto one = [&](auto&& y)
    {
      using Y = std::decay_t<decltype(y)>;
      if constexpr (std::is_same_v<Y, std::unique_ptr<int>>) seen += mc::str("u", y ? *y : -1);
      else if constexpr (std::is_same_v<Y, std::string>) seen += "s" + y;
      else seen += mc::str("i", y);
      seen += ";";
    };
    (one(x), ...);
  };
  switch (how)
  {
    case 0: nbdl::run_async(nbdl::pipe([](std::unique_ptr<int>&& p) { return std::move(p); }, [](std::unique_ptr<int> p) { ++*p; return p; }, last), std::make_unique<int>(4)); mc::check(seen == "u5;", seen); break;
    case 1: nbdl::run_async(nbdl::pipe(nbdl::promise([](auto& r, std::string&& a, int b) { r.resolve(b, std::move(a), std::make_unique<int>(b)); }), last), std::string("text"), 3); mc::check(seen == "i3;stext;u3;", seen); break;
    case 2: { std::string s = "lvalue"; nbdl::run_async(nbdl::pipe([](std::string& a) -> std::string& { a += "!"; return a; }, [](std::string& a) -> std::string& { a += "?"; return a; }, last), s); mc::check(seen == "slvalue!?;" && s == "lvalue!?", seen + s); break; }
    case 3: { std::string s = "const"; nbdl::run_async(nbdl::pipe(nbdl::tap([](auto const& a) { mc::check(a == "const", "tap sees the value"); }), nbdl::tap([](std::string const&) { }), last), std::as_const(s)); mc::check(seen == "sconst;", seen); break; }
    case 5: // a tap that takes a copy, or would take the value away, leaves it to the next stage
      nbdl::run_async(nbdl::pipe(nbdl::tap([](std::string a) { mc::check(a == "to be moved", "tap gets a copy"); a += "!"; }), nbdl::tap([](auto&& a) { std::string b(std::forward<decltype(a)>(a)); mc::check(b == "to be moved", "tap gets the value"); }), last), std::string("to be moved"));
      mc::check(seen == "sto be moved;", seen); break;
    case 4: nbdl::run_async(nbdl::pipe(nbdl::tap([](std::unique_ptr<int> const& p) { mc::check(p && *p == 9, "tap sees the value"); }), [](std::unique_ptr<int> p) { return p; }, nbdl::catch_([](A const&) { }), last), std::make_unique<int>(9)); mc::check(seen == "u9;", seen); break;
    default: nbdl::run_async(nbdl::pipe(nbdl::promise([](auto& r, int) { r.reject(std::make_unique<int>(6), std::string("why")); }), [](int) { mc::fail("skipped stage ran"); return 0; }, nbdl::catch_([](int) { mc::fail("wrong handler"); }), nbdl::catch_([&](std::unique_ptr<int> p, std::string s) { seen = mc::str(*p, s); })), 1); mc::check(seen == "6why", seen); break;
  }
  mc::state(mc::str(how));
  end("arguments");
}

// a held value is one value for the life of the pipe
SCENARIO(held)
{
  begin();
  int rounds = 1 + mc::choose(4);
  int calls = 0, sum = 0;
  bool lazily = mc::flip(), deferred = mc::flip();
  auto count = [&](auto& resolver, value& v)
  {
    calls++;
    v.t.use();
    v.trail += "+";
    mc::check(v.trail == std::string("h") + std::string(lazily ? 1 : calls, '+'), "the held value is " + v.trail);
    if (calls == rounds) { resolver.terminate(); return; }
    if (deferred) queue().push_back([&resolver] { resolver.resolve(); }); else resolver.resolve();
  };
  if (!lazily) nbdl::run_async_loop(nbdl::pipe(nbdl::hold(value{"h"}), nbdl::promise(count)));
  else nbdl::run_async_loop(nbdl::pipe(
      nbdl::hold_lazy([&](auto& resolver)
      {
        struct user : value { };
        // the value answers later, as a connection would
        queue().push_back([&resolver] { value v{"h"}; resolver.resolve(v); });
        return user{value{mc::str("user", sum++)}};
      })
    , nbdl::promise(count)));
  drain();
  mc::check(calls == rounds, mc::str("ran ", calls, " times instead of ", rounds));
  mc::state(mc::str(rounds, lazily, deferred));
  end("held");
}

// what a stage owns and passes on by reference is there until the last stage or handler has returned
namespace
{
  struct Own                            // passes on a reference to what it owns
  {
    int i; value v; std::vector<int> ways; token t;
    template <typename R, typename ...X> void operator()(R& r, X&& ...)
    {
      t.use();
      v.trail = mc::str("own", i);
      int w = mc::pick(ways);
      log().push_back(mc::str(i, "abcd"[w]));
      switch (w)
      {
        case 0: r.resolve(v); return;
        case 1: queue().push_back([&] { r.resolve(v); }); return;
        case 2: r.reject(v); return;
        default: queue().push_back([&] { r.reject(v); }); return;
      }
    }
  };
  struct Reads                          // sees the value, and all of the pipe
  {
    char k; token t; int* pipe_objects;
    value operator()(value const& x) const { look(x); return x; }
    void look(value const& x) const
    {
      t.use(); x.t.use();
      log().push_back(mc::str(k, x.trail));
      mc::check(alive() >= *pipe_objects, mc::str("while ", k, " runs only ", alive(), " of the ", *pipe_objects, " objects of the pipe are there"));
      t.use(); x.t.use();
    }
  };
  struct Handles : Reads { void operator()(value const& x) const { look(x); } };
  struct Ends { token t; int n; template <typename R> void operator()(R& r, value const& x) { x.t.use(); t.use(); if (++n == 2 || mc::flip()) r.terminate(); else r.resolve(x); } };
}
template <typename Run, typename Make> void owned(Run run, Make make)
{
  begin();
  int objects = 0;
  {
    auto p = make(&objects);
    objects = alive();
    run(std::move(p));
    // what is left of p itself
    objects = 0;
  }
  drain();
  std::string l = join(log());
  mc::check(log().size() >= 2, "nothing came after the first stage: " + l);
  for (std::size_t i = 1; i < log().size(); i++)
  {
    // each reader saw what the stage before it owns
    auto& x = log()[i];
    if (x.size() > 1 && x.find("own") != x.npos) mc::check(x.substr(1, 4) == "own0" || x.substr(1, 4) == "own1", "a reader saw " + x);
  }
  mc::state(l);
  end("owned " + l);
}
SCENARIO(owned_by_a_stage)
{
  auto reads = [](char k, int* n) { return Reads{k, token{}, n}; };
  auto handles = [](char k, int* n) { return Handles{{k, token{}, n}}; };
  auto a = [](auto&& p) { nbdl::run_async(std::move(p)); };
  switch (mc::choose(6))
  {
  case 0: owned(a, [&](int* n) { return nbdl::pipe(nbdl::promise(Own{0, {}, {0, 1, 2, 3}}), reads('f', n), nbdl::catch_(handles('z', n))); }); break;
  case 1: owned(a, [&](int* n) { return nbdl::pipe(nbdl::promise(Own{0, {}, {0, 1, 2, 3}}), nbdl::tap(handles('t', n)), nbdl::promise(Own{1, {}, {0, 1, 2, 3}}), nbdl::catch_(handles('z', n))); }); break;
  case 2: owned(a, [&](int* n) { return nbdl::pipe(nbdl::promise(Own{0, {}, {2, 3}}), reads('f', n), nbdl::catch_(handles('z', n)), reads('g', n)); }); break;
  case 3: owned(a, [&](int* n) { return nbdl::pipe(nbdl::pipe(nbdl::promise(Own{0, {}, {0, 1, 2, 3}}), nbdl::catch_([](A const&) { mc::fail("wrong handler"); })), nbdl::pipe(reads('f', n)), nbdl::pipe(nbdl::catch_(handles('z', n)))); }); break;
  case 4: owned(a, [&](int* n) { return nbdl::pipe(nbdl::promise(Own{0, {}, {0, 1, 2, 3}}), nbdl::try_(reads('x', n)), nbdl::catch_([](std::exception const&) { mc::fail("wrong handler"); }), nbdl::catch_(handles('z', n))); }); break;
  case 5: owned([](auto&& p) { nbdl::run_sync(p); }, [&](int* n) { return nbdl::pipe(nbdl::promise(Own{0, {}, {0, 2}}), nbdl::promise(Own{1, {}, {0, 2}}), nbdl::tap(handles('t', n)), nbdl::catch_(handles('z', n)), reads('g', n)); }); break;
  }
}
// the same in a loop, which ends in the middle of a call
SCENARIO(owned_in_a_loop)
{
  begin();
  int n = 0;
  nbdl::run_async_loop(nbdl::pipe(nbdl::promise(Own{0, {}, {0, 1, 2, 3}}), nbdl::promise(Ends{}), nbdl::tap(Handles{{'t', token{}, &n}}), nbdl::catch_(Handles{{'z', token{}, &n}})));
  drain();
  mc::state(join(log()));
  end("owned in a loop " + join(log()));
}
