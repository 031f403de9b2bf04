// pipes of many stages and loops of many rounds
#include "pipes.hpp"
namespace
{
  using namespace my;
  void begin() { alive() = 0; log().clear(); queue().clear(); }

  template <int ...ks, std::size_t ...n> auto many(std::index_sequence<n...>) { return nbdl::pipe(stage<ks>(int(n))..., nbdl::catch_(CZ{int(sizeof...(ks))})); }
  // one or two of the stages do something else than the rest
  template <int ...ks> void run_many()
  {
    begin();
    std::vector<int> k{ks...};
    int n = int(k.size());
    plan().assign(n + 1, 0);
    bool defer = mc::flip();
    for (int i = 0; i < n; i++) if (k[i] == kP && defer) plan()[i] = later;
    for (int odd = 0, at = -1; odd < mc::tier(1, 2); odd++)
    {
      at += 1 + mc::choose(n - at);
      if (at >= n) break;
      plan()[at] = mc::pick(choices_of(k[at]));
    }
    bool with = mc::flip();
    ref want; want.v = with ? "s" : "()";
    for (int i = 0; i < n; i++) want.stage(i, k[i], plan()[i]);
    want.last(n);
    {
      auto p = many<ks...>(std::make_index_sequence<sizeof...(ks)>{});
      if (with) nbdl::run_async(std::move(p), value{"s"}); else nbdl::run_async(std::move(p));
    }
    drain();
    compare(want, mc::str("pipe of ", n, " from ", k[0], k[1], k[2], with));
  }
}
SCENARIO(long_pipes)
{
  switch (mc::choose(6))
  {
    case 0: run_many<kP, kP, kP, kP, kP, kP, kP, kP, kP, kP, kP, kP>(); break;
    case 1: run_many<kF, kF, kF, kF, kF, kF, kF, kF, kF, kF, kF, kF>(); break;
    case 2: run_many<kP, kF, kT, kP, kF, kT, kP, kF, kT, kP, kF>(); break;
    case 3: run_many<kX, kP, kCA, kX, kP, kCB, kX, kP, kCA, kX>(); break;
    case 4: run_many<kV, kP, kV, kX, kV, kT, kP, kV, kF, kCB, kP>(); break;
    default: run_many<kCA, kCB, kCA, kCB, kP, kCA, kCB, kP, kCB, kCA, kP>(); break;
  }
}

namespace
{
  struct Round
  {
    int i, rounds, way; token t; int* calls;
    template <typename R> void operator()(R& r, value const& v)
    {
      t.use(); v.t.use();
      int n = ++*calls;
      mc::check((n - 1) % 3 == i && v.trail == mc::str(n - 1), mc::str("call ", n, " is of stage ", i, " with ", v.trail));
      value next{mc::str(n)};
      if (n >= rounds) { r.terminate(); return; }
      bool defer = way == 0 || (way == 1 && i == 0) || (way == 2 && i == 2) || (way == 3 && n % 50 == 0);
      if (defer) queue().push_back([&r, next]() mutable { r.resolve(next); }); else r.resolve(next);
    }
  };
}
SCENARIO(long_loops)
{
  begin();
  int rounds = mc::pick(std::vector<int>{10, 11, 12, 31, 64, 128, 255, 256, 257, 300, 1000, mc::tier(3000, 70000)}), way = mc::choose(4), calls = 0;
  if (way == 3 && rounds > 1000) return;
  auto p = [&](int i) { return nbdl::promise(Round{i, rounds, way, {}, &calls}); };
  nbdl::run_async_loop(nbdl::pipe(p(0), nbdl::tap(T{7}), p(1), nbdl::catch_([](A const&) { mc::fail("nothing was rejected"); }), p(2)), value{"0"});
  drain();
  mc::check(calls == rounds, mc::str("ran ", calls, " times instead of ", rounds));
  mc::check(int(log().size()) == (rounds - 1) / 3 + (rounds > 1 && (rounds - 1) % 3 > 0), mc::str("tap ran ", log().size(), " times in ", rounds, " calls"));
  mc::check(alive() == 0, mc::str(alive(), " objects of an ended loop are still there"));
  mc::step(rounds);
  mc::state(mc::str(rounds, way));
}
// many pipes at the same time, settled in different orders
SCENARIO(many_at_once)
{
  begin();
  int n = mc::pick(std::vector<int>{2, 3, 8, 33, 100, 300}), order = mc::choose(3), odd = mc::choose(3);
  plan().assign(4, 0);
  for (int i = 0; i < n; i++)
  {
    plan()[0] = i % 5 == odd ? reject_a_later : later;
    nbdl::run_async(nbdl::pipe(stage<kP>(0), stage<kF>(1), stage<kCA>(2), nbdl::catch_(CZ{3})), value{mc::str("p", i, ".")});
  }
  std::vector<std::string> want;
  std::vector<int> at(n);
  for (int i = 0; i < n; i++) { want.push_back(mc::str("0Pp", i, ".")); at[i] = order == 0 ? i : order == 1 ? n - 1 - i : (i * 2) % n + (n % 2 == 0 && i * 2 >= n); }
  auto q = std::move(queue()); queue().clear();
  for (int i : at) { q[i](); want.push_back(i % 5 == odd ? "2CA0" : mc::str("1Fp", i, ".0")); }
  q.clear();
  mc::check(log() == want, "pipes ran as " + join(log()));
  mc::check(alive() == 0 && queue().empty(), mc::str(alive(), " objects are left"));
  mc::step(n);
  mc::state(mc::str(n, order, odd));
}
