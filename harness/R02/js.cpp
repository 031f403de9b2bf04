// mc-flags: --node
// Every history of JavaScript values, callbacks and promises held by C++.
#include <boost/hana.hpp>
#include "webui.hpp"
#include <nbdl/catch.hpp>
#include <nbdl/js.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/run_async_loop.hpp>
#include <functional>
#include <memory>
#include <optional>

namespace hana = boost::hana;
using namespace hana::literals;
namespace
{
  using std::string;
  using nbdl::js::val;
  using web::jsval;
  int handle(auto const& v) { return nbdl::js::get_handle(v); }

  // ---- the values: what each number is
  std::vector<string> const meanings{"undefined", "5", "5", "'a\\u00e9'", "null", "nbdl_thing", "''", "true"};
  void set(val& v, int k)
  {
    switch (k)
    {
      case 0: NBDL_JS_TRANSFORM(v, function(x) { return undefined; }); break;
      case 1: case 2: NBDL_JS_TRANSFORM(v, function(x) { return 5; }); break;
      case 3: NBDL_JS_TRANSFORM(v, function(x) { return 'a\u00e9'; }); break;
      case 4: NBDL_JS_TRANSFORM(v, function(x) { return null; }); break;
      case 5: NBDL_JS_TRANSFORM(v, function(x) { return nbdl_thing; }); break;
      case 6: NBDL_JS_TRANSFORM(v, function(x) { return ""; }); break;
      case 7: NBDL_JS_TRANSFORM(v, function(x) { return x === true || x === nbdl_thing; }); break;
    }
  }
  string text(jsval const& v) { return jsval::global("nbdl_text")(v).as<string>(); }
  string seen(val const& v) { return text(static_cast<jsval>(v)); }
  void begin()
  {
    nbdl::js::init();
    EM_ASM({
      if (!globalThis.nbdl_thing)
      {
        globalThis.nbdl_thing = { is : 1 };
        globalThis.nbdl_text = function(x) { return x === nbdl_thing ? 'the thing' : typeof x + ' ' + String(x); };
        globalThis.nbdl_jobs = [];
        globalThis.nbdl_ids = {};
        document.getElementById = function(id) { return Object.prototype.hasOwnProperty.call(nbdl_ids, id) ? nbdl_ids[id] : null; };
      }
      nbdl_jobs.length = 0;
    });
  }
  template <typename F> void guarded(F f)
  {
    begin();
    int const before = web::registry();
    long const slots = web::live_slots;
    try { f(); }
    catch (std::exception const& e) { mc::fail(e.what()); }
    mc::check(web::registry() == before, mc::str(web::registry() - before, " values are left registered"));
    mc::check(web::live_slots == slots, "handles are left");
  }

  // ---- copies, moves, assignments
  void values(int depth)
  {
    guarded([&]
    {
      string const texts[] = {"undefined undefined", "number 5", "number 5", "string a\u00e9", "object null", "the thing", "string ", "boolean true"};
      struct cell { std::unique_ptr<val> v; string is; };
      cell c[3];
      for (auto& x : c) { x.v.reset(new val); x.is = texts[0]; }
      for (int i = 0; i < depth && !mc::failed(); i++)
      {
        mc::step(); mc::eval();
        int a = mc::choose(3), op = mc::choose(7);
        auto& x = c[a];
        auto& y = op == 0 || op == 6 ? x : c[(a + 1 + mc::choose(2)) % 3];
        switch (op)
        {
          case 0:
          {
            int k = mc::choose(i == 0 ? 8 : 4) + (i == 0 ? 0 : 4);
            string was = x.is;
            set(*x.v, k);
            x.is = k == 7 ? (was == texts[7] || was == texts[5] ? "boolean true" : "boolean false") : texts[k];
            mc::note(mc::str("v", a, " = ", meanings[k]));
            break;
          }
          case 1: mc::note("copy assigned"); *x.v = *y.v; x.is = y.is; break;
          case 2: mc::note("move assigned"); *x.v = std::move(*y.v); x.is = y.is; y.is = texts[0]; break;
          case 3: mc::note("copied"); x.v.reset(); x.v.reset(new val(*y.v)); x.is = y.is; break;
          case 4: mc::note("moved"); x.v.reset(); x.v.reset(new val(std::move(*y.v))); x.is = y.is; y.is = texts[0]; break;
          case 5:
          {
            mc::note("swapped");
            using std::swap;
            swap(*x.v, *y.v); swap(x.is, y.is);
            break;
          }
          case 6: { mc::note("assigned to itself"); val& same = *x.v; *x.v = same; break; }
        }
        for (int j = 0; j < 3; j++)
        {
          mc::check(seen(*c[j].v) == c[j].is, mc::str("v", j, " is ", seen(*c[j].v), " instead of ", c[j].is));
          for (int k = 0; k < 3; k++) mc::check(hana::equal(*c[j].v, *c[k].v) == (c[j].is == c[k].is), mc::str("v", j, " and v", k, " compared"));
        }
        mc::state(c[0].is + "|" + c[1].is + "|" + c[2].is);
      }
    });
  }
  // ---- callbacks
  void callbacks(int depth)
  {
    guarded([&]
    {
      std::vector<string> got, want;
      std::vector<nbdl::js::callback_t> cbs;
      std::vector<int> ids;
      int next = 0;
      auto add = [&]
      {
        int id = next++;
        cbs.push_back(nbdl::js::callback([id, &got, &cbs](val const& v)
        {
          got.push_back(mc::str(id, ": ", seen(v)));
        }));
        ids.push_back(id);
      };
      add();
      val copy;
      int copy_of = -1;
      for (int i = 0; i < depth && !mc::failed(); i++)
      {
        mc::step(); mc::eval();
        std::vector<int> can{0};
        if (cbs.size()) { can.push_back(1); can.push_back(2); can.push_back(3); can.push_back(4); }
        if (copy_of >= 0 && std::count(ids.begin(), ids.end(), copy_of)) can.push_back(5);
        switch (mc::pick(can))
        {
          case 0: mc::note("new"); add(); break;
          case 1:
          {
            int k = mc::choose(int(cbs.size()));
            mc::note(mc::str("call ", ids[k], " from JavaScript"));
            if (mc::flip())
            {
              EM_ASM_({ Module.NBDL_DETAIL_JS_GET($0)("moo"); }, handle(cbs[k]));
              want.push_back(mc::str(ids[k], ": string moo"));
            }
            else
            {
              EM_ASM_({ Module.NBDL_DETAIL_JS_GET($0)(); Module.NBDL_DETAIL_JS_GET($0)(nbdl_thing); }, handle(cbs[k]));
              want.push_back(mc::str(ids[k], ": undefined undefined"));
              want.push_back(mc::str(ids[k], ": the thing"));
            }
            break;
          }
          case 2: mc::note("the first is gone"); cbs.erase(cbs.begin()); ids.erase(ids.begin()); break;
          case 3: mc::note("moved"); { auto x = std::move(cbs.back()); cbs.back() = std::move(x); } break;
          case 4: mc::note("copied to a value"); { int k = mc::choose(int(cbs.size())); copy = val{cbs[k]}; copy_of = ids[k]; mc::check(hana::equal(copy, cbs[k]), "equal to what it is a copy of"); } break;
          case 5:
            mc::note("called through the copy");
            EM_ASM_({ Module.NBDL_DETAIL_JS_GET($0)(7); }, handle(copy));
            want.push_back(mc::str(copy_of, ": number 7"));
            break;
        }
        mc::check(got == want, mc::str("called ", got.size(), " times, last ", got.empty() ? "" : got.back(), " instead of ", want.size(), ", last ", want.empty() ? "" : want.back()));
        mc::state(mc::str(cbs.size(), copy_of, got.size(), got.empty() ? "" : got.back()));
      }
    });
  }
  // ---- promises: JavaScript settles them at once or later
  std::vector<string>* told;
  void tell(string s) { told->push_back(s); }
  int token() { return 0; }
  struct life { int* n; life(int* x) : n(x) { ++*n; } life(life const& o) : n(o.n) { ++*n; } life(life&& o) : n(o.n) { ++*n; } ~life() { --*n; } };
  constexpr int later_bit = 2;
  // how: bit 0 rejects, bit 1 later
  auto promise_of(val const& how, val const& name)
  {
    return NBDL_JS_PROMISE_WITH_CAPTURE(
      function(resolve, reject)
      {
        var settle = function() { if (how & 1) reject('no ' + name); else resolve('yes ' + name); };
        if (how & 2) nbdl_jobs.push(settle); else settle();
      }
    , how
    , name
    );
  }
  val number(int k) { val v; EM_ASM_({ Module.NBDL_DETAIL_JS_SET($0, $1); }, handle(v), k); return v; }
  val word(string const& s) { val v; EM_ASM_({ Module.NBDL_DETAIL_JS_SET($0, UTF8ToString($1, $2)); }, handle(v), s.data(), s.size()); return v; }
  int jobs() { return jsval::global("nbdl_jobs")["length"].as<int>(); }
  void run_job(int k) { EM_ASM_({ nbdl_jobs.splice($0, 1)[0](); }, k); }

  void promises(int pipes)
  {
    std::vector<string> got;
    told = &got;
    int lives = 0;
    guarded([&]
    {
      struct pipe { int h1, h2; int at = 0; };        // at: 0 first pending, 1 second pending, 2 done
      std::vector<pipe> p;
      std::vector<std::vector<string>> out(pipes), want(pipes);
      std::vector<int> order;                          // which pipe each job is of
      auto advance = [&](int i, bool settled_now)
      {
        auto& x = p[i];
        // what happens up to the next wait
        if (x.at == 0)
        {
          if ((x.h1 & 2) && !settled_now) { order.push_back(i); return; }
          settled_now = false;
          if (x.h1 & 1) { want[i].push_back(mc::str("caught string no ", i, "a")); x.at = 2; return; }   // a catch ends the pipe
          want[i].push_back(mc::str("first string yes ", i, "a"));
          x.at = 1;
        }
        if (x.at == 1)
        {
          if ((x.h2 & 2) && !settled_now) { order.push_back(i); return; }
          if (x.h2 & 1) want[i].push_back(mc::str("caught string no ", i, "b"));
          else { want[i].push_back(mc::str("second string yes ", i, "b")); want[i].push_back("end"); }
          x.at = 2;
        }
      };
      auto same = [&](char const* when)
      {
        mc::step(); mc::eval();
        string s;
        for (int i = 0; i < int(p.size()); i++)
        {
          mc::check(out[i] == want[i], mc::str(when, ": pipe ", i, " told ", out[i].size(), " things, last ", out[i].empty() ? "nothing" : out[i].back(), ", instead of ", want[i].size(), ", last ", want[i].empty() ? "nothing" : want[i].back()));
          for (auto& t : out[i]) s += t + ";";
          s += "|";
        }
        mc::check(jobs() == int(order.size()), "jobs that wait");
        int waiting = 0;
        for (auto& x : p) waiting += x.at != 2;
        mc::check((lives == 0) == (waiting == 0), mc::str("pipelines kept: ", lives, " with ", waiting, " waiting"));
        mc::state(s);
      };
      for (int i = 0; i < pipes && !mc::failed(); i++)
      {
        p.push_back({mc::choose(4), mc::choose(4)});
        mc::note(mc::str("pipe ", i, " first ", p[i].h1 & 2 ? "later " : "", p[i].h1 & 1 ? "rejects" : "resolves", ", second ", p[i].h2 & 2 ? "later " : "", p[i].h2 & 1 ? "rejects" : "resolves"));
        auto* o = &out[i];
        nbdl::run_async(hana::make_tuple(
          promise_of(number(p[i].h1), word(mc::str(i, "a")))
        , [o, l = life(&lives)](val const& v) { o->push_back("first " + seen(v)); return token(); }
        , [](int) { return 1; }
        , promise_of(number(p[i].h2), word(mc::str(i, "b")))
        , [o](val const& v) { o->push_back("second " + seen(v)); return token(); }
        , nbdl::catch_([o](auto const& v) { o->push_back("caught " + seen(v)); return token(); })
        , [o](auto&&...) { o->push_back("end"); }
        ));
        advance(i, false);
        same("begun");
        // now, or when more of them wait
        while (order.size() && !mc::failed() && mc::flip())
        {
          int k = mc::choose(int(order.size())), i = order[k];
          mc::note(mc::str("settle ", i));
          order.erase(order.begin() + k);
          run_job(k);
          advance(i, true);
          same("settled");
        }
      }
      while (order.size() && !mc::failed())
      {
        int k = mc::choose(int(order.size())), i = order[k];
        mc::note(mc::str("settle ", i));
        order.erase(order.begin() + k);
        run_job(k);
        advance(i, true);
        same("settled");
      }
    });
    mc::check(lives == 0, "a pipeline is left");
  }
  // ---- a pipe that begins anew with each result, until one is rejected
  void loop(int rounds)
  {
    std::vector<string> got, want;
    int lives = 0;
    guarded([&]
    {
      EM_ASM({ globalThis.nbdl_plan = new Array(); });
      int const n = 1 + mc::choose(rounds);
      std::vector<int> plan;
      for (int i = 0; i < n; i++)
      {
        int how = i + 1 == n ? 1 | (mc::flip() ? 2 : 0) : mc::flip() ? 2 : 0;
        plan.push_back(how);
        EM_ASM_({ nbdl_plan.push($0); }, how);
        mc::note(mc::str(how & 1 ? "rejected" : "resolved", how & 2 ? " later" : ""));
      }
      nbdl::run_async_loop(hana::make_tuple(
        NBDL_JS_PROMISE(function(resolve, reject)
        {
          var how = nbdl_plan.shift();
          var settle = function() { if (how & 1) reject(how); else resolve(how); };
          if (how & 2) nbdl_jobs.push(settle); else settle();
        })
      , [&got, l = life(&lives)](val const& v) { got.push_back("round " + seen(v)); return 0; }
      , nbdl::catch_([&got](auto const& v) { got.push_back("end " + seen(v)); })
      ));
      for (int k = 0;; )
      {
        while (k < n && !(plan[k] & 2)) { want.push_back(mc::str(plan[k] & 1 ? "end" : "round", " number ", plan[k])); k++; }
        mc::step(); mc::eval();
        mc::check(got == want, mc::str("told ", got.size(), " instead of ", want.size()));
        mc::check((lives == 0) == (k == n) && jobs() == (k < n), "the pipeline lives while it waits");
        mc::state(mc::str(n, k, got.size(), lives > 0));
        if (k == n || mc::failed()) break;
        run_job(0);
        want.push_back(mc::str(plan[k] & 1 ? "end" : "round", " number ", plan[k]));
        k++;
      }
    });
  }
  // ---- the order of captures, and a promise without any
  void c_function(int resolve, int reject, int a, int b, int c)
  {
    EM_ASM_({
      var g = Module.NBDL_DETAIL_JS_GET;
      var s = Array.of(g($2), g($3), g($4)).join();
      if (s.indexOf('r') === 0) g($1)(s); else g($0)(s);
    }, resolve, reject, a, b, c);
  }
  void c_function_8(int resolve, int reject, int a, int b, int c, int d, int e, int f, int g, int h)
  {
    EM_ASM_({
      var g = Module.NBDL_DETAIL_JS_GET;
      g($0)([g($2), g($3), g($4), g($5), g($6), g($7), g($8), g($9)].join());
    }, resolve, reject, a, b, c, d, e, f, g, h);
  }
  void c_function_1(int resolve, int reject, int a)
  { EM_ASM_({ Module.NBDL_DETAIL_JS_GET($0)(Module.NBDL_DETAIL_JS_GET($2)); }, resolve, reject, a); }
  void captures()
  {
    string got;
    guarded([&]
    {
      std::vector<val> v;
      string all;
      auto const kind = mc::choose(8);
      int const n = kind == 0 ? 1 : kind == 1 ? 2 : kind == 2 ? 3 : kind == 3 ? 8 : kind == 4 ? 1 : kind == 5 ? 3 : kind == 6 ? 8 : 0;
      for (int i = 0; i < n; i++)
      {
        string s = mc::choose(n == 8 ? 2 : 4) ? string(1, char('a' + i)) : i == 0 ? "r" : "";
        v.push_back(word(s)); all += (i ? "," : "") + s;
      }
      mc::note(mc::str("kind ", kind, " ", all));
      auto run = [&](auto&& promise)
      {
        nbdl::run_async(hana::make_tuple(
          std::forward<decltype(promise)>(promise)
        , [&](val const& x) { got += "resolved " + seen(x); }
        , nbdl::catch_([&](auto const& x) { got += "rejected " + seen(x); })));
      };
      string want = "resolved string " + all;
      switch (kind)
      {
        case 0: { auto& a = v[0]; run(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { resolve([a].join()); }, a)); break; }
        case 1: { auto& a = v[0]; auto& b = v[1]; run(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { resolve([a, b].join()); }, a, b)); break; }
        case 2: { auto& a = v[0]; auto& b = v[1]; auto& c = v[2]; run(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { reject([a, b, c].join()); }, a, b, c)); want = "rejected string " + all; break; }
        case 3:
        {
          auto& a = v[0]; auto& b = v[1]; auto& c = v[2]; auto& d = v[3]; auto& e = v[4]; auto& f = v[5]; auto& g = v[6]; auto& h = v[7];
          run(NBDL_JS_PROMISE_WITH_CAPTURE(function(resolve, reject) { resolve([a, b, c, d, e, f, g, h].join()); }, a, b, c, d, e, f, g, h)); break;
        }
        case 4: { auto& a = v[0]; run(NBDL_JS_PROMISE_C_FUNC(c_function_1, a)); break; }
        case 5: { auto& a = v[0]; auto& b = v[1]; auto& c = v[2]; run(NBDL_JS_PROMISE_C_FUNC(c_function, a, b, c)); if (all[0] == 'r') want = "rejected string " + all; break; }
        case 6:
        {
          auto& a = v[0]; auto& b = v[1]; auto& c = v[2]; auto& d = v[3]; auto& e = v[4]; auto& f = v[5]; auto& g = v[6]; auto& h = v[7];
          run(NBDL_JS_PROMISE_C_FUNC(c_function_8, a, b, c, d, e, f, g, h)); break;
        }
        case 7:
          if (mc::flip()) { run(NBDL_JS_PROMISE(function(resolve, reject) { resolve("x"); })); want = "resolved string x"; }
          else { run(NBDL_JS_PROMISE(function(resolve, reject) { reject(nbdl_thing); })); want = "rejected the thing"; }
          break;
      }
      mc::step(); mc::eval(); mc::state(got);
      mc::check(got == want, mc::str(got, " instead of ", want));
      // what was captured is still there
      string after;
      for (auto& x : v) after += (after.empty() && &x == &v[0] ? "" : ",") + static_cast<jsval>(x).as<string>();
      mc::check(after == all, "the captured values afterwards");
    });
  }
  // ---- elements of the document
  void elements()
  {
    guarded([&]
    {
      int there = mc::choose(16);
      EM_ASM_({
        nbdl_ids = {};
        if ($0 & 1) nbdl_ids["foo"] = nbdl_thing;
        if ($0 & 2) nbdl_ids["fo"] = "fo";
        if ($0 & 4) nbdl_ids["\u00e9"] = "e";
        if ($0 & 8) nbdl_ids[""] = "empty";
      }, there);
      mc::note(mc::str("there: ", there));
      auto look = [&](auto name, string is, int bit)
      {
        mc::step(); mc::eval();
        val v = nbdl::js::get_element_by_id(name);
        string s = seen(v), w = there & bit ? is : "object null";
        mc::check(s == w, mc::str("the element is ", s, " instead of ", w));
        mc::state(mc::str(there, bit, s));
      };
      look("foo"_s, "the thing", 1);
      look("fo"_s, "string fo", 2);
      look("\xc3\xa9"_s, "string e", 4);
      look(""_s, "string empty", 8);
      look("fooo"_s, "", 0);
      EM_ASM({ nbdl_ids = {}; });
    });
  }
}
SCENARIO(value_semantics) { values(mc::tier(3, 4)); }
SCENARIO(called_from_javascript) { callbacks(mc::tier(5, 6)); }
SCENARIO(promise_pipelines) { promises(mc::tier(2, 3)); }
SCENARIO(promise_loop) { loop(mc::tier(8, 12)); }
SCENARIO(captured_values) { captures(); }
SCENARIO(elements_of_the_document) { elements(); }
