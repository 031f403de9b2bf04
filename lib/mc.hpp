// Bounded exhaustive explorer (stateless model checker) used by every harness.
//
// A scenario is a function that runs the real nbdl code once.  Every
// nondeterministic decision (next operation, input value, chunk boundary,
// which event loop runs next, which fault happens) is taken through
// mc::choose(n).  The explorer runs the scenario again and again until every
// combination of decisions has been executed: depth first, no sampling.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc
{
  struct shared_page
  {
    volatile uint64_t heartbeat;       // executions started
    volatile uint32_t depth;           // choices of the execution in progress
    volatile int32_t  choices[8192];
    char note[4096];
  };

  struct scenario
  {
    char const* name;
    int tiers;                          // 1 quick, 2 thorough, 3 both
    void (*body)();
  };

  inline std::vector<scenario>& scenarios() { static std::vector<scenario> s; return s; }
  struct registrar
  {
    registrar(char const* n, int tiers, void (*f)()) { scenarios().push_back({n, tiers, f}); }
  };

  struct failure { std::string key, msg; };

  struct explorer
  {
    struct point { int choice; int n; };
    std::vector<point> stack;
    std::size_t pos = 0;
    std::vector<int> forced;
    bool replay = false;
    int shard = 0, shards = 1;
    bool thorough = false;
    bool verbose = false;
    shared_page* page = nullptr;
    std::vector<std::string> trace;
    bool tracing = false;
    bool failed = false;
    failure fail_;
    bool discard = false;
    bool skip = false;
    std::unordered_set<uint64_t> states;
    uint64_t transitions = 0, executions = 0, evaluations = 0;
    uint64_t nodes = 0;                 // of the tree of decisions
    std::size_t common = 0;             // decisions shared with the execution before
    std::vector<std::string> samples;
    std::string sample;
    bool nondet = false;
  };

  inline explorer& ex() { static explorer e; return e; }
  inline bool thorough() { return ex().thorough; }
  template <typename T> T tier(T quick, T thor) { return ex().thorough ? thor : quick; }

  // choose a value in [0, n)
  inline int choose(int n)
  {
    auto& e = ex();
    if (n <= 0) { std::fprintf(stderr, "mc: choose(%d)\n", n); std::abort(); }
    std::size_t i = e.pos++;
    int c;
    if (e.replay)
    {
      c = i < e.forced.size() ? e.forced[i] : 0;
      if (c >= n) c = n - 1;
    }
    else if (i < e.stack.size())
    {
      if (e.stack[i].n != n) e.nondet = true;
      c = e.stack[i].choice < n ? e.stack[i].choice : n - 1;
    }
    else
    {
      c = 0;
      if (i == 0 && e.shards > 1) c = e.shard;
      if (c >= n) { e.skip = true; c = n - 1; }
      e.stack.push_back({c, n});
    }
    if (e.page && i < 8192) { e.page->choices[i] = c; e.page->depth = i + 1; }
    return c;
  }

  inline bool flip() { return choose(2) != 0; }

  template <typename T>
  T const& pick(std::vector<T> const& v) { return v[choose(int(v.size()))]; }

  inline uint64_t fnv(std::string_view s, uint64_t h = 1469598103934665603ull)
  {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
  }

  // record a distinct abstract (reference model) state
  inline void state(std::string_view s) { ex().states.insert(fnv(s)); }
  // one transition of the reference model compared against the real code
  inline void step(uint64_t n = 1) { ex().transitions += n; }
  inline void eval(uint64_t n = 1) { ex().evaluations += n; }

  inline void note(std::string s)
  {
    auto& e = ex();
    if (e.page) { std::strncpy(e.page->note, s.c_str(), sizeof(e.page->note) - 1); }
    if (e.trace.size() < 4000) e.trace.push_back(std::move(s));
  }

  // never throws: nbdl runs most callbacks in noexcept functions
  inline void fail(std::string msg, std::string key = "")
  {
    auto& e = ex();
    if (!e.failed) { e.failed = true; e.fail_ = {std::move(key), std::move(msg)}; }
  }
  inline bool failed() { return ex().failed; }
  inline bool check(bool ok, std::string_view msg, std::string_view key = "")
  {
    if (!ok) fail(std::string(msg), std::string(key));
    return ok;
  }

  inline std::string show(std::string_view s, std::size_t limit = 64)
  {
    std::string r = "\"";
    char b[8];
    for (std::size_t i = 0; i < s.size() && i < limit; i++)
    {
      unsigned char c = s[i];
      if (c >= 32 && c < 127 && c != '"' && c != '\\') r += char(c);
      else { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    r += '"';
    if (s.size() > limit) r += "...(" + std::to_string(s.size()) + ")";
    return r;
  }

  inline void json_str(std::ostream& o, std::string const& s)
  {
    o << '"';
    for (unsigned char c : s)
    {
      char b[8];
      if (c == '"' || c == '\\') o << '\\' << c;
      else if (c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\u%04x", c); o << b; }
      else o << c;
    }
    o << '"';
  }

  template <typename ...T>
  std::string str(T const& ...t)
  {
    std::ostringstream o;
    ((o << t), ...);
    return o.str();
  }

  inline double now()
  {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
  }

  // live heap blocks (leak / double-free accounting; see MC_COUNT_ALLOCS)
  inline long live_blocks = 0;

  inline int main_(int argc, char** argv)
  {
    auto& e = ex();
    std::string name, known, choices;
    double budget = 1e9;
    bool list = false;
    for (int i = 1; i < argc; i++)
    {
      std::string a = argv[i];
      if (a == "--list") list = true;
      else if (a == "--tier") e.thorough = std::string(argv[++i]) == "thorough";
      else if (a == "--scenario") name = argv[++i];
      else if (a == "--budget") budget = std::atof(argv[++i]);
      else if (a == "--shard") { std::sscanf(argv[++i], "%d/%d", &e.shard, &e.shards); }
      else if (a == "--known") known = argv[++i];
      else if (a == "--page")
      {
        int fd = ::open(argv[++i], O_RDWR);
        void* p = ::mmap(nullptr, sizeof(shared_page), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        ::close(fd);
        if (p != MAP_FAILED) e.page = static_cast<shared_page*>(p);
      }
      else if (a == "--replay") { e.replay = true; choices = argv[++i]; }
    }
    if (list)
    {
      for (auto& s : scenarios())
        if (s.tiers & (e.thorough ? 2 : 1)) std::printf("%s\n", s.name);
      return 0;
    }
    std::set<std::string> known_keys;
    {
      std::stringstream ss(known); std::string k;
      while (std::getline(ss, k, '\x1f')) if (!k.empty()) known_keys.insert(k);
    }
    {
      std::stringstream ss(choices); std::string k;
      while (std::getline(ss, k, ',')) if (!k.empty()) e.forced.push_back(std::atoi(k.c_str()));
    }
    scenario* sc = nullptr;
    for (auto& s : scenarios()) if (name == s.name) sc = &s;
    if (!sc) { std::fprintf(stderr, "no scenario %s\n", name.c_str()); return 2; }

    double start = now();
    bool exhaustive = true;
    std::set<std::string> found;
    bool violation = false;
    failure viol;
    std::vector<int> viol_choices;
    std::vector<std::string> viol_trace;
    for (;;)
    {
      e.pos = 0; e.failed = false; e.skip = false; e.nondet = false;
      e.trace.clear(); e.sample.clear();
      if (e.page) { e.page->heartbeat++; e.page->depth = 0; e.page->note[0] = 0; }
      sc->body();
      if (e.skip) break;               // a shard beyond the first choice: nothing is its own
      if (!e.skip)
      {
        e.executions++;
        e.nodes += e.pos - std::min(e.pos, e.common) + (e.executions == 1);
        if (e.nondet && !e.failed)
          fail("execution is not a function of its inputs: replaying the same decisions took another path");
        if (e.samples.size() < 3 || (e.executions % 997 == 0 && e.samples.size() < 6))
        {
          std::string s;
          for (auto& t : e.trace) { if (!s.empty()) s += "; "; s += t; if (s.size() > 600) { s += " ..."; break; } }
          if (s.empty()) { for (std::size_t i = 0; i < e.pos && i < e.stack.size(); i++) s += (i ? "," : "choices ") + std::to_string(e.stack[i].choice); }
          e.samples.push_back(s);
        }
        if (e.failed)
        {
          if (!e.fail_.key.empty() && known_keys.count(e.fail_.key)) found.insert(e.fail_.key);
          else
          {
            violation = true;
            viol = e.fail_;
            if (e.replay) viol_choices = e.forced;
            else for (std::size_t i = 0; i < e.pos && i < e.stack.size(); i++) viol_choices.push_back(e.stack[i].choice);
            viol_trace = e.trace;
            exhaustive = false;
            break;
          }
        }
      }
      if (e.replay) break;
      // next combination
      e.stack.resize(std::min(e.pos, e.stack.size()));
      bool done = false;
      for (;;)
      {
        if (e.stack.empty()) { done = true; break; }
        auto& p = e.stack.back();
        int inc = (e.stack.size() == 1 && e.shards > 1) ? e.shards : 1;
        if (p.choice + inc < p.n) { p.choice += inc; break; }
        e.stack.pop_back();
      }
      if (done) break;
      e.common = e.stack.size() - 1;
      if ((e.executions & 63) == 0 && now() - start > budget) { exhaustive = false; break; }
    }
    // a scenario without states of a model of its own: the states are the nodes of the tree of decisions
    uint64_t states = e.states.empty() ? e.nodes : e.states.size();
    if (!e.transitions) e.transitions = std::max<uint64_t>(e.evaluations, e.nodes - (e.nodes > 0));
    std::ostringstream o;
    o << "{\"scenario\":"; json_str(o, name);
    o << ",\"shard\":" << e.shard
      << ",\"executions\":" << e.executions << ",\"transitions\":" << e.transitions
      << ",\"states\":" << states << ",\"evaluations\":" << e.evaluations
      << ",\"exhaustive\":" << (exhaustive ? "true" : "false")
      << ",\"seconds\":" << now() - start;
    o << ",\"samples\":[";
    for (std::size_t i = 0; i < e.samples.size(); i++) { if (i) o << ','; json_str(o, e.samples[i]); }
    o << "],\"known\":[";
    bool first = true;
    for (auto& k : found) { if (!first) o << ','; first = false; json_str(o, k); }
    o << "],\"violation\":";
    if (!violation) o << "null";
    else
    {
      o << "{\"msg\":"; json_str(o, viol.msg); o << ",\"key\":"; json_str(o, viol.key);
      o << ",\"choices\":[";
      for (std::size_t i = 0; i < viol_choices.size(); i++) { if (i) o << ','; o << viol_choices[i]; }
      o << "],\"trace\":[";
      for (std::size_t i = 0; i < viol_trace.size(); i++) { if (i) o << ','; json_str(o, viol_trace[i]); }
      o << "]}";
    }
    o << "}";
    std::printf("MC-RESULT %s\n", o.str().c_str());
    std::fflush(stdout);
    return 0;
  }
}

#define SCENARIO_T(NAME, TIERS) \
  static void mc_body_##NAME(); \
  static ::mc::registrar mc_reg_##NAME{#NAME, TIERS, &mc_body_##NAME}; \
  static void mc_body_##NAME()
#define SCENARIO(NAME) SCENARIO_T(NAME, 3)

#ifdef MC_COUNT_ALLOCS
// every allocation made through operator new is counted; malloc is still the
// sanitizer's, so use after free and overflows are still detected.
void* operator new(std::size_t n) { ++mc::live_blocks; void* p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void* operator new[](std::size_t n) { ++mc::live_blocks; void* p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void operator delete(void* p) noexcept { if (p) { --mc::live_blocks; std::free(p); } }
void operator delete[](void* p) noexcept { if (p) { --mc::live_blocks; std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { --mc::live_blocks; std::free(p); } }
void operator delete[](void* p, std::size_t) noexcept { if (p) { --mc::live_blocks; std::free(p); } }
#endif

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::main_(argc, argv); }
#endif

#endif
