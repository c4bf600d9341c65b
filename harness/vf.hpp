// Common machinery of the exhaustive explorers: sharding over processes, crash
// and hang containment, replay of single cases, coverage accounting.
//
// A check is a list of spaces. A space has outer indices 0..n-1; running an
// outer index enumerates inner cases; every case is identified by
// (space, outer, inner) and can be replayed alone. All enumerations are
// deterministic, so that the triple always means the same case.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>

namespace vf {

inline double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

inline std::string json_str(const std::string& s)
{
  std::string o = "\"";
  char b[8];
  for(unsigned char c : s)
  {
    if( c == '"' || c == '\\' ) { o += '\\'; o += char(c); }
    else if( c == '\n' ) o += "\\n";
    else if( c < 0x20 || c >= 0x7f ) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

// printable rendering of arbitrary bytes
inline std::string show(const std::string& s)
{
  std::string o;
  char b[8];
  for(unsigned char c : s)
  {
    if( c == '\\' ) o += "\\\\";
    else if( c == '\n' ) o += "\\n";
    else if( c < 0x20 || c >= 0x7f ) { std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += char(c);
  }
  return o;
}

inline std::uint64_t fnv(const void * p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
{
  auto c = static_cast<const unsigned char *>(p);
  for(std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline std::uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }

// the sizes next to the powers of two
inline std::vector<std::uint64_t> powers(int from, int to)
{
  std::vector<std::uint64_t> v;
  for(int k = from; k <= to; ++k)
    for(int d = -1; d <= 1; ++d) v.push_back((std::uint64_t(1) << k) + std::uint64_t(std::int64_t(d)));
  return v;
}

constexpr std::size_t kMsg = 6000;
constexpr std::size_t kViol = 4;
constexpr std::size_t kSamples = 3;
constexpr std::size_t kBits = 1u << 22;

struct Violation { std::uint64_t space, outer, inner; char msg[kMsg]; };

struct WorkerShm
{
  std::atomic<std::uint64_t> space, outer, inner, progress;
  std::atomic<std::uint64_t> evaluations, states, transitions, validated, nontrivial;
  std::atomic<std::uint64_t> counter[16];
  std::atomic<std::uint32_t> nviol, nsamples;
  Violation viol[kViol];
  char samples[kSamples][kMsg];
};

struct Shm
{
  std::atomic<std::uint64_t> next;        // next global outer index
  std::atomic<std::uint32_t> stop;
  unsigned char bits[kBits / 8];          // distinct outcomes (hashed)
  unsigned char cases[kBits * 4 / 8];     // distinct non-trivial cases (hashed)
};

struct Ctx
{
  WorkerShm * w = nullptr;
  Shm * s = nullptr;
  bool replay = false;
  std::uint64_t replay_inner = 0;
  std::uint64_t cur = 0;
  bool violated = false;
  std::string last_msg;
  std::uint64_t sample_at = 0;

  // Start case `inner`; false if it is not to be run.
  bool want(std::uint64_t inner)
  {
    if( replay && inner != replay_inner ) return false;
    if( !replay && s->stop.load(std::memory_order_relaxed) ) return false;
    cur = inner;
    w->inner.store(inner, std::memory_order_relaxed);
    w->progress.fetch_add(1, std::memory_order_relaxed);
    w->evaluations.fetch_add(1, std::memory_order_relaxed);
    return true;
  }
  bool stopped() const { return !replay && s->stop.load(std::memory_order_relaxed); }
  void tick() { w->progress.fetch_add(1, std::memory_order_relaxed); }
  void model(std::uint64_t st, std::uint64_t tr)
  {
    w->states.fetch_add(st, std::memory_order_relaxed);
    w->transitions.fetch_add(tr, std::memory_order_relaxed);
  }
  void validated(std::uint64_t n = 1) { w->validated.fetch_add(n, std::memory_order_relaxed); }
  void add(int c, std::uint64_t n = 1) { w->counter[c].fetch_add(n, std::memory_order_relaxed); }
  static void setbit(unsigned char * bits, std::uint64_t mask, std::uint64_t h)
  {
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    auto b = h & mask;
    reinterpret_cast<std::atomic<unsigned char> *>(&bits[b / 8])
        ->fetch_or(static_cast<unsigned char>(1u << (b % 8)), std::memory_order_relaxed);
  }
  void outcome(std::uint64_t h) { setbit(s->bits, kBits - 1, h); }
  void nontrivial(std::uint64_t h)
  {
    w->nontrivial.fetch_add(1, std::memory_order_relaxed);
    setbit(s->cases, kBits * 4 - 1, h);
  }
  void sample(const std::string& msg)
  {
    auto n = w->nsamples.load();
    if( n >= kSamples ) return;
    std::snprintf(w->samples[n], kMsg, "%s", msg.c_str());
    w->nsamples = n + 1;
  }
  bool want_sample()
  {
    // a few cases, spread: 1000th, 10000th, 100000th evaluation
    static const std::uint64_t at[] = {200, 5000, 60000};
    auto n = w->nsamples.load();
    return !replay && n < kSamples && w->evaluations.load() >= at[n];
  }
  void fail(const std::string& msg)
  {
    violated = true;
    last_msg = msg;
    auto n = w->nviol.load();
    if( n < kViol )
    {
      auto& v = w->viol[n];
      v.space = w->space; v.outer = w->outer; v.inner = cur;
      std::snprintf(v.msg, kMsg, "%s", msg.c_str());
      w->nviol = n + 1;
    }
    if( !replay ) s->stop = 1;
  }
};

struct Space
{
  std::string name;
  std::uint64_t n;
  std::function<void(Ctx&, std::uint64_t outer)> run;
  std::function<std::string(std::uint64_t outer, std::uint64_t inner)> describe; // for crashes
};

struct Options
{
  std::string out;
  std::string tier = "quick";
  std::string property;
  int jobs = 8;
  double hang_s = 40;
  std::vector<std::string> rest;
};

inline std::string key_of(const std::string& kind, const std::string& name)
{
  std::string k = kind + ":";
  for(char c : name) if( std::isalnum(static_cast<unsigned char>(c)) ) k += c; else if( k.back() != '-' ) k += '-';
  return k;
}

inline Options parse_args(int argc, char ** argv)
{
  Options o;
  if( const char * t = std::getenv("VERIF_TIER") ) o.tier = t;
  for(int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if( a == "--out" ) o.out = argv[++i];
    else if( a == "--tier" ) o.tier = argv[++i];
    else if( a == "--property" ) o.property = argv[++i];
    else if( a == "--jobs" ) o.jobs = std::atoi(argv[++i]);
    else o.rest.push_back(a);
  }
  return o;
}

template<class T> T * shm_alloc(std::size_t n = 1)
{
  void * p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if( p == MAP_FAILED ) { std::perror("mmap"); std::exit(4); }
  return static_cast<T *>(p);
}

inline int run_one(Space& sp, std::uint64_t si, std::uint64_t outer, std::uint64_t inner)
{
  Ctx c;
  c.w = shm_alloc<WorkerShm>();
  c.s = shm_alloc<Shm>();
  c.replay = true;
  c.replay_inner = inner;
  c.w->space = si;
  c.w->outer = outer;
  sp.run(c, outer);
  if( c.violated )
  {
    std::cout << c.last_msg << "\n";
    return 3;
  }
  if( c.w->evaluations == 0 ) { std::cout << "case not found\n"; return 4; }
  std::cout << "no violation\n";
  return 0;
}

// exit status: 0 explored (see the JSON summary for violations), 3 replay
// reproduced, 4 error of the harness itself
inline int main_(const Options& o, std::vector<Space> spaces,
                 const std::vector<std::string>& counter_names = {})
{
  for(std::size_t i = 0; i < o.rest.size(); ++i)
    if( o.rest[i] == "--replay" )
    {
      // space,outer,inner
      unsigned long long a, b, c;
      if( i + 1 >= o.rest.size() || std::sscanf(o.rest[i + 1].c_str(), "%llu,%llu,%llu", &a, &b, &c) != 3 || a >= spaces.size() )
        return 4;
      alarm(120);
      return run_one(spaces[a], a, b, c);
    }
    else if( o.rest[i] == "--replay-history" )
    {
      // the whole block up to the case, as it was enumerated
      unsigned long long a, b, c;
      if( i + 1 >= o.rest.size() || std::sscanf(o.rest[i + 1].c_str(), "%llu,%llu,%llu", &a, &b, &c) != 3 || a >= spaces.size() )
        return 4;
      alarm(240);
      Ctx x;
      x.w = shm_alloc<WorkerShm>();
      x.s = shm_alloc<Shm>();
      x.w->space = a;
      x.w->outer = b;
      spaces[a].run(x, b);
      std::cout << (x.violated ? x.last_msg : std::string("no violation")) << "\n";
      return x.violated ? 3 : 0;
    }
    else if( o.rest[i] == "--describe" )
    {
      unsigned long long a, b, c;
      if( i + 1 >= o.rest.size() || std::sscanf(o.rest[i + 1].c_str(), "%llu,%llu,%llu", &a, &b, &c) != 3 || a >= spaces.size() )
        return 4;
      if( spaces[a].describe ) std::cout << spaces[a].describe(b, c) << "\n";
      return 0;
    }

  std::uint64_t total = 0;
  std::vector<std::uint64_t> start;
  for(auto& s : spaces) { start.push_back(total); total += s.n; }

  auto * shm = shm_alloc<Shm>();
  auto * ws = shm_alloc<WorkerShm>(static_cast<std::size_t>(o.jobs));
  double t0 = now();

  struct Proc { pid_t pid; std::uint64_t last; double since; bool done; };
  std::vector<Proc> procs(static_cast<std::size_t>(o.jobs));
  struct Crash { std::uint64_t space, outer, inner; std::string how; };
  std::vector<Crash> crashes;

  auto spawn = [&](std::size_t k) {
    std::cout.flush();
    pid_t pid = fork();
    if( pid < 0 ) { std::perror("fork"); std::exit(4); }
    if( pid == 0 )
    {
      Ctx c;
      c.w = &ws[k];
      c.s = shm;
      for(;;)
      {
        auto g = shm->next.fetch_add(1);
        if( g >= total || shm->stop ) break;
        std::size_t si = 0;
        while( si + 1 < spaces.size() && start[si + 1] <= g ) ++si;
        c.w->space = si;
        c.w->outer = g - start[si];
        c.w->inner = 0;
        c.w->progress.fetch_add(1);
        spaces[si].run(c, g - start[si]);
      }
      std::cout.flush();
      std::fflush(nullptr);
      _exit(0);
    }
    procs[k] = {pid, ws[k].progress.load(), now(), false};
  };

  for(std::size_t k = 0; k < procs.size(); ++k) spawn(k);
  for(;;)
  {
    bool all = true;
    for(std::size_t k = 0; k < procs.size(); ++k)
    {
      auto& p = procs[k];
      if( p.done ) continue;
      int st = 0;
      pid_t r = waitpid(p.pid, &st, WNOHANG);
      if( r == p.pid )
      {
        if( WIFEXITED(st) && WEXITSTATUS(st) == 0 ) { p.done = true; continue; }
        std::ostringstream how;
        if( WIFSIGNALED(st) ) how << "terminated by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
        else how << "exited with status " << WEXITSTATUS(st);
        crashes.push_back({ws[k].space, ws[k].outer, ws[k].inner, how.str()});
        shm->stop = 1;
        p.done = true;
        continue;
      }
      all = false;
      auto pr = ws[k].progress.load();
      if( pr != p.last ) { p.last = pr; p.since = now(); }
      else if( now() - p.since > o.hang_s )
      {
        kill(p.pid, SIGKILL);
        waitpid(p.pid, &st, 0);
        crashes.push_back({ws[k].space, ws[k].outer, ws[k].inner, "no progress (hang)"});
        shm->stop = 1;
        p.done = true;
      }
    }
    if( all ) break;
    usleep(5000);
  }

  std::uint64_t ev = 0, st = 0, tr = 0, va = 0, nt = 0, cnt[16] = {};
  std::vector<std::string> samples;
  std::ostringstream viol;
  bool first = true;
  for(int k = 0; k < o.jobs; ++k)
  {
    auto& w = ws[k];
    ev += w.evaluations; st += w.states; tr += w.transitions; va += w.validated; nt += w.nontrivial;
    for(int i = 0; i < 16; ++i) cnt[i] += w.counter[i];
    for(std::uint32_t i = 0; i < w.nsamples && samples.size() < 6; ++i) samples.push_back(w.samples[i]);
    for(std::uint32_t i = 0; i < w.nviol; ++i)
    {
      auto& v = w.viol[i];
      viol << (first ? "" : ",\n") << "{\"space\":" << json_str(spaces[v.space].name)
           << ",\"replay\":\"" << v.space << "," << v.outer << "," << v.inner << "\",\"kind\":\"mismatch\",\"key\":" << json_str(key_of("mismatch", spaces[v.space].name)) << ",\"msg\":" << json_str(v.msg) << "}";
      first = false;
    }
  }
  for(auto& c : crashes)
  {
    viol << (first ? "" : ",\n") << "{\"space\":" << json_str(spaces[c.space].name)
         << ",\"replay\":\"" << c.space << "," << c.outer << "," << c.inner << "\",\"kind\":\"crash\",\"key\":" << json_str(key_of("crash", spaces[c.space].name)) << ",\"msg\":"
         << json_str(c.how + " in case: " + (spaces[c.space].describe ? spaces[c.space].describe(c.outer, c.inner) : std::string("?"))) << "}";
    first = false;
  }
  std::uint64_t distinct = 0, dcases = 0;
  for(std::size_t i = 0; i < sizeof shm->bits; ++i) distinct += static_cast<std::uint64_t>(__builtin_popcount(shm->bits[i]));
  for(std::size_t i = 0; i < sizeof shm->cases; ++i) dcases += static_cast<std::uint64_t>(__builtin_popcount(shm->cases[i]));

  std::ostringstream js;
  js << "{\"evaluations\":" << ev << ",\"states\":" << st << ",\"transitions\":" << tr
     << ",\"validated\":" << va << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << dcases
     << ",\"distinct_outcomes\":" << distinct
     << ",\"outer_total\":" << total
     << ",\"complete\":" << (shm->stop ? "false" : "true")
     << ",\"wall_s\":" << now() - t0 << ",\n\"spaces\":{";
  for(std::size_t i = 0; i < spaces.size(); ++i) js << (i ? "," : "") << json_str(spaces[i].name) << ":" << spaces[i].n;
  js << "},\n\"counters\":{";
  for(std::size_t i = 0; i < counter_names.size(); ++i) js << (i ? "," : "") << json_str(counter_names[i]) << ":" << cnt[i];
  js << "},\n\"samples\":[";
  for(std::size_t i = 0; i < samples.size(); ++i) js << (i ? "," : "") << json_str(samples[i]);
  js << "],\n\"violations\":[" << viol.str() << "]}\n";
  if( o.out.empty() ) std::cout << js.str();
  else std::ofstream(o.out) << js.str();
  return 0;
}

} // namespace vf
