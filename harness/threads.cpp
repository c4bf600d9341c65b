// C23: threads that share rules and documents. Stateless model checking of the
// real code: every schedule up to a bound of preemptions runs in a process of
// its own under the controlled scheduler of mcrt.cpp; threads are switched at
// every visible operation (atomics, static initialisation, locks, callbacks;
// in one space also at every allocation) that may conflict with another
// thread, plain accesses are checked for data races with vector clocks.
#include <memory>
#include <thread>
#include "vf.hpp"
#include "mcrt.h"
#include <hext/Hext.h>

using namespace vf;
using namespace hext;

namespace {

const char kRule[] =
  "<div class=\"item menu\" id=~/m/i>"
    "<?a href^='h' href:trim:tolower:link @text=~/./ @text:t/>"
    "{<li:nth-child(2n+1) x:filter(/\\d+/):replace(/0/,\"o\"):append(\"!\"):x? @inner-html:h/>}"
    "{<*:not(:type-matches(/^(li|ul)$/)):nth-last-of-type(1) @strip-tags:s/>}"
    "<+b @text:toupper:collapsews:b/>"
  "</div>";
const char kOther[] = "<ul><+li @text:prepend(\"<\"):li/></ul><?x-y z:z/>";
const char kDoc[] =
  "<!DOCTYPE html><html><body><div id=M class='menu item'><a href=' HTTP '>link</a><ul><li x=10>a <i>b</i></li><li>c</li></ul><b>x  y</b><b>z</b></div><x-y z='1'></x-y></body></html>";
const char kDoc2[] =
  "<!DOCTYPE html><html><body><div class='item menu' id=m><b>1 &amp; 2</b></div><ul><li>3<li>4</ul><p q='v'>t</p></body></html>";

const char kTiny[] = "<b x=ab></b><li>t</li>";

std::string str(const Result& r)
{
  std::string s;
  for(const auto& m : r) { s += "{"; for(const auto& p : m) s += p.first + "=" + p.second + ";"; s += "}"; }
  return s;
}
std::string str(const Rule& r, const GumboNode * n)
{
  std::string s = r.matches(n) ? "1" : "0";
  for(const auto& p : r.capture(n)) s += p.first + "=" + p.second + ";";
  if( auto t = r.get_tagname() ) s += *t;
  s += std::to_string(int(r.get_tag())) + (r.is_optional() ? "?" : "") + (r.is_greedy() ? "+" : "");
  if( r.child() ) s += "(" + str(*r.child(), n) + ")";
  for(const auto& x : r.nested()) s += "{" + str(x, n) + "}";
  if( r.next() ) s += "," + str(*r.next(), n);
  return s;
}
Rule parse(const char * s) { return ParseHext(s, std::strlen(s)); }

struct YieldTest : Cloneable<YieldTest, ValueTest> { bool test(const char * v) const override { mc_yield(); return v && std::strlen(v) > 0; } };
struct YieldPipe : Cloneable<YieldPipe, StringPipe> { std::string transform(std::string s) const override { mc_yield(); return s + "'"; } };

// what the threads share; built before they start
struct Shared
{
  Html doc, doc2, tiny;
  Rule rule, other, callbacks, test, pipes;
  // without rules, nothing of the parser for hext has run before
  explicit Shared(bool rules) : doc(kDoc, sizeof kDoc - 1), doc2(kDoc2, sizeof kDoc2 - 1), tiny(kTiny, sizeof kTiny - 1), callbacks(HtmlTag::LI, false, false)
  {
    if( !rules ) return;
    rule = parse(kRule);
    other = parse(kOther);
    test = parse("<b x=~/^a/i x:x/>");
    pipes = parse("<b x:filter(/(.)b/):replace(/a/,\"b\"):x/>");
    callbacks.append_match<FunctionMatch>([](const GumboNode * n) { mc_yield(); return n->index_within_parent < 5; });
    callbacks.append_match<FunctionValueMatch>(TextBuiltin, std::make_unique<YieldTest>());
    callbacks.append_capture<FunctionCapture>([](const GumboNode * n) { mc_yield(); return std::to_string(n->index_within_parent); }, "i", std::make_unique<YieldPipe>());
    callbacks.append_capture<FunctionCapture>(TextBuiltin, "t");
  }
};
Shared * g_shared = nullptr;

struct Op { const char * name; std::string (*run)(); bool rules = true; };
const Op kOps[] = {
  {"extract the rule from the document", [] { return str(g_shared->rule.extract(g_shared->doc)); }},
  {"extract the rule from the second document", [] { return str(g_shared->rule.extract(g_shared->doc2)); }},
  {"extract another rule from the document", [] { return str(g_shared->other.extract(g_shared->doc)) + str(g_shared->other.extract(g_shared->doc2)); }},
  {"extract a rule with callbacks", [] { return str(g_shared->callbacks.extract(g_shared->doc2)); }},
  {"parse hext and extract", [] { return str(parse(kRule).extract(g_shared->doc2)); }, false},
  {"parse other hext and extract", [] { return str(parse("<li @text:trim(\"3\"):t x=~/A/i x!/><?p q:replace(/(v)/,\"$1$1\"):q/>").extract(g_shared->doc2)) + str(parse("<p q:q/>").extract(g_shared->doc2)); }, false},
  {"parse HTML and extract", [] { Html h(kDoc, sizeof kDoc - 1); return str(g_shared->rule.extract(h)); }},
  {"syntax errors", [] {
    std::string s;
    for(auto t : {"<a\n>\n<b", "<a x=~/(/ />", "<a></b>", "<a:nth-child(99999999999)/>"})
      try { parse(t); s += "?"; } catch( const SyntaxError& e ) { s += e.what(); }
    return s; }, false},
  {"copy the rule and extract", [] { Rule r(g_shared->rule); Rule q(HtmlTag::A); q = r; q.append_next(g_shared->other); return str(r.extract(g_shared->doc)) + str(q.extract(g_shared->doc2)); }},
  {"exhaust the limit", [] { std::string s; for(std::uint64_t i : {1, 2, 4}) try { s += str(g_shared->rule.extract(g_shared->doc, i)); } catch( const MaxSearchError& e ) { s += e.what(); } return s; }},
  {"inspect the rules", [] { return str(g_shared->rule, g_shared->doc.root()) + str(g_shared->other, static_cast<const GumboNode *>(g_shared->doc.root()->v.element.children.data[1])); }},
  // short ones, for more preemptions
  {"match a regex", [] { return str(g_shared->test.extract(g_shared->tiny)); }},
  {"apply regex pipes", [] { return str(g_shared->pipes.extract(g_shared->tiny)); }},
  {"call back", [] { return str(g_shared->callbacks.extract(g_shared->tiny)); }},
  {"parse a regex", [] { return str(parse("<b x=~/B/i x:x/>").extract(g_shared->tiny)); }, false},
  {"fail to parse a regex", [] { try { parse("<b x=~/(/>"); return std::string("?"); } catch( const SyntaxError& e ) { return std::string(e.what()); } }, false},
  {"copy a rule with a regex", [] { Rule r(g_shared->pipes); Rule q(g_shared->test); q = r; return str(q.extract(g_shared->tiny)); }},
};
constexpr int kNumOps = int(sizeof kOps / sizeof *kOps);
constexpr int kShort = 11;       // the first short one

using Program = std::vector<int>;         // operations of a thread
struct Config
{
  std::vector<Program> threads;
  bool warm = false;                      // every operation has run before in the process
  int bound = 2;
  bool allocs = false;
};

std::string describe(const Config& c)
{
  std::string s = c.warm ? "used library" : "fresh library";
  for(std::size_t i = 0; i < c.threads.size(); ++i)
  {
    s += "; thread " + std::to_string(i) + ":";
    for(int o : c.threads[i]) s += std::string(" [") + kOps[o].name + "]";
  }
  return s;
}

McShared * g_mc = nullptr;
const Config * g_config = nullptr;

void thread_main(int t, void *)
{
  std::string out;
  for(int o : g_config->threads[std::size_t(t)])
    try { out += kOps[o].run() + "\n"; }
    catch( const std::exception& e ) { out += std::string("unexpected exception ") + e.what() + "\n"; }
  mc_pause(true);
  g_mc->out_hash[t] = fnv(out);
  std::snprintf(g_mc->out[t], kMaxOut, "%s", out.c_str());
  mc_pause(false);
}

std::string symbol(std::uint64_t pc)
{
  char cmd[200], buf[300] = "";
  char self[1000] = "";
  if( readlink("/proc/self/exe", self, sizeof self - 1) < 0 ) return "";
  std::snprintf(cmd, sizeof cmd, "0x%llx", static_cast<unsigned long long>(pc - 1));
  std::string c = std::string("addr2line -Cfse '") + self + "' " + cmd + " 2>/dev/null";
  std::string r;
  if( FILE * f = popen(c.c_str(), "r") ) { while( fgets(buf, sizeof buf, f) ) { r += r.empty() ? "" : " "; r += buf; if( r.back() == '\n' ) r.pop_back(); } pclose(f); }
  return r;
}

// one execution in a process of its own; empty if all is well
struct Outcome { std::string error; int status; };
Outcome execute(const Config& cfg, const std::vector<std::uint8_t>& prefix, const std::vector<std::string> * want)
{
  auto m = g_mc;
  m->nprefix = int(prefix.size());
  for(std::size_t i = 0; i < prefix.size(); ++i) m->prefix[i] = prefix[i];
  m->alloc_points = cfg.allocs;
  m->npoints = m->deadlock = m->overflow = m->diverged = m->finished = m->race = 0;
  m->plain = 0;
  for(int i = 0; i < kMaxThreads; ++i) { m->out_hash[i] = 0; m->out[i][0] = 0; }
  g_config = &cfg;
  std::cout.flush();
  pid_t pid = fork();
  if( pid < 0 ) { std::perror("fork"); _exit(4); }
  if( pid == 0 )
  {
    alarm(20);
    mc_run(m, int(cfg.threads.size()), thread_main, nullptr);
    _exit(0);
  }
  int st = 0;
  while( waitpid(pid, &st, 0) < 0 && errno == EINTR ) {}
  if( WIFSIGNALED(st) )
    return {WTERMSIG(st) == SIGALRM ? "the threads do not come to an end" : std::string("terminated by signal ") + strsignal(WTERMSIG(st)), 1};
  if( m->race )
    return {std::string(m->race_text) + "\n  here: " + symbol(m->race_pc[0]) + "\n  before: " + symbol(m->race_pc[1]), 1};
  if( m->deadlock ) return {"deadlock", 1};
  if( m->overflow || m->diverged || m->finished != 1 ) return {"", m->diverged ? 3 : 2};
  if( want )
    for(std::size_t i = 0; i < cfg.threads.size(); ++i)
      if( m->out_hash[i] != fnv((*want)[i]) )
        return {"thread " + std::to_string(i) + " got\n" + m->out[i] + "\nalone it gets\n" + (*want)[i], 1};
  return {"", 0};
}

void explore(Ctx& c, std::uint64_t outer, const Config& cfg)
{
    g_mc = shm_alloc<McShared>();
    bool rules = cfg.warm;
    for(const auto& p : cfg.threads) for(int o : p) rules |= kOps[o].rules;
    g_shared = new Shared(rules);
    if( cfg.warm ) for(const auto& o : kOps) o.run();
    // what each thread gets alone
    std::vector<std::string> want;
    for(const auto& p : cfg.threads)
    {
      std::string out;
      Config alone;
      alone.threads = {p};
      alone.warm = cfg.warm;
      auto o = execute(alone, {}, nullptr);
      if( o.status ) { c.want(0); c.fail(describe(alone) + "\n" + o.error + " " + std::to_string(o.status)); return; }
      want.push_back(g_mc->out[0]);
    }
    // addresses of visible operations that conflict; if more turn up, the
    // exploration starts again, so that all of them are switched at
    std::map<std::uint64_t, std::pair<int, int>> seen;
    auto conflicts = [&](std::uint64_t a) {
      auto it = seen.find(a);
      if( it == seen.end() ) return false;
      int r = it->second.first, w = it->second.second;
      return w && ((r | w) & ((r | w) - 1));
    };
    std::set<std::uint64_t> used;
    std::uint64_t inner = 0;
    for(bool again = true; again; )
    {
      again = false;
      // the last preemption: where, and the operation it was put before
      struct Item { std::vector<std::uint8_t> prefix; int cost; int at; McPoint op; };
      std::vector<Item> stack{{{}, 0, -1, {}}};
      while( !stack.empty() )
      {
        if( c.stopped() || c.violated ) return;
        Item it = std::move(stack.back());
        stack.pop_back();
        if( c.replay && inner > c.replay_inner ) return;
        const bool w = c.want(inner++);
        auto o = execute(cfg, it.prefix, &want);
        if( o.status == 1 && w )
        {
          std::string sched;
          for(auto x : it.prefix) sched += char('0' + x);
          c.fail(describe(cfg) + "\nafter the decisions " + sched + "\n" + o.error);
          return;
        }
        if( o.status >= 2 ) { c.add(o.status == 2 ? 1 : 2); continue; }
        const int np = g_mc->npoints;
        std::vector<McPoint> pts(g_mc->points, g_mc->points + np);
        for(const auto& p : pts)
          if( p.kind == kAtomic || p.kind == kLock ) (p.write ? seen[p.addr].second : seen[p.addr].first) |= 1 << p.thread;
        if( it.prefix.empty() ) for(const auto& x : seen) if( conflicts(x.first) ) used.insert(x.first);
        if( w )
        {
          c.model(std::uint64_t(np - int(it.prefix.size()) + 1), std::uint64_t(np));
          c.validated();
          c.add(0, g_mc->plain);
          std::uint64_t h = outer;
          for(auto x : it.prefix) h = h * 1099511628211ull + x + 1;
          c.nontrivial(fnv(&h, sizeof h));
          for(std::size_t i = 0; i < cfg.threads.size(); ++i) c.outcome(g_mc->out_hash[i]);
          if( c.want_sample() || (!c.replay && inner == 20) )
            c.sample(describe(cfg) + ": " + std::to_string(np) + " decisions, " + std::to_string(it.cost) + " preemptions");
        }
        const int cost = it.cost;
        bool touched = it.at >= 0 && it.op.kind != kAtomic && it.op.kind != kLock;
        int scanned = std::max(it.at, 0);
        for(int i = int(it.prefix.size()); i < np; ++i)
        {
          const auto& p = pts[std::size_t(i)];
          const bool forced = p.kind == kForced;
          const bool relevant = forced || p.kind == kYield || p.kind == kAlloc || conflicts(p.addr);
          if( !relevant ) continue;
          // If nothing that ran since the last preemption conflicts with the
          // operation it was put before, then the same happens with the
          // preemption after that operation.
          if( it.at >= 0 && !touched && i > it.at )
          {
            for(; scanned < i; ++scanned)
            {
              const auto& q = pts[std::size_t(scanned)];
              if( scanned > it.at && q.thread != it.op.thread && (q.kind == kAtomic || q.kind == kLock) && q.addr == it.op.addr && (q.write || it.op.write) ) touched = true;
            }
            if( !touched && !forced ) continue;
          }
          for(int t = 0; t < int(cfg.threads.size()); ++t)
            if( t != p.chosen && (p.enabled & (1 << t)) && (forced || cost < cfg.bound) )
            {
              Item n;
              n.prefix.reserve(std::size_t(i) + 1);
              for(int j = 0; j < i; ++j) n.prefix.push_back(pts[std::size_t(j)].chosen);
              n.prefix.push_back(std::uint8_t(t));
              n.cost = cost + (forced ? 0 : 1);
              n.at = forced ? it.at : i;
              n.op = forced ? it.op : p;
              stack.push_back(std::move(n));
            }
        }
      }
      for(const auto& x : seen) if( conflicts(x.first) && used.insert(x.first).second ) again = true;
    }
}

Space space(const std::string& name, std::shared_ptr<std::vector<Config>> configs)
{
  Space s;
  s.name = name;
  s.n = configs->size();
  s.run = [configs](Ctx& c, std::uint64_t outer) {
    if( c.replay ) { explore(c, outer, (*configs)[outer]); return; }
    // in a process that has not used the library yet
    pid_t pid = fork();
    if( pid < 0 ) { std::perror("fork"); _exit(4); }
    if( pid == 0 ) { explore(c, outer, (*configs)[outer]); std::fflush(nullptr); _exit(c.violated ? 1 : 0); }
    int st = 0;
    while( waitpid(pid, &st, 0) < 0 && errno == EINTR ) {}
    if( WIFSIGNALED(st) ) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
    c.violated = st != 0;
  };
  s.describe = [configs](std::uint64_t o, std::uint64_t i) { return describe((*configs)[o]) + ", schedule " + std::to_string(i); };
  return s;
}

} // namespace

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  o.hang_s = 120;
  const bool t = o.tier == "thorough";
  auto all = std::make_shared<std::vector<Config>>(), deep = std::make_shared<std::vector<Config>>(), three = std::make_shared<std::vector<Config>>(), allocs = std::make_shared<std::vector<Config>>();
  for(int w = 0; w < 2; ++w)
    for(int a = 0; a < kNumOps; ++a)
      for(int b = a; b < kNumOps; ++b)
      {
        Config c;
        c.warm = w;
        c.threads = {{a}, {b}};
        c.bound = t ? 2 : 1;
        if( a < kShort ) all->push_back(c);
        c.bound = t ? 3 : 2;
        if( a >= kShort ) deep->push_back(c);
        c.allocs = true;
        c.bound = 1;
        if( t || (w == 0 && a >= kShort) ) allocs->push_back(c);
        c.allocs = false;
        for(int d = b; d < kNumOps; ++d)
        {
          c.threads = {{a}, {b}, {d}};
          c.bound = 1;
          if( a >= kShort && (t || !w) ) three->push_back(c);
        }
        c.bound = 2;
        // in sequence
        for(int d = kShort; d < kNumOps && a >= kShort && t; ++d)
        {
          c.threads = {{a, d}, {b, a}};
          deep->push_back(c);
        }
      }
  std::vector<Space> sp;
  sp.push_back(space("two threads, short operations", deep));
  sp.push_back(space("two threads", all));
  sp.push_back(space("two threads, switched at allocations too", allocs));
  sp.push_back(space("three threads", three));
  return main_(o, sp, {"plain_accesses_checked", "executions_cut_off", "executions_diverged"});
}
