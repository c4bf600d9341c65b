// C24: parsing and extraction depend on their arguments only. All histories of
// operations up to a length run in processes of their own (and, as a de Bruijn
// sequence, one after another in a single one); operations are run inside of
// callbacks of other ones at every invocation; every outcome is compared with
// that of a process that has done nothing else, and the rules and documents
// are compared with what they were before.
#include <memory>
#include "vf.hpp"
#include "gen.hpp"
#include <hext/Hext.h>

using namespace vf;
using namespace hext;

// ---- memory under control: while a region is in use, the n-th allocation
// always lies at the same address
namespace region {
constexpr std::size_t kSlot = 512, kSlots = 1 << 14, kRegions = 3;
char * base = nullptr;
int cur = -1;
std::size_t used[kRegions];
void start()
{
  if( !base ) base = static_cast<char *>(mmap(nullptr, kRegions * kSlots * kSlot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
}
bool has(const void * p) { return base && p >= base && p < base + kRegions * kSlots * kSlot; }
void * get(std::size_t n)
{
  const std::size_t k = n ? (n + kSlot - 1) / kSlot : 1;
  auto& u = used[cur];
  if( u + k > kSlots ) { std::fputs("harness: region is full\n", stderr); std::abort(); }
  auto p = base + (std::size_t(cur) * kSlots + u) * kSlot;
  u += k;
  std::memset(p, 0xa5, k * kSlot);
  return p;
}
// what is behind p in its region (at least its size)
std::size_t room(const void * p) { return (kSlots * kSlot) - std::size_t(static_cast<const char *>(p) - base) % (kSlots * kSlot); }
struct Use
{
  int old = cur;
  explicit Use(int r, bool anew = true) { start(); if( anew ) used[r] = 0; cur = r; }
  ~Use() { cur = old; }
};
} // namespace region

extern "C" {
void * __libc_malloc(std::size_t);
void __libc_free(void *);
void * __libc_calloc(std::size_t, std::size_t);
void * __libc_realloc(void *, std::size_t);
void * malloc(std::size_t n) { return region::cur < 0 ? __libc_malloc(n) : region::get(n); }
void free(void * p) { if( !region::has(p) ) __libc_free(p); }
void * calloc(std::size_t a, std::size_t b)
{
  if( region::cur < 0 ) return __libc_calloc(a, b);
  return std::memset(region::get(a * b), 0, a * b);
}
void * realloc(void * p, std::size_t n)
{
  if( !region::has(p) && (region::cur < 0 || p) ) return __libc_realloc(p, n);
  void * q = malloc(n);
  if( p && q ) std::memmove(q, p, std::min(n, region::room(p)));
  return q;
}
}

namespace {

std::string str(const Result& r)
{
  std::string s;
  for(const auto& m : r) { s += "{"; for(const auto& p : m) s += p.first + "=" + p.second + ";"; s += "}"; }
  return s;
}
Rule parse(const std::string& s) { return ParseHext(s.data(), s.size()); }

// everything reachable from a node, with addresses and text
void digest(const GumboNode * n, std::uint64_t& h)
{
  h = fnv(n, sizeof *n, h);
  if( n->type == GUMBO_NODE_ELEMENT || n->type == GUMBO_NODE_TEMPLATE )
  {
    const auto& e = n->v.element;
    for(unsigned i = 0; i < e.attributes.length; ++i)
    {
      auto a = static_cast<const GumboAttribute *>(e.attributes.data[i]);
      h = fnv(a, sizeof *a, h);
      h = fnv(a->name, std::strlen(a->name), h);
      h = fnv(a->value, std::strlen(a->value), h);
    }
    for(unsigned i = 0; i < e.children.length; ++i) digest(static_cast<const GumboNode *>(e.children.data[i]), h);
  }
  else if( n->type != GUMBO_NODE_DOCUMENT )
    h = fnv(n->v.text.text, std::strlen(n->v.text.text), h);
}

const char kRule[] =
  "<div class=\"item menu\" id=~/m/i>"
    "<?a href^='h' href:trim:tolower:link @text=~/./ @text:t/>"
    "{<li:nth-child(2n+1) x:filter(/\\d+/):replace(/0/,\"o\"):append(\"!\"):x? @inner-html:h/>}"
    "{<*:not(:type-matches(/^(li|ul)$/)):nth-last-of-type(1) @strip-tags:s/>}"
    "<+b @text:toupper:collapsews:b/>"
  "</div>";
const char kDoc[] =
  "<!DOCTYPE html><html><body><div id=M class='menu item'><a href=' HTTP '>link</a><ul><li x=10>a <i>b</i></li><li>c</li></ul><b>x  y</b><b>z</b></div><x-y z='1'></x-y></body></html>";
const char kDoc2[] =
  "<!DOCTYPE html><html><body><div class='item menu' id=m><b>1 &amp; 2</b></div><ul><li>3<li>4</ul><p q='v'>t</p><x-z Q=w></x-z></body></html>";

const char kDoc3[] = "<!DOCTYPE html><html><body><p>a<b>c</b></p></body></html>";

// a callback: runs whatever is asked for at a certain invocation
struct Hook { std::uint64_t at = 0, n = 0; std::function<void()> f; };
Hook * g_hook = nullptr;
void hook() { if( g_hook && ++g_hook->n == g_hook->at ) g_hook->f(); }
struct HookTest : Cloneable<HookTest, ValueTest> { bool test(const char * v) const override { hook(); return v && *v; } };
struct HookPipe : Cloneable<HookPipe, StringPipe> { std::string transform(std::string s) const override { hook(); return s + "'"; } };

struct World
{
  Html doc{kDoc, sizeof kDoc - 1}, doc2{kDoc2, sizeof kDoc2 - 1}, doc3{kDoc3, sizeof kDoc3 - 1};
  Rule rule = parse(kRule), list = parse("<ul><+li @text:prepend(\"<\"):li/></ul><?x-y z:z/>"), custom = parse("<x-z q:q/>"), hooks = parse("<*/>");
  World()
  {
    hooks.append_match<FunctionMatch>([](const GumboNode * n) { hook(); return n->index_within_parent < 4; });
    hooks.append_match<FunctionValueMatch>(TextBuiltin, std::make_unique<HookTest>());
    hooks.append_capture<FunctionCapture>([](const GumboNode * n) { hook(); return std::to_string(n->index_within_parent); }, "i", std::make_unique<HookPipe>());
    Rule nested = hooks;
    hooks.append_nested(std::move(nested));
  }
  std::uint64_t digest_() const { std::uint64_t h = 1; digest(doc.root(), h); digest(doc2.root(), h); digest(doc3.root(), h); return h; }
};
World * W = nullptr;

std::string reused(const std::string& html, const char * hext)
{
  Rule r = parse(hext);
  Html h(html.data(), html.size());
  return str(r.extract(h));
}

struct Throw { int x; };
template<class F> std::string guarded(F&& f)
{
  try { return f(); }
  catch( const SyntaxError& e ) { return std::string("SyntaxError ") + e.what(); }
  catch( const MaxSearchError& e ) { return std::string("MaxSearchError ") + e.what(); }
  catch( const std::exception& e ) { return std::string("exception ") + e.what(); }
  catch( const Throw& t ) { return "thrown " + std::to_string(t.x); }
}
std::string with_hook(std::uint64_t at, std::function<void()> f, std::uint64_t * n = nullptr)
{
  Hook h;
  h.at = at;
  h.f = std::move(f);
  Hook * outer = g_hook;
  g_hook = &h;
  auto r = guarded([] { return str(W->hooks.extract(W->doc3)); });
  g_hook = outer;
  if( n ) *n = h.n;
  return r;
}

struct Op { const char * name; std::string (*run)(); };
const Op kOps[] = {
  {"extract a rule", [] { return str(W->rule.extract(W->doc)); }},
  {"extract it from another document", [] { return str(W->rule.extract(W->doc2)); }},
  {"extract another rule", [] { return str(W->list.extract(W->doc)) + str(W->list.extract(W->doc2)); }},
  {"exhaust the limit", [] { return str(W->rule.extract(W->doc, 3)); }},
  {"use a large limit", [] { return str(W->rule.extract(W->doc, 1000)); }},
  {"extract a rule for custom elements", [] { return str(W->custom.extract(W->doc)) + str(W->custom.extract(W->doc2)); }},
  {"extract a rule with callbacks", [] { return with_hook(0, {}); }},
  {"a callback throws", [] { return with_hook(5, [] { throw Throw{5}; }); }},
  {"extract from a part", [] { return str(W->rule.extract(static_cast<const GumboNode *>(W->doc.root()->v.element.children.data[1]))); }},
  {"parse the rule", [] { return str(parse(kRule).extract(W->doc)); }},
  {"parse with a regex flag", [] { return str(parse("<* x!/><* id=~/m/i id:x/>").extract(W->doc)) + str(parse("<* id=~/m/i id:x/>").extract(W->doc)); }},
  {"parse the same regex without a flag", [] { return str(parse("<* id=~/m/ id:x/>").extract(W->doc)); }},
  {"parse patterns of numbers", [] { return str(parse("<li:nth-child(2n+1):attribute-count(1) @text:t/><li:nth-last-child(-1n+2) @text:u/>").extract(W->doc)); }},
  {"parse pipes", [] { return str(parse("<a href:trim:prepend(\"a\\\"b\"):append('c'):toupper:h @text:filter(/(.)n/):t/>").extract(W->doc)); }},
  {"parse optional and negated", [] { return str(parse("<?ul @text:u/><*:not(:empty) id x! x:x? id:id/><?b @text:b/>").extract(W->doc)); }},
  {"premature end", [] { return str(parse("<div><a href=\"x").extract(W->doc)); }},
  {"error in line 11", [] { return str(parse("<a>\n\n\n\n\n\n\n\n\n\n <b x=></a>").extract(W->doc)); }},
  {"missing closing tags", [] { return str(parse("<a><b><custom-x><ul>{<li>").extract(W->doc)); }},
  {"wrong closing tag", [] { return str(parse("<a>{<b></x-y>}</a>").extract(W->doc)); }},
  {"regex error", [] { return str(parse("<a x=~/a(/i/>").extract(W->doc)); }},
  {"regex pipe error", [] { return str(parse("<a x:filter(/[/):x/>").extract(W->doc)); }},
  {"number out of range", [] { return str(parse("<a:nth-child(99999999999n+1)/>").extract(W->doc)); }},
  {"parse HTML", [] { std::string t = "<p x=1>a<p>b<table><tr><td>c"; Html h(t.data(), t.size()); return str(parse("<* x:x @text:t/>").extract(h)); }},
  {"parse broken HTML", [] { std::string t = "</x><!-- <svg><p x='"; Html h(t.data(), t.size()); return str(parse("<* @inner-html:t/>").extract(h)); }},
  // the same allocations, other contents
  {"parse HTML that is freed", [] { return reused("<ul><li x=1>one</li></ul>", "<li x:x @text:t @inner-html:h @strip-tags:s/>"); }},
  {"parse HTML of the same shape", [] { return reused("<ul><li x=2>two</li></ul>", "<li x:x @text:t @inner-html:h @strip-tags:s/>"); }},
  {"parse hext that is freed", [] { return str(parse("<li x=~/1/ x:x @text:filter(/o/):t/>").extract(W->doc)); }},
  {"parse hext of the same shape", [] { return str(parse("<li x=~/0/ x:x @text:filter(/a/):t/>").extract(W->doc)); }},
  {"change a copy", [] { Rule r = W->rule; r.append_next(W->list).set_optional(true).set_greedy(true).set_tag(HtmlTag::ANY); r.append_match<AttributeMatch>("id"); if( r.child() ) r.child()->set_optional(false); return str(r.extract(W->doc)); }},
  {"move a copy", [] { Rule r = W->rule; Rule q = std::move(r); r = std::move(q); return str(r.extract(W->doc)); }},
  {"change a copied result", [] { auto r = W->rule.extract(W->doc); auto n = r.size(); for(auto& m : r) for(auto& p : m) p.second += "x"; r.clear(); return std::to_string(n); }},
};
constexpr int kNumOps = int(sizeof kOps / sizeof *kOps);

std::string run_op(int o) { return guarded(kOps[o].run); }

struct Slot { char error[4000]; std::uint64_t hash; std::uint64_t count; };
Slot * g_slot = nullptr;

// runs f in a process of its own; f returns an error
std::string isolated(const std::function<std::string()>& f)
{
  if( !g_slot ) g_slot = shm_alloc<Slot>();
  g_slot->error[0] = 0;
  std::cout.flush();
  pid_t pid = fork();
  if( pid < 0 ) { std::perror("fork"); _exit(4); }
  if( pid == 0 )
  {
    alarm(30);
    W = new World;
    std::snprintf(g_slot->error, sizeof g_slot->error, "%s", f().c_str());
    _exit(0);
  }
  int st = 0;
  while( waitpid(pid, &st, 0) < 0 && errno == EINTR ) {}
  if( st ) return WIFSIGNALED(st) ? std::string("terminated by signal ") + strsignal(WTERMSIG(st)) : std::string("exited");
  return g_slot->error;
}

// outcomes of operations in fresh processes
std::vector<std::string> g_alone;
struct Alone { char text[kNumOps][8000]; };
void baseline()
{
  auto a = shm_alloc<Alone>();
  for(int o = 0; o < kNumOps; ++o)
  {
    auto e = isolated([&] { std::snprintf(a->text[o], sizeof a->text[o], "%s", run_op(o).c_str()); return std::string(); });
    g_alone.push_back(e.empty() ? a->text[o] : "?" + e);
  }
}

// ---- limits -----------------------------------------------------------------
// an extraction with a limit that ends in any way, then another one with a limit

constexpr std::uint64_t kLimits = 16, kThrows = 14, kTargets = 4;
std::string limited(std::uint64_t target, std::uint64_t max, std::uint64_t throw_at)
{
  Hook h;
  h.at = throw_at;
  h.f = [] { throw Throw{7}; };
  Hook * outer = g_hook;
  g_hook = throw_at ? &h : nullptr;
  auto r = guarded([&] {
    switch( target )
    {
      case 0: return str(W->hooks.extract(W->doc3, max));
      case 1: return str(W->rule.extract(W->doc, max));
      case 2: return str(W->list.extract(W->doc2, max));
      // an expression that is given up
      default: { static const std::string t = "<p x='" + std::string(40, 'a') + "'><b></b></p>"; Html d(t.data(), t.size()); return str(parse("<b @inner-html:b/><?p x=~/(a*)*(a*)*(a*)*b/ x:x/>").extract(d, max)); }
    }
  });
  g_hook = outer;
  return r;
}
struct Limited { char text[kTargets][kLimits][4000]; };
const Limited * limited_alone()
{
  static Limited * a = nullptr;
  if( !a )
  {
    a = shm_alloc<Limited>();
    for(std::uint64_t t = 0; t < kTargets; ++t)
      for(std::uint64_t m = 0; m < kLimits; ++m)
      {
        auto e = isolated([&] { std::snprintf(a->text[t][m], sizeof a->text[t][m], "%s", limited(t, m, 0).c_str()); return std::string(); });
        if( !e.empty() ) std::snprintf(a->text[t][m], sizeof a->text[t][m], "?%s", e.c_str());
      }
  }
  return a;
}
Space limits()
{
  auto alone = limited_alone();
  Space s;
  s.name = "limits";
  // the first: the rule with callbacks and the invocation that throws, or another one
  s.n = (kThrows + kTargets - 1) * kLimits;
  auto first = [](std::uint64_t o) { std::uint64_t w = o / kLimits; return w < kThrows ? std::make_pair(std::uint64_t(0), w) : std::make_pair(w - kThrows + 1, std::uint64_t(0)); };
  auto line = [=](std::uint64_t o, std::uint64_t i) {
    auto [t, at] = first(o);
    return "rule " + std::to_string(t) + " with limit " + std::to_string(o % kLimits) + (at ? " and an exception in invocation " + std::to_string(at) : "") + ", then rule " + std::to_string(i / kLimits) + " with limit " + std::to_string(i % kLimits);
  };
  s.run = [=](Ctx& c, std::uint64_t o) {
    auto [t, at] = first(o);
    for(std::uint64_t i = 0; i < kTargets * kLimits && !c.stopped() && !c.violated; ++i)
    {
      if( !c.want(i) ) continue;
      auto e = isolated([&, t = t, at = at]() -> std::string {
        limited(t, o % kLimits, at);
        auto x = limited(i / kLimits, i % kLimits, 0);
        return x == alone->text[i / kLimits][i % kLimits] ? "" : "gives\n" + x + "\nin a fresh process it gives\n" + alone->text[i / kLimits][i % kLimits];
      });
      c.model(1, 2);
      c.validated();
      std::uint64_t id[2] = {o, i};
      c.nontrivial(fnv(id, sizeof id));
      c.outcome(fnv(std::string(alone->text[i / kLimits][i % kLimits])));
      if( !e.empty() ) c.fail(line(o, i) + "\n" + e);
      else if( c.want_sample() ) c.sample(line(o, i));
    }
  };
  s.describe = line;
  return s;
}

std::string names(const std::vector<int>& h)
{
  std::string s;
  for(int o : h) s += (s.empty() ? "" : ", ") + std::string(kOps[o].name);
  return s;
}

std::string run_history(const std::vector<int>& h)
{
  const auto d = W->digest_();
  for(std::size_t i = 0; i < h.size(); ++i)
  {
    auto x = run_op(h[i]);
    if( x != g_alone[std::size_t(h[i])] ) return "step " + std::to_string(i + 1) + " (" + kOps[h[i]].name + ") gives\n" + x + "\nin a fresh process it gives\n" + g_alone[std::size_t(h[i])];
  }
  if( W->digest_() != d ) return "a document has changed";
  return "";
}

Space histories(int depth)
{
  Space s;
  s.name = "histories of " + std::to_string(depth);
  s.n = std::uint64_t(kNumOps) * kNumOps;
  auto decode = [depth](std::uint64_t o, std::uint64_t i) {
    std::vector<int> h{int(o / kNumOps), int(o % kNumOps)};
    for(int k = 2; k < depth; ++k) { h.push_back(int(i % kNumOps)); i /= kNumOps; }
    return h;
  };
  s.run = [=](Ctx& c, std::uint64_t outer) {
    std::uint64_t n = 1;
    for(int k = 2; k < depth; ++k) n *= kNumOps;
    for(std::uint64_t i = 0; i < n && !c.stopped() && !c.violated; ++i)
    {
      if( !c.want(i) ) continue;
      auto h = decode(outer, i);
      auto e = isolated([&] { return run_history(h); });
      c.model(1, std::uint64_t(depth));
      c.validated();
      std::uint64_t id[2] = {outer, i};
      c.nontrivial(fnv(id, sizeof id));
      c.outcome(fnv(g_alone[std::size_t(h.back())]));
      if( !e.empty() ) c.fail(names(h) + "\n" + e);
      else if( c.want_sample() ) c.sample(names(h));
    }
  };
  s.describe = [=](std::uint64_t o, std::uint64_t i) { return names(decode(o, i)); };
  return s;
}

// a cyclic sequence over 0..k-1 that contains every word of length n once
std::vector<int> de_bruijn(int k, int n)
{
  std::vector<int> a(std::size_t(k * n), 0), out;
  std::function<void(int, int)> db = [&](int t, int p) {
    if( t > n ) { if( n % p == 0 ) for(int j = 1; j <= p; ++j) out.push_back(a[std::size_t(j)]); return; }
    a[std::size_t(t)] = a[std::size_t(t - p)];
    db(t + 1, p);
    for(int j = a[std::size_t(t - p)] + 1; j < k; ++j) { a[std::size_t(t)] = j; db(t + 1, t); }
  };
  db(1, 1);
  return out;
}

// one long history per start; its blocks are the cases
Space long_history(int n)
{
  Space s;
  s.name = "one process, all histories of " + std::to_string(n) + " in sequence";
  auto seq = std::make_shared<std::vector<int>>(de_bruijn(kNumOps, n));
  const std::uint64_t len = seq->size();
  s.n = 8;
  s.run = [=](Ctx& c, std::uint64_t outer) {
    if( !c.want(0) ) return;
    // eight starting points, running backwards in half of them
    auto e = isolated([&] {
      const auto d = W->digest_();
      std::uint64_t start = len * (outer / 2) / 4;
      for(std::uint64_t i = 0; i < len + std::uint64_t(n); ++i)
      {
        if( i % 100 == 0 ) { c.tick(); alarm(60); }
        const int o = (*seq)[outer % 2 ? (start + 2 * len - i) % len : (start + i) % len];
        auto x = run_op(o);
        c.model(1, 1);
        if( x != g_alone[std::size_t(o)] ) return "step " + std::to_string(i) + " (" + kOps[o].name + ") gives\n" + x + "\nin a fresh process it gives\n" + g_alone[std::size_t(o)];
      }
      return W->digest_() != d ? std::string("a document has changed") : std::string();
    });
    c.validated();
    c.nontrivial(fnv(&outer, sizeof outer));
    if( !e.empty() ) c.fail(e);
  };
  return s;
}

// operations inside of callbacks
constexpr std::uint64_t kInvocations = 100;
Space reentrant(int depth)
{
  Space s;
  s.name = "operations inside of callbacks, " + std::to_string(depth) + " deep";
  s.n = depth == 1 ? kNumOps : std::uint64_t(kNumOps) * kInvocations;
  s.run = [depth](Ctx& c, std::uint64_t outer) {
    const int op = int(outer % kNumOps);
    const std::uint64_t mid = 1 + outer / kNumOps;
    std::uint64_t inner = 0;
    auto one = [&](std::uint64_t at, std::uint64_t& count) {
      if( !c.want(inner++) ) return;
      auto e = isolated([&] {
        const auto d = W->digest_();
        std::string error;
        auto leaf = [&] { auto x = run_op(op); if( x != g_alone[std::size_t(op)] ) error = std::string(kOps[op].name) + " gives\n" + x + "\nin a fresh process it gives\n" + g_alone[std::size_t(op)]; };
        auto f = depth == 1 ? std::function<void()>(leaf) : std::function<void()>([&] {
          auto x = with_hook(mid, leaf);
          if( x != g_alone[6] && error.empty() ) error = "the extraction in the callback gives\n" + x + "\nin a fresh process it gives\n" + g_alone[6];
        });
        auto x = with_hook(at, f, &g_slot->count);
        if( error.empty() && x != g_alone[6] ) error = "the extraction gives\n" + x + "\nin a fresh process it gives\n" + g_alone[6];
        if( error.empty() ) error = run_history({op, 6, 0, 9, op});
        if( error.empty() && W->digest_() != d ) error = "a document has changed";
        return error;
      });
      count = g_slot->count;
      c.model(1, std::uint64_t(depth) + 1);
      c.validated();
      std::uint64_t id[3] = {outer, at, std::uint64_t(depth)};
      c.nontrivial(fnv(id, sizeof id));
      auto line = [&] { return std::string(kOps[op].name) + " inside of invocation " + std::to_string(at) + (depth == 2 ? ", of an extraction inside of it at invocation " + std::to_string(mid) : "") + " of " + std::to_string(count); };
      if( !e.empty() ) c.fail(line() + "\n" + e);
      else if( c.want_sample() ) c.sample(line());
    };
    std::uint64_t n = 1;
    {
      // number of invocations
      if( !g_slot ) g_slot = shm_alloc<Slot>();
      isolated([&] { with_hook(0, {}, &g_slot->count); return std::string(); });
      n = g_slot->count;
    }
    if( n > kInvocations ) { c.want(inner); c.fail("harness: more invocations than expected: " + std::to_string(n)); return; }
    if( depth == 2 && mid > n ) return;
    for(std::uint64_t at = 1; at <= n && !c.stopped() && !c.violated; ++at) { std::uint64_t x = 0; one(at, x); }
  };
  s.describe = [depth](std::uint64_t o, std::uint64_t i) { return std::string(kOps[o % kNumOps].name) + " inside of a callback, " + std::to_string(depth) + " deep, case " + std::to_string(i); };
  return s;
}

// extraction from parts: what extract(first of a list of siblings) gives ends
// with what it gives for the children of each of the siblings
struct Doc { std::string text; Html html; explicit Doc(const std::string& t) : text(t), html(text.data(), text.size()) {} };
Space parts(int rules, int nodes)
{
  Space s;
  s.name = "parts of documents";
  auto f = std::make_shared<gen::Family>();
  f->nlabels = 6;
  f->label = [](gen::RuleSpec& r, int l) { r.optional = l & 1; r.greedy = l >= 4; r.tag = (l & 2) ? -1 : 0; };
  for(int i = 1; i <= rules; ++i) f->add(i, gen::chains(i, true, true));
  gen::HtmlStyle st;
  st.tags = {"div", "span"};
  auto docs = std::make_shared<std::vector<std::shared_ptr<Doc>>>();
  for(const auto& h : gen::docs(nodes, 2, true, st)) docs->push_back(std::make_shared<Doc>(h));
  s.n = f->total;
  s.run = [=](Ctx& c, std::uint64_t outer) {
    const auto chain = f->get(outer);
    int id = 0;
    std::string text = gen::to_hext(chain, {"div", "span"}, id);
    // [r0] is a label; every rule captures the id under its own name
    std::string t;
    for(std::size_t i = 0; i < text.size(); ++i)
      if( text[i] == '[' ) { auto e = text.find(']', i); t += "id:" + text.substr(i + 1, e - i - 1); i = e; }
      else t += text[i];
    const Rule rule = parse(t);
    for(std::uint64_t k = 0; k < docs->size() && !c.stopped() && !c.violated; ++k)
    {
      if( !c.want(k) ) continue;
      std::uint64_t h0 = 1, h1 = 1;
      const auto& d = *(*docs)[k];
      digest(d.html.root(), h0);
      bool some = false;
      std::function<Result(const GumboNode *)> walk = [&](const GumboNode * first) {
        Result below;
        const auto * list = first->parent && first->parent->type == GUMBO_NODE_ELEMENT ? &first->parent->v.element.children : nullptr;
        for(unsigned i = 0; i < (list ? list->length : 1); ++i)
        {
          auto n = list ? static_cast<const GumboNode *>(list->data[i]) : first;
          if( n->type == GUMBO_NODE_ELEMENT && n->v.element.children.length )
          {
            auto r = walk(static_cast<const GumboNode *>(n->v.element.children.data[0]));
            below.insert(below.end(), r.begin(), r.end());
          }
        }
        auto all = rule.extract(first);
        some |= !all.empty();
        if( all.size() < below.size() || !std::equal(below.begin(), below.end(), all.end() - std::ptrdiff_t(below.size())) )
          if( !c.violated ) c.fail(t + " on " + d.text + "\nthe extraction from a list of siblings is\n" + str(all) + "\nit does not end with the extractions from their children\n" + str(below));
        return all;
      };
      auto all = walk(d.html.root());
      if( !c.violated && all != rule.extract(d.html) ) c.fail(t + " on " + d.text + "\nthe extractions from the document and from its root differ");
      digest(d.html.root(), h1);
      if( !c.violated && h0 != h1 ) c.fail(t + " on " + d.text + "\nthe document has changed");
      c.model(1, 1);
      c.validated();
      std::uint64_t x[2] = {outer, k};
      if( some ) c.nontrivial(fnv(x, sizeof x));
      c.outcome(fnv(str(all)));
      if( c.want_sample() ) c.sample(t + " on " + d.text);
    }
  };
  s.describe = [=](std::uint64_t o, std::uint64_t k) { int id = 0; return gen::to_hext(f->get(o), {"div", "span"}, id) + " on " + (*docs)[k]->text; };
  return s;
}

// ---- places that are used again: a rule is applied to a document that lies
// exactly where another one was, or a rule lies where another one was
const char * const kPlaceDocs[] = {
  "<p x=1>a</p>", "<p x=2>b</p>", "<p x=1>b</p>", "<p y=1>a</p>", "<p x=12>12</p>", "<p></p>", "<p x=1><b>a</b></p>", "<p x=2><i>a</i></p>", "<p x=1>a<b>b</b></p>",
  "<p x=1>a</p><p x=2>b</p>", "<p x=2>b</p><p x=1>a</p>", "<b x=1>a</b><p x=2>b</p>", "<p x=1>a</p><b x=2>b</b>", "<i x=1>a</i>", "<b x=2>b</b>", "t<p x=1>a</p>",
  "<x-y x=1>a</x-y>", "<x-z x=1>a</x-z>", "<x-y x=1>a</x-y><x-z x=2>b</x-z>", "<x-z x=1>a</x-z><x-y x=2>b</x-y>", "<ul x=1><li>a<li>b</ul>", "<ul x=1><li>c<li>d</ul>",
  "<p x=1>a</p><p x=2>b</p><p x=3>c</p>", "<p x=3>c</p><b x=2>b</b><p x=1>a</p>", "<p x='a b' y>a b</p>", "<p x='b a' z>b a</p>", "<!--c--><p x=1>a</p>", "<svg><p x=1>a</p></svg>",
};
const char * const kPlaceRules[] = {
  "<p x:v/>", "<b x:v/>", "<* x:v/>", "<x-y x:v/>", "<x-z x:v/>", "<p x=\"1\" x:v/>", "<p x==\"1\" x:v/>", "<p x^=\"1\" x:v/>", "<p x*=\"2\" x:v/>", "<p x$=\"2\" x:v/>", "<p x=~/1/ x:v/>",
  "<p x=~/A/i x:v/>", "<p x==\"1\"! @text:v/>", "<p x! @text:v/>", "<p x @text:v/>", "<p @text==\"a\" x:v/>", "<p @text=~/a/ x:v/>", "<p @text=\"a\"! x:v/>", "<p @inner-html*=\"b\" x:v/>", "<p @strip-tags==\"a\" x:v/>",
  "<p:first-child x:v/>", "<p:last-child x:v/>", "<p:nth-child(2) x:v/>", "<p:nth-last-child(2n) x:v/>", "<p:nth-of-type(2) x:v/>", "<p:nth-last-of-type(1) x:v/>", "<*:only-child x:v/>", "<p:only-of-type x:v/>",
  "<*:empty x:v/>", "<*:child-count(1) x:v/>", "<*:attribute-count(1) x:v/>", "<*:attribute-count(2) x:v/>", "<*:type-matches(/^[pb]$/) x:v/>", "<*:type-matches(/^x-y/) x:v/>", "<*:not(:type-matches(/p/)) x:v/>", "<p:not(:empty) x:v/>",
  "<p @text:v/>", "<p @inner-html:v/>", "<p @strip-tags:v/>", "<* @text:v @inner-html:w/>", "<p x:trim:append(\"a\"):v/>", "<p x:append(\"b\"):v/>", "<p x:replace(/1/,\"z\"):v/>", "<p x:filter(/\\d/):v/>", "<p @text:toupper:v/>", "<p @text:collapsews:v/>",
  "<p x:v?/>", "<p y:v? x:w/>", "<p><b @text:v/></p>", "<p><?b @text:v/><?i @text:w/></p>", "<p>{<b @text:v/>}</p>", "<p/><p x:v/>", "<?p x:v/><b x:w/>", "<+p x:v/>", "<?+p x:v/>", "<ul>{<li @text:v/>}</ul>", "<ul><+li @text:v/></ul>", "<ul><li @text:v/><li @text:w/></ul>",
};
template<class T, std::size_t N> constexpr std::uint64_t length(const T (&)[N]) { return N; }
const std::uint64_t kPD = length(kPlaceDocs), kPR = length(kPlaceRules);

std::vector<std::string> g_place;      // outcomes with everything in a place of its own
void place_baseline()
{
  struct Keep { std::string t; Html h; explicit Keep(const char * s) : t(s), h(t.data(), t.size()) {} };
  // kept, so that no place is used twice
  static std::vector<std::unique_ptr<Keep>> docs;
  static std::vector<std::unique_ptr<Rule>> rules;
  for(auto r : kPlaceRules)
    for(auto d : kPlaceDocs)
    {
      docs.push_back(std::make_unique<Keep>(d));
      rules.push_back(std::make_unique<Rule>(parse(r)));
      g_place.push_back(str(rules.back()->extract(docs.back()->h)));
    }
}

struct Placed
{
  char * text = nullptr;
  Html * html = nullptr;
  explicit Placed(std::uint64_t d)
  {
    region::Use u(0);
    const std::size_t n = std::strlen(kPlaceDocs[d]);
    text = static_cast<char *>(malloc(n + 1));
    std::memcpy(text, kPlaceDocs[d], n + 1);
    html = new Html(text, n);
  }
  Placed(const Placed&) = delete;
  Placed& operator=(const Placed&) = delete;
  ~Placed() { delete html; }
};
Rule * placed_rule(std::uint64_t r)
{
  region::Use u(1);
  std::string t = kPlaceRules[r];
  return new Rule(ParseHext(t.data(), t.size()));
}

Space places(const std::string& name, bool rules, bool results)
{
  Space s;
  s.name = name;
  s.n = rules ? kPR * kPR : kPR * kPD;
  s.run = [=](Ctx& c, std::uint64_t o) {
    for(std::uint64_t i = 0; i < kPD && !c.stopped() && !c.violated; ++i)
    {
      if( !c.want(i) ) continue;
      // two rules on one document, or one rule on two documents; then the first again
      const std::uint64_t r[3] = {o % kPR, rules ? o / kPR : o % kPR, o % kPR}, d[3] = {rules ? i : o / kPR, i, rules ? i : o / kPR};
      std::unique_ptr<Rule> rule;
      std::unique_ptr<Placed> doc;
      for(int k = 0; k < 3; ++k)
      {
        if( k == 0 || rules ) { rule.reset(); rule.reset(placed_rule(r[k])); }
        if( k == 0 || !rules ) { doc.reset(); doc = std::make_unique<Placed>(d[k]); }
        std::string got;
        {
          std::unique_ptr<region::Use> u;
          if( results ) u = std::make_unique<region::Use>(2);
          got = str(rule->extract(*doc->html));
        }
        got = std::string(got.data(), got.size());
        const auto& want = g_place[r[k] * kPD + d[k]];
        c.model(1, 1);
        c.outcome(fnv(want));
        if( got != want )
        {
          c.fail("step " + std::to_string(k + 1) + ": " + kPlaceRules[r[k]] + " on " + kPlaceDocs[d[k]] + "\nwhere there was " + (k ? std::string(kPlaceRules[r[k - 1]]) + " on " + kPlaceDocs[d[k - 1]] : std::string("nothing")) + "\nexpected " + want + "\nactual   " + got);
          break;
        }
      }
      c.validated();
      std::uint64_t x[3] = {o, i, rules};
      c.nontrivial(fnv(x, sizeof x));
    }
  };
  s.describe = [=](std::uint64_t o, std::uint64_t i) { return std::string(kPlaceRules[o % kPR]) + (rules ? std::string(", then ") + kPlaceRules[o / kPR] : "") + " on " + (rules ? "" : std::string(kPlaceDocs[o / kPR]) + ", then ") + kPlaceDocs[i]; };
  return s;
}

} // namespace

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  const bool t = o.tier == "thorough";
  baseline();
  if( std::getenv("DUMP") ) for(int i = 0; i < kNumOps; ++i) std::cerr << kOps[i].name << ": " << g_alone[std::size_t(i)] << "\n";
  place_baseline();
  std::vector<Space> sp;
  for(int results = 0; results < 2; ++results)
  {
    sp.push_back(places(std::string("documents in the place of others") + (results ? ", and results" : ""), false, results));
    sp.push_back(places(std::string("rules in the place of others") + (results ? ", and results" : ""), true, results));
  }
  sp.push_back(limits());
  sp.push_back(histories(2));
  sp.push_back(histories(3));
  if( t ) sp.push_back(histories(4));
  sp.push_back(long_history(t ? 4 : 3));
  sp.push_back(reentrant(1));
  sp.push_back(reentrant(2));
  sp.push_back(parts(t ? 3 : 2, t ? 4 : 3));
  return main_(o, sp);
}
