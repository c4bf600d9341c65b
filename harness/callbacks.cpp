// C22: exceptions of user supplied callbacks. Rules are built with user
// supplied functions, tests, pipes, matches and captures; every invocation of
// one of them throws in one run. Then what arrives at the caller, the trace of
// invocations, the balance of allocations and the following runs are checked.
#include <any>
#include <cxxabi.h>
#include <filesystem>
#include <functional>
#include <future>
#include <memory>
#include <new>
#include <optional>
#include <regex>
#include <typeinfo>
#include <variant>
#include <boost/regex.hpp>
#include "vf.hpp"
#include "gen.hpp"
#include <hext/Hext.h>

namespace { std::int64_t g_live = 0; }
static void * take(std::size_t n) { void * p = std::malloc(n ? n : 1); if( !p ) std::abort(); ++g_live; return p; }
static void give(void * p) { if( p ) { --g_live; std::free(p); } }
void * operator new(std::size_t n) { return take(n); }
void * operator new[](std::size_t n) { return take(n); }
void operator delete(void * p) noexcept { give(p); }
void operator delete[](void * p) noexcept { give(p); }
void operator delete(void * p, std::size_t) noexcept { give(p); }
void operator delete[](void * p, std::size_t) noexcept { give(p); }

using namespace vf;
using namespace hext;

namespace {

// ------------------------------------------------------------ exceptions ----
int g_exceptions = 0;      // thrown objects alive
struct Foreign { int id; explicit Foreign(int i) : id(i) { ++g_exceptions; } Foreign(const Foreign& o) : id(o.id) { ++g_exceptions; } ~Foreign() { --g_exceptions; } };
template<class B> struct Derived : B
{
  int id;
  explicit Derived(int i) : B("message of the user"), id(i) { ++g_exceptions; }
  Derived(const Derived& o) : B(o), id(o.id) { ++g_exceptions; }
  ~Derived() override { --g_exceptions; }
};
struct Bad : std::bad_alloc
{
  int id;
  explicit Bad(int i) : id(i) { ++g_exceptions; }
  Bad(const Bad& o) : std::bad_alloc(o), id(o.id) { ++g_exceptions; }
  ~Bad() override { --g_exceptions; }
};
using Runtime = Derived<std::runtime_error>;
using Syntax = Derived<SyntaxError>;
using MaxSearch = Derived<MaxSearchError>;

// The other kinds: classes of the standard library, of boost and of the
// language that code between a callback and the caller may know how to handle.
struct Kind { const char * name; void (*raise)(const std::string&); };
template<class E> void raise_text(const std::string& m) { throw E(m); }
template<class E> void raise_plain(const std::string&) { throw E(); }
enum class Enum { Value = 3 };
struct Virtual : virtual std::exception { const char * what() const noexcept override { return "virtual base"; } };
struct Both : std::logic_error, Foreign { explicit Both(const std::string& m) : std::logic_error(m), Foreign(7) {} };
const Kind kKind[] = {
  {"a class of the user", nullptr}, {"std::runtime_error", nullptr}, {"std::bad_alloc", nullptr}, {"hext::SyntaxError", nullptr},
  {"hext::MaxSearchError", nullptr}, {"int", nullptr}, {"plain hext::MaxSearchError", nullptr},
  {"plain hext::SyntaxError", raise_text<SyntaxError>},
  {"std::exception", raise_plain<std::exception>},
  {"std::logic_error", raise_text<std::logic_error>},
  {"std::invalid_argument", raise_text<std::invalid_argument>},
  {"std::out_of_range", raise_text<std::out_of_range>},
  {"std::domain_error", raise_text<std::domain_error>},
  {"std::length_error", raise_text<std::length_error>},
  {"plain std::runtime_error", raise_text<std::runtime_error>},
  {"std::range_error", raise_text<std::range_error>},
  {"std::overflow_error", raise_text<std::overflow_error>},
  {"std::underflow_error", raise_text<std::underflow_error>},
  {"std::bad_function_call", raise_plain<std::bad_function_call>},
  {"std::bad_cast", raise_plain<std::bad_cast>},
  {"std::bad_any_cast", raise_plain<std::bad_any_cast>},
  {"std::bad_typeid", raise_plain<std::bad_typeid>},
  {"std::bad_optional_access", raise_plain<std::bad_optional_access>},
  {"std::bad_variant_access", raise_plain<std::bad_variant_access>},
  {"std::bad_weak_ptr", raise_plain<std::bad_weak_ptr>},
  {"std::bad_exception", raise_plain<std::bad_exception>},
  {"plain std::bad_alloc", raise_plain<std::bad_alloc>},
  {"std::bad_array_new_length", raise_plain<std::bad_array_new_length>},
  {"std::ios_base::failure", raise_text<std::ios_base::failure>},
  {"std::system_error", [](const std::string& m) { throw std::system_error(std::make_error_code(std::errc::io_error), m); }},
  {"std::filesystem::filesystem_error", [](const std::string& m) { throw std::filesystem::filesystem_error(m, std::make_error_code(std::errc::io_error)); }},
  {"std::regex_error", [](const std::string&) { throw std::regex_error(std::regex_constants::error_complexity); }},
  {"boost::regex_error", [](const std::string&) { throw boost::regex_error(boost::regex_constants::error_complexity); }},
  {"boost::regex_error, stack", [](const std::string&) { throw boost::regex_error(boost::regex_constants::error_stack); }},
  {"std::future_error", [](const std::string&) { throw std::future_error(std::future_errc::no_state); }},
  {"std::nested_exception", [](const std::string& m) { try { throw std::out_of_range(m); } catch( ... ) { std::throw_with_nested(std::logic_error("outer " + m)); } }},
  {"std::string", [](const std::string& m) { throw m; }},
  {"const char *", [](const std::string&) { throw "a literal"; }},
  {"a null pointer", [](const std::string&) { throw nullptr; }},
  {"a pointer to an exception", [](const std::string&) { static std::runtime_error e("pointed to"); throw &e; }},
  {"bool", [](const std::string&) { throw true; }},
  {"unsigned long", [](const std::string&) { throw 5ul; }},
  {"double", [](const std::string&) { throw 0.5; }},
  {"an enumerator", [](const std::string&) { throw Enum::Value; }},
  {"std::error_code", [](const std::string&) { throw std::make_error_code(std::errc::io_error); }},
  {"a virtually derived class", raise_plain<Virtual>},
  {"a class with two bases", raise_text<Both>},
};
constexpr int kKinds = int(sizeof kKind / sizeof *kKind);

[[noreturn]] void throw_kind(int k, int id)
{
  switch( k )
  {
    case 0: throw Foreign(id);
    case 1: throw Runtime(id);
    case 2: throw Bad(id);
    case 3: throw Syntax(id);
    case 4: throw MaxSearch(id);
    case 5: throw id;
    case 6: throw MaxSearchError("id " + std::to_string(id));
    default: kKind[k].raise("id " + std::to_string(id));
  }
  std::abort();
}
// what was caught, exactly
std::string caught()
{
  const std::type_info * t = abi::__cxa_current_exception_type();
  std::string n = t ? t->name() : "?";
  try { throw; }
  catch( const Foreign& e ) { return n + " " + std::to_string(e.id); }
  catch( const Runtime& e ) { return n + " " + std::to_string(e.id) + e.what(); }
  catch( const Bad& e ) { return n + " " + std::to_string(e.id); }
  catch( const Syntax& e ) { return n + " " + std::to_string(e.id) + e.what(); }
  catch( const MaxSearch& e ) { return n + " " + std::to_string(e.id) + e.what(); }
  catch( int e ) { return n + " " + std::to_string(e); }
  catch( const std::string& e ) { return n + " " + e; }
  catch( const char * e ) { return n + " " + (e ? e : "null"); }
  catch( const std::exception& e ) { return n + " " + e.what(); }
  catch( ... ) { return n; }
}
std::string expected(int k, int id)
{
  try { throw_kind(k, id); } catch( ... ) { return caught(); }
}

// ------------------------------------------------------------- callbacks ----
struct Probe
{
  std::vector<std::uint64_t> trace;      // one entry per invocation
  std::uint64_t at = 0, n = 0;
  int kind = 0;
  std::uint64_t copies = 0, copy_at = 0; // copies of functors
  const std::set<const GumboNode *> * nodes = nullptr;
  bool stray = false;
};
Probe g_p;

void hit(std::uint64_t site, std::uint64_t arg)
{
  auto h = fnv(&arg, sizeof arg, site * 0x9e3779b97f4a7c15ull + 1);
  g_p.trace.push_back(h);
  if( ++g_p.n == g_p.at ) throw_kind(g_p.kind, int(g_p.n));
}
std::uint64_t node_arg(const GumboNode * n)
{
  // stable across allocations: the position in the document
  if( !n || (g_p.nodes && !g_p.nodes->count(n)) ) { g_p.stray = true; return 0; }
  std::uint64_t h = n->index_within_parent + 1;
  for(auto p = n->parent; p; p = p->parent) h = h * 31 + p->index_within_parent + 1;
  return h;
}
void hit(std::uint64_t site, const GumboNode * n) { hit(site, node_arg(n)); }

bool even(const GumboNode * n) { return n->type == GUMBO_NODE_ELEMENT && n->v.element.tag != GUMBO_TAG_SPAN; }
std::string id_of(const GumboNode * n)
{
  if( n->type != GUMBO_NODE_ELEMENT ) return "text node";
  auto a = gumbo_get_attribute(&n->v.element.attributes, "id");
  return a ? a->value : "no id";
}

// a functor that counts its copies and is too large for the object itself
struct Copied
{
  std::string s = "some text which is longer than a small string";
  Copied() = default;
  Copied(const Copied& o) : s(o.s) { ++g_p.copies; if( g_p.copies == g_p.copy_at ) throw_kind(g_p.kind, int(g_p.copies)); }
  Copied(Copied&& o) noexcept : s(std::move(o.s)) {}
  Copied& operator=(const Copied&) = default;
};
struct MatchF : Copied
{
  std::uint64_t site; bool all;
  MatchF(std::uint64_t i, bool x) : site(i), all(x) {}
  bool operator()(const GumboNode * n) const { hit(site, n); return all || even(n); }
};
struct ValueF : Copied
{
  std::uint64_t site;
  explicit ValueF(std::uint64_t i) : site(i) {}
  std::string operator()(const GumboNode * n) const { hit(site, n); return id_of(n); }
};
struct UserTest : Cloneable<UserTest, ValueTest>, Copied
{
  std::uint64_t site;
  explicit UserTest(std::uint64_t i) : site(i) {}
  bool test(const char * v) const override { hit(site, v ? fnv(v, std::strlen(v)) : 0); return v && *v != '9'; }
};
struct UserPipe : Cloneable<UserPipe, StringPipe>, Copied
{
  std::uint64_t site;
  explicit UserPipe(std::uint64_t i) : site(i) {}
  std::string transform(std::string s) const override { hit(site, fnv(s)); return s + "|a suffix which is long enough to be allocated"; }
};
struct UserMatch : Cloneable<UserMatch, Match>, Copied
{
  std::uint64_t site;
  explicit UserMatch(std::uint64_t i) : site(i) {}
  bool matches(const GumboNode * n) const override { hit(site, n); return n->type == GUMBO_NODE_TEXT; }
};
struct UserCapture : Cloneable<UserCapture, Capture>, Copied
{
  std::uint64_t site;
  explicit UserCapture(std::uint64_t i) : site(i) {}
  std::optional<ResultPair> capture(const GumboNode * n) const override
  {
    hit(site, n);
    if( n->type != GUMBO_NODE_ELEMENT ) return {};
    return ResultPair("a name which is long enough to be allocated", id_of(n));
  }
};

constexpr int kSets = 8;
const char * kSetName[kSets] = {"functions", "attribute tests", "value matches", "negated matches", "captures", "attribute captures with pipes", "user captures", "everything"};

// site numbers: 16 per rule
void equip(Rule& r, int set, std::uint64_t base)
{
  const bool x = set == 7;
  if( x || set == 0 ) r.append_match<FunctionMatch>(MatchF(base + 1, set != 0));
  if( x || set == 1 ) r.append_match<AttributeMatch>("id", std::make_unique<UserTest>(base + 2));
  if( x || set == 2 ) r.append_match<FunctionValueMatch>(ValueF(base + 3), std::make_unique<NegateTest>(std::make_unique<NegateTest>(std::make_unique<UserTest>(base + 4))));
  if( x || set == 3 )
  {
    auto n = std::make_unique<NegateMatch>(std::make_unique<UserMatch>(base + 5));
    n->append_match(std::make_unique<UserMatch>(base + 6));
    r.append_match(std::move(n));
    r.append_match<UserMatch>(base + 7);
  }
  if( x || set == 4 )
  {
    auto p = std::make_unique<UserPipe>(base + 9);
    p->emplace<CasePipe>(CasePipe::ToUpper);
    p->emplace<UserPipe>(base + 10);
    r.append_capture<FunctionCapture>(ValueF(base + 8), "another name which is long enough", std::move(p));
  }
  if( x || set == 5 ) r.append_capture<AttributeCapture>("id", "i", std::make_unique<UserPipe>(base + 11));
  if( x || set == 6 ) r.append_capture<UserCapture>(base + 12);
  if( set < 4 ) r.append_capture<AttributeCapture>("id", "i");
}
const HtmlTag kTag[] = {HtmlTag::DIV, HtmlTag::SPAN};

Rule build(const gen::RuleSpec& s, int set, std::uint64_t& id);
void build_chain(Rule& head, const gen::ChainSpec& c, int set, std::uint64_t& id)
{
  for(std::size_t i = 1; i < c.size(); ++i) head.append_next(build(c[i], set, id));
}
Rule build(const gen::RuleSpec& s, int set, std::uint64_t& id)
{
  Rule r(s.tag < 0 ? HtmlTag::ANY : kTag[s.tag], s.optional, s.greedy);
  equip(r, set, 16 * ++id);
  for(const auto& k : s.kids) r.append_child(build(k, set, id));
  for(const auto& n : s.nested) { Rule h = build(n[0], set, id); build_chain(h, n, set, id); r.append_nested(std::move(h)); }
  return r;
}
Rule build(const gen::ChainSpec& c, int set)
{
  std::uint64_t id = 0;
  Rule h = build(c[0], set, id);
  build_chain(h, c, set, id);
  return h;
}

std::string str(const Result& r)
{
  std::string s;
  for(const auto& m : r) { s += "{"; for(const auto& p : m) s += p.first + "=" + p.second + ";"; s += "}"; }
  return s;
}

struct Document
{
  std::string text;
  Html html;
  std::set<const GumboNode *> nodes;
  explicit Document(const std::string& t) : text(t), html(text.data(), text.size()) { collect(html.root()); }
  void collect(const GumboNode * n)
  {
    nodes.insert(n);
    if( n->type == GUMBO_NODE_ELEMENT ) for(unsigned i = 0; i < n->v.element.children.length; ++i) collect(static_cast<const GumboNode *>(n->v.element.children.data[i]));
  }
};

struct Run { std::string outcome; std::vector<std::uint64_t> trace; bool stray; };
Run run(const Rule& r, const Document& d, std::uint64_t limit, std::uint64_t at, int kind)
{
  g_p.trace.clear();
  g_p.n = 0; g_p.at = at; g_p.kind = kind; g_p.stray = false; g_p.nodes = &d.nodes;
  Run x;
  try { x.outcome = "returns " + str(r.extract(d.html, limit)); }
  catch( ... ) { x.outcome = "throws " + caught(); }
  g_p.at = 0;
  x.trace = std::move(g_p.trace);
  g_p.trace = {};
  x.stray = g_p.stray;
  return x;
}

std::vector<std::shared_ptr<Document>> documents(int n, bool text)
{
  std::vector<std::shared_ptr<Document>> v;
  gen::HtmlStyle st;
  st.tags = {"div", "span"};
  for(const auto& h : gen::docs(n, 2, text, st)) v.push_back(std::make_shared<Document>(h));
  return v;
}
gen::Family family(int n, int nlabels)
{
  gen::Family f;
  f.nlabels = nlabels;
  f.label = [nlabels](gen::RuleSpec& r, int l) { r.optional = l & 1; r.greedy = l & 2; r.tag = nlabels > 4 ? (l >> 2) - 1 : -1; };
  for(int i = 1; i <= n; ++i) f.add(i, gen::chains(i, true, true));
  return f;
}
std::string rule_text(const gen::ChainSpec& c) { int id = 0; return gen::to_hext(c, {"div", "span"}, id); }

std::string first_difference(const Run& a, const Run& b)
{
  if( a.outcome != b.outcome ) return "got " + a.outcome + "\nexpected " + b.outcome;
  return a.trace == b.trace ? "" : "the callbacks were invoked in another order";
}

struct Setup
{
  gen::Family f;
  std::vector<std::shared_ptr<Document>> docs;
  std::vector<std::uint64_t> limits;
  std::vector<int> sets, kinds;
  int depth = 1;             // number of consecutive failing extractions
};

// one outer index: a rule and a set of callbacks
Space space(const std::string& name, std::shared_ptr<Setup> su)
{
  Space s;
  s.name = name;
  s.n = su->f.total * su->sets.size();
  s.run = [su](Ctx& c, std::uint64_t outer) {
    const auto chain = su->f.get(outer / su->sets.size());
    const int set = su->sets[outer % su->sets.size()];
    const Rule rule = build(chain, set);
    std::uint64_t inner = 0;
    for(const auto& d : su->docs)
      for(auto limit : su->limits)
      {
        const Run normal = run(rule, *d, limit, 0, 0);
        const std::uint64_t n = normal.trace.size();
        auto what = [&] { return rule_text(chain) + " with " + kSetName[set] + " on " + d->text + " limit " + std::to_string(limit); };
        if( normal.stray && c.want(inner) ) { c.fail(what() + "\na callback got a node which is not part of the document"); return; }
        // the order does not depend on addresses or on the rule object
        if( c.want(inner++) )
        {
          std::vector<std::unique_ptr<char[]>> noise;
          for(int i = 0; i < 6; ++i) noise.push_back(std::make_unique<char[]>(std::size_t(24 << i)));
          for(int i = 0; i < 6; i += 2) noise[std::size_t(i)].reset();
          const Rule copy(rule);
          const Document other(d->text);
          auto e = first_difference(run(rule, *d, limit, 0, 0), normal);
          if( e.empty() ) e = first_difference(run(copy, other, limit, 0, 0), normal);
          if( !e.empty() ) { c.fail(what() + "\nanother extraction: " + e); return; }
          c.outcome(fnv(normal.outcome));
        }
        std::vector<std::uint64_t> at(std::size_t(su->depth), 1);
        if( n == 0 ) continue;
        for(int kind : su->kinds)
          for(;;)
          {
            if( c.stopped() || c.violated ) return;
            if( c.want(inner++) )
            {
              const auto live = g_live;
              std::string error;
              std::uint64_t at_last = 0;
              for(auto k : at)
              {
                at_last = k;
                const Run x = run(rule, *d, limit, k, kind);
                const auto want = "throws " + expected(kind, int(k));
                if( x.outcome != want ) error = "got " + x.outcome + "\nexpected " + want;
                else if( x.trace.size() != k || !std::equal(x.trace.begin(), x.trace.end(), normal.trace.begin()) ) error = "the callbacks were invoked in another order";
                if( !error.empty() ) break;
              }
              if( error.empty() && g_exceptions ) error = "the exception is not released";
              if( error.empty() )
              {
                auto e = first_difference(run(rule, *d, limit, 0, 0), normal);
                if( !e.empty() ) error = "the extraction after it: " + e;
              }
              // once more: only now a cache must not grow any further
              if( error.empty() && g_live > live )
              {
                const auto l2 = g_live;
                for(auto k : at) run(rule, *d, limit, k, kind);
                if( g_live > l2 ) error = "leaks " + std::to_string(g_live - l2) + " allocations";
              }
              std::uint64_t id[4] = {outer, inner, 0, 0};
              c.nontrivial(fnv(id, sizeof id, fnv(d->text)));
              c.outcome(fnv(std::to_string(at_last) + kKind[kind].name));
              c.add(0, at.size());
              auto line = [&] { std::string l = what() + ", throwing " + kKind[kind].name + " at invocation"; for(auto k : at) l += " " + std::to_string(k); return l + " of " + std::to_string(n); };
              if( !error.empty() ) { c.fail(line() + "\n" + error); return; }
              if( c.want_sample() ) c.sample(line());
            }
            std::size_t j = 0;
            while( j < at.size() && at[j] == n ) at[j++] = 1;
            if( j == at.size() ) break;
            ++at[j];
          }
      }
  };
  s.describe = [su](std::uint64_t o, std::uint64_t i) { return rule_text(su->f.get(o / su->sets.size())) + " with " + kSetName[su->sets[o % su->sets.size()]] + ", case " + std::to_string(i); };
  return s;
}

// copies of the functions fail
Space copies(std::shared_ptr<gen::Family> f)
{
  Space s;
  s.name = "copying a callback throws";
  s.n = f->total * kSets;
  s.run = [f](Ctx& c, std::uint64_t outer) {
    const auto chain = f->get(outer / kSets);
    const int set = int(outer % kSets);
    static const Document doc("<!DOCTYPE html><html><body><div id=1><span id=2></span>t<div id=3></div></div><div id=4></div></body></html>");
    const char * ops[] = {"copying", "assigning", "appending as a child", "appending as a sibling", "appending as a nested rule", "assigning to itself", "assigning its own part"};
    std::uint64_t inner = 0;
    for(int op = 0; op < 7; ++op)
      for(int kind = 0; kind < kKinds; ++kind)
        for(std::uint64_t at = 0;; ++at)
        {
          if( c.stopped() || c.violated ) return;
          const bool w = c.want(inner++);
          std::string error;
          std::uint64_t copies = 0;
          const auto live = g_live;
          {
            const Rule pristine = build(chain, set);
            Rule rule = build(chain, set);
            Rule target(HtmlTag::SPAN);
            target.append_capture<AttributeCapture>("id", "target");
            auto state = [](const Rule& r) { auto x = run(r, doc, 0, 0, 0); auto s = x.outcome; for(auto t : x.trace) s += std::to_string(t); return s; };
            auto normal = state(pristine), before = state(target);
            std::string got = "completes";
            g_p.copies = 0; g_p.copy_at = at; g_p.kind = kind;
            try
            {
              switch( op )
              {
                case 0: { Rule x(rule); break; }
                case 1: target = rule; break;
                case 2: target.append_child(rule); break;
                case 3: target.append_next(rule); break;
                case 4: target.append_nested(rule); break;
                case 5: { const Rule& r = rule; rule = r; break; }
                default: if( rule.child() ) rule = *rule.child(); else if( !rule.nested().empty() ) { const auto& n = rule.nested()[0]; rule = n; } break;
              }
            }
            catch( ... ) { got = "throws " + caught(); }
            copies = g_p.copies;
            g_p.copy_at = 0;
            const bool failed = at && copies >= at;
            auto want = failed ? "throws " + expected(kind, int(at)) : std::string("completes");
            if( got != want ) error = "got " + got + "\nexpected " + want;
            else if( (failed || op < 6) && state(rule) != normal ) error = "the rule has changed: " + state(rule) + "\nexpected " + normal;
            else if( failed && state(target) != before ) error = "the target has changed: " + state(target) + "\nexpected " + before;
            else if( g_exceptions ) error = "the exception is not released";
            c.outcome(fnv(got));
          }
          if( error.empty() && g_live > live + 4 && at > 2 ) error = "leaks " + std::to_string(g_live - live) + " allocations";
          if( w )
          {
            std::uint64_t id[2] = {outer, inner};
            c.nontrivial(fnv(id, sizeof id));
            c.add(0, at ? 1 : 0);
            auto line = [&] { return std::string(ops[op]) + " " + rule_text(chain) + " with " + kSetName[set] + ", throwing " + kKind[kind].name + " at copy " + std::to_string(at); };
            if( !error.empty() ) { c.fail(line() + "\n" + error); return; }
            if( c.want_sample() ) c.sample(line());
          }
          if( at >= copies ) break;
        }
  };
  s.describe = [f](std::uint64_t o, std::uint64_t i) { return rule_text(f->get(o / kSets)) + " with " + kSetName[o % kSets] + ", case " + std::to_string(i); };
  return s;
}

} // namespace

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  const bool t = o.tier == "thorough";
  std::vector<Space> sp;
  auto a = std::make_shared<Setup>();
  a->f = family(t ? 3 : 2, 4);
  a->docs = documents(t ? 3 : 3, true);
  a->limits = {0, 2};
  a->sets = {0, 1, 2, 3, 4, 5, 6, 7};
  a->kinds = {0};
  auto b = std::make_shared<Setup>(*a);
  b->f = family(t ? 3 : 2, 4);
  b->docs = documents(t ? 3 : 2, true);
  b->limits = {0};
  b->sets = {7};
  b->kinds = {1, 2, 3, 4, 5, 6};
  auto g = std::make_shared<Setup>(*b);
  g->f = family(t ? 2 : 1, 4);
  g->docs = documents(t ? 2 : 1, true);
  g->limits = {0, 2};
  g->kinds.clear();
  for(int k = 0; k < kKinds; ++k) g->kinds.push_back(k);
  g->sets = {0, 1, 2, 3, 4, 5, 6, 7};
  auto d = std::make_shared<Setup>(*b);
  d->f = family(2, 4);
  d->docs = documents(t ? 2 : 1, true);
  d->sets = {0, 3, 4, 7};
  d->kinds = {0};
  d->depth = 2;
  auto e = std::make_shared<Setup>(*b);
  e->f = family(3, 4);
  e->docs = documents(2, true);
  e->sets = {7};
  e->kinds = {0};
  sp.push_back(space("every invocation", a));
  sp.push_back(space("every kind of exception", b));
  sp.push_back(space("every class of exception", g));
  sp.push_back(space("two failing extractions in sequence", d));
  if( !t ) sp.push_back(space("every invocation, three rules", e));
  auto f = std::make_shared<gen::Family>(family(3, 1));
  sp.push_back(copies(f));
  return main_(o, sp, {"exceptions_thrown"});
}
