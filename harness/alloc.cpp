// C21: running out of memory. Every operation of a list is run once for every
// allocation it makes, with that allocation (or all from that one on) failing.
// Then the outcome, the operands, the balance of allocations and a repetition
// without failures are checked. Runs under AddressSanitizer.
#include <algorithm>
#include <memory>
#include <new>
#include "vf.hpp"
#include <hext/Hext.h>

namespace {
bool g_armed = false, g_from = false;
std::uint64_t g_count = 0, g_fail_at = 0, g_failures = 0;
std::int64_t g_live = 0;

bool fails()
{
  if( !g_armed ) return false;
  ++g_count;
  if( g_fail_at && (g_count == g_fail_at || (g_from && g_count > g_fail_at)) ) { ++g_failures; return true; }
  return false;
}
void * take(std::size_t n) { void * p = std::malloc(n ? n : 1); if( !p ) std::abort(); ++g_live; return p; }
void give(void * p) { if( p ) { --g_live; std::free(p); } }
} // namespace

void * operator new(std::size_t n) { if( fails() ) throw std::bad_alloc(); return take(n); }
void * operator new[](std::size_t n) { if( fails() ) throw std::bad_alloc(); return take(n); }
void * operator new(std::size_t n, const std::nothrow_t&) noexcept { return fails() ? nullptr : take(n); }
void * operator new[](std::size_t n, const std::nothrow_t&) noexcept { return fails() ? nullptr : take(n); }
void operator delete(void * p) noexcept { give(p); }
void operator delete[](void * p) noexcept { give(p); }
void operator delete(void * p, std::size_t) noexcept { give(p); }
void operator delete[](void * p, std::size_t) noexcept { give(p); }
void operator delete(void * p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void * p, const std::nothrow_t&) noexcept { give(p); }

using namespace vf;
using namespace hext;

namespace {

const char kLong[] = "long literal that does not fit a small string";

const Html& doc()
{
  static const char s[] = "<!DOCTYPE html><html><body><div id=m class='menu item'><a x='1' y='a very long attribute value, longer than any small string buffer'>some <i>text &amp; more</i></a><b x='AbC'><i></i></b>"
    "<x-y y=' 4 '>u</x-y>v<a></a><script>1 < 2</script></div><ul><li x=1>one</li><li x=2>two <b>bold text that is long enough to be allocated</b></li><li>three</li></ul>"
    "<svg xmlns='http://www.w3.org/2000/svg' xlink:href='q&quot;'><g/></svg><!-- a comment --></body></html>";
  static const Html h(s, sizeof s - 1);
  return h;
}
void collect(const GumboNode * n, std::vector<const GumboNode *>& v)
{
  v.push_back(n);
  if( n->type == GUMBO_NODE_ELEMENT ) for(unsigned i = 0; i < n->v.element.children.length; ++i) collect(static_cast<const GumboNode *>(n->v.element.children.data[i]), v);
}
const std::vector<const GumboNode *>& nodes()
{
  static const std::vector<const GumboNode *> v = [] { std::vector<const GumboNode *> r; collect(doc().root(), r); return r; }();
  return v;
}
const char * kSubjects[] = {nullptr, "", "a", "b", "ab", "AbC", " a b ", "long literal that does not fit a small string", "x long literal that does not fit a small string x"};

std::string str(const Result& r)
{
  std::string s;
  for(const auto& m : r) { s += "{"; for(const auto& p : m) s += std::to_string(p.first.size()) + p.first + "=" + std::to_string(p.second.size()) + p.second + ";"; s += "}"; }
  return s;
}
std::string behave(const Match& m) { std::string s; for(auto n : nodes()) s += m.matches(n) ? '1' : '0'; return s; }
std::string behave(const Capture& c) { std::string s; for(auto n : nodes()) { auto p = c.capture(n); s += p ? p->first + "=" + p->second + ";" : "-;"; } return s; }
std::string behave(const ValueTest& t) { std::string s; for(auto x : kSubjects) s += t.test(x) ? '1' : '0'; return s; }
std::string behave(const StringPipe& p) { std::string s; for(auto x : kSubjects) if( x ) s += p.pipe(x) + ";"; return s; }
std::string behave(const Rule& r)
{
  std::string s = str(r.extract(doc()));
  s += r.is_optional() ? "?" : "";
  s += r.is_greedy() ? "+" : "";
  auto t = r.get_tagname();
  s += "<" + (t ? *t : std::string("-")) + std::to_string(int(r.get_tag()));
  for(auto n : nodes()) s += r.matches(n) ? '1' : '0';
  for(const auto& x : r.nested()) s += "{" + behave(x) + "}";
  if( r.child() ) s += "(" + behave(*r.child()) + ")";
  if( r.next() ) s += "," + behave(*r.next());
  return s;
}

// An operation: `op` returns its outcome as text and is the only part that
// allocations fail in; `state` describes the operands.
struct Case
{
  std::string name;
  struct Instance { std::function<std::string()> op; std::function<std::string()> state; };
  std::function<Instance()> make;
  bool strong = true;     // a failed operation leaves the operands unchanged
};
std::vector<Case> g_cases;

void add(const std::string& name, std::function<Case::Instance()> make, bool strong = true) { g_cases.push_back({name, std::move(make), strong}); }

// Outcome of running the operation. The text is built outside of the range
// in which allocations fail.
std::string attempt(const Case::Instance& i, std::uint64_t fail_at, bool from)
{
  std::string r;
  std::exception_ptr e;
  bool bad_alloc = false, other = false, ok = false;
  static std::string keep;
  keep.clear();
  g_count = 0; g_failures = 0; g_fail_at = fail_at; g_from = from;
  try { g_armed = true; std::string x = i.op(); g_armed = false; keep = std::move(x); ok = true; }
  catch( const std::bad_alloc& ) { g_armed = false; bad_alloc = true; }
  catch( ... ) { g_armed = false; e = std::current_exception(); other = true; }
  g_armed = false;
  if( ok ) r = "returns " + keep;
  keep.clear();
  keep.shrink_to_fit();
  if( bad_alloc ) r = "bad_alloc";
  if( other )
    try { std::rethrow_exception(e); }
    catch( const SyntaxError& x ) { r = std::string("SyntaxError ") + x.what(); }
    catch( const MaxSearchError& x ) { r = std::string("MaxSearchError ") + x.what(); }
    catch( const std::exception& x ) { r = std::string(typeid(x).name()) + " " + x.what(); }
    catch( ... ) { r = "unknown exception"; }
  return r;
}

// describes what an object does, without failures in between
template<class T> std::string quietly(const T& t) { bool a = g_armed; g_armed = false; auto s = behave(t); g_armed = a; return s; }

const std::vector<std::string> kTexts = {
  "<a/>", "<*/>", "<x-y/>", "<?+a/>", "<div><a/><b/><?i/></div>", "<div>{<a/>}{<b/>}<i/></div>",
  "<a href x=\"a b\" y==\"a\" z^='b' w*=\"c\" v$=\"d\" u=~/e+/i t!/>",
  "<a @text=\"a\" @inner-html==\"b\"! @strip-tags=~'c'!/>",
  "<a @text:x @inner-html:y @strip-tags:\"a name that is long enough to be allocated\" x:x? y:y/>",
  "<a y:trim:trim(\"a\"):collapsews:tolower:toupper:prepend(\"long enough to be allocated somewhere\"):append('b'):filter(/.*/):replace(/[a]/,\"b\"):x/>",
  "<a:empty:child-count(1):attribute-count(2):nth-child(2n+1):nth-last-child(even):nth-of-type(odd):nth-last-of-type(-1n+3)/>",
  "<*:first-child:last-child:first-of-type:last-of-type:only-child:only-of-type:type-matches(/^a|b$/i):not(:empty:first-child)/>",
  "# a comment\n<custom-element-with-a-long-name x:y></custom-element-with-a-long-name>\n", "", " \n",
  "<ul><+li x:x? @text:t/></ul>", "<div>{<*:not(:type-matches(/^(div|script)$/)) @text:k/>}</div>",
  // errors
  "<a", "<a x=>", "<a></b>", "<a>", "</a>", "<custom-element-with-a-long-name>", "<custom-element-with-a-long-name></another-element-with-a-long-name>", "<a x=~/(/ />", "<a:nth-child(99999999999)/>", "<a>{}</a>", "{<a/>}",
  "<a>{<b/></a>", "}", "<a\n>\n\n<b x='1'\n y=\"2\" \xff>", "<a>{<b/><c/>}</a>", "<*></a>", "<a></*>", "<a x=~/[[:foo:]]/ />", std::string("<a \0>", 5)};

const std::vector<std::string> kExtract = {
  "<a x:x/>", "<* @text:t/>", "<* @inner-html:t/>", "<* @strip-tags:t/>", "<a x:x/><?b x:x/>", "<?a x:x/><b x:y/>", "<+* x:v/>", "<ul><+li x:x? @text:t/></ul>",
  "<div>{<a x:x y:y/>}{<i @text:i/>}<a/><?b x:bx/></div>", "<div><?script @text:s/></div>",
  "<* x=\"1\" x:x/>", "<* class=\"item menu\" class:x/>", "<* x=~/^a/i x:x/>", "<* y*='long' @text:t/>", "<* y^='a' y$='r' y:y/>", "<* @text=~/text/ @text:t/>", "<* @text=\"text\" @text:t/>",
  "<*:type-matches(/^(a|x-y)$/) y:y/>", "<*:not(:empty):nth-child(2) x:x/>", "<*:nth-last-of-type(1n+1) x:x/>"};

template<class T> void component(const std::string& name, std::function<std::unique_ptr<T>()> one, std::function<std::unique_ptr<T>()> two)
{
  using std::make_shared;
  constexpr bool strong = std::is_base_of_v<Match, T>;
  add(name + ": construct", [=] { return Case::Instance{[=] { auto p = one(); return quietly(*p); }, [] { return std::string(); }}; });
  add(name + ": clone", [=] { auto a = std::shared_ptr<T>(one()); return Case::Instance{[=] { auto p = a->clone(); return quietly(*p); }, [=] { return behave(*a); }}; });
  add(name + ": copy", [=] { auto a = std::shared_ptr<T>(one()); return Case::Instance{[=] { T p(*a); return quietly(p); }, [=] { return behave(*a); }}; });
  for(int w = 0; w < 2; ++w)
  {
    auto from = w ? one : two, to = w ? two : one;
    add(name + ": assign " + std::to_string(w), [=] { auto a = std::shared_ptr<T>(to()), b = std::shared_ptr<T>(from());
      return Case::Instance{[=] { *a = *b; return quietly(*a); }, [=] { return behave(*b) + (strong ? "|" + behave(*a) : std::string()); }}; });
  }
  add(name + ": assign to itself", [=] { auto a = std::shared_ptr<T>(one());
    return Case::Instance{[=] { const T& b = *a; *a = b; return quietly(*a); }, [=] { return strong ? behave(*a) : std::string(); }}; });
  add(name + ": move", [=] { auto a = std::shared_ptr<T>(one()), b = std::shared_ptr<T>(two());
    return Case::Instance{[=] { T x(std::move(*a)); auto s = quietly(x); *a = std::move(x); return s + quietly(*a); }, [=] { return behave(*b); }}; }, false);
  add(name + ": use", [=] { auto a = std::shared_ptr<T>(one()); return Case::Instance{[=] { return behave(*a); }, [=] { return behave(*a); }}; });
  if constexpr( std::is_base_of_v<StringPipe, T> )
    add(name + ": append", [=] { auto a = std::shared_ptr<T>(one()); return Case::Instance{[=] { a->template emplace<PrependPipe>(kLong); return quietly(*a); }, [=] { return behave(*a); }}; });
}

template<class T, class... A> std::unique_ptr<T> mk(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); }
boost::regex rx(const char * s, boost::regex::flag_type f = boost::regex::perl) { return boost::regex(s, f); }
std::unique_ptr<StringPipe> chain()
{
  auto p = mk<TrimPipe>("1");
  p->emplace<PrependPipe>(kLong);
  p->emplace<CasePipe>(CasePipe::ToUpper);
  return p;
}
std::vector<std::unique_ptr<Match>> several()
{
  std::vector<std::unique_ptr<Match>> v;
  v.push_back(mk<ChildCountMatch>(1u));
  v.push_back(mk<NegateMatch>(mk<AttributeMatch>("y")));
  return v;
}
struct Functor
{
  std::shared_ptr<std::string> s = std::make_shared<std::string>(kLong);
  std::string t = kLong;     // too big for the object itself
  std::string operator()(const GumboNode * n) const { return n->type == GUMBO_NODE_ELEMENT ? *s : t; }
};
struct Predicate
{
  std::string s = kLong, t = kLong;
  bool operator()(const GumboNode * n) const { return n->type == GUMBO_NODE_ELEMENT && s.size() > 20; }
};

#define FN(T, expr) std::function<std::unique_ptr<T>()>([] { return expr; })
#define COMP(T, a, b) component<T>(#T, FN(T, a), FN(T, b))

void rules()
{
  const std::vector<std::string> texts = {"<x-y-with-a-long-name x:x/>", "<div class=\"menu\">{<a x:x y:y/>}{<i @text:i/>}<a/><?b x:trim:append(\"z\"):bx/></div><?ul/>", "<+li x:x? @text:t/>"};
  auto R = [](const std::string& t) { return std::make_shared<Rule>(ParseHext(t.c_str(), t.size())); };
  for(std::size_t i = 0; i < texts.size(); ++i)
  {
    const auto t = texts[i], u = texts[(i + 1) % texts.size()];
    auto n = " (" + t + ")";
    add("copy a rule" + n, [=] { auto a = R(t); return Case::Instance{[=] { Rule b(*a); return quietly(b); }, [=] { return behave(*a); }}; });
    add("assign a rule" + n, [=] { auto a = R(t), b = R(u); return Case::Instance{[=] { *a = *b; return quietly(*a); }, [=] { return behave(*a) + behave(*b); }}; });
    add("assign a rule to itself" + n, [=] { auto a = R(t); return Case::Instance{[=] { const Rule& b = *a; *a = b; return quietly(*a); }, [=] { return behave(*a); }}; });
    add("move a rule" + n, [=] { auto a = R(t), b = R(u); return Case::Instance{[=] { Rule x(std::move(*a)); *a = std::move(x); return quietly(*a); }, [=] { return behave(*b); }}; }, false);
    add("append a child" + n, [=] { auto a = R(t), b = R(u); return Case::Instance{[=] { a->append_child(*b); return quietly(*a); }, [=] { return behave(*a) + behave(*b); }}; });
    add("append a sibling" + n, [=] { auto a = R(t), b = R(u); return Case::Instance{[=] { a->append_next(*b); return quietly(*a); }, [=] { return behave(*a) + behave(*b); }}; });
    add("append a nested rule" + n, [=] { auto a = R(t), b = R(u); return Case::Instance{[=] { a->append_nested(*b); return quietly(*a); }, [=] { return behave(*a) + behave(*b); }}; });
    add("append a match" + n, [=] { auto a = R(t); return Case::Instance{[=] { a->append_match<AttributeMatch>("an attribute with a very long name", std::make_unique<EqualsTest>(kLong)); return quietly(*a); }, [=] { return behave(*a); }}; });
    add("append a capture" + n, [=] { auto a = R(t); return Case::Instance{[=] { a->append_capture<FunctionCapture>(TextBuiltin, kLong, std::make_unique<PrependPipe>(kLong)); return quietly(*a); }, [=] { return behave(*a); }}; });
    add("set a tag name" + n, [=] { auto a = R(t); return Case::Instance{[=] { a->set_tag(HtmlTag::UNKNOWN); a->set_tagname(kLong); return quietly(*a); }, [=] { return std::string(); }}; });
    add("get a tag name" + n, [=] { auto a = R(t); return Case::Instance{[=] { auto s = a->get_tagname(); return s ? *s : std::string("-"); }, [=] { return behave(*a); }}; });
    add("construct a rule from a name" + n, [=] { return Case::Instance{[=] { Rule r(kLong); Rule q("a"); return quietly(r) + quietly(q); }, [=] { return std::string(); }}; });
    add("copy a subrule" + n, [=] { auto a = R(t); return Case::Instance{[=] { if( a->child() ) *a = *a->child(); else if( !a->nested().empty() ) *a = a->nested()[0]; return quietly(*a); }, [=] { return behave(*a); }}; });
    add("a rule's captures" + n, [=] { auto a = R(t); return Case::Instance{[=] { std::string s; for(auto x : nodes()) for(const auto& p : a->capture(x)) s += p.first + "=" + p.second + ";"; return s; }, [=] { return behave(*a); }}; });
  }
}

void build_cases()
{
  for(const auto& t : kTexts)
    add("ParseHext " + show(t), [t] { auto s = std::make_shared<std::string>(t); return Case::Instance{[s] { auto r = ParseHext(s->data(), s->size()); return quietly(r); }, [s] { return *s; }}; });
  for(const auto& t : kExtract)
    for(std::uint64_t lim : {0, 1, 4, 1000})
      add("extract " + show(t) + " limit " + std::to_string(lim), [t, lim] { auto r = std::make_shared<Rule>(ParseHext(t.c_str(), t.size()));
        return Case::Instance{[r, lim] { auto x = r->extract(doc(), lim); bool a = g_armed; g_armed = false; auto s = str(x); g_armed = a; return s; }, [r] { return behave(*r); }}; });
  rules();
  COMP(AttributeCountMatch, mk<AttributeCountMatch>(0u), mk<AttributeCountMatch>(2u));
  COMP(ChildCountMatch, mk<ChildCountMatch>(0u), mk<ChildCountMatch>(1u));
  COMP(AttributeMatch, mk<AttributeMatch>("x"), mk<AttributeMatch>(kLong, mk<EndsWithTest>("string buffer, which is long enough")));
  COMP(FunctionMatch, mk<FunctionMatch>(Predicate()), mk<FunctionMatch>([](const GumboNode * n) { return n->type == GUMBO_NODE_TEXT; }));
  COMP(FunctionValueMatch, mk<FunctionValueMatch>(Functor(), mk<ContainsWordsTest>("text some")), mk<FunctionValueMatch>(TextBuiltin, mk<NegateTest>(mk<ContainsTest>("literal"))));
  COMP(NegateMatch, mk<NegateMatch>(mk<AttributeMatch>("y", mk<EqualsTest>(" 4 "))), mk<NegateMatch>(several()));
  COMP(NthChildMatch, mk<NthChildMatch>(2, 1), mk<NthChildMatch>(0, 1, NthChildMatch::Last | NthChildMatch::OfType));
  COMP(OnlyChildMatch, mk<OnlyChildMatch>(), mk<OnlyChildMatch>(OnlyChildMatch::OfType));
  COMP(TypeRegexMatch, mk<TypeRegexMatch>(rx("^a")), mk<TypeRegexMatch>(rx("-|B", boost::regex::icase)));
  COMP(AttributeCapture, mk<AttributeCapture>("x", "x"), mk<AttributeCapture>("y", kLong, chain()));
  COMP(FunctionCapture, mk<FunctionCapture>(TextBuiltin, "x"), mk<FunctionCapture>(Functor(), kLong, chain()));
  COMP(BeginsWithTest, mk<BeginsWithTest>("a"), mk<BeginsWithTest>(kLong));
  COMP(EndsWithTest, mk<EndsWithTest>("b"), mk<EndsWithTest>(kLong));
  COMP(ContainsTest, mk<ContainsTest>("b"), mk<ContainsTest>(kLong));
  COMP(ContainsWordsTest, mk<ContainsWordsTest>("b a"), mk<ContainsWordsTest>(kLong));
  COMP(EqualsTest, mk<EqualsTest>("a"), mk<EqualsTest>(kLong));
  COMP(NegateTest, mk<NegateTest>(mk<EqualsTest>(kLong)), mk<NegateTest>(mk<NegateTest>(mk<RegexTest>(rx("a")))));
  COMP(RegexTest, mk<RegexTest>(rx("a")), mk<RegexTest>(rx("^ABC$", boost::regex::icase)));
  COMP(AppendPipe, mk<AppendPipe>("a"), mk<AppendPipe>(kLong));
  COMP(PrependPipe, mk<PrependPipe>("a"), mk<PrependPipe>(kLong));
  COMP(CasePipe, mk<CasePipe>(), mk<CasePipe>(CasePipe::ToUpper));
  COMP(CollapseWsPipe, mk<CollapseWsPipe>(), mk<CollapseWsPipe>());
  COMP(RegexPipe, mk<RegexPipe>(rx("(.)b")), mk<RegexPipe>(rx("l.*l")));
  COMP(RegexReplacePipe, mk<RegexReplacePipe>(rx("[ab]"), "<$0>"), mk<RegexReplacePipe>(rx("l"), kLong));
  COMP(TrimPipe, mk<TrimPipe>(), mk<TrimPipe>("xa bcdefghijklmnopqrstuvwxyz, long set of characters"));
  // several captures and matches, with pipes
  add("NegateMatch: append", [] { auto a = std::make_shared<NegateMatch>(); return Case::Instance{[=] { a->append_match(mk<AttributeMatch>("y", mk<EqualsTest>(kLong))); return quietly(*a); }, [=] { return behave(*a); }}; });
  add("SyntaxError", [] { auto s = std::make_shared<std::string>(kLong); return Case::Instance{[s] { SyntaxError e(*s); auto f = e; return std::string(f.what()); }, [s] { return *s; }}; });
  add("MaxSearchError", [] { auto s = std::make_shared<std::string>(kLong); return Case::Instance{[s] { MaxSearchError e(*s); auto f = e; return std::string(f.what()); }, [s] { return *s; }}; });
}

constexpr std::uint64_t kBlock = 400;     // points of failure of one block

Space space(const std::string& name, bool from)
{
  Space s;
  s.name = name;
  s.n = g_cases.size() * 16;
  s.run = [from](Ctx& c, std::uint64_t outer) {
    const Case& k = g_cases[outer / 16];
    const std::uint64_t first = (outer % 16) * kBlock;
    // caches of the libraries are filled first
    std::string normal, before, after;
    std::uint64_t n = 0;
    for(int i = 0; i < 3; ++i)
    {
      auto x = k.make();
      before = x.state();
      normal = attempt(x, 0, false);
      n = g_count;
      after = x.state();
    }
    if( n <= first && outer % 16 ) return;
    if( outer % 16 == 15 && n > first + kBlock ) { c.want(0); c.fail("harness: more points of failure than expected: " + k.name); return; }
    for(std::uint64_t i = 0; i < kBlock && first + i <= n && !c.stopped() && !c.violated; ++i)
    {
      const std::uint64_t at = first + i;
      if( !c.want(i) ) continue;
      const auto live0 = g_live;
      std::int64_t live = 0;
      std::string error;
      for(int round = 0; round < 2; ++round)
      {
        error.clear();
        live = g_live;
        {
          auto x = k.make();
          auto got = attempt(x, at, from);
          const bool failed = g_failures > 0;
          c.outcome(fnv(k.name + got));
          if( !failed && got != normal ) error = "without a failure: " + got + "\nexpected " + normal;
          // a failure that the operation can do without must not change anything
          else if( failed && got != "bad_alloc" && got != normal ) error = "outcome: " + got + "\nexpected bad_alloc";
          else
          {
            const bool done = got != "bad_alloc";
            auto st = x.state();
            const auto& want = done ? after : before;
            if( (done || k.strong) && st != want ) error = "operands afterwards: " + st + "\nexpected " + want;
            else if( !done )
            {
              auto again = k.strong ? attempt(x, 0, false) : normal;
              if( again != normal ) error = "repetition: " + again + "\nexpected " + normal;
            }
          }
        }
        live = g_live - live;
        if( live <= 0 || !error.empty() ) break;      // a cache may have grown in the first round
      }
      (void)live0;
      if( error.empty() && live > 0 ) error = "leaks " + std::to_string(live) + " allocations";
      c.nontrivial(fnv(&at, sizeof at, fnv(k.name)));
      if( !error.empty() ) c.fail(k.name + ", allocation " + std::to_string(at) + (from ? " and all following ones fail" : " fails") + ": " + error);
      else if( c.want_sample() ) c.sample(k.name + ", allocation " + std::to_string(at) + " of " + std::to_string(n) + " fails");
      c.add(0, at ? 1 : 0);
    }
  };
  s.describe = [from](std::uint64_t o, std::uint64_t i) { return g_cases[o / 16].name + ", allocation " + std::to_string((o % 16) * kBlock + i) + (from ? " and all following ones fail" : " fails"); };
  return s;
}

} // namespace

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  nodes();
  build_cases();
  std::vector<Space> sp;
  sp.push_back(space("one allocation fails", false));
  sp.push_back(space("all allocations fail from one on", true));
  return main_(o, sp, {"points_of_failure"});
}
