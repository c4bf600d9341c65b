// C19: value semantics of predicates, captures, value tests and pipes. For every
// class, every history of operations on two objects up to a depth is run on
// objects of every pair of configurations and compared with what the
// configuration means (recorded from objects that were never copied).
#include <algorithm>
#include <memory>
#include <optional>
#include "vf.hpp"
#include <hext/Hext.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
static std::size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static std::size_t live_bytes() { return 0; }
#endif

using namespace vf;
using namespace hext;

namespace {

const Html& doc()
{
  static const char s[] = "<!DOCTYPE html><html><body><a x='1' y='a very long attribute value, longer than any small string buffer'>some text</a><b x='AbC'><i></i></b><x-y y=' 4 '>u</x-y>v<a></a></body></html>";
  static const Html h(s, sizeof s - 1);
  return h;
}
void collect(const GumboNode * n, std::vector<const GumboNode *>& v)
{
  v.push_back(n);
  if( n->type == GUMBO_NODE_ELEMENT ) for(unsigned i = 0; i < n->v.element.children.length; ++i) collect(static_cast<const GumboNode *>(n->v.element.children.data[i]), v);
}
const std::vector<const GumboNode *>& nodes()
{
  static const std::vector<const GumboNode *> v = [] { std::vector<const GumboNode *> r; collect(doc().root(), r); return r; }();
  return v;
}
const char * kSubjects[] = {nullptr, "", "a", "b", "ab", "AbC", " a b ", "long literal that does not fit a small string", "x long literal that does not fit a small string x"};
const char kLong[] = "long literal that does not fit a small string";

// what an object does
std::string behave(const Match& m) { std::string s; for(auto n : nodes()) s += m.matches(n) ? '1' : '0'; return s; }
std::string behave(const Capture& c) { std::string s; for(auto n : nodes()) { auto p = c.capture(n); s += p ? p->first + "=" + p->second + ";" : "-;"; } return s; }
std::string behave(const ValueTest& t) { std::string s; for(auto x : kSubjects) s += t.test(x) ? '1' : '0'; return s; }
std::string behave(const StringPipe& p) { std::string s; for(auto x : kSubjects) if( x ) s += p.pipe(x) + ";"; return s; }

template<class T> struct BaseOf;
#define B(T, X) template<> struct BaseOf<T> { using type = X; };
B(AttributeCountMatch, Match) B(AttributeMatch, Match) B(ChildCountMatch, Match) B(FunctionMatch, Match) B(FunctionValueMatch, Match)
B(NegateMatch, Match) B(NthChildMatch, Match) B(OnlyChildMatch, Match) B(TypeRegexMatch, Match)
B(AttributeCapture, Capture) B(FunctionCapture, Capture)
B(BeginsWithTest, ValueTest) B(ContainsTest, ValueTest) B(ContainsWordsTest, ValueTest) B(EndsWithTest, ValueTest) B(EqualsTest, ValueTest) B(NegateTest, ValueTest) B(RegexTest, ValueTest)
B(AppendPipe, StringPipe) B(CasePipe, StringPipe) B(CollapseWsPipe, StringPipe) B(PrependPipe, StringPipe) B(RegexPipe, StringPipe) B(RegexReplacePipe, StringPipe) B(TrimPipe, StringPipe)
#undef B

// changes an object: returns false if the class cannot be changed. The number
// of changes is part of the model state.
template<class T> bool change(T& t)
{
  if constexpr( std::is_same_v<T, NegateMatch> ) { t.append_match(std::make_unique<AttributeMatch>("x", std::make_unique<EqualsTest>("1"))); return true; }
  else if constexpr( std::is_base_of_v<StringPipe, T> ) { t.template emplace<AppendPipe>(" appended, so that the string gets long"); return true; }
  else return false;
}

template<class T> struct Config { std::string name; std::function<std::unique_ptr<T>()> make; };

template<class T> struct Explorer
{
  using Base = typename BaseOf<T>::type;
  std::vector<Config<T>> cfg;
  std::map<std::pair<int, int>, std::string> expected;   // configuration, number of changes

  const std::string& want(std::pair<int, int> m)
  {
    auto it = expected.find(m);
    if( it != expected.end() ) return it->second;
    auto t = cfg[std::size_t(m.first)].make();
    for(int i = 0; i < m.second; ++i) change(*t);
    return expected[m] = behave(*t);
  }

  struct World
  {
    std::unique_ptr<T> t[2];
    std::unique_ptr<Base> clone;
    std::optional<std::pair<int, int>> m[2], mc;    // absent: no object or moved-from
  };

  struct Op { std::string name; std::function<bool(World&)> run; };   // false: not possible

  std::vector<Op> ops(int c0, int c1)
  {
    std::vector<Op> v;
    for(int i = 0; i < 2; ++i)
    {
      int j = 1 - i;
      std::string A = i ? "b" : "a", Bn = i ? "a" : "b";
      int ci = i ? c1 : c0;
      v.push_back({"new " + A, [=](World& w) { w.t[i] = cfg[std::size_t(ci)].make(); w.m[i] = std::make_pair(ci, 0); return true; }});
      v.push_back({"delete " + A, [=](World& w) { if( !w.t[i] ) return false; w.t[i].reset(); w.m[i].reset(); return true; }});
      v.push_back({A + " = " + Bn, [=](World& w) { if( !w.t[i] || !w.m[j] ) return false; *w.t[i] = *w.t[j]; w.m[i] = w.m[j]; return true; }});
      v.push_back({A + " = move(" + Bn + ")", [=](World& w) { if( !w.t[i] || !w.m[j] ) return false; *w.t[i] = std::move(*w.t[j]); w.m[i] = w.m[j]; w.m[j].reset(); return true; }});
      v.push_back({A + " = " + A, [=](World& w) { if( !w.m[i] ) return false; const T& x = *w.t[i]; *w.t[i] = x; return true; }});
      v.push_back({"new " + A + "(" + Bn + ")", [=](World& w) { if( !w.m[j] ) return false; w.t[i] = std::make_unique<T>(*w.t[j]); w.m[i] = w.m[j]; return true; }});
      v.push_back({"new " + A + "(move(" + Bn + "))", [=](World& w) { if( !w.m[j] ) return false; w.t[i] = std::make_unique<T>(std::move(*w.t[j])); w.m[i] = w.m[j]; w.m[j].reset(); return true; }});
      v.push_back({"clone " + A, [=](World& w) { if( !w.m[i] ) return false; w.clone = static_cast<const Base&>(*w.t[i]).clone(); w.mc = w.m[i]; return true; }});
      v.push_back({"change " + A, [=](World& w) { if( !w.m[i] || w.m[i]->second >= 2 || !change(*w.t[i]) ) return false; ++w.m[i]->second; return true; }});
    }
    v.push_back({"swap", [=](World& w) { if( !w.m[0] || !w.m[1] ) return false; std::swap(*w.t[0], *w.t[1]); std::swap(w.m[0], w.m[1]); return true; }});
    v.push_back({"clone the clone", [=](World& w) { if( !w.mc ) return false; w.clone = w.clone->clone(); return true; }});
    v.push_back({"a = clone", [=](World& w) { auto * p = w.mc ? dynamic_cast<T *>(w.clone.get()) : nullptr; if( !p || !w.t[0] ) return false; *w.t[0] = *p; w.m[0] = w.mc; return true; }});
    v.push_back({"delete the clone", [=](World& w) { if( !w.clone ) return false; w.clone.reset(); w.mc.reset(); return true; }});
    return v;
  }

  std::string check(World& w)
  {
    for(int i = 0; i < 2; ++i)
      if( w.m[i] )
      {
        auto b = behave(*w.t[i]);
        if( b != want(*w.m[i]) ) return std::string(i ? "b" : "a") + " behaves like " + show(b) + ", expected " + show(want(*w.m[i]));
      }
    if( w.mc )
    {
      if( typeid(*w.clone) != typeid(T) ) return "the clone is of another class";
      auto b = behave(*w.clone);
      if( b != want(*w.mc) ) return "the clone behaves like " + show(b) + ", expected " + show(want(*w.mc));
    }
    return "";
  }

  void add(std::vector<Space>& sp, const std::string& name, int depth)
  {
    auto self = std::make_shared<Explorer>(*this);
    std::uint64_t n = cfg.size();
    auto text = [=](std::uint64_t o, const std::vector<int>& seq) {
      int c0 = int(o / n), c1 = int(o % n);
      auto v = self->ops(c0, c1);
      std::string t = name + ": a: " + self->cfg[std::size_t(c0)].name + ", b: " + self->cfg[std::size_t(c1)].name;
      for(int x : seq) t += "; " + v[std::size_t(x)].name;
      return t;
    };
    std::uint64_t k0 = ops(0, 0).size() + 1;      // first operation, or none
    sp.push_back({name, n * n * k0, [=](Ctx& c, std::uint64_t outer) {
      std::uint64_t o = outer / k0;
      int c0 = int(o / n), c1 = int(o % n);
      auto v = self->ops(c0, c1);
      std::uint64_t i = 0;
      std::vector<int> seq;
      std::function<void(int)> rec = [&](int left) {
        if( c.stopped() || c.violated ) return;
        std::string error;
        bool possible = true;
        if( c.want(i) || c.replay )
        {
          std::size_t grow = 1;
          for(int round = 0; round < 3 && grow; ++round)
          {
            auto before = live_bytes();
            {
              World w;
              w.t[0] = self->cfg[std::size_t(c0)].make(); w.m[0] = std::make_pair(c0, 0);
              w.t[1] = self->cfg[std::size_t(c1)].make(); w.m[1] = std::make_pair(c1, 0);
              for(std::size_t k = 0; k < seq.size() && error.empty(); ++k)
              {
                if( !v[std::size_t(seq[k])].run(w) ) { possible = false; break; }
                if( k + 1 == seq.size() || c.replay ) error = self->check(w);
              }
              if( possible && error.empty() )
              {
                std::string sig = name;
                for(auto& m : {w.m[0], w.m[1], w.mc}) sig += m ? std::to_string(m->first) + "." + std::to_string(m->second) + "|" : "-|";
                c.outcome(fnv(sig));
              }
            }
            auto after = live_bytes();
            grow = after > before ? after - before : 0;
            if( !possible || !error.empty() ) grow = 0;
          }
          if( grow ) error = "leaks " + std::to_string(grow) + " bytes";
          if( !error.empty() ) { c.fail(text(o, seq) + ": " + error); return; }
          if( possible )
          {
            c.model(1, 1);
            c.validated();
            c.nontrivial(fnv(text(o, seq)));
            if( c.want_sample() ) c.sample(text(o, seq));
          }
        }
        ++i;
        if( !left || !possible ) return;
        for(int x = 0; x < int(v.size()); ++x) { seq.push_back(x); rec(left - 1); seq.pop_back(); }
      };
      if( outer % k0 == 0 ) rec(0);
      else { seq.push_back(int(outer % k0) - 1); rec(depth - 1); }
    }, [=](std::uint64_t outer, std::uint64_t i) { return text(outer / k0, outer % k0 ? std::vector<int>{int(outer % k0) - 1} : std::vector<int>{}) + "; history number " + std::to_string(i); }});
  }
};

template<class T, class... C> void add(std::vector<Space>& sp, const std::string& name, int depth, C... c)
{
  Explorer<T> e;
  (e.cfg.push_back({c.first, c.second}), ...);
  for(std::size_t i = 0; i < e.cfg.size(); ++i) for(int k = 0; k < 3; ++k) e.want({int(i), k});
  e.add(sp, name, depth);
}

#define CFG(text, expr) std::make_pair(std::string(text), [] { return expr; })
template<class T, class... A> std::unique_ptr<T> mk(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); }
boost::regex rx(const char * s, boost::regex::flag_type f = boost::regex::perl) { return boost::regex(s, f); }

struct Functor
{
  std::shared_ptr<std::string> s = std::make_shared<std::string>(kLong);
  std::string operator()(const GumboNode * n) const { return n->type == GUMBO_NODE_ELEMENT ? *s : "a"; }
};
struct Predicate
{
  std::string s = kLong;
  bool operator()(const GumboNode * n) const { return n->type == GUMBO_NODE_ELEMENT && s.size() > 20; }
};
std::unique_ptr<StringPipe> chain()
{
  auto p = mk<TrimPipe>("1");
  p->emplace<PrependPipe>(kLong);
  p->emplace<CasePipe>(CasePipe::ToUpper);
  return p;
}
std::vector<std::unique_ptr<Match>> several()
{
  std::vector<std::unique_ptr<Match>> v;
  v.push_back(mk<ChildCountMatch>(1));
  v.push_back(nullptr);
  v.push_back(mk<NegateMatch>(mk<AttributeMatch>("y")));
  return v;
}
template<class P> std::unique_ptr<P> with(std::unique_ptr<P> p) { p->template emplace<PrependPipe>(kLong); p->template emplace<CasePipe>(CasePipe::ToUpper); return p; }

// chains of pipes that are put together in every order: every bracketing of up
// to n pipes, every way to append the right part to the left one
struct Tree { int leaf = 0, mode = 0; std::unique_ptr<Tree> l, r; };
Space chains(int n)
{
  constexpr int kModes = 5, kLeaves = 3;
  // the number of programs with k pipes
  auto count = std::make_shared<std::vector<std::uint64_t>>(std::size_t(n) + 1, 0);
  (*count)[1] = kLeaves;
  for(std::size_t k = 2; k <= std::size_t(n); ++k) for(std::size_t a = 1; a < k; ++a) (*count)[k] += kModes * (*count)[a] * (*count)[k - a];
  using Make = std::function<std::unique_ptr<Tree>(int, std::uint64_t)>;
  auto make = std::make_shared<Make>();
  *make = [count, make = make.get()](int k, std::uint64_t i) {
    auto t = std::make_unique<Tree>();
    if( k == 1 ) { t->leaf = int(i); return t; }
    for(int a = 1; ; ++a)
    {
      auto ca = (*count)[std::size_t(a)], cb = (*count)[std::size_t(k - a)];
      if( i >= kModes * ca * cb ) { i -= kModes * ca * cb; continue; }
      t->mode = int(i % kModes); i /= kModes;
      t->l = (*make)(a, i % ca);
      t->r = (*make)(k - a, i / ca);
      return t;
    }
  };
  std::uint64_t total = 0;
  for(auto k : *count) total += k;
  auto tree = [=](std::uint64_t o) { int k = 1; while( o >= (*count)[std::size_t(k)] ) o -= (*count)[std::size_t(k++)]; return (*make)(k, o); };
  struct Run
  {
    int pos = 0;
    std::string text;
    std::vector<std::function<std::string(std::string)>> f;
    std::unique_ptr<StringPipe> build(const Tree& t)
    {
      if( !t.l )
      {
        const std::string c(1, char('c' + pos++));
        if( t.leaf == 0 ) { text += "append(" + c + ")"; f.push_back([=](std::string s) { return s + c; }); return mk<AppendPipe>(c); }
        if( t.leaf == 1 ) { text += "prepend(" + c + ")"; f.push_back([=](std::string s) { return c + s; }); return mk<PrependPipe>(c); }
        text += "toupper";
        f.push_back([](std::string s) { for(char& x : s) if( x >= 'a' && x <= 'z' ) x = char(x - 32); return s; });
        return mk<CasePipe>(CasePipe::ToUpper);
      }
      text += "(";
      auto l = build(*t.l);
      static const char * kText[] = {" + ", " + clone of ", " with null at the end + ", " cloned + ", " copied by a capture + "};
      text += kText[t.mode];
      auto r = build(*t.r);
      text += ")";
      switch( t.mode )
      {
        case 0: l->append(std::move(r)); break;
        case 1: { auto x = r->clone(); r.reset(); l->append(std::move(x)); break; }
        case 2: l->append(nullptr); l->append(std::move(r)); l->append(nullptr); break;
        case 3: { auto x = l->clone(); x->append(std::move(r)); auto y = x->clone(); l = std::move(y); break; }
        // the original must not change with the copy
        case 4: { auto x = l->clone(); auto before = behave(*l); x->append(std::move(r)); if( behave(*l) != before ) text += " CHANGED THE ORIGINAL"; l = std::move(x); break; }
      }
      return l;
    }
  };
  auto text = [=](std::uint64_t o) { Run r; auto t = tree(o); r.build(*t); return r.text; };
  return {"chains of up to " + std::to_string(n) + " pipes", total, [=](Ctx& c, std::uint64_t o) {
    if( !c.want(0) ) return;
    auto t = tree(o);
    std::string error;
    Run run;
    std::size_t grow = 1;
    for(int round = 0; round < 3 && grow; ++round)
    {
      run = Run();
      (void) make;
      std::string want;
      auto before = live_bytes();
      {
        auto p = run.build(*t);
        std::string expected;
        for(auto x : kSubjects) if( x ) { std::string v = x; for(auto& f : run.f) v = f(v); expected += v + ";"; }
        auto check = [&](const StringPipe& q, const char * what) { auto b = behave(q); if( error.empty() && b != expected ) error = std::string(what) + " yields " + show(b) + ", expected " + show(expected); };
        check(*p, "the chain");
        auto q = p->clone();
        check(*q, "the clone");
        auto capture = AttributeCapture("x", "n", std::move(p));
        auto copy = std::make_unique<AttributeCapture>(capture);
        capture = AttributeCapture("y", "m");
        std::string captured, v = "1", w = "AbC";
        for(auto& f : run.f) v = f(v), w = f(w);
        for(auto nd : nodes()) if( auto r = copy->capture(nd) ) captured += r->second + ";";
        if( error.empty() && captured != v + ";" + w + ";" ) error = "the copy of a capture yields " + show(captured) + ", expected " + show(v + ";" + w + ";");
        check(*q, "the clone, after its original was moved,");
        if( run.text.find("CHANGED") != std::string::npos ) error = "a clone changes with its original";
        run.f.clear(); run.f.shrink_to_fit();
        if( error.empty() ) run.text.clear(), run.text.shrink_to_fit();
      }
      auto after = live_bytes();
      grow = after > before ? after - before : 0;
      if( !error.empty() ) break;
    }
    if( error.empty() && grow ) error = "leaks " + std::to_string(grow) + " bytes";
    if( !error.empty() ) { c.fail(text(o) + ": " + error); return; }
    c.model(1, 1);
    c.validated();
    c.nontrivial(o);
    c.outcome(o % 65536);
    if( c.want_sample() ) c.sample(text(o));
  }, [=](std::uint64_t o, std::uint64_t) { return text(o); }};
}

} // namespace

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  bool th = o.tier == "thorough";
  int d = th ? 4 : 3, s = th ? 3 : 2;
  nodes();
  std::vector<Space> sp;
  add<AttributeCountMatch>(sp, "AttributeCountMatch", d, CFG("0", mk<AttributeCountMatch>(0u)), CFG("2", mk<AttributeCountMatch>(2u)));
  add<ChildCountMatch>(sp, "ChildCountMatch", d, CFG("0", mk<ChildCountMatch>(0u)), CFG("1", mk<ChildCountMatch>(1u)));
  add<AttributeMatch>(sp, "AttributeMatch", d, CFG("x, no test", mk<AttributeMatch>("x")), CFG("y, test", mk<AttributeMatch>("y", mk<EndsWithTest>("string buffer"))),
                      CFG("x, nested test", mk<AttributeMatch>("x", mk<NegateTest>(mk<NegateTest>(mk<RegexTest>(rx("b", boost::regex::icase)))))));
  add<FunctionMatch>(sp, "FunctionMatch", d, CFG("object", mk<FunctionMatch>(Predicate())), CFG("lambda", mk<FunctionMatch>([](const GumboNode * n) { return n->type == GUMBO_NODE_TEXT; })));
  add<FunctionValueMatch>(sp, "FunctionValueMatch", d, CFG("builtin", mk<FunctionValueMatch>(TextBuiltin, mk<ContainsWordsTest>("text some"))), CFG("object, negated", mk<FunctionValueMatch>(Functor(), mk<NegateTest>(mk<ContainsTest>("literal")))),
                          CFG("no test", mk<FunctionValueMatch>(TextBuiltin, nullptr)));
  add<NegateMatch>(sp, "NegateMatch", d, CFG("nothing", mk<NegateMatch>()), CFG("one", mk<NegateMatch>(mk<AttributeMatch>("y", mk<EqualsTest>(" 4 ")))), CFG("several", mk<NegateMatch>(several())));
  add<NthChildMatch>(sp, "NthChildMatch", d, CFG("2n+1", mk<NthChildMatch>(2, 1)), CFG("last of type", mk<NthChildMatch>(0, 1, NthChildMatch::Last | NthChildMatch::OfType)));
  add<OnlyChildMatch>(sp, "OnlyChildMatch", d, CFG("any", mk<OnlyChildMatch>()), CFG("of type", mk<OnlyChildMatch>(OnlyChildMatch::OfType)));
  add<TypeRegexMatch>(sp, "TypeRegexMatch", d, CFG("a", mk<TypeRegexMatch>(rx("^a"))), CFG("-", mk<TypeRegexMatch>(rx("-|B", boost::regex::icase))));
  add<AttributeCapture>(sp, "AttributeCapture", d, CFG("no pipe", mk<AttributeCapture>("x", "x")), CFG("pipe", mk<AttributeCapture>("y", kLong, chain())), CFG("pipe 2", mk<AttributeCapture>("y", "n", mk<TrimPipe>())));
  add<FunctionCapture>(sp, "FunctionCapture", d, CFG("no pipe", mk<FunctionCapture>(TextBuiltin, "x")), CFG("pipe", mk<FunctionCapture>(Functor(), kLong, chain())), CFG("function only", mk<FunctionCapture>(InnerHtmlBuiltin, "")),
                       CFG("no function", mk<FunctionCapture>(CaptureFunction([](const GumboNode *) { return std::string(); }), "n", mk<TrimPipe>())));
  add<BeginsWithTest>(sp, "BeginsWithTest", s + 1, CFG("a", mk<BeginsWithTest>("a")), CFG("long", mk<BeginsWithTest>(kLong)), CFG("empty", mk<BeginsWithTest>("")));
  add<EndsWithTest>(sp, "EndsWithTest", s + 1, CFG("b", mk<EndsWithTest>("b")), CFG("long", mk<EndsWithTest>(kLong)), CFG("empty", mk<EndsWithTest>("")));
  add<ContainsTest>(sp, "ContainsTest", s + 1, CFG("b", mk<ContainsTest>("b")), CFG("long", mk<ContainsTest>(kLong)));
  add<ContainsWordsTest>(sp, "ContainsWordsTest", s + 1, CFG("b a", mk<ContainsWordsTest>("b a")), CFG("long", mk<ContainsWordsTest>(kLong)), CFG("empty", mk<ContainsWordsTest>("")));
  add<EqualsTest>(sp, "EqualsTest", s + 1, CFG("a", mk<EqualsTest>("a")), CFG("long", mk<EqualsTest>(kLong)));
  add<NegateTest>(sp, "NegateTest", d, CFG("no test", mk<NegateTest>(nullptr)), CFG("test", mk<NegateTest>(mk<EqualsTest>(kLong))), CFG("nested", mk<NegateTest>(mk<NegateTest>(mk<RegexTest>(rx("a"))))));
  add<RegexTest>(sp, "RegexTest", s + 1, CFG("a", mk<RegexTest>(rx("a"))), CFG("i", mk<RegexTest>(rx("^ABC$", boost::regex::icase))));
  add<AppendPipe>(sp, "AppendPipe", d, CFG("a", mk<AppendPipe>("a")), CFG("long with pipes", with(mk<AppendPipe>(kLong))));
  add<PrependPipe>(sp, "PrependPipe", d, CFG("a", mk<PrependPipe>("a")), CFG("long with pipes", with(mk<PrependPipe>(kLong))));
  add<CasePipe>(sp, "CasePipe", d, CFG("lower", mk<CasePipe>()), CFG("upper", mk<CasePipe>(CasePipe::ToUpper)), CFG("lower with pipes", with(mk<CasePipe>())));
  add<CollapseWsPipe>(sp, "CollapseWsPipe", d, CFG("plain", mk<CollapseWsPipe>()), CFG("with pipes", with(mk<CollapseWsPipe>())));
  add<RegexPipe>(sp, "RegexPipe", d, CFG("a", mk<RegexPipe>(rx("(.)b"))), CFG("with pipes", with(mk<RegexPipe>(rx("l.*l")))));
  add<RegexReplacePipe>(sp, "RegexReplacePipe", d, CFG("a", mk<RegexReplacePipe>(rx("[ab]"), "<$0>")), CFG("with pipes", with(mk<RegexReplacePipe>(rx("l"), kLong))));
  add<TrimPipe>(sp, "TrimPipe", d, CFG("space", mk<TrimPipe>()), CFG("ab", mk<TrimPipe>("ab")), CFG("with pipes", with(mk<TrimPipe>("xa bcdefghijklmnopqrstuvwxyz, long set of characters"))));
  sp.push_back(chains(th ? 5 : 4));
  return main_(o, sp);
}
