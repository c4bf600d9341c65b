// C18: rules are values. Every history of operations on a set of rules, up to a
// depth, is run on hext::Rule and on a model of plain values; after every step
// all rules are compared with their values. Runs under AddressSanitizer, with
// a balance of allocations.
#include <algorithm>
#include <memory>
#include "vf.hpp"
#include <hext/Hext.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
static std::size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static std::size_t live_bytes() { return 0; }
#endif

using namespace vf;

namespace {

// a rule as a plain value, with its parts
struct Obj
{
  std::string tag = "*";
  bool optional = false, greedy = false;
  std::vector<int> matches, captures;
  std::shared_ptr<Obj> child, next;
  std::vector<std::shared_ptr<Obj>> nested;
};
using O = std::shared_ptr<Obj>;

O copy(const O& o)
{
  if( !o ) return nullptr;
  auto r = std::make_shared<Obj>(*o);
  r->child = copy(o->child);
  r->next = copy(o->next);
  for(auto& n : r->nested) n = copy(n);
  return r;
}

const hext::Html& doc()
{
  static const char s[] = "<!DOCTYPE html><html><body><a x='1' y='2'>t</a><b x='3'></b><x-y y='4'>u</x-y>v<a></a></body></html>";
  static const hext::Html h(s, sizeof s - 1);
  return h;
}

void collect(const GumboNode * n, std::vector<const GumboNode *>& v)
{
  v.push_back(n);
  if( n->type == GUMBO_NODE_ELEMENT ) for(unsigned i = 0; i < n->v.element.children.length; ++i) collect(static_cast<const GumboNode *>(n->v.element.children.data[i]), v);
}
const std::vector<const GumboNode *>& nodes()
{
  static const std::vector<const GumboNode *> v = [] { std::vector<const GumboNode *> r; collect(doc().root(), r); return r; }();
  return v;
}

const char * attr(const GumboNode * n, const char * name)
{
  if( n->type != GUMBO_NODE_ELEMENT ) return nullptr;
  auto a = gumbo_get_attribute(&n->v.element.attributes, name);
  return a ? a->value : nullptr;
}

// matches: 0 has x, 1 has y, 2 x==3 by a user supplied function object with a
// heap allocated state, 3 a null pointer; captures: 0 x as "x", 1 y as "y" with a pipe, 2 function,
// 3 a null pointer
void add_match(hext::Rule& r, int m)
{
  using namespace hext;
  if( m == 0 ) r.append_match<AttributeMatch>("x");
  else if( m == 3 ) r.append_match(std::unique_ptr<Match>());
  else if( m == 1 ) r.append_match<AttributeMatch>("y", std::make_unique<NegateTest>(std::make_unique<EqualsTest>("4")));
  else
  {
    auto s = std::make_shared<std::string>("3");
    r.append_match<FunctionMatch>([s](const GumboNode * n) { auto v = attr(n, "x"); return v && *s == v; });
  }
}
bool model_match(int m, const GumboNode * n)
{
  auto x = attr(n, "x"), y = attr(n, "y");
  if( m == 0 ) return x != nullptr;
  if( m == 3 ) return true;
  if( m == 1 ) return n->type == GUMBO_NODE_ELEMENT && (!y || std::string(y) != "4");
  return x && std::string(x) == "3";
}
void add_capture(hext::Rule& r, int c)
{
  using namespace hext;
  if( c == 0 ) r.append_capture<AttributeCapture>("x", "x");
  else if( c == 1 ) r.append_capture<AttributeCapture>("y", "y", std::make_unique<PrependPipe>("long enough to be allocated: "));
  else if( c == 3 ) r.append_capture(std::unique_ptr<Capture>());
  else { auto s = std::make_shared<std::string>("f"); r.append_capture<FunctionCapture>([s](const GumboNode *) { return *s; }, "f"); }
}
void model_capture(int c, const GumboNode * n, std::vector<hext::ResultPair>& out)
{
  auto x = attr(n, "x"), y = attr(n, "y");
  if( c == 0 && x ) out.push_back({"x", x});
  if( c == 1 && y ) out.push_back({"y", std::string("long enough to be allocated: ") + y});
  if( c == 2 ) out.push_back({"f", "f"});
}

std::string tag_of(const hext::Rule& r)
{
  if( r.get_tag() == hext::HtmlTag::ANY ) return "*";
  if( r.get_tag() == hext::HtmlTag::A ) return "a";
  if( r.get_tag() == hext::HtmlTag::B ) return "b";
  return r.get_tag() == hext::HtmlTag::UNKNOWN && r.get_tagname() ? *r.get_tagname() : "?";
}

std::string name_of(const GumboNode * n)
{
  if( n->type != GUMBO_NODE_ELEMENT ) return "";
  if( n->v.element.tag != GUMBO_TAG_UNKNOWN ) return gumbo_normalized_tagname(n->v.element.tag);
  auto p = n->v.element.original_tag;
  gumbo_tag_from_original_text(&p);
  return std::string(p.data, p.length);
}

std::string describe(const O& o)
{
  if( !o ) return "";
  std::string s = "<" + std::string(o->optional ? "?" : "") + (o->greedy ? "+" : "") + o->tag;
  for(int m : o->matches) s += " m" + std::to_string(m);
  for(int m : o->captures) s += " c" + std::to_string(m);
  s += ">" + describe(o->child);
  for(auto& n : o->nested) s += "{" + describe(n) + "}";
  return s + "</>" + describe(o->next);
}

std::string compare(const hext::Rule& r, const O& o)
{
  if( tag_of(r) != o->tag ) return "tag " + tag_of(r) + " instead of " + o->tag;
  if( r.is_optional() != o->optional || r.is_greedy() != o->greedy ) return "flags differ";
  for(auto n : nodes())
  {
    bool m = o->tag == "*" || o->tag == name_of(n);
    for(int x : o->matches) m = m && model_match(x, n);
    if( r.matches(n) != m ) return std::string("matches() is ") + (m ? "false" : "true");
    std::vector<hext::ResultPair> c;
    for(int x : o->captures) model_capture(x, n, c);
    if( r.capture(n) != c ) return "captures differ";
  }
  if( !r.child() != !o->child ) return o->child ? "child rule missing" : "unexpected child rule";
  if( !r.next() != !o->next ) return o->next ? "next rule missing" : "unexpected next rule";
  if( r.nested().size() != o->nested.size() ) return std::to_string(r.nested().size()) + " nested rules instead of " + std::to_string(o->nested.size());
  std::string e;
  if( o->child && !(e = compare(*r.child(), o->child)).empty() ) return "child: " + e;
  if( o->next && !(e = compare(*r.next(), o->next)).empty() ) return "next: " + e;
  for(std::size_t i = 0; i < o->nested.size(); ++i) if( !(e = compare(r.nested()[i], o->nested[i])).empty() ) return "nested: " + e;
  return "";
}

constexpr int K = 2;
struct World
{
  std::unique_ptr<hext::Rule> r[K];
  O m[K];               // model; null while r is moved-from
};

void append_next(const O& o, const O& n) { Obj * p = o.get(); while( p->next ) p = p->next.get(); p->next = n; }
void append_child(const O& o, const O& n) { if( o->child ) append_next(o->child, n); else o->child = n; }

O base(int b)
{
  auto o = std::make_shared<Obj>();
  if( b == 0 ) return o;
  if( b == 1 ) { o->tag = "a"; o->matches = {0}; o->captures = {1}; return o; }
  // with everything
  o->tag = "x-y"; o->optional = true; o->matches = {1, 3, 2}; o->captures = {0, 3, 2};
  auto c = std::make_shared<Obj>(); c->tag = "b"; c->greedy = true; c->captures = {1};
  auto n = std::make_shared<Obj>(); n->tag = "x-z"; n->matches = {2};
  auto t = std::make_shared<Obj>(); t->captures = {2, 2};
  o->child = copy(c); o->child->next = copy(n);
  o->next = copy(t); o->next->child = copy(n);
  o->nested = {copy(n), copy(c)};
  o->nested[1]->child = copy(t);
  return o;
}
hext::Rule make(const O& o)
{
  hext::Rule r = o->tag == "*" ? hext::Rule(hext::HtmlTag::ANY, o->optional, o->greedy)
               : o->tag == "a" ? hext::Rule(hext::HtmlTag::A, o->optional, o->greedy) : hext::Rule(o->tag, o->optional, o->greedy);
  for(int x : o->matches) add_match(r, x);
  for(int x : o->captures) add_capture(r, x);
  if( o->child ) r.append_child(make(o->child));
  for(auto& n : o->nested) r.append_nested(make(n));
  if( o->next ) r.append_next(make(o->next));
  return r;
}

struct Op
{
  std::string name;
  std::function<bool(const World&)> can;
  std::function<void(World&)> run;
};

const std::vector<Op>& ops(bool full)
{
  static std::map<bool, std::vector<Op>> cache;
  auto& v = cache[full];
  if( !v.empty() ) return v;
  auto any = [](const World&) { return true; };
  auto has = [](int i) { return [i](const World& w) { return w.r[i] && w.m[i]; }; };
  auto is = [](int i) { return [i](const World& w) { return bool(w.r[i]); }; };
  for(int i = 0; i < K; ++i)
  {
    auto I = "r" + std::to_string(i);
    for(int b = 0; b < 3; ++b)
      v.push_back({I + " = new Rule(base " + std::to_string(b) + ")", any, [=](World& w) { w.m[i] = base(b); w.r[i] = std::make_unique<hext::Rule>(make(w.m[i])); }});
    v.push_back({"delete " + I, is(i), [=](World& w) { w.r[i].reset(); w.m[i] = nullptr; }});
    for(int j = 0; j < K; ++j)
    {
      auto J = "r" + std::to_string(j);
      auto both = [=](const World& w) { return w.r[i] && w.r[j] && w.m[j]; };
      auto both2 = [=](const World& w) { return w.r[i] && w.r[j] && w.m[j] && w.m[i]; };
      v.push_back({I + " = " + J, both, [=](World& w) { *w.r[i] = *w.r[j]; auto c = copy(w.m[j]); w.m[i] = c; }});
      if( i != j )
      {
        v.push_back({"new " + I + "(" + J + ")", has(j), [=](World& w) { w.r[i] = std::make_unique<hext::Rule>(*w.r[j]); w.m[i] = copy(w.m[j]); }});
        v.push_back({"new " + I + "(move(" + J + "))", has(j), [=](World& w) { w.r[i] = std::make_unique<hext::Rule>(std::move(*w.r[j])); w.m[i] = w.m[j]; w.m[j] = nullptr; }});
        v.push_back({I + " = move(" + J + ")", both, [=](World& w) { *w.r[i] = std::move(*w.r[j]); w.m[i] = w.m[j]; w.m[j] = nullptr; }});
        v.push_back({"swap(" + I + ", " + J + ")", both2, [=](World& w) { std::swap(*w.r[i], *w.r[j]); std::swap(w.m[i], w.m[j]); }});
        v.push_back({I + ".append_child(move(" + J + "))", both2, [=](World& w) { w.r[i]->append_child(std::move(*w.r[j])); append_child(w.m[i], w.m[j]); w.m[j] = nullptr; }});
        v.push_back({I + ".append_nested(move(" + J + "))", both2, [=](World& w) { w.r[i]->append_nested(std::move(*w.r[j])); w.m[i]->nested.push_back(w.m[j]); w.m[j] = nullptr; }});
        v.push_back({I + ".append_next(move(" + J + "))", both2, [=](World& w) { w.r[i]->append_next(std::move(*w.r[j])); append_next(w.m[i], w.m[j]); w.m[j] = nullptr; }});
      }
      else v.push_back({I + " = move(" + J + ")", is(i), [=](World& w) { auto& x = *w.r[i]; x = std::move(*w.r[j]); w.m[i] = nullptr; }});
      v.push_back({I + ".append_child(" + J + ")", both2, [=](World& w) { w.r[i]->append_child(*w.r[j]); auto c = copy(w.m[j]); append_child(w.m[i], c); }});
      v.push_back({I + ".append_nested(" + J + ")", both2, [=](World& w) { w.r[i]->append_nested(*w.r[j]); auto c = copy(w.m[j]); w.m[i]->nested.push_back(c); }});
      v.push_back({I + ".append_next(" + J + ")", both2, [=](World& w) { w.r[i]->append_next(*w.r[j]); auto c = copy(w.m[j]); append_next(w.m[i], c); }});
      // parts
      struct Part { const char * n; std::function<hext::Rule *(hext::Rule&)> r; std::function<O(const O&)> m; };
      std::vector<Part> parts = {
        {".child()", [](hext::Rule& x) { return x.child(); }, [](const O& o) { return o->child; }},
        {".next()", [](hext::Rule& x) { return x.next(); }, [](const O& o) { return o->next; }},
        {".nested()[0]", [](hext::Rule& x) { return &x.nested()[0]; }, [](const O& o) { return o->nested.empty() ? nullptr : o->nested[0]; }}};
      if( full )
        parts.push_back({".child()->next()", [](hext::Rule& x) { return x.child()->next(); }, [](const O& o) { return o->child ? o->child->next : nullptr; }});
      for(auto& p : parts)
      {
        auto part = [=](const World& w) { return w.r[i] && w.r[j] && w.m[j] && p.m(w.m[j]); };
        v.push_back({I + " = " + J + p.n, part, [=](World& w) { *w.r[i] = *p.r(*w.r[j]); w.m[i] = copy(p.m(w.m[j])); }});
        if( i == j )
          v.push_back({I + " = move(" + J + p.n + ")", part, [=](World& w) { *w.r[i] = std::move(*p.r(*w.r[j])); w.m[i] = copy(p.m(w.m[j])); }});
        if( i != j && full )
          v.push_back({J + p.n + " = " + I, [=](const World& w) { return w.r[i] && w.m[i] && w.r[j] && w.m[j] && p.m(w.m[j]); },
                       [=](World& w) { *p.r(*w.r[j]) = *w.r[i]; *p.m(w.m[j]) = *copy(w.m[i]); }});
        if( i == j && full )
        {
          v.push_back({I + ".append_child(" + I + p.n + ")", part, [=](World& w) { w.r[i]->append_child(*p.r(*w.r[i])); auto c = copy(p.m(w.m[i])); append_child(w.m[i], c); }});
          v.push_back({I + ".append_nested(" + I + p.n + ")", part, [=](World& w) { w.r[i]->append_nested(*p.r(*w.r[i])); auto c = copy(p.m(w.m[i])); w.m[i]->nested.push_back(c); }});
          v.push_back({I + p.n + " = " + I, part, [=](World& w) { *p.r(*w.r[i]) = *w.r[i]; auto c = copy(w.m[i]); *p.m(w.m[i]) = *c; }});
        }
      }
    }
    v.push_back({I + " modified", has(i), [=](World& w) {
      w.r[i]->set_optional(!w.m[i]->optional); w.m[i]->optional = !w.m[i]->optional;
      w.r[i]->set_tag(hext::HtmlTag::B); w.m[i]->tag = "b";
      add_match(*w.r[i], 0); w.m[i]->matches.push_back(0);
      add_capture(*w.r[i], 1); w.m[i]->captures.push_back(1);
      w.r[i]->set_greedy(!w.m[i]->greedy); w.m[i]->greedy = !w.m[i]->greedy;
    }});
    v.push_back({I + ": parts modified", [=](const World& w) { return w.r[i] && w.m[i] && (w.m[i]->child || w.m[i]->next || !w.m[i]->nested.empty()); }, [=](World& w) {
      auto change = [](hext::Rule& r, Obj& o) { r.set_tag(hext::HtmlTag::UNKNOWN); r.set_tagname("x-y"); o.tag = "x-y"; r.set_greedy(!o.greedy); o.greedy = !o.greedy; add_capture(r, 0); o.captures.push_back(0); };
      if( w.m[i]->child ) change(*w.r[i]->child(), *w.m[i]->child);
      if( w.m[i]->next ) change(*w.r[i]->next(), *w.m[i]->next);
      for(std::size_t k = 0; k < w.m[i]->nested.size(); ++k) change(w.r[i]->nested()[k], *w.m[i]->nested[k]);
    }});
  }
  return v;
}

// operations on the parts of one rule: appending to and replacing any of them
const std::vector<Op>& part_ops()
{
  static std::vector<Op> v;
  if( !v.empty() ) return v;
  struct Part { std::string n; std::function<hext::Rule *(hext::Rule&)> r; std::function<O(const O&)> m; };
  const std::vector<Part> parts = {
    {"r", [](hext::Rule& x) { return &x; }, [](const O& o) { return o; }},
    {"r.next()", [](hext::Rule& x) { return x.next(); }, [](const O& o) { return o->next; }},
    {"r.next()->next()", [](hext::Rule& x) { return x.next()->next(); }, [](const O& o) { return o->next ? o->next->next : nullptr; }},
    {"r.child()", [](hext::Rule& x) { return x.child(); }, [](const O& o) { return o->child; }},
    {"r.child()->next()", [](hext::Rule& x) { return x.child()->next(); }, [](const O& o) { return o->child ? o->child->next : nullptr; }},
    {"r.nested()[0]", [](hext::Rule& x) { return &x.nested()[0]; }, [](const O& o) { return o->nested.empty() ? nullptr : o->nested[0]; }}};
  auto small = [](int k) {
    auto o = std::make_shared<Obj>();
    o->tag = k == 1 ? "x-w" : "a";
    o->captures = {3, k};
    o->matches = {3, 0};
    if( k == 2 ) { o->next = std::make_shared<Obj>(); o->next->tag = "b"; }
    return o;
  };
  for(const auto& p : parts)
  {
    auto can = [p](const World& w) { return w.r[0] && w.m[0] && p.m(w.m[0]); };
    v.push_back({p.n + ".append_next", can, [=](World& w) { p.r(*w.r[0])->append_next(make(small(1))); append_next(p.m(w.m[0]), small(1)); }});
    v.push_back({p.n + ".append_child", can, [=](World& w) { p.r(*w.r[0])->append_child(make(small(1))); append_child(p.m(w.m[0]), small(1)); }});
    v.push_back({p.n + ".append_nested", can, [=](World& w) { p.r(*w.r[0])->append_nested(make(small(1))); p.m(w.m[0])->nested.push_back(small(1)); }});
    for(int k : {0, 2})
      v.push_back({p.n + " = a rule" + (k ? " with a sibling" : ""), can, [=](World& w) { *p.r(*w.r[0]) = make(small(k)); *p.m(w.m[0]) = *small(k); }});
    for(bool mv : {false, true})
      v.push_back({p.n + " = " + (mv ? "move of " : "") + "its next", [=](const World& w) { return can(w) && p.m(w.m[0])->next; }, [=](World& w) {
        auto r = p.r(*w.r[0]);
        if( mv ) *r = std::move(*r->next()); else *r = *r->next();
        auto n = copy(p.m(w.m[0])->next);
        *p.m(w.m[0]) = *n;
      }});
    v.push_back({"swap of " + p.n + " and a rule", can, [=](World& w) { auto x = make(small(2)); std::swap(*p.r(*w.r[0]), x); *p.m(w.m[0]) = *small(2); x.append_next(make(small(1))); }});
  }
  auto any = [](const World& w) { return w.r[0] && w.m[0]; };
  v.push_back({"r replaced by a copy", any, [](World& w) { w.r[0] = std::make_unique<hext::Rule>(*w.r[0]); }});
  v.push_back({"r replaced by what it was moved to", any, [](World& w) { auto x = std::make_unique<hext::Rule>(std::move(*w.r[0])); w.r[0] = std::move(x); }});
  v.push_back({"r assigned to another one and back", any, [](World& w) { hext::Rule x = make(base(2)); x = *w.r[0]; *w.r[0] = make(base(1)); *w.r[0] = std::move(x); }});
  return v;
}

std::vector<std::pair<int, int>> starts() { return {{2, 1}, {2, -1}, {1, 0}}; }

void start(World& w, int s)
{
  auto p = starts()[std::size_t(s)];
  int b[2] = {p.first, p.second};
  for(int i = 0; i < K; ++i) if( b[i] >= 0 ) { w.m[i] = base(b[i]); w.r[i] = std::make_unique<hext::Rule>(make(w.m[i])); }
}

void history(Ctx& c, int s, const std::vector<int>& seq, const std::vector<Op>& v)
{
  auto before = live_bytes();
  std::string text, error;
  std::uint64_t h = std::uint64_t(s);
  {
    World w;
    start(w, s);
    for(int x : seq)
    {
      v[std::size_t(x)].run(w);
      h = h * 131 + std::uint64_t(x);
      for(int i = 0; i < K && error.empty(); ++i)
        if( w.r[i] && w.m[i] )
        {
          auto e = compare(*w.r[i], w.m[i]);
          if( !e.empty() ) error = "r" + std::to_string(i) + ": " + e + ", expected value: " + describe(w.m[i]);
        }
      if( !error.empty() ) break;
    }
    std::string sig;
    for(int i = 0; i < K; ++i) sig += (w.r[i] ? w.m[i] ? describe(w.m[i]) : "moved" : "-") + "|";
    c.outcome(fnv(sig));
  }
  auto after = live_bytes();
  if( error.empty() && after > before )
  {
    // once more: the first run may have filled a cache of the runtime
    static bool again = false;
    if( !again ) { again = true; history(c, s, seq, v); again = false; return; }
    error = "leaks " + std::to_string(after - before) + " bytes";
  }
  auto show_seq = [&] {
    auto p = starts()[std::size_t(s)];
    std::string t = "r0 = base " + std::to_string(p.first) + ", r1 = " + (p.second < 0 ? std::string("none") : "base " + std::to_string(p.second));
    for(int x : seq) t += "; " + v[std::size_t(x)].name;
    return t;
  };
  if( !error.empty() ) return c.fail(show_seq() + ": " + error);
  c.model(1, 1);
  c.validated();
  c.nontrivial(h);
  if( c.want_sample() ) c.sample(show_seq());
}

} // namespace

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  bool th = o.tier == "thorough";
  doc(); nodes();
  std::vector<Space> sp;
  auto space = [&](const std::string& name, int depth, const std::vector<Op>& v) {
    std::uint64_t n = v.size(), ns = starts().size();
    sp.push_back({name, n * ns, [=, &v](Ctx& c, std::uint64_t outer) {
      int s = int(outer % ns), a = int(outer / ns);
      std::uint64_t i = 0;
      std::vector<int> seq;
      // depth first; a prefix is run before its extensions, to know which
      // operations are possible behind it
      std::function<void(int)> rec = [&](int left) {
        if( c.stopped() || c.violated ) return;
        World w;
        start(w, s);
        for(int x : seq)
        {
          if( !v[std::size_t(x)].can(w) ) return;
          // the last operation is run by history()
          if( &x == &seq.back() && left == 0 ) break;
          v[std::size_t(x)].run(w);
        }
        if( c.want(i) ) history(c, s, seq, v);
        ++i;
        if( !left || c.violated ) return;
        for(int x = 0; x < int(n); ++x)
        {
          if( !v[std::size_t(x)].can(w) ) continue;
          seq.push_back(x);
          rec(left - 1);
          seq.pop_back();
        }
      };
      seq.push_back(a);
      rec(depth - 1);
    }, [=, &v](std::uint64_t outer, std::uint64_t inner) {
      return "history number " + std::to_string(inner) + " that starts with: " + v[outer / ns].name;
    }});
  };
  space("histories of all operations", th ? 3 : 2, ops(true));
  space("histories of basic operations", th ? 4 : 3, ops(false));
  space("histories of operations on parts", th ? 4 : 3, part_ops());
  return main_(o, sp);
}
