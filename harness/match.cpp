// C01-C06: the matching engine against the reference matcher, on every small
// rule tree and every small document.
#include "vf.hpp"
#include "ref.hpp"
#include "gen.hpp"
#include <hext/Hext.h>
#include <memory>

using namespace vf;

namespace {

struct Page
{
  std::string src;
  std::unique_ptr<hext::Html> html;
  std::unique_ptr<ref::Doc> doc;
  explicit Page(std::string s) : src(std::move(s))
  {
    html = std::make_unique<hext::Html>(src.c_str(), src.size());
    doc = std::make_unique<ref::Doc>(html->root());
  }
};
using Pages = std::vector<Page>;

Pages make_pages(const std::vector<std::string>& srcs)
{
  Pages p;
  p.reserve(srcs.size());
  for(const auto& s : srcs) p.emplace_back(s);
  return p;
}

const std::vector<std::string> kTags = {"div", "span", "section"};
const std::vector<hext::HtmlTag> kHtmlTags = {hext::HtmlTag::DIV, hext::HtmlTag::SPAN, hext::HtmlTag::SECTION};

// ---- building both sides from one specification

// A capture value that identifies rule and node.
std::string mark(int id, const GumboNode * n)
{
  std::string s(sizeof(int) + sizeof(void *), '\0');
  std::memcpy(&s[0], &id, sizeof id);
  std::memcpy(&s[sizeof id], &n, sizeof n);
  return s;
}

ref::Chain build_ref(const gen::ChainSpec& c, int& id)
{
  ref::Chain out;
  for(const auto& r : c)
  {
    ref::Rule x;
    x.id = id++;
    x.optional = r.optional;
    x.greedy = r.greedy;
    if( r.tag < 0 ) x.pred = [](const ref::Doc&, int) { return true; };
    else
    {
      std::string t = kTags[std::size_t(r.tag)];
      x.pred = [t](const ref::Doc& d, int n) { return d.elem(n) && d.at(n).tag == t; };
    }
    x.kids = build_ref(r.kids, id);
    for(const auto& n : r.nested) x.nested.push_back(build_ref(n, id));
    out.push_back(std::move(x));
  }
  return out;
}

using AddCaps = std::function<void(hext::Rule&, const gen::RuleSpec&, int id)>;

void add_mark(hext::Rule& h, const gen::RuleSpec&, int id)
{
  h.append_capture<hext::FunctionCapture>(
      [id](const GumboNode * n) { return mark(id, n); }, "k");
}

hext::Rule build_impl(const gen::ChainSpec& c, int& id, const AddCaps& caps);

hext::Rule build_rule(const gen::RuleSpec& r, int& id, const AddCaps& caps)
{
  hext::Rule h(r.tag < 0 ? hext::HtmlTag::ANY : kHtmlTags[std::size_t(r.tag)], r.optional, r.greedy);
  caps(h, r, id++);
  for(const auto& k : r.kids) h.append_child(build_rule(k, id, caps));
  for(const auto& n : r.nested) h.append_nested(build_impl(n, id, caps));
  return h;
}

hext::Rule build_impl(const gen::ChainSpec& c, int& id, const AddCaps& caps)
{
  hext::Rule head = build_rule(c[0], id, caps);
  for(std::size_t i = 1; i < c.size(); ++i) head.append_next(build_rule(c[i], id, caps));
  return head;
}

std::string hext_of(const gen::ChainSpec& c) { int id = 0; return gen::to_hext(c, kTags, id); }

std::string show_groups(const std::vector<std::vector<std::pair<int, int>>>& gs)
{
  std::string o = "[";
  for(const auto& g : gs)
  {
    o += " {";
    for(const auto& p : g) o += " r" + std::to_string(p.first) + "=n" + std::to_string(p.second);
    o += " }";
  }
  return o + " ]";
}

std::string show_doc(const ref::Doc& d, int n = 0)
{
  const auto& x = d.at(n);
  std::string o;
  if( d.elem(n) ) o = x.tag; else if( x.kind == ref::Node::Text ) o = "\"" + x.text + "\""; else o = "#";
  o += "=n" + std::to_string(n);
  if( !x.kids.empty() )
  {
    o += "(";
    for(int k : x.kids) o += (k == x.kids[0] ? "" : " ") + show_doc(d, k);
    o += ")";
  }
  return o;
}

using Groups = std::vector<std::vector<std::pair<int, int>>>;

Groups decode(const hext::Result& r, const ref::Doc& d)
{
  Groups gs;
  for(const auto& m : r)
  {
    gs.emplace_back();
    for(const auto& kv : m)
    {
      int id = -1;
      const GumboNode * n = nullptr;
      if( kv.second.size() == sizeof id + sizeof n )
      {
        std::memcpy(&id, kv.second.data(), sizeof id);
        std::memcpy(&n, kv.second.data() + sizeof id, sizeof n);
      }
      auto it = d.index.find(n);
      gs.back().push_back({id, it == d.index.end() ? -1 : it->second});
    }
  }
  return gs;
}

Groups expected(const std::vector<ref::Group>& in)
{
  Groups gs;
  for(const auto& g : in)
  {
    gs.emplace_back();
    for(const auto& p : g) gs.back().push_back({p.first->id, p.second});
  }
  return gs;
}

void compare(Ctx& c, std::uint64_t inner, const gen::ChainSpec& spec, const ref::Chain& chain,
             const hext::Rule& rule, const Page& pg)
{
  if( !c.want(inner) ) return;
  ref::Matcher m(*pg.doc);
  auto want = expected(m.run(chain));
  auto got = decode(rule.extract(*pg.html), *pg.doc);
  c.model(m.states, m.transitions);
  c.validated();
  if( !want.empty() )
    c.nontrivial(fnv(&inner, sizeof inner, fnv(hext_of(spec))));
  auto sig = show_groups(want);
  c.outcome(fnv(sig));
  if( c.want_sample() ) c.sample("rule " + hext_of(spec) + "  document " + show_doc(*pg.doc) + "  groups " + sig);
  if( want != got )
    c.fail("rule " + hext_of(spec) + "\ndocument " + pg.src + "\ntree " + show_doc(*pg.doc)
           + "\nexpected " + sig + "\nactual   " + show_groups(got));
}

struct Lazy { std::function<Pages()> make; std::unique_ptr<Pages> p; Pages& get() { if( !p ) p = std::make_unique<Pages>(make()); return *p; } };

Space cross(const std::string& name, gen::Family fam, std::function<Pages()> pages,
            std::function<bool(const gen::ChainSpec&)> keep = {})
{
  auto f = std::make_shared<gen::Family>(std::move(fam));
  auto p = std::make_shared<Pages>(pages());
  Space s;
  s.name = name;
  s.n = f->total;
  s.run = [f, p, keep](Ctx& c, std::uint64_t o) {
    auto spec = f->get(o);
    if( keep && !keep(spec) ) return;
    int id = 0, id2 = 0;
    auto chain = build_ref(spec, id);
    auto rule = build_impl(spec, id2, add_mark);
    for(std::size_t i = 0; i < p->size() && !c.stopped(); ++i)
      compare(c, i, spec, chain, rule, (*p)[i]);
  };
  s.describe = [f, p](std::uint64_t o, std::uint64_t i) {
    return hext_of(f->get(o)) + " on " + (i < p->size() ? (*p)[i].src : "?");
  };
  return s;
}

// flags: bit0 optional, bit1 greedy
gen::Family family(std::vector<int> tags, std::vector<int> flags, int from, int to, bool kids, bool nested)
{
  gen::Family f;
  int nt = int(tags.size()), nf = int(flags.size());
  f.nlabels = nt * nf;
  f.label = [=](gen::RuleSpec& r, int l) {
    r.tag = tags[std::size_t(l % nt)];
    int fl = flags[std::size_t(l / nt)];
    r.optional = fl & 1;
    r.greedy = fl & 2;
  };
  for(int n = from; n <= to; ++n) f.add(n, gen::chains(n, kids, nested));
  return f;
}

bool uses(const gen::ChainSpec& c, bool opt, bool greedy)
{
  auto d = c;
  bool u = false;
  gen::visit(d, [&](gen::RuleSpec& r) { u = u || (opt && r.optional) || (greedy && r.greedy); });
  return u;
}

// ---- C05: how captured values are assembled into results

struct CapSpec { std::vector<std::pair<const char *, const char *>> v; };   // attribute, name
const std::vector<CapSpec> kCaps = {
  {{}},
  {{{"id", "a"}}},
  {{{"zz", "a"}}},
  {{{"id", "b"}, {"id", "a"}}},
  {{{"id", "a"}, {"zz", "a"}}},
  {{{"zz", "b"}, {"id", "b"}, {"id", "b"}}},
};

Space assembly(const std::string& name, gen::Family fam, Pages pages)
{
  auto f = std::make_shared<gen::Family>(std::move(fam));
  auto p = std::make_shared<Pages>(std::move(pages));
  Space s;
  s.name = name;
  s.n = f->total;
  s.run = [f, p](Ctx& c, std::uint64_t o) {
    auto spec = f->get(o);
    std::vector<int> caps;
    gen::visit(spec, [&](gen::RuleSpec& r) { caps.push_back(r.caps); });
    int id = 0, id2 = 0;
    auto chain = build_ref(spec, id);
    // ids are handed out in the same order as visit() goes
    auto rule = build_impl(spec, id2, [&](hext::Rule& h, const gen::RuleSpec& r, int) {
      for(const auto& x : kCaps[std::size_t(r.caps)].v)
        h.append_capture<hext::AttributeCapture>(x.first, x.second);
    });
    for(std::size_t i = 0; i < p->size() && !c.stopped(); ++i)
    {
      if( !c.want(i) ) continue;
      const auto& pg = (*p)[i];
      ref::Matcher m(*pg.doc);
      auto groups = m.run(chain);
      std::vector<std::vector<std::pair<std::string, std::string>>> want, got;
      for(const auto& g : groups)
      {
        std::vector<std::pair<std::string, std::string>> kv;
        for(const char * key : {"a", "b"})
          for(const auto& pr : g)
            for(const auto& x : kCaps[std::size_t(caps[std::size_t(pr.first->id)])].v)
              if( std::string(key) == x.second )
                for(const auto& at : pg.doc->at(pr.second).attrs)
                  if( at.name == x.first ) kv.push_back({key, at.value});
        if( !kv.empty() ) want.push_back(kv);
      }
      for(const auto& map : rule.extract(*pg.html))
        got.emplace_back(map.begin(), map.end());
      c.model(m.states, m.transitions);
      c.validated();
      auto str = [](decltype(want)& r) {
        std::string o = "[";
        for(auto& g : r) { o += " {"; for(auto& kv : g) o += " " + kv.first + "=" + kv.second; o += " }"; }
        return o + " ]";
      };
      auto sig = str(want);
      if( !want.empty() ) c.nontrivial(fnv(&i, sizeof i, fnv(&o, sizeof o)));
      c.outcome(fnv(sig));
      std::string cs;
      if( c.want_sample() || want != got )
        for(std::size_t k = 0; k < caps.size(); ++k)
        {
          cs += " r" + std::to_string(k) + ":";
          for(const auto& x : kCaps[std::size_t(caps[k])].v) cs += std::string(" ") + x.first + ":" + x.second;
          cs += ";";
        }
      if( c.want_sample() ) c.sample("rule " + hext_of(spec) + " captures" + cs + " document " + pg.src + " result " + sig);
      if( want != got )
        c.fail("rule " + hext_of(spec) + "\ncaptures" + cs + "\ndocument " + pg.src + "\nexpected " + sig + "\nactual   " + str(got));
    }
  };
  s.describe = [f, p](std::uint64_t o, std::uint64_t i) {
    return hext_of(f->get(o)) + " on " + (i < p->size() ? (*p)[i].src : "?");
  };
  return s;
}

// ---- C06: the search limit

Space limits(const std::string& name, gen::Family fam, Pages pages)
{
  auto f = std::make_shared<gen::Family>(std::move(fam));
  auto p = std::make_shared<Pages>(std::move(pages));
  Space s;
  s.name = name;
  s.n = f->total;
  s.run = [f, p](Ctx& c, std::uint64_t o) {
    auto spec = f->get(o);
    const bool nested = gen::has_nested(spec);
    int id = 0, id2 = 0;
    auto chain = build_ref(spec, id);
    auto rule = build_impl(spec, id2, add_mark);
    for(std::size_t i = 0; i < p->size() && !c.stopped(); ++i)
    {
      if( !c.want(i) ) continue;
      const auto& pg = (*p)[i];
      auto bad = [&](const std::string& m) {
        c.fail("rule " + hext_of(spec) + "\ndocument " + pg.src + "\n" + m);
      };
      ref::Matcher m(*pg.doc);
      auto model = m.run(chain);
      auto want = expected(model);
      c.model(m.states, m.transitions);
      // the search happens once for each list of siblings
      std::uint64_t lists = 1;
      std::vector<char> inside(pg.doc->nodes.size(), 0);   // templates have no children
      for(std::size_t n = 0; n < pg.doc->nodes.size(); ++n)
      {
        const auto& x = pg.doc->at(int(n));
        inside[n] = pg.doc->elem(int(n)) && (x.parent < 0 || inside[std::size_t(x.parent)]);
        if( inside[n] && !x.kids.empty() ) ++lists;
      }
      if( !nested && lists != m.searches ) { bad("model inconsistent"); continue; }
      // ... and at least once in every list below a node for every nested
      // rule of the rule that is bound to it
      std::uint64_t needed = lists;
      if( nested )
      {
        std::function<std::uint64_t(int)> lists_below = [&](int n) {
          if( !pg.doc->elem(n) ) return std::uint64_t(0);
          std::uint64_t k = pg.doc->at(n).kids.empty() ? 0 : 1;
          for(int x : pg.doc->at(n).kids) k += lists_below(x);
          return k;
        };
        std::set<ref::Pair> seen;
        for(const auto& g : model) for(const auto& pr : g)
          if( !pr.first->nested.empty() && seen.insert(pr).second ) needed += pr.first->nested.size() * lists_below(pr.second);
      }
      auto run = [&](std::uint64_t max, bool& threw) -> Groups {
        threw = false;
        c.validated();
        try { return decode(rule.extract(*pg.html, max), *pg.doc); }
        catch( const hext::MaxSearchError& ) { threw = true; }
        return {};
      };
      bool threw;
      auto r0 = run(0, threw);
      if( threw ) { bad("threw MaxSearchError although the limit is 0"); continue; }
      if( r0 != want ) { bad("limit 0: expected " + show_groups(want) + " actual " + show_groups(r0)); continue; }
      bool completed = false;
      std::uint64_t first_ok = 0;
      // without nested rules, N searches are allowed iff fewer than N are needed
      const std::uint64_t upto = nested ? 400 : lists + 3;
      std::vector<std::uint64_t> ns;
      if( upto < 1000 ) for(std::uint64_t n = 1; n <= upto; ++n) ns.push_back(n);
      else
      {
        // large: next to what is needed, and next to the powers of two
        for(auto n : powers(1, 18)) ns.push_back(n);
        for(std::uint64_t d = 0; d < 8; ++d) ns.push_back(lists - 4 + d);
        std::sort(ns.begin(), ns.end());
        ns.erase(std::unique(ns.begin(), ns.end()), ns.end());
      }
      for(auto n : {std::uint64_t(1) << 31, std::uint64_t(1) << 32, (std::uint64_t(1) << 32) + 1, (std::uint64_t(1) << 63), ~std::uint64_t(0)}) ns.push_back(n);
      for(auto n : ns)
      {
        if( nested && completed && n > first_ok + 3 && n < 1000 ) continue;
        auto r = run(n, threw);
        if( threw && completed ) { bad("limit " + std::to_string(n) + " aborts, but " + std::to_string(first_ok) + " did not"); break; }
        if( threw && n > 1000000 ) { bad("limit " + std::to_string(n) + " aborts"); break; }
        if( !threw && r != want ) { bad("limit " + std::to_string(n) + ": expected " + show_groups(want) + " or an error, actual " + show_groups(r)); break; }
        if( !nested && threw != (n <= lists) )
        { bad("limit " + std::to_string(n) + (threw ? " aborts" : " does not abort") + ", the document has " + std::to_string(lists) + " lists of siblings"); break; }
        if( nested && !threw && n <= needed )
        { bad("limit " + std::to_string(n) + " does not abort, at least " + std::to_string(needed) + " lists of siblings are searched"); break; }
        if( !threw && !completed ) { completed = true; first_ok = n; }
      }
      c.nontrivial(fnv(&i, sizeof i, fnv(&o, sizeof o)));
      c.outcome(first_ok);
      if( c.want_sample() ) c.sample("rule " + hext_of(spec) + " document " + pg.src + ": first limit that completes is " + std::to_string(first_ok));
    }
  };
  s.describe = [f, p](std::uint64_t o, std::uint64_t i) {
    return hext_of(f->get(o)) + " on " + (i < p->size() ? (*p)[i].src : "?");
  };
  return s;
}

} // namespace


// ---- long inputs: the same comparison where sizes grow one by one

gen::RuleSpec R(int tag, bool opt = false, bool greedy = false)
{
  gen::RuleSpec r; r.tag = tag; r.optional = opt; r.greedy = greedy; return r;
}

Space sizes(const std::string& name, std::vector<std::pair<gen::ChainSpec, std::string>> cases)
{
  auto v = std::make_shared<decltype(cases)>(std::move(cases));
  Space s;
  s.name = name;
  s.n = v->size();
  s.run = [v](Ctx& c, std::uint64_t o) {
    const auto& x = (*v)[o];
    int id = 0, id2 = 0;
    auto chain = build_ref(x.first, id);
    auto rule = build_impl(x.first, id2, add_mark);
    Page pg(x.second);
    compare(c, 0, x.first, chain, rule, pg);
  };
  s.describe = [v](std::uint64_t o, std::uint64_t) { return hext_of((*v)[o].first) + " on " + (*v)[o].second; };
  return s;
}

// documents of growing size: rows of periodic tags, nests of growing depth
std::vector<std::string> long_docs(int upto, int depth)
{
  std::vector<std::string> out;
  const std::vector<std::vector<int>> periods = {{0}, {0, 1}, {0, 0, 1}, {1, 0, 2, 0}};
  for(int n = 1; n <= upto; ++n)
    for(const auto& p : periods)
    {
      gen::Forest f;
      for(int i = 0; i < n; ++i) f.push_back({p[std::size_t(i) % p.size()], {}});
      out.push_back(gen::html(f));
    }
  for(int d = 1; d <= depth; ++d)
    for(int k = 0; k < 2; ++k)
    {
      gen::Tree t{d % 2 && k ? 1 : 0, {}};
      for(int i = 1; i < d; ++i)
      {
        gen::Tree u{k && (d - i) % 2 ? 1 : 0, {}};
        if( k ) u.kids.push_back({1, {}});
        u.kids.push_back(t);
        t = u;
      }
      out.push_back(gen::html({t}));
    }
  return out;
}

Space long_space(const std::string& name, std::vector<gen::ChainSpec> rules, int upto, int depth)
{
  std::vector<std::pair<gen::ChainSpec, std::string>> v;
  for(const auto& d : long_docs(upto, depth))
    for(const auto& r : rules) v.push_back({r, d});
  return sizes(name, std::move(v));
}

// ... and next to every power of two, where counters and buffers end: rows
// whose last node differs, below a node of their own as well, and nests
Space powers_space(const std::string& name, std::vector<gen::ChainSpec> rules, int to, int deep_to, bool boxed_only = false)
{
  struct Case { int rule, shape; std::uint64_t n; };
  auto v = std::make_shared<std::vector<Case>>();
  for(auto n : powers(6, to))
    for(int r = 0; r < int(rules.size()); ++r)
      for(int shape = boxed_only ? 1 : 0; shape < 4; ++shape)
        if( shape < 3 || n <= (std::uint64_t(1) << deep_to) + 1 ) v->push_back({r, shape, n});
  std::reverse(v->begin(), v->end());
  auto rs = std::make_shared<decltype(rules)>(std::move(rules));
  Space s;
  s.name = name;
  s.n = v->size();
  auto doc = [](const Case& x) {
    if( x.shape == 3 )
    {
      std::string o, e;
      for(std::uint64_t i = 0; i < x.n; ++i) { o += "<div>"; e += "</div>"; }
      return o + "<span></span>" + e;
    }
    std::string o = x.shape == 1 ? "<div>" : "";
    for(std::uint64_t i = 1; i < x.n; ++i) o += x.shape == 2 && i + 1 < x.n ? "<section></section>" : "<div></div>";
    o += "<span></span>";
    if( x.shape == 1 ) o += "</div><span></span>";
    return o;
  };
  s.run = [v, rs, doc](Ctx& c, std::uint64_t o) {
    const auto& x = (*v)[o];
    const auto& spec = (*rs)[std::size_t(x.rule)];
    int id = 0, id2 = 0;
    auto chain = build_ref(spec, id);
    auto rule = build_impl(spec, id2, add_mark);
    Page pg(doc(x));
    compare(c, 0, spec, chain, rule, pg);
  };
  s.describe = [v, rs](std::uint64_t o, std::uint64_t) {
    const auto& x = (*v)[o];
    return hext_of((*rs)[std::size_t(x.rule)]) + " on shape " + std::to_string(x.shape) + " of size " + std::to_string(x.n);
  };
  return s;
}

// deep nests around one node that differs: rules that match few of their nodes
Space nests_space(const std::string& name, std::vector<gen::ChainSpec> rules, int to)
{
  struct Case { int rule; bool lone; std::uint64_t n; };
  auto v = std::make_shared<std::vector<Case>>();
  for(auto n : powers(6, to))
    for(int r = 0; r < int(rules.size()); ++r)
      for(bool lone : {false, true}) v->push_back({r, lone, n});
  std::reverse(v->begin(), v->end());
  auto rs = std::make_shared<decltype(rules)>(std::move(rules));
  Space s;
  s.name = name;
  s.n = v->size();
  s.run = [v, rs](Ctx& c, std::uint64_t o) {
    const auto& x = (*v)[o];
    const auto& spec = (*rs)[std::size_t(x.rule)];
    int id = 0, id2 = 0;
    auto chain = build_ref(spec, id);
    auto rule = build_impl(spec, id2, add_mark);
    std::string doc = "<section>", end = "</section>";
    for(std::uint64_t i = 0; i < x.n; ++i) { doc += "<div>"; end = (x.lone ? "</div>" : "<b></b></div>") + end; }
    Page pg(doc + "<span></span>" + end);
    compare(c, 0, spec, chain, rule, pg);
  };
  s.describe = [v, rs](std::uint64_t o, std::uint64_t) {
    const auto& x = (*v)[o];
    return hext_of((*rs)[std::size_t(x.rule)]) + " on " + std::to_string(x.n) + " nested elements" + (x.lone ? "" : " with siblings");
  };
  return s;
}

// rules whose own size is next to a power of two: chains, lists of child
// rules, lists of nested rules, and nests of child rules
Space rule_powers(const std::string& name, int to, bool opt, bool greedy, bool nested)
{
  struct Case { int shape; std::uint64_t n; int var; };
  auto v = std::make_shared<std::vector<Case>>();
  for(auto n : powers(6, to))
    for(int shape : nested ? std::vector<int>{3, 4, 5} : std::vector<int>{0, 1, 2})
      for(int var = 0; var < 2; ++var) v->push_back({shape, n, var});
  std::reverse(v->begin(), v->end());
  auto flags = [=](gen::RuleSpec r, std::uint64_t i, const Case& x) {
    r.optional = opt && (x.var ? i + 1 == x.n : i % 3 == 1);
    r.greedy = greedy && (x.var ? i == 0 : i % 4 == 2);
    return r;
  };
  auto make = [=](const Case& x) {
    gen::ChainSpec row;
    if( x.shape != 2 && x.shape != 4 )
    {
      for(std::uint64_t i = 0; i < x.n; ++i) row.push_back(flags(R(x.var ? int(i % 2) : 0), i, x));
      if( x.shape == 0 ) return row;
      gen::RuleSpec r = R(2);
      if( x.shape == 1 ) r.kids = std::move(row);
      else if( x.shape == 3 ) for(auto& k : row) r.nested.push_back({k});
      else r.nested.push_back(std::move(row));
      return gen::ChainSpec{std::move(r)};
    }
    for(std::uint64_t i = x.n; i-- > 0;)
    {
      auto r = flags(R(0), i, x);
      if( !row.empty() ) r.kids = std::move(row);
      row.clear();
      row.push_back(std::move(r));
    }
    if( x.shape == 2 ) return row;
    gen::RuleSpec r = R(2);
    r.nested.push_back(std::move(row));
    return gen::ChainSpec{std::move(r)};
  };
  auto doc = [](const Case& x, std::uint64_t m) {
    std::string o, e;
    for(std::uint64_t i = 0; i < m; ++i)
    {
      const char * t = x.var && x.shape != 2 && x.shape != 4 && i % 2 ? "span" : "div";
      o += std::string("<") + t + ">";
      if( x.shape == 2 || x.shape == 4 ) e += std::string("</") + t + ">";
      else o += std::string("</") + t + ">";
    }
    return "<section>" + o + e + "</section>";
  };
  Space s;
  s.name = name;
  s.n = v->size();
  s.run = [=](Ctx& c, std::uint64_t o) {
    const auto& x = (*v)[o];
    auto spec = make(x);
    int id = 0, id2 = 0;
    auto chain = build_ref(spec, id);
    auto rule = build_impl(spec, id2, add_mark);
    std::uint64_t inner = 0;
    for(std::uint64_t m : x.shape == 3 ? std::vector<std::uint64_t>{1, 2, 5} : std::vector<std::uint64_t>{x.n - 1, x.n, x.n + 1, 2 * x.n + 1})
    {
      if( m > x.n + 1 && x.shape % 2 == 0 && x.shape ) continue;
      Page pg(doc(x, m));
      compare(c, inner++, spec, chain, rule, pg);
    }
  };
  s.describe = [v](std::uint64_t o, std::uint64_t i) {
    const auto& x = (*v)[o];
    return "rules of shape " + std::to_string(x.shape) + "/" + std::to_string(x.var) + " and size " + std::to_string(x.n) + ", document " + std::to_string(i);
  };
  return s;
}

// nested rules in nested rules, more and more deeply, on documents of about
// that depth; on the way down plain children alternate with them
Space nested_depths(const std::string& name, int upto)
{
  std::vector<std::pair<gen::ChainSpec, std::string>> v;
  for(int n = 1; n <= upto; ++n)
    for(int var = 0; var < 4; ++var)
    {
      gen::ChainSpec c;
      for(int i = n; i >= 0; --i)
      {
        gen::RuleSpec r = R(i % 2, var == 2 && i == n, var == 3 && i == n);
        if( !c.empty() ) { if( var == 1 && i % 2 ) r.kids = std::move(c); else r.nested.push_back(std::move(c)); }
        c.clear();
        c.push_back(std::move(r));
      }
      for(int m = n; m <= n + 3; ++m)
        for(int leaves = 0; leaves < 2; ++leaves)
        {
          gen::Forest f;
          for(int i = m; i >= 0; --i)
          {
            gen::Tree t{i % 2, std::move(f)};
            if( leaves && i == m ) t.kids = {{1, {}}, {0, {}}};
            f.clear();
            f.push_back(std::move(t));
          }
          v.push_back({c, gen::html(f)});
        }
    }
  return sizes(name, std::move(v));
}

// chains of growing length on rows of about their length
Space long_chains(const std::string& name, int upto, bool opt, bool greedy)
{
  std::vector<std::pair<gen::ChainSpec, std::string>> v;
  for(int n = 1; n <= upto; ++n)
    for(int var = 0; var < 4; ++var)
    {
      gen::ChainSpec c;
      for(int i = 0; i < n; ++i)
        c.push_back(R(var & 1 ? i % 2 : 0, opt && (var & 2 ? i + 1 == n : i % 3 == 1), greedy && (var & 2 ? i == 0 : i % 4 == 2)));
      for(int m : {n - 1, n, n + 1, 2 * n, 2 * n + 1, 3 * n})
      {
        gen::Forest f;
        for(int i = 0; i < m; ++i) f.push_back({var & 1 ? i % 2 : 0, {}});
        v.push_back({c, gen::html(f)});
      }
    }
  return sizes(name, std::move(v));
}

// C05: numbers of values, names and results, and their lengths, one by one and
// next to the powers of two
Space amounts(const std::string& name, std::vector<std::uint64_t> ns, std::uint64_t caps_to)
{
  auto v = std::make_shared<std::vector<std::uint64_t>>(std::move(ns));
  std::reverse(v->begin(), v->end());
  Space s;
  s.name = name;
  s.n = v->size();
  s.run = [v, caps_to](Ctx& c, std::uint64_t o) {
    using Map = std::vector<std::pair<std::string, std::string>>;
    using Res = std::vector<Map>;
    const auto n = (*v)[o];
    auto num = [](std::uint64_t i) { return std::to_string(i); };
    auto padded = [&](std::uint64_t i) { auto t = num(i); return "n" + std::string(8 - t.size(), '0') + t; };
    auto fn = [](hext::Rule& r, const std::string& cap, const std::string& val) {
      r.append_capture<hext::FunctionCapture>([val](const GumboNode *) { return val; }, cap);
    };
    auto judge = [&](std::uint64_t inner, const std::string& what, const hext::Rule& r, const std::string& html, const Res& want) {
      if( !c.want(inner) ) return;
      hext::Html h(html.data(), html.size());
      Res got;
      for(const auto& m : r.extract(h)) got.emplace_back(m.begin(), m.end());
      c.model(n, n);
      c.validated();
      c.nontrivial(fnv(what + num(n)));
      if( want == got ) return;
      std::string e = what + ", n = " + num(n) + "\n";
      if( want.size() != got.size() ) e += "expected " + num(want.size()) + " results, actual " + num(got.size());
      else
        for(std::size_t i = 0; i < want.size(); ++i)
          if( want[i] != got[i] )
          {
            std::size_t k = 0;
            while( k < want[i].size() && k < got[i].size() && want[i][k] == got[i][k] ) ++k;
            auto str = [&](const Map& m) { return k < m.size() ? m[k].first.substr(0, 200) + "=" + m[k].second.substr(0, 200) : std::string("the end"); };
            e += "result " + num(i) + " has " + num(got[i].size()) + " values, expected " + num(want[i].size()) + "; first difference at " + num(k) + ": expected " + str(want[i]) + " actual " + str(got[i]);
            break;
          }
      c.fail(e);
    };
    auto list = [&](std::function<std::string(std::uint64_t)> id) {
      std::string t = "<ul>";
      for(std::uint64_t i = 0; i < n; ++i) t += "<li id='" + id(i) + "'></li>";
      return t + "</ul>";
    };
    hext::Rule li(hext::HtmlTag::LI, false, true), ul(hext::HtmlTag::UL), one(hext::HtmlTag::LI);
    li.append_capture<hext::AttributeCapture>("id", "a");
    one.append_capture<hext::AttributeCapture>("id", "a");
    ul.append_child(li);
    Map m;
    Res res;
    for(std::uint64_t i = 0; i < n; ++i) { m.push_back({"a", num(i)}); res.push_back({{"a", num(i)}}); }
    judge(0, "one name, n values from n elements", ul, list(num), {m});
    for(auto& p : m) p.second = "x";
    judge(1, "one name, n equal values", ul, list([](std::uint64_t) { return "x"; }), {m});
    judge(2, "n results", one, list(num), res);
    {
      auto l = li;
      l.append_capture<hext::AttributeCapture>("id", "b");
      hext::Rule u(hext::HtmlTag::UL);
      u.append_child(l);
      Map w;
      for(const char * k : {"a", "b"}) for(std::uint64_t i = 0; i < n; ++i) w.push_back({k, num(i)});
      judge(3, "two names, n values of each", u, list(num), {w});
    }
    if( n <= caps_to )
    {
      hext::Rule r(hext::HtmlTag::LI), d(hext::HtmlTag::LI), e(hext::HtmlTag::LI);
      Map w, x, y;
      for(std::uint64_t i = 0; i < n; ++i)
      {
        fn(r, "a", num(i)); w.push_back({"a", num(i)});
        fn(d, padded(n - 1 - i), num(i)); x.push_back({padded(i), num(n - 1 - i)});
        fn(e, i % 2 ? "b" : "a", num(i));
      }
      for(int k = 0; k < 2; ++k) for(std::uint64_t i = std::uint64_t(k); i < n; i += 2) y.push_back({k ? "b" : "a", num(i)});
      judge(4, "n captures of one name", r, "<li>", {w});
      judge(5, "n captures of n names", d, "<li>", {x});
      judge(6, "n captures of two names", e, "<li>", {y});
    }
    {
      hext::Rule r(hext::HtmlTag::LI);
      std::string k1(n, 'n'), k2 = k1 + "m", k3 = k1, val(n, 'v');
      k3.back() = 'o';
      fn(r, k2, val + "2"); fn(r, k1, val); fn(r, k3, val + "3"); fn(r, k2, "last");
      judge(7, "names and values of n bytes", r, "<li>", {{{k1, val}, {k2, val + "2"}, {k2, "last"}, {k3, val + "3"}}});
    }
  };
  s.describe = [v](std::uint64_t o, std::uint64_t i) { return "amounts of " + std::to_string((*v)[o]) + ", case " + std::to_string(i); };
  return s;
}

// The elements that rules look for inside every known element: in HTML, in SVG,
// in MathML, where HTML continues in foreign content, before and behind it.
std::vector<std::string> container_docs()
{
  const std::string kin = "<section id=s><div id=d><span></span></div><section></section></section><div><span></span></div><span></span>";
  // does not end foreign content
  const std::string foreign = "<section id=s><section><x></x></section></section><section></section>";
  std::vector<std::string> out;
  auto page = [&](const std::string& b) { out.push_back("<!DOCTYPE html><html><head></head><body>" + b + "</body></html>"); };
  for(int t = 0; t < int(GUMBO_TAG_UNKNOWN); ++t)
  {
    std::string n = gumbo_normalized_tagname(GumboTag(t));
    const std::string open = "<" + n + ">", close = "</" + n + ">";
    page(open + kin + close + "<div></div>");
    page("<div>" + open + kin + close + "</div><span></span>");
    page("<svg>" + open + foreign + close + "</svg><div></div>");
    page("<math>" + open + foreign + close + "</math><div></div>");
    page("<svg>" + open + kin + close + "</svg><section></section>");
    page("<math>" + open + kin + close + "</math><section></section>");
  }
  for(std::string w : {"svg", "math", "svg><g", "math><mrow", "svg><foreignObject", "svg><desc", "svg><title", "math><mi", "math><mtext",
                       "math><annotation-xml encoding=text/html", "math><annotation-xml", "svg><foreignObject><math", "svg><svg", "table", "table><tr", "table><td",
                       "select", "select><option", "template", "template><template", "svg><template", "x-y", "object", "ruby><rt", "frameset"})
    for(const auto& k : {kin, foreign, "<![CDATA[ ]]>" + foreign, "<!-- -->" + foreign + "t" + foreign, "t" + kin + "<!---->" + kin})
    {
      page("<" + w + ">" + k);
      page("<div><section><" + w + ">" + k);
      page("<section></section><" + w + ">" + k + "<div>");
    }
  return out;
}

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  const bool deep = o.tier == "thorough";
  std::vector<Space> sp;
  auto docs = [](int n, int nl, bool text, bool zz = false) {
    gen::HtmlStyle st; st.zz = zz;
    return make_pages(gen::docs(n, nl, text, st));
  };
  auto rows = [](int n, int nl) { return make_pages(gen::rows(n, nl)); };
  const std::vector<int> M = {0}, MO = {0, 1}, ALL = {0, 1, 2, 3};
  const int L = deep ? 700 : 300, D = deep ? 350 : 200;
  // rules with a child / a nested rule
  auto with = [](gen::RuleSpec r, gen::ChainSpec kids, std::vector<gen::ChainSpec> nested = {}) {
    r.kids = std::move(kids); r.nested = std::move(nested); return r;
  };
  const auto& P = o.property;
  if( P == "C01" )
  {
    sp.push_back(cross("containers", family({0, 1, 2, -1}, M, 1, 2, true, false), [&]{ return make_pages(container_docs()); }));
    sp.push_back(long_space("sizes", {{R(0)}, {R(0), R(1)}, {R(0), R(-1), R(0)}, {with(R(0), {R(0)})}, {with(R(0), {with(R(-1), {R(0)})})}}, L, D));
    sp.push_back(powers_space("powers", {{R(0)}, {R(1)}, {R(0), R(1)}, {R(0), R(-1)}, {with(R(0), {R(1)})}, {with(R(0), {R(0)}), R(1)}}, 17, 9));
    sp.push_back(nests_space("nests", {{R(1)}, {with(R(0), {R(1)})}, {with(R(2), {R(0)})}}, deep ? 15 : 13));
    sp.push_back(long_chains("chain-lengths", deep ? 120 : 60, false, false));
    sp.push_back(rule_powers("rule-powers", deep ? 12 : 10, false, false, false));
    sp.push_back(cross("chains", family({0, 1}, M, 1, 6, false, false), [&]{ return rows(deep ? 10 : 9, 3); }));
    sp.push_back(cross("trees", family({0, 1, -1}, M, 1, deep ? 4 : 3, true, false), [&]{ return docs(deep ? 7 : 6, 2, true); }));
    sp.push_back(cross("deep-trees", family({0, 1}, M, 4, deep ? 5 : 4, true, false), [&]{ return docs(6, 2, false); }));
  }
  else if( P == "C02" )
  {
    auto keep = [](const gen::ChainSpec& c) { return uses(c, true, false); };
    sp.push_back(cross("containers", family({0, 1, 2, -1}, MO, 1, 2, true, false), [&]{ return make_pages(container_docs()); }, keep));
    sp.push_back(long_space("sizes", {{R(1, true), R(0)}, {R(0), R(1, true)}, {R(0), R(0, true), R(1, true), R(0)}, {with(R(0), {R(0, true)})}, {with(R(0), {R(1, true), R(0)})}}, L, D));
    sp.push_back(powers_space("powers", {{R(0, true), R(1)}, {R(0), R(1, true)}, {R(0), R(2, true), R(1)}, {with(R(0), {R(0, true), R(1)})}, {with(R(0), {R(1, true)})}}, 17, 9));
    sp.push_back(long_chains("chain-lengths", deep ? 120 : 60, true, false));
    sp.push_back(rule_powers("rule-powers", deep ? 12 : 10, true, false, false));
    sp.push_back(cross("chains", family({0, 1}, MO, 1, deep ? 5 : 4, false, false), [&]{ return rows(deep ? 9 : 8, 3); }, keep));
    sp.push_back(cross("chains5", family({0, 1}, MO, 5, 5, false, false), [&]{ return rows(deep ? 8 : 7, 2); }, keep));
    sp.push_back(cross("chains3", family({0, 1, 2, -1}, MO, 1, 3, false, false), [&]{ return rows(deep ? 8 : 7, 3); }, keep));
    sp.push_back(cross("trees", family({0, 1}, MO, 1, 3, true, false), [&]{ return docs(deep ? 7 : 6, 2, true); }, keep));
    sp.push_back(cross("trees4", family({0, 1}, MO, 4, 4, true, false), [&]{ return docs(deep ? 6 : 4, 2, deep); }, keep));
  }
  else if( P == "C03" )
  {
    auto keep = [](const gen::ChainSpec& c) { return uses(c, false, true); };
    sp.push_back(cross("containers", family({0, 2, -1}, ALL, 1, 2, true, false), [&]{ return make_pages(container_docs()); }, keep));
    sp.push_back(long_space("sizes", {{R(0, false, true)}, {R(0, false, true), R(1)}, {R(1), R(0, true, true)}, {R(0, true, true), R(1, true)}, {with(R(0), {R(0, false, true)})}, {with(R(0, false, true), {R(0, true, true)})}}, L, D));
    sp.push_back(powers_space("powers", {{R(0, false, true)}, {R(0, false, true), R(1)}, {R(0, true, true), R(1)}, {R(1), R(0, true, true)}, {with(R(0), {R(0, false, true)})}, {with(R(0), {R(0, true, true), R(1)})}}, 17, 9));
    sp.push_back(long_chains("chain-lengths", deep ? 120 : 60, true, true));
    sp.push_back(rule_powers("rule-powers", deep ? 12 : 10, true, true, false));
    sp.push_back(cross("chains", family({0, 1}, ALL, 1, 3, false, false), [&]{ return rows(9, 3); }, keep));
    sp.push_back(cross("chains4", family({0, 1}, ALL, 4, 4, false, false), [&]{ return rows(deep ? 8 : 6, 3); }, keep));
    if( deep ) sp.push_back(cross("chains5", family({0, 1}, ALL, 5, 5, false, false), [&]{ return rows(6, 2); }, keep));
    sp.push_back(cross("trees", family({0, 1}, ALL, 1, 3, true, false), [&]{ return docs(6, 2, false); }, keep));
    sp.push_back(cross("trees4", family({0, -1}, ALL, 4, 4, true, false), [&]{ return docs(deep ? 5 : 4, 2, false); }, keep));
  }
  else if( P == "C04" )
  {
    auto keep = [](const gen::ChainSpec& c) { return gen::has_nested(c); };
    sp.push_back(cross("containers", family({0, 1, 2, -1}, M, 2, 2, true, true), [&]{ return make_pages(container_docs()); }, keep));
    sp.push_back(cross("containers3", family({0, 2, -1}, M, 3, 3, true, true), [&]{ return make_pages(container_docs()); }, keep));
    sp.push_back(long_space("sizes", {{with(R(0), {}, {{R(0)}})}, {with(R(-1), {}, {{R(0), R(1)}})}, {with(R(-1), {R(0)}, {{R(1, true)}, {R(0, false, true)}})}}, deep ? 300 : 150, deep ? 60 : 30));
    sp.push_back(powers_space("powers", {{with(R(0), {}, {{R(0)}})}, {with(R(0), {}, {{R(1)}})}, {with(R(0), {}, {{R(0), R(1)}})}, {with(R(0), {R(1)}, {{R(0, false, true), R(1)}})}}, 15, 8));
    sp.push_back(nests_space("nests", {{with(R(2), {}, {{R(1)}})}, {with(R(2), {R(0)}, {{with(R(0), {R(1)})}, {R(1, true)}})}, {with(R(2), {}, {{R(0, false, true)}})}}, deep ? 15 : 13));
    sp.push_back(rule_powers("rule-powers", deep ? 12 : 10, true, true, true));
    sp.push_back(nested_depths("nested-depths", deep ? 12 : 10));
    sp.push_back(rule_powers("rule-powers-mandatory", deep ? 12 : 10, false, false, true));
    sp.push_back(cross("nested", family({0, 1}, ALL, 2, 3, true, true), [&]{ return docs(deep ? 7 : 6, 2, false); }, keep));
    sp.push_back(cross("nested-any", family({0, -1}, MO, 2, 3, true, true), [&]{ return docs(deep ? 6 : 5, 2, true); }, keep));
    sp.push_back(cross("nested4", family({0, 1}, deep ? std::vector<int>{0, 1, 2} : MO, 4, 4, true, true), [&]{ return docs(deep ? 5 : 4, 2, false); }, keep));
    sp.push_back(cross("nested4-mandatory", family({0, 1}, M, 4, 4, true, true), [&]{ return docs(6, 2, false); }, keep));
  }
  else if( P == "C05" )
  {
    auto capfam = [](std::vector<int> flags, int from, int to, bool nested, int ncaps) {
      gen::Family f;
      int nf = int(flags.size());
      f.nlabels = nf * ncaps;
      f.label = [=](gen::RuleSpec& r, int l) {
        int fl = flags[std::size_t(l % nf)];
        r.optional = fl & 1; r.greedy = fl & 2;
        r.caps = l / nf;
        r.tag = 0;
      };
      for(int n = from; n <= to; ++n) f.add(n, gen::chains(n, true, nested));
      return f;
    };
    auto ns = powers(9, 17);
    for(std::uint64_t n = 1; n <= (deep ? 800 : 300); ++n) ns.push_back(n);
    sp.push_back(amounts("amounts", ns, deep ? 20000 : 8300));
    {
      auto cd = container_docs();
      for(auto& d : cd)
        for(const char * t : {"<section>", "<span>"})
          for(std::size_t k = 0; (k = d.find(t, k)) != std::string::npos; ) d.insert(k + std::strlen(t) - 1, " zz=\"&amp; " + std::to_string(k) + "\"");
      sp.push_back(assembly("containers", [&] { auto f = capfam(M, 1, 2, true, 6); auto l = f.label; f.label = [l](gen::RuleSpec& r, int x) { l(r, x); r.tag = r.caps % 2 ? -1 : 2; }; return f; }(), make_pages(cd)));
    }
    sp.push_back(assembly("caps", capfam(ALL, 1, 2, true, 6), docs(6, 2, false, true)));
    sp.push_back(assembly("caps3", capfam({0, 1}, 3, 3, true, deep ? 6 : 4), docs(5, deep ? 2 : 1, false, true)));
    sp.push_back(assembly("caps-one-tag", capfam(M, 1, 3, true, 6), docs(deep ? 8 : 7, 1, false, true)));
  }
  else if( P == "C06" )
  {
    sp.push_back(limits("containers", family({0, 2, -1}, M, 1, deep ? 2 : 1, true, false), make_pages(container_docs())));
    sp.push_back(limits("containers-nested", family({2, -1}, M, 2, 2, true, true), make_pages(container_docs())));
    sp.push_back(limits("flat", family({0, 1}, {0, 1, 2}, 1, deep ? 3 : 2, true, false), docs(5, 2, true)));
    sp.push_back(limits("flat3", family({0, 1}, M, 3, 3, true, false), docs(5, 2, false)));
    sp.push_back(limits("nested", family({0, 1}, deep ? std::vector<int>{0, 1, 2} : MO, 2, 2, true, true), docs(5, 2, false)));
    sp.push_back(limits("nested3", family({0}, MO, 3, 3, true, true), docs(deep ? 6 : 5, 1, false)));
    std::vector<std::string> lists;
    for(auto n : powers(10, deep ? 17 : 16))
    {
      // n lists of siblings: html, head and body, and below n - 3 elements
      std::string t = "<!DOCTYPE html><html><head></head><body>";
      for(std::uint64_t i = 3; i < n; ++i) t += "<div><span></span></div>";
      lists.push_back(t + "</body></html>");
    }
    sp.push_back(limits("powers", family({0}, M, 1, 1, true, false), make_pages(lists)));
    sp.push_back(limits("sizes", family({0}, M, 1, 1, true, false), make_pages(long_docs(20, deep ? 300 : 120))));
  }
  else return 4;
  return main_(o, std::move(sp));
}
