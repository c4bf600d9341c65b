// C07-C10: which elements a single rule selects, against a reference that
// evaluates tag names, traits and attribute/text tests on the parsed tree.
#include "vf.hpp"
#include "ref.hpp"
#include "gen.hpp"
#include "rxline.hpp"
#include "tags.hpp"
#include <hext/Hext.h>
#include <memory>
#include <regex>

using namespace vf;

namespace {

struct Page
{
  std::string src;
  std::unique_ptr<hext::Html> html;
  std::unique_ptr<ref::Doc> doc;
  std::vector<int> order;          // all nodes in the order in which they are searched
  explicit Page(std::string s) : src(std::move(s))
  {
    html = std::make_unique<hext::Html>(src.c_str(), src.size());
    doc = std::make_unique<ref::Doc>(html->root());
    walk({0});
  }
  void walk(const std::vector<int>& sib)
  {
    order.insert(order.end(), sib.begin(), sib.end());
    for(int n : sib) if( doc->elem(n) && !doc->at(n).kids.empty() ) walk(doc->at(n).kids);
  }
};
using Pages = std::vector<Page>;
using PagesP = std::shared_ptr<Pages>;

PagesP pages(const std::vector<std::string>& v)
{
  auto p = std::make_shared<Pages>();
  p->reserve(v.size());
  for(const auto& s : v) p->emplace_back(s);
  return p;
}

void add_mark(hext::Rule& r)
{
  r.append_capture<hext::FunctionCapture>([](const GumboNode * n) {
    std::string s(sizeof n, '\0');
    std::memcpy(&s[0], &n, sizeof n);
    return s;
  }, "k");
}

std::vector<int> selected(const hext::Rule& r, const Page& p)
{
  std::vector<int> out;
  for(const auto& m : r.extract(*p.html))
    for(const auto& kv : m)
    {
      const GumboNode * n = nullptr;
      std::memcpy(&n, kv.second.data(), std::min(sizeof n, kv.second.size()));
      auto it = p.doc->index.find(n);
      out.push_back(it == p.doc->index.end() ? -1 : it->second);
    }
  return out;
}

std::string ids(const Page& p, const std::vector<int>& v)
{
  std::string o;
  for(int n : v)
  {
    o += " ";
    if( n < 0 ) { o += "?"; continue; }
    const auto& x = p.doc->at(n);
    if( p.doc->elem(n) ) { o += x.tag; for(auto& a : x.attrs) if( a.name == "id" ) o += "#" + a.value; }
    else o += "text";
    o += "(" + std::to_string(n) + ")";
  }
  return "[" + o + " ]";
}

using Pred = std::function<bool(const ref::Doc&, int)>;

// One rule on one page; `from` skips the root where its position is undefined.
void check(Ctx& c, std::uint64_t inner, const std::string& what, const hext::Rule& rule,
           const Pred& pred, const Page& p, bool root = true)
{
  if( !c.want(inner) ) return;
  std::vector<int> want;
  for(int n : p.order) if( (root || n) && pred(*p.doc, n) ) want.push_back(n);
  auto got = selected(rule, p);
  if( !root && !got.empty() && got[0] == 0 ) got.erase(got.begin());
  c.model(p.order.size(), p.order.size());
  c.validated();
  if( !want.empty() && want.size() < p.order.size() ) c.nontrivial(fnv(what) ^ fnv(p.src));
  c.outcome(fnv(ids(p, want)));
  if( !want.empty() && c.want_sample() ) c.sample(what + " on " + p.src.substr(0, 400) + " selects " + ids(p, want).substr(0, 400));
  if( want != got )
    c.fail(what + "\ndocument " + p.src + "\nexpected " + ids(p, want) + "\nactual   " + ids(p, got));
}

std::string upper(std::string s) { for(char& c : s) c = char(std::toupper(static_cast<unsigned char>(c))); return s; }
std::string mixed(std::string s) { for(std::size_t i = 0; i < s.size(); i += 2) s[i] = char(std::toupper(static_cast<unsigned char>(s[i]))); return s; }

struct Sel { std::string hext; Pred pred; };

// rules given as hext
Space rules_on(const std::string& name, std::vector<Sel> sels, PagesP ps, bool root = true)
{
  auto v = std::make_shared<std::vector<Sel>>(std::move(sels));
  Space s;
  s.name = name;
  s.n = v->size();
  s.run = [=](Ctx& c, std::uint64_t o) {
    const auto& x = (*v)[o];
    std::unique_ptr<hext::Rule> r;
    try { r = std::make_unique<hext::Rule>(hext::ParseHext(x.hext.c_str(), x.hext.size())); }
    catch( const hext::SyntaxError& e )
    {
      if( c.want(0) ) c.fail(x.hext + "\nis valid, but is not accepted: " + e.what());
      return;
    }
    add_mark(*r);
    for(std::size_t i = 0; i < ps->size() && !c.stopped(); ++i)
      check(c, i, x.hext, *r, x.pred, (*ps)[i], root);
  };
  s.describe = [=](std::uint64_t o, std::uint64_t i) { return (*v)[o].hext + " on " + (i < ps->size() ? (*ps)[i].src : ""); };
  return s;
}

// Sizes next to the powers of two: documents that are built only when needed,
// each with rules of its own.
struct Big { std::function<std::string()> doc; std::vector<Sel> sels; std::string what; };

Space big_space(const std::string& name, std::vector<Big> cases)
{
  std::reverse(cases.begin(), cases.end());
  auto v = std::make_shared<std::vector<Big>>(std::move(cases));
  Space s;
  s.name = name;
  s.n = v->size();
  s.run = [=](Ctx& c, std::uint64_t o) {
    const auto& x = (*v)[o];
    Page p(x.doc());
    for(std::size_t i = 0; i < x.sels.size() && !c.stopped(); ++i)
    {
      const auto& h = x.sels[i].hext;
      auto what = x.what + ": " + (h.size() > 200 ? h.substr(0, 100) + "..." + h.substr(h.size() - 100) : h);
      std::unique_ptr<hext::Rule> r;
      try { r = std::make_unique<hext::Rule>(hext::ParseHext(h.c_str(), h.size())); }
      catch( const hext::SyntaxError& e )
      {
        if( c.want(i) ) c.fail(what + "\nis valid, but is not accepted: " + std::string(e.what()).substr(0, 200));
        continue;
      }
      add_mark(*r);
      check(c, i, what, *r, x.sels[i].pred, p, false);
    }
  };
  s.describe = [=](std::uint64_t o, std::uint64_t i) { return (*v)[o].what + ", rule " + std::to_string(i) + " " + (i < (*v)[o].sels.size() ? (*v)[o].sels[i].hext.substr(0, 200) : ""); };
  return s;
}

std::string times(std::uint64_t n, const std::string& s)
{
  std::string o;
  o.reserve(n * s.size());
  for(std::uint64_t i = 0; i < n; ++i) o += s;
  return o;
}

// ------------------------------------------------------------------ C07 ----

const std::vector<std::pair<std::string, hext::HtmlTag>>& tag_table()
{
  static const std::vector<std::pair<std::string, hext::HtmlTag>> t = [] {
    std::vector<std::pair<std::string, hext::HtmlTag>> v;
#define X(T) v.push_back({ref::Doc::lower(#T), hext::HtmlTag::T});
    VF_TAGS(X)
#undef X
    // names that are not valid C++ or that the enum spells differently
    for(auto& p : v) if( p.first == "annotation_xml" ) p.first = "annotation-xml";
    return v;
  }();
  return t;
}

Pred named(const std::string& n)
{
  std::string l = ref::Doc::lower(n);
  return [l](const ref::Doc& d, int i) { return d.elem(i) && d.at(i).tag == l; };
}

Space tag_space(const std::string& name, std::vector<std::string> names, PagesP ps, int form = 0)
{
  // forms: hext in three spellings, Rule(std::string)
  std::vector<std::pair<std::string, int>> v;
  for(const auto& n : names) for(int f = form; f < (n == "*" ? 1 : 4); ++f) v.push_back({n, f});
  auto w = std::make_shared<decltype(v)>(std::move(v));
  Space s;
  s.name = name;
  s.n = w->size();
  s.run = [=](Ctx& c, std::uint64_t o) {
    auto [n, f] = (*w)[o];
    std::string spelled = f == 1 ? upper(n) : f == 2 ? mixed(n) : n;
    std::string what = f == 3 ? "Rule(\"" + n + "\")" : "<" + spelled + "/>";
    hext::Rule r = f == 3 ? hext::Rule(n) : hext::ParseHext(what.c_str());
    add_mark(r);
    auto pred = n == "*" ? Pred([](const ref::Doc&, int) { return true; }) : named(n);
    for(std::size_t i = 0; i < ps->size() && !c.stopped(); ++i) check(c, i, what, r, pred, (*ps)[i]);
  };
  s.describe = [=](std::uint64_t o, std::uint64_t i) { return (*w)[o].first + " on " + (*ps)[i].src; };
  return s;
}

Space enum_space(const std::string& name, PagesP ps)
{
  Space s;
  s.name = name;
  s.n = tag_table().size() + 1;
  s.run = [=](Ctx& c, std::uint64_t o) {
    const bool any = o == tag_table().size();
    auto tag = any ? hext::HtmlTag::ANY : tag_table()[o].second;
    auto n = any ? std::string("*") : tag_table()[o].first;
    hext::Rule r(tag);
    hext::Rule r2;
    r2.set_tag(tag);
    if( r.get_tag() != tag || r2.get_tag() != tag ) { c.want(0); c.fail("get_tag() of " + n); return; }
    add_mark(r);
    add_mark(r2);
    auto pred = any ? Pred([](const ref::Doc&, int) { return true; }) : named(n);
    for(std::size_t i = 0; i < ps->size() && !c.stopped(); ++i)
    {
      check(c, 2 * i, "Rule(HtmlTag " + n + ")", r, pred, (*ps)[i]);
      check(c, 2 * i + 1, "set_tag(HtmlTag " + n + ")", r2, pred, (*ps)[i]);
    }
  };
  s.describe = [=](std::uint64_t o, std::uint64_t i) { return std::to_string(o) + " on " + (*ps)[i / 2].src; };
  return s;
}

std::vector<std::string> tag_docs(const std::vector<std::string>& names)
{
  std::vector<std::string> out;
  for(const auto& n : names)
    for(const char * ctx : {"%", "<table>%</table>", "<select>%</select>", "<svg>%</svg>", "<math>%</math>", "<p>%</p>"})
    {
      std::string x = ctx;
      x.replace(x.find('%'), 1, "<" + n + " id=x>z</" + n + "><" + upper(n) + " id=y>");
      out.push_back("<!DOCTYPE html>" + x);
    }
  for(const char * d : {"", "<head><title>x</title><meta><link><base><style></style><script></script></head>",
                        "<frameset><frame></frameset>", "<table><caption></caption><colgroup><col></colgroup><thead><tr><th></th></tr></thead><tbody><tr><td></td></tr></tbody><tfoot></tfoot></table>",
                        "<!-- c -->a<!-- d --><b>c</b>"})
    out.push_back(d);
  return out;
}

// ------------------------------------------------------------------ C08 ----

struct An { std::string text; long long a, b; };   // elements at a*n+b, n >= 0

bool is_nth(long long a, long long b, long long pos)
{
  if( a == 0 ) return pos == b;
  return (pos - b) % a == 0 && (pos - b) / a >= 0;
}

std::string nth_text(long long a, long long b, bool withb)
{
  std::string s = std::to_string(a) + "n";
  if( withb ) s += (b < 0 ? "" : "+") + std::to_string(b);
  return s;
}

long long position(const ref::Doc& d, int i, bool last, bool oftype)
{
  const auto& kids = d.at(d.at(i).parent).kids;
  long long pos = 0;
  for(std::size_t k = 0; k < kids.size(); ++k)
  {
    int n = last ? kids[kids.size() - 1 - k] : kids[k];
    if( !d.elem(n) ) continue;
    if( oftype && d.at(n).tag != d.at(i).tag ) continue;
    ++pos;
    if( n == i ) return pos;
  }
  return -1;
}

Pred nth(bool last, bool oftype, long long a, long long b)
{
  return [=](const ref::Doc& d, int i) {
    return d.elem(i) && d.at(i).parent >= 0 && d.elem(d.at(i).parent) && is_nth(a, b, position(d, i, last, oftype));
  };
}
Pred only(bool oftype)
{
  return [=](const ref::Doc& d, int i) {
    return d.elem(i) && d.at(i).parent >= 0 && d.elem(d.at(i).parent)
           && position(d, i, false, oftype) == 1 && position(d, i, true, oftype) == 1;
  };
}
Pred both(Pred a, Pred b) { return [=](const ref::Doc& d, int i) { return a(d, i) && b(d, i); }; }
Pred negated(Pred a) { return [=](const ref::Doc& d, int i) { return !a(d, i); }; }
Pred everything() { return [](const ref::Doc&, int) { return true; }; }

const char * kNth[] = {"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"};

std::vector<Sel> nth_sels(const std::vector<An>& ans, const std::vector<std::string>& tags)
{
  std::vector<Sel> v;
  for(const auto& tag : tags)
    for(int k = 0; k < 4; ++k)
      for(const auto& an : ans)
        v.push_back({"<" + tag + ":" + kNth[k] + "(" + an.text + ")/>",
                     both(tag == "*" ? everything() : named(tag), nth(k & 1, k & 2, an.a, an.b))});
  return v;
}

std::vector<Sel> position_sels(const std::string& tag)
{
  std::vector<Sel> v;
  auto t = tag == "*" ? everything() : named(tag);
  auto add = [&](const std::string& n, Pred p) {
    v.push_back({"<" + tag + ":" + n + "/>", both(t, p)});
    v.push_back({"<" + tag + ":not(:" + n + ")/>", both(t, negated(p))});
  };
  add("first-child", nth(false, false, 0, 1));
  add("last-child", nth(true, false, 0, 1));
  add("first-of-type", nth(false, true, 0, 1));
  add("last-of-type", nth(true, true, 0, 1));
  add("only-child", only(false));
  add("only-of-type", only(true));
  return v;
}

std::vector<An> ans(int a0, int a1, int b0, int b1)
{
  std::vector<An> v;
  for(int a = a0; a <= a1; ++a)
  {
    v.push_back({nth_text(a, 0, false), a, 0});
    for(int b = b0; b <= b1; ++b) v.push_back({nth_text(a, b, true), a, b});
  }
  for(int b = b0; b <= b1; ++b) v.push_back({std::to_string(b), 0, b});
  v.push_back({"even", 2, 0});
  v.push_back({"odd", 2, 1});
  return v;
}

// rows over four tags with text in front of, between and behind the elements
std::vector<std::string> rows_with_text(int n, const std::vector<std::string>& tags)
{
  std::vector<std::string> out;
  std::vector<std::vector<int>> level{{}};
  for(int len = 0; len <= n; ++len)
  {
    std::vector<std::vector<int>> next;
    for(const auto& r : level)
    {
      for(int text = 0; text < 3; ++text)
      {
        std::string b = text == 1 ? "t" : "";
        int k = 0;
        for(int l : r)
        {
          const auto& t = tags[std::size_t(l)];
          b += "<" + t + " id=e" + std::to_string(k++) + "></" + t + ">";
          if( text == 1 ) b += "<!--c-->";
          if( text == 2 && k % 2 ) b += " t ";
        }
        out.push_back("<!DOCTYPE html><html><head></head><body>" + b + "</body></html>");
      }
      for(int l = 0; l < int(tags.size()); ++l) { auto x = r; x.push_back(l); next.push_back(x); }
    }
    level = std::move(next);
  }
  return out;
}

// the same through the C++ interface, for steps and shifts that have no short notation
Space nth_api(const std::string& name, std::vector<std::pair<int, int>> v, PagesP ps)
{
  auto w = std::make_shared<decltype(v)>(std::move(v));
  Space s;
  s.name = name;
  s.n = w->size();
  s.run = [=](Ctx& c, std::uint64_t o) {
    using N = hext::NthChildMatch;
    int a = (*w)[o].first, b = (*w)[o].second;
    std::uint64_t inner = 0;
    for(int k = 0; k < 5; ++k)
    {
      auto opt = k == 0 ? N::First : k == 1 ? N::Last : k == 2 ? (N::First | N::OfType) : k == 3 ? (N::Last | N::OfType) : N::First;
      hext::Rule r;
      if( k == 4 ) r.append_match<N>(std::pair<int, int>(a, b)); else r.append_match<N>(a, b, opt);
      add_mark(r);
      auto what = "NthChildMatch(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(int(opt)) + ")";
      for(std::size_t i = 0; i < ps->size() && !c.stopped(); ++i)
        check(c, inner++, what, r, nth(k == 1 || k == 3, k == 2 || k == 3, a, b), (*ps)[i], false);
    }
  };
  s.describe = [=](std::uint64_t o, std::uint64_t) { return std::to_string((*w)[o].first) + "," + std::to_string((*w)[o].second); };
  return s;
}

// ------------------------------------------------------------------ C09 ----

long long child_elements(const ref::Doc& d, int i)
{
  long long n = 0;
  for(int k : d.at(i).kids) n += d.elem(k);
  return n;
}
Pred child_count(long long k) { return [=](const ref::Doc& d, int i) { return d.elem(i) && child_elements(d, i) == k; }; }
Pred attr_count(long long k) { return [=](const ref::Doc& d, int i) { return d.elem(i) && (long long)d.at(i).attrs.size() == k; }; }
Pred type_matches(const std::string& rx, bool icase)
{
  auto r = std::make_shared<std::regex>(rx, icase ? std::regex::ECMAScript | std::regex::icase : std::regex::ECMAScript);
  return [=](const ref::Doc& d, int i) {
    // anything but an element is an element without a name
    std::string t = d.elem(i) ? d.at(i).tag : "";
    if( d.elem(i) && !d.at(i).known )
    {
      // the name of a custom element as it is spelled
      GumboStringPiece p = d.at(i).g->v.element.original_tag;
      std::size_t n = 1;
      while( n < p.length && !std::strchr("> \t\n\f\r/", p.data[n]) ) ++n;
      t = std::string(p.data + 1, n - 1);
    }
    return std::regex_search(t, *r);
  };
}

struct Atom { std::string text; Pred pred; };

std::vector<Atom> trait_atoms(bool rich)
{
  std::vector<Atom> v;
  v.push_back({":empty", child_count(0)});
  for(int k : {0, 1, 2, 3}) v.push_back({":child-count(" + std::to_string(k) + ")", child_count(k)});
  for(int k : {0, 1, 2, 3}) v.push_back({":attribute-count(" + std::to_string(k) + ")", attr_count(k)});
  v.push_back({":type-matches(/^d/)", type_matches("^d", false)});
  v.push_back({":type-matches(/DIV/)", type_matches("DIV", false)});
  v.push_back({":type-matches(/DIV/i)", type_matches("DIV", true)});
  v.push_back({":type-matches(\"x-a$\")", type_matches("x-a$", false)});
  v.push_back({":first-child", nth(false, false, 0, 1)});
  v.push_back({":last-of-type", nth(true, true, 0, 1)});
  v.push_back({":nth-child(2n+1)", nth(false, false, 2, 1)});
  v.push_back({":nth-last-child(2n)", nth(true, false, 2, 0)});
  if( rich )
  {
    v.push_back({":type-matches(//)", type_matches("", false)});
    v.push_back({":type-matches('^(div|span)$')", type_matches("^(div|span)$", false)});
    v.push_back({":only-child", only(false)});
    v.push_back({":only-of-type", only(true)});
    v.push_back({":child-count(10)", child_count(10)});
    v.push_back({":attribute-count(4)", attr_count(4)});
    v.push_back({":attribute-count(2147483647)", attr_count(2147483647)});
    v.push_back({":child-count(2147483647)", child_count(2147483647)});
  }
  return v;
}

const std::string * attr_of(const ref::Doc& d, int i, const std::string& name)
{
  if( !d.elem(i) ) return nullptr;
  for(const auto& a : d.at(i).attrs)
    if( strcasecmp(a.name.c_str(), name.c_str()) == 0 ) return &a.value;
  return nullptr;
}

Pred has_attr(const std::string& n) { return [=](const ref::Doc& d, int i) { return attr_of(d, i, n) != nullptr; }; }
Pred lacks_attr(const std::string& n) { return [=](const ref::Doc& d, int i) { return d.elem(i) && !attr_of(d, i, n); }; }

// all conjunctions of up to n atoms, and :not() lists of up to m
std::vector<Sel> conjunctions(const std::vector<std::string>& tags, const std::vector<Atom>& atoms, int n, int m)
{
  // units: an atom, or a negated list of atoms
  std::vector<Atom> units = atoms;
  for(const auto& a : atoms) units.push_back({":not(" + a.text + ")", negated(a.pred)});
  if( m > 1 )
    for(const auto& a : atoms)
      for(const auto& b : atoms)
        units.push_back({":not(" + a.text + b.text + ")", both(negated(a.pred), negated(b.pred))});
  if( m > 2 )
    for(const auto& a : atoms)
      for(const auto& b : atoms)
        for(const auto& c : atoms)
          units.push_back({":not(" + a.text + b.text + c.text + ")", both(negated(a.pred), both(negated(b.pred), negated(c.pred)))});
  // patterns follow the traits
  std::vector<Atom> pats = {{"", everything()}, {" zz", has_attr("zz")}, {" zz!", lacks_attr("zz")},
                            {" id zz!", both(has_attr("id"), lacks_attr("zz"))}};
  std::vector<Sel> v;
  for(const auto& t : tags)
  {
    auto tp = t == "*" ? everything() : named(t);
    for(const auto& p : pats)
    {
      auto base = both(tp, p.pred);
      for(const auto& a : units) v.push_back({"<" + t + a.text + p.text + "/>", both(base, a.pred)});
      if( n > 1 && p.text.size() < 5 )
        for(const auto& a : units)
          for(std::size_t j = 0; j < atoms.size(); ++j)
            v.push_back({"<" + t + a.text + atoms[j].text + p.text + "/>", both(base, both(a.pred, atoms[j].pred))});
    }
  }
  return v;
}

// documents whose elements have different numbers of attributes and children
std::vector<std::string> attr_docs(int n)
{
  std::vector<std::string> out;
  const std::vector<std::string> open = {"<div id=a>", "<div ZZ=1 id=a>", "<span>", "<x-a zz id=q k=3>", "<X-A>"};
  const std::vector<std::string> close = {"</div>", "</div>", "</span>", "</x-a>", "</x-a>"};
  std::function<void(const gen::Forest&, std::string&)> rec = [&](const gen::Forest& f, std::string& o) {
    for(const auto& t : f)
    {
      if( t.label < 0 ) { o += "t<!--c-->"; continue; }
      o += open[std::size_t(t.label)];
      rec(t.kids, o);
      o += close[std::size_t(t.label)];
    }
  };
  for(int i = 0; i <= n; ++i)
    for(const auto& f : gen::forests(i, 5, true))
    {
      std::string o = "<!DOCTYPE html><html><head></head><body>";
      rec(f, o);
      out.push_back(o + "</body></html>");
    }
  return out;
}

// every kind of node among the siblings: all rows of up to n pieces in a
// block, in foreign content and in a list
// every list of up to n attributes of several kinds on elements of HTML, SVG and
// MathML (repeated names are dropped by the parser)
std::vector<std::string> attr_kind_docs(int n)
{
  const std::vector<std::string> at = {"id=a", "zz", "xmlns=\"http://www.w3.org/2000/svg\"", "xmlns:xlink=\"http://www.w3.org/1999/xlink\"", "xlink:href=x",
                                       "xml:lang=en", "viewBox=1", "a:b=c", "ID=b", "definitionurl=1", "/ =x"};
  std::vector<std::string> out, level{""};
  for(int len = 0; len <= n; ++len)
  {
    std::vector<std::string> next;
    for(const auto& a : level)
    {
      out.push_back("<!DOCTYPE html><html><head></head><body><div" + a + "><x-a" + a + "></x-a></div><svg" + a + "><g" + a + "></g><x-a" + a + " /></svg><math" + a + "><mi" + a + "></mi></math>");
      for(const auto& b : at) next.push_back(a + " " + b);
    }
    level = std::move(next);
  }
  return out;
}
std::vector<std::string> kind_docs(int n)
{
  struct Context { std::string open; std::vector<std::string> pieces; };
  const std::vector<Context> ctx = {
    {"<div>", {"<div></div>", "<x-a></x-a>", "t", "<!--c-->", " ", "<template><i></i></template>", "<svg></svg>"}},
    {"<svg>", {"<g></g>", "<x-a></x-a>", "<![CDATA[t]]>", "<![CDATA[ ]]>", "t", "<!--c-->", "<template></template>"}},
    {"<math>", {"<mi></mi>", "<x-a a=b></x-a>", "<![CDATA[x]]>", " ", "<?c?>", "<![CDATA[]]>"}},
    {"<ul>", {"<li></li>", "<li> <!----></li>", "\n", "</x>", "<script></script>", "<template></template>", "<!DOCTYPE html>"}},
  };
  std::vector<std::string> out;
  for(const auto& x : ctx)
  {
    std::vector<std::string> level{""};
    for(int len = 0; len <= n; ++len)
    {
      std::vector<std::string> next;
      for(const auto& r : level)
      {
        out.push_back("<!DOCTYPE html><html><head></head><body>" + x.open + r);
        for(const auto& p : x.pieces) next.push_back(r + p);
      }
      level = std::move(next);
    }
  }
  return out;
}

// ------------------------------------------------------------------ C10 ----

std::vector<std::string> words(const std::string& alphabet, int n)
{
  std::vector<std::string> out{""};
  for(std::size_t b = 0, len = 0; int(len) < n; ++len)
  {
    std::size_t e = out.size();
    for(; b < e; ++b) for(char c : alphabet) out.push_back(out[b] + c);
  }
  return out;
}

std::vector<std::string> split_words(const std::string& s)
{
  std::vector<std::string> v;
  std::string w;
  for(char c : s + " ")
    if( c == ' ' ) { if( !w.empty() ) v.push_back(w); w.clear(); }
    else w += c;
  return v;
}

bool op_matches(const std::string& op, const std::string& lit, const std::string& v)
{
  if( op == "==" ) return v == lit;
  if( op == "^=" ) return v.size() >= lit.size() && std::equal(lit.begin(), lit.end(), v.begin());
  if( op == "$=" ) return v.size() >= lit.size() && std::equal(lit.rbegin(), lit.rend(), v.rbegin());
  if( op == "*=" )
  {
    for(std::size_t i = 0; i + lit.size() <= v.size(); ++i)
      if( std::equal(lit.begin(), lit.end(), v.begin() + long(i)) ) return true;
    return false;
  }
  // "=": every word occurs as a word; without words, nothing matches
  auto want = split_words(lit), have = split_words(v);
  if( want.empty() ) return false;
  for(const auto& w : want)
    if( std::find(have.begin(), have.end(), w) == have.end() ) return false;
  return true;
}

const std::vector<std::string> kOps = {"=", "==", "^=", "*=", "$="};

std::string esc(const std::string& s)
{
  std::string o;
  for(char c : s)
    if( c == '"' ) o += "&quot;"; else if( c == '&' ) o += "&amp;"; else if( c == '<' ) o += "&lt;"; else o += c;
  return o;
}

// one document with one element per value, and elements without the attribute
std::string value_doc(const std::vector<std::string>& vals, const std::string& attr, bool text)
{
  std::string o = "<!DOCTYPE html><html><head></head><body><i></i><i " + attr + "x=\"a\" x" + attr + "=b>a</i>t";
  for(const auto& v : vals)
    o += "<i " + attr + "=\"" + esc(v) + "\">" + (text ? esc(v) : "") + "</i>";
  return o + "</body></html>";
}

enum Source { Attribute, Text, StripTags, InnerHtml };
const char * kSrc[] = {"v", "@text", "@strip-tags", "@inner-html"};

std::string collapse(const std::string& s)
{
  std::string o, w;
  for(char c : s + " ")
    if( std::strchr(" \t\n\f\r", c) && c ) { if( !w.empty() ) { if( !o.empty() ) o += ' '; o += w; } w.clear(); }
    else w += c;
  return o;
}

// ---- sizes next to the powers of two

// one <span> and one <x-z> among n siblings, first, last or in the middle
std::vector<Big> big_rows(int to)
{
  std::vector<Big> out;
  for(auto n : powers(6, to))
    for(int at = 0; at < 3; ++at)
      for(int odd = 0; odd < 2; ++odd)
      {
        const std::string t = odd ? "x-z" : "span", f = odd ? "x-a" : "div";
        std::uint64_t before = at == 0 ? 0 : at == 1 ? n - 1 : n / 2 + 1, after = n - 1 - before;
        Big b;
        b.what = std::to_string(before) + " <" + f + "> <" + t + "> " + std::to_string(after) + " <" + f + ">";
        b.doc = [=] {
          return "<!DOCTYPE html><html><head></head><body>" + times(before, "<" + f + "></" + f + ">") + "<" + t + "></" + t + ">" + times(after, "<" + f + "></" + f + ">") + "</body></html>";
        };
        std::vector<An> an;
        auto N = std::int64_t(n);
        for(std::int64_t k : {N, N + 1, N - 1, N - 2, std::int64_t(before) + 1, std::int64_t(before) + 2, std::int64_t(before), std::int64_t(after) + 1, std::int64_t(1), N & 0xff, N & 0x7f, N & 0xffff, N & 0x7fff})
        {
          an.push_back({std::to_string(k), 0, k});
          an.push_back({nth_text(-1, k, true), -1, k});
          an.push_back({nth_text(1, k, true), 1, k});
        }
        for(std::int64_t a : {std::int64_t(2), std::int64_t(3), N - 1, N, N + 1})
          for(std::int64_t k : {std::int64_t(0), std::int64_t(1)}) an.push_back({nth_text(a, k, true), a, k});
        b.sels = nth_sels(an, {t});
        auto ps = position_sels(t);
        b.sels.insert(b.sels.end(), ps.begin(), ps.end());
        // the others, as far as that does not walk the row for each of them
        if( n < 1100 )
        {
          ps = position_sels(f);
          b.sels.insert(b.sels.end(), ps.begin(), ps.end());
        }
        out.push_back(std::move(b));
      }
  return out;
}

// an element with n children, one with n attributes
std::vector<Big> big_counts(int to, int attrs_to)
{
  std::vector<Big> out;
  auto sels = [](std::uint64_t n, bool attrs) {
    std::vector<Sel> v;
    std::set<std::uint64_t> ks{n, n - 1, n + 1, 0, 1, n & 0xff, n & 0x7f, n & 0xffff, n & 0x7fff, n / 2, n * 2, n + 256, n + 65536};
    for(auto k : ks)
    {
      auto ca = ":child-count(" + std::to_string(k) + ")", aa = ":attribute-count(" + std::to_string(k) + ")";
      auto x = attrs ? aa : ca;
      auto p = attrs ? attr_count(std::int64_t(k)) : child_count(std::int64_t(k));
      v.push_back({"<div" + x + "/>", both(named("div"), p)});
      v.push_back({"<div:not(" + x + ")/>", both(named("div"), negated(p))});
    }
    return v;
  };
  for(auto n : powers(6, to))
    for(int text = 0; text < 2; ++text)
    {
      Big b;
      b.what = std::to_string(n) + " children" + (text ? " and text" : "");
      b.doc = [=] { return "<!DOCTYPE html><html><head></head><body><div>" + times(n, text ? "<i></i>t" : "<i></i>") + "</div></body></html>"; };
      b.sels = sels(n, false);
      out.push_back(std::move(b));
    }
  for(auto n : powers(6, attrs_to))
  {
    Big b;
    b.what = std::to_string(n) + " attributes";
    b.doc = [=] {
      std::string o = "<!DOCTYPE html><html><head></head><body><div";
      for(std::uint64_t i = 0; i < n; ++i) o += " a" + std::to_string(i);
      return o + "></div></body></html>";
    };
    b.sels = sels(n, true);
    for(auto k : {std::uint64_t(0), n - 1, n})
    {
      auto a = "a" + std::to_string(k);
      b.sels.push_back({"<div " + a + "/>", both(named("div"), has_attr(a))});
      b.sels.push_back({"<div " + a + "!/>", both(named("div"), lacks_attr(a))});
    }
    out.push_back(std::move(b));
  }
  return out;
}

// text content of an element that has only text
std::string content(const ref::Doc& d, int i)
{
  std::string o;
  for(int k : d.at(i).kids) o += d.at(k).text;
  return o;
}

Pred value_pred(Source src, const std::string& attr, bool neg, std::function<bool(const std::string&)> f)
{
  return [=](const ref::Doc& d, int i) {
    if( !d.elem(i) || d.at(i).tag != "i" ) return false;
    if( src == Attribute )
    {
      auto v = attr_of(d, i, attr);
      return (v && f(*v)) != neg;
    }
    auto t = content(d, i);
    return f(src == Text ? collapse(t) : t) != neg;
  };
}

std::vector<Sel> value_sels(const std::vector<std::string>& lits, const std::vector<Source>& srcs, const std::string& attr)
{
  std::vector<Sel> v;
  for(auto src : srcs)
    for(const auto& op : kOps)
      for(const auto& l : lits)
        for(int neg = 0; neg < 2; ++neg)
        {
          std::string q = v.size() % 2 ? "'" : "\"";
          v.push_back({"<i " + (src == Attribute ? attr : std::string(kSrc[src])) + op + q + l + q + (neg ? "!" : "") + "/>",
                       value_pred(src, attr, neg, [op, l](const std::string& s) { return op_matches(op, l, s); })});
        }
  return v;
}

std::vector<Sel> regex_sels(const std::vector<std::string>& rxs, const std::vector<Source>& srcs)
{
  std::vector<Sel> v;
  for(auto src : srcs)
    for(const auto& rx : rxs)
      for(int icase = 0; icase < 2; ++icase)
        for(int neg = 0; neg < 2; ++neg)
        {
          auto r = std::make_shared<std::regex>(rx, icase ? std::regex::ECMAScript | std::regex::icase : std::regex::ECMAScript);
          v.push_back({"<i " + std::string(kSrc[src]) + "=~/" + rx + "/" + (icase ? "i" : "") + (neg ? "!" : "") + "/>",
                       value_pred(src, "v", neg, [r](const std::string& s) { return std::regex_search(s, *r); })});
        }
  return v;
}

// the classes of tests themselves, also with no value at all
Space test_api(const std::string& name, std::vector<std::string> literals, std::vector<std::string> values)
{
  auto ls = std::make_shared<std::vector<std::string>>(std::move(literals));
  auto vs = std::make_shared<std::vector<std::string>>(std::move(values));
  Space s;
  s.name = name;
  s.n = ls->size();
  s.run = [=](Ctx& c, std::uint64_t o) {
    using namespace hext;
    const auto& l = (*ls)[o];
    const auto split = split_words(l);
    const std::vector<std::pair<std::string, std::function<std::unique_ptr<ValueTest>()>>> tests = {
      {"==", [&] { return std::make_unique<EqualsTest>(l); }}, {"^=", [&] { return std::make_unique<BeginsWithTest>(l); }},
      {"$=", [&] { return std::make_unique<EndsWithTest>(l); }}, {"*=", [&] { return std::make_unique<ContainsTest>(l); }},
      {"=", [&] { return std::make_unique<ContainsWordsTest>(l); }}, {"=", [&] { return std::make_unique<ContainsWordsTest>(split); }},
    };
    std::uint64_t inner = 0;
    for(std::size_t t = 0; t < tests.size(); ++t)
      for(int neg = 0; neg < 3; ++neg)
      {
        if( !c.want(inner++) ) continue;
        auto test = tests[t].second();
        for(int k = 0; k < neg; ++k) test = std::make_unique<NegateTest>(std::move(test));
        auto what = std::string(neg, '!') + tests[t].first + " \"" + l + "\" (test " + std::to_string(t) + ")";
        std::uint64_t sel = 0;
        for(std::size_t i = 0; i <= vs->size(); ++i)
        {
          const bool null = i == vs->size();
          const bool want = (!null && op_matches(tests[t].first, l, (*vs)[i])) != (neg == 1);
          const bool got = test->test(null ? nullptr : (*vs)[i].c_str());
          sel += want;
          if( got != want ) { c.fail(what + "\nvalue " + (null ? "(null)" : "\"" + (*vs)[i] + "\"") + "\nexpected " + (want ? "true" : "false")); return; }
        }
        c.add(0, sel);
        c.validated(vs->size());
        if( sel && sel < vs->size() ) c.nontrivial(fnv(what));
        c.outcome(sel);
      }
  };
  s.describe = [=](std::uint64_t o, std::uint64_t i) { return "test " + std::to_string(i) + " with \"" + (*ls)[o] + "\""; };
  return s;
}

// expressions of a small grammar
// values of several lines
std::vector<Sel> line_sels(int n, const std::vector<Source>& srcs)
{
  std::vector<Sel> v;
  for(auto src : srcs)
    for(const auto& rx : rxline::patterns(n))
      for(int neg = 0; neg < 2; ++neg)
        v.push_back({"<i " + std::string(kSrc[src]) + "=~/" + rxline::text(rx) + "/" + (neg ? "!" : "") + "/>",
                     value_pred(src, "v", neg, [rx](const std::string& s) { return rxline::search(rx, s).ok; })});
  return v;
}

std::vector<std::string> regexes(int n)
{
  std::vector<std::vector<std::string>> by(std::size_t(n + 1));
  by[0] = {""};
  const std::vector<std::string> at = {"a", "b", ".", "[ab]", "[^a]", "(a|b)", "a*", "b+", "a?", "B", " ", "\\w", "(ab)*", "\\b"};
  for(int i = 1; i <= n; ++i)
    for(const auto& p : by[std::size_t(i - 1)]) for(const auto& a : at) by[std::size_t(i)].push_back(p + a);
  std::vector<std::string> out;
  for(const auto& l : by)
    for(const auto& p : l)
      for(int anchor = 0; anchor < 4; ++anchor)
        out.push_back((anchor & 1 ? "^" : "") + p + (anchor & 2 ? "$" : ""));
  return out;
}

// several patterns in one rule: all have to hold
std::vector<Sel> pattern_pairs()
{
  struct U { std::string t; Pred p; };
  std::vector<U> u;
  for(const char * n : {"v", "w", "vv", "V"})
  {
    std::string s = n;
    u.push_back({s, has_attr(s)});
    u.push_back({s + "!", lacks_attr(s)});
    for(const char * op : {"==", "^=", "*=", "$=", "="})
      for(const char * l : {"a", "b a"})
        for(int neg = 0; neg < 2; ++neg)
        {
          std::string o = op, x = l;
          u.push_back({s + o + "\"" + x + "\"" + (neg ? "!" : ""), [=](const ref::Doc& d, int i) {
            if( !d.elem(i) ) return false;
            auto v = attr_of(d, i, s);
            return (v && op_matches(o, x, *v)) != bool(neg);
          }});
        }
  }
  std::vector<Sel> v;
  for(const char * tag : {"i", "*"})
  {
    auto t = std::string(tag) == "*" ? everything() : named(tag);
    for(const auto& a : u)
      for(const auto& b : u)
        v.push_back({"<" + std::string(tag) + " " + a.t + " " + b.t + "/>", both(t, both(a.p, b.p))});
  }
  return v;
}

std::string pair_doc()
{
  std::string o = "<!DOCTYPE html><html><head></head><body>t";
  std::vector<std::string> vals = {"", "a", "b a", "a b", "ab", "A"};
  for(const char * n : {"v", "V", "w", "vv", "vw"})
    for(const auto& x : vals) o += "<i " + std::string(n) + "=\"" + x + "\"></i>";
  for(const auto& x : vals)
    for(const auto& y : vals)
    {
      o += "<i v=\"" + x + "\" w=\"" + y + "\"></i>";
      o += "<i w=\"" + x + "\" vv=\"" + y + "\" v='" + x + "'></i>";
    }
  return o + "<i v></i><i></i></body></html>";
}

// values that grow one by one, with the literal at the beginning, in the
// middle, at the end, or nowhere
std::vector<Sel> long_sels(int upto)
{
  std::vector<Sel> v;
  for(int n = 1; n <= upto; ++n)
    for(const auto& op : kOps)
    {
      std::string l;
      for(int k = 0; k < n; ++k) l += char('a' + k % 7);
      v.push_back({"<i v" + op + "\"" + l + "\"/>", value_pred(Attribute, "v", false, [op, l](const std::string& s) { return op_matches(op, l, s); })});
    }
  return v;
}
std::vector<std::string> long_values(int upto)
{
  std::vector<std::string> v;
  for(int n = 1; n <= upto; ++n)
  {
    std::string l;
    for(int k = 0; k < n; ++k) l += char('a' + k % 7);
    v.push_back(l);
    v.push_back(l + " x");
    v.push_back("x " + l);
    v.push_back("x" + l + "x");
  }
  return v;
}

// values and literals next to the powers of two
std::vector<Big> big_values(int to)
{
  std::vector<Big> out;
  for(auto n : powers(6, to))
  {
    auto base = [](std::uint64_t k) {
      std::string l;
      for(std::uint64_t i = 0; i < k; ++i) l += char('a' + i % 7);
      return l;
    };
    std::vector<std::string> vals;
    for(auto k : {n - 1, n, n + 1})
    {
      auto l = base(k);
      vals.push_back(l);
      vals.push_back(l + " x");
      vals.push_back("x " + l);
      vals.push_back("x" + l + "x");
    }
    vals.push_back("x " + times(n / 2, "y ") + base(n));
    auto l = base(n);
    auto d = value_doc(vals, "v", true);
    for(const auto& op : kOps)
    {
      Big b;
      b.what = "values and a literal of " + std::to_string(n) + " characters";
      b.doc = [=] { return d; };
      for(auto src : {Attribute, Text, StripTags, InnerHtml})
        for(int neg = 0; neg < 2; ++neg)
          for(const auto& lit : {l, std::string("x"), "x " + l})
            b.sels.push_back({"<i " + (src == Attribute ? std::string("v") : std::string(kSrc[src])) + op + "\"" + lit + "\"" + (neg ? "!" : "") + "/>",
                              value_pred(src, "v", neg, [op, lit](const std::string& s) { return op_matches(op, lit, s); })});
      out.push_back(std::move(b));
    }
  }
  return out;
}

// names of n letters
std::vector<Big> big_names(int to)
{
  std::vector<Big> out;
  for(auto n : powers(6, to))
  {
    Big b;
    b.what = "names of about " + std::to_string(n) + " letters";
    auto name = [](std::uint64_t k) { return "z" + times(k - 1, "q"); };
    b.doc = [=] {
      std::string o = "<!DOCTYPE html><html><head></head><body>";
      for(auto k : {n - 1, n, n + 1}) o += "<" + name(k) + "></" + name(k) + "><" + upper(name(k)) + "x></" + upper(name(k)) + "x>";
      return o + "</body></html>";
    };
    for(const auto& x : {name(n - 1), name(n), name(n + 1), name(n) + "x"})
      for(const auto& y : {x, upper(x)})
        b.sels.push_back({"<" + y + "/>", named(x)});
    out.push_back(std::move(b));
  }
  return out;
}

// Documents with elements that the parser adds, renames or moves: every
// fragment by itself, every two of them, each as a document and in a body.
std::vector<std::string> implied_docs(bool deep)
{
  const std::vector<std::string> F = {
    "", "t", "<table><col>", "<table><td>c", "<table><tr>", "<table><tbody><td>", "<table>t<td>", "<table><p>x<tr><th>", "<table><caption>c<col><td>",
    "</p>", "</br>", "<image src=a>", "<isindex>", "<li>a<li>b", "<dd>a<dt>b", "<select><option>a<option>b<optgroup><option>", "<frameset><frame>",
    "<ruby>a<rt>b<rp>c", "<p>a<p>b", "<p>a<div>b", "<b><p>a</b>b", "<a>1<a>2", "<h1>a<h2>b", "<button>a<button>b", "<form><form><input>", "<svg><desc><p>", "<svg><p>a", "<math><mi>x<b>y",
    "<svg viewbox=1><foreignobject>a", "<title>t", "<meta a=b>", "<script>a</script>", "<body a=b>", "<html c=d>", "<head>", "<td>a", "<colgroup>", "<nobr>a<nobr>b", "<x-a>b</x-a></x-a>", "<!--c-->", "</html>t", "</body><p>", "<template><td>a", "<noframes>a", "<textarea>\n<a>", "<p><table>", "<option>a<option>", "<keygen>", "<spacer>a", "<command>", "<menuitem>a"};
  std::vector<std::string> out;
  for(const auto& a : F)
    for(const auto& b : F)
    {
      out.push_back("<!DOCTYPE html>" + a + b);
      if( deep ) { out.push_back(a + b); out.push_back("<!DOCTYPE html><html><head></head><body>" + a + b); out.push_back("<!DOCTYPE html><body><div>" + a + "</div>" + b); }
    }
  return out;
}

// the type of every known element, exactly
std::vector<Sel> type_sels()
{
  std::vector<Sel> v;
  std::vector<std::string> names;
  for(const auto& t : tag_table()) names.push_back(t.first);
  for(const char * n : {"x-a", "spacer", "foreignobject", "menuitem"}) names.push_back(n);
  for(const auto& n : names)
  {
    v.push_back({"<*:type-matches(/^" + n + "$/)/>", type_matches("^" + n + "$", false)});
    v.push_back({"<*:not(:type-matches(/^" + upper(n) + "$/i))/>", negated(type_matches("^" + n + "$", true))});
  }
  v.push_back({"<*:type-matches(/^$/)/>", type_matches("^$", false)});
  v.push_back({"<*:type-matches(/./)/>", type_matches(".", false)});
  return v;
}

} // namespace

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  const bool deep = o.tier == "thorough";
  std::vector<Space> sp;
  const auto& P = o.property;
  if( P == "C07" )
  {
    std::vector<std::string> known{"*"}, docnames;
    for(const auto& t : tag_table()) { known.push_back(t.first); docnames.push_back(t.first); }
    for(const char * x : {"foo", "foo-bar", "x_y", "fo", "divx", "di", "a1", "h7", "x-div"}) { known.push_back(x); docnames.push_back(x); }
    auto docs = pages(tag_docs(docnames));
    sp.push_back(tag_space("tags", known, docs));
    sp.push_back(enum_space("enum", docs));
    // custom names
    std::vector<std::string> custom;
    for(const auto& w : words("xy-_1", deep ? 4 : 3)) if( !w.empty() && std::isalpha(static_cast<unsigned char>(w[0])) ) custom.push_back(w);
    std::string all = "<!DOCTYPE html><body>";
    for(const auto& n : custom) all += "<" + n + "></" + n + "><" + upper(n) + " a=b></" + upper(n) + "><" + mixed(n) + "/>";
    sp.push_back(tag_space("custom-names", custom, pages({all})));
    // every character in names of elements, in every place
    std::vector<std::string> namec, nameb;
    std::string ac = "<!DOCTYPE html><html><head></head><body>";
    for(int b = 1; b < 256; ++b)
    {
      const char ch = char(b);
      const bool in_rule = std::isalnum(b) || ch == '-' || ch == '_';
      for(const std::string& n : {std::string("z") + ch, std::string("z") + ch + "q", std::string("zq") + ch, std::string("z") + ch + ch, std::string("di") + ch, std::string("d") + ch + "v"})
      {
        if( in_rule && !(b >= 'A' && b <= 'Z') ) namec.push_back(n);
        if( std::strchr("\t\n\v\f\r />", b) ) continue;   // Gumbo ends original names at \v, too
        if( !(b >= 'A' && b <= 'Z') ) nameb.push_back(n);
        ac += "<" + n + "></" + n + "><" + upper(n) + " a=b></" + upper(n) + ">";
      }
      if( std::isalpha(b) ) { ac += std::string("<") + ch + "zq></" + ch + "zq>"; if( std::islower(b) ) namec.push_back(ch + std::string("zq")); }
    }
    sp.push_back(tag_space("name-characters", namec, pages({ac + "</body></html>"})));
    sp.push_back(tag_space("name-bytes", nameb, pages({ac + "</body></html>"}), 3));
    // long names
    std::vector<std::string> longn;
    std::string l = "<!DOCTYPE html><body>";
    for(int n = 1; n <= (deep ? 400 : 150); ++n) { longn.push_back("z" + std::string(std::size_t(n), 'q')); l += "<" + longn.back() + "></" + longn.back() + ">"; }
    sp.push_back(tag_space("long-names", longn, pages({l})));
    sp.push_back(big_space("powers", big_names(17)));
    std::vector<std::string> im;
    for(const auto& t : tag_table()) im.push_back(t.first);
    im.push_back("x-a"); im.push_back("foreignobject");
    sp.push_back(tag_space("implied", im, pages(implied_docs(true))));
    sp.push_back(enum_space("implied-enum", pages(implied_docs(true))));
  }
  else if( P == "C08" )
  {
    const std::vector<std::string> T = {"div", "x-a", "X-B", "p"};
    auto rows = pages(rows_with_text(deep ? 7 : 6, T));
    auto small = pages(rows_with_text(deep ? 6 : 5, T));
    gen::HtmlStyle st; st.tags = {"div", "span", "x-a"};
    auto forests = pages(gen::docs(deep ? 7 : 6, 2, true, st));
    sp.push_back(big_space("powers", big_rows(17)));
    sp.push_back(rules_on("nth", nth_sels(ans(-4, 4, -5, 7), {"*"}), small, false));
    sp.push_back(rules_on("nth-tag", nth_sels(ans(-2, 3, -2, 3), {"div", "x-a"}), small, false));
    for(const char * t : {"*", "div", "x-a"}) sp.push_back(rules_on(std::string("position-") + t, position_sels(t), rows, false));
    auto kinds = pages(kind_docs(deep ? 5 : 4));
    sp.push_back(rules_on("kinds", nth_sels(ans(-2, 3, -2, 4), {"*", "x-a"}), kinds, false));
    for(const char * t : {"*", "x-a", "div"}) sp.push_back(rules_on(std::string("kinds-position-") + t, position_sels(t), kinds, false));
    sp.push_back(rules_on("nested", nth_sels(ans(-2, 3, -2, 3), {"*", "span"}), forests, false));
    {
      auto im = pages(implied_docs(deep));
      sp.push_back(rules_on("implied", nth_sels(ans(-1, 2, -1, 3), {"*"}), im, false));
      for(const char * t : {"*", "p", "td", "x-a"}) sp.push_back(rules_on(std::string("implied-position-") + t, position_sels(t), im, false));
    }
    sp.push_back(rules_on("nested-position", position_sels("*"), forests, false));
    // long rows
    std::vector<std::string> lr;
    for(int n = 1; n <= (deep ? 130 : 70); ++n)
    {
      std::string b = "<!DOCTYPE html><html><head></head><body>";
      for(int i = 0; i < n; ++i) b += std::string(i % 3 ? "<div></div>" : "<x-a></x-a>") + (i % 5 ? "" : "t");
      lr.push_back(b + "</body></html>");
    }
    std::vector<An> big;
    for(int a : {0, 1, 2, 3, 7, 16, 31, 64, 100, -1, -3, -16}) for(int b : {0, 1, 9, 10, 16, 17, 31, 32, 33, 63, 64, 65, -1, -10, -64}) big.push_back({nth_text(a, b, true), a, b});
    for(int b : {10, 16, 32, 33, 64, 65, 66, 100}) big.push_back({std::to_string(b), 0, b});
    sp.push_back(rules_on("long", nth_sels(big, {"*"}), pages(lr), false));
    // extreme numbers, in hext and through the API
    std::vector<An> ext;
    const std::vector<long long> X = {0, 1, -1, 2, 2147483647, -2147483647, -2147483648LL, 2147483646, 1073741824, 65536, 65535, 256};
    std::vector<std::pair<int, int>> xp;
    for(auto a : X) for(auto b : X) { ext.push_back({nth_text(a, b, true), a, b}); xp.push_back({int(a), int(b)}); }
    ext.push_back({"007", 0, 7}); ext.push_back({"003n+02", 3, 2}); ext.push_back({"-0n+1", 0, 1}); ext.push_back({"0", 0, 0}); ext.push_back({"-0", 0, 0});
    sp.push_back(rules_on("extremes", nth_sels(ext, {"*"}), pages(rows_with_text(3, {"div", "x-a"})), false));
    sp.push_back(nth_api("api-extremes", xp, pages(rows_with_text(3, {"div", "x-a"}))));
    std::vector<std::pair<int, int>> ap;
    for(int a = -4; a <= 4; ++a) for(int b = -5; b <= 7; ++b) ap.push_back({a, b});
    sp.push_back(nth_api("api", ap, pages(rows_with_text(4, {"div", "x-a"}))));
  }
  else if( P == "C09" )
  {
    sp.push_back(big_space("powers", big_counts(17, deep ? 13 : 11)));
    sp.push_back(rules_on("traits", conjunctions({"*", "div", "x-a"}, trait_atoms(true), 1, 2), pages(attr_docs(deep ? 4 : 3)), false));
    sp.push_back(rules_on("kinds", conjunctions({"*", "x-a", "svg"}, trait_atoms(true), 1, 1), pages(kind_docs(deep ? 6 : 5)), false));
    {
      auto im = pages(implied_docs(deep));
      sp.push_back(rules_on("implied-types", type_sels(), im, false));
      sp.push_back(rules_on("implied", conjunctions({"*", "colgroup", "p"}, trait_atoms(true), 1, 1), im, false));
    }
    sp.push_back(rules_on("attribute-kinds", conjunctions({"*", "x-a", "svg"}, trait_atoms(true), 1, 1), pages(attr_kind_docs(deep ? 4 : 3)), false));
    sp.push_back(rules_on("conjunctions", conjunctions({"*", "div"}, trait_atoms(false), 2, deep ? 2 : 1), pages(attr_docs(3)), false));
    if( deep ) sp.push_back(rules_on("not3", conjunctions({"*"}, trait_atoms(true), 1, 3), pages(attr_docs(3)), false));
    // counts that grow one by one
    std::vector<Sel> cs;
    std::string b = "<!DOCTYPE html><html><head></head><body>";
    for(int n = 0; n <= (deep ? 300 : 140); ++n)
    {
      b += "<div";
      for(int i = 0; i < n; ++i) b += " a" + std::to_string(i);
      b += ">";
      for(int i = 0; i < n; ++i) b += i % 3 ? "<i></i>t" : "<x-i></x-i>";
      b += "</div>";
      for(const char * t : {"*", "div"})
      {
        auto tp = std::string(t) == "*" ? everything() : named(t);
        cs.push_back({"<" + std::string(t) + ":child-count(" + std::to_string(n) + ")/>", both(tp, child_count(n))});
        cs.push_back({"<" + std::string(t) + ":attribute-count(" + std::to_string(n) + ")/>", both(tp, attr_count(n))});
        cs.push_back({"<" + std::string(t) + ":not(:attribute-count(" + std::to_string(n) + "):child-count(" + std::to_string(n) + "))/>", both(tp, both(negated(attr_count(n)), negated(child_count(n))))});
      }
    }
    for(const char * n : {"256", "65536", "2147483647", "1000"}) cs.push_back({"<*:child-count(" + std::string(n) + ")/>", child_count(std::atoll(n))});
    sp.push_back(rules_on("counts", cs, pages({b + "</body></html>"})));
    // long lists of negated traits and long conjunctions
    std::vector<Sel> ls;
    auto at = trait_atoms(true);
    for(std::size_t n = 1; n <= 40; ++n)
      for(std::size_t off = 0; off < at.size(); off += 3)
      {
        std::string t, u;
        Pred p = everything(), q = everything();
        for(std::size_t i = 0; i < n; ++i)
        {
          const auto& a = at[(off + i) % (2 + n % (at.size() - 1))];
          t += a.text; p = both(p, negated(a.pred));
          u += ":not(" + a.text + ")"; q = both(q, negated(a.pred));
        }
        ls.push_back({"<*:not(" + t + ")/>", p});
        ls.push_back({"<*" + u + "/>", q});
      }
    sp.push_back(rules_on("long-lists", ls, pages(attr_docs(deep ? 3 : 2)), false));
  }
  else if( P == "C10" )
  {
    sp.push_back(big_space("powers", big_values(17)));
    auto vals = words("ab ", deep ? 8 : 7), lits = words("ab ", deep ? 6 : 5);
    sp.push_back(rules_on("attributes", value_sels(lits, {Attribute}, "v"), pages({value_doc(vals, "v", false)})));
    sp.push_back(rules_on("attribute-names", value_sels(words("a ", 2), {Attribute}, "data-X_1"), pages({value_doc(words("a ", 4), "DATA-x_1", false), value_doc(words("a ", 4), "data-x_1", false)})));
    sp.push_back(rules_on("builtins", value_sels(words("ab ", deep ? 5 : 4), {Text, StripTags, InnerHtml}, "v"), pages({value_doc(words("ab ", deep ? 6 : 5), "v", true)})));
    sp.push_back(rules_on("case", value_sels(words("aAb", 3), {Attribute, Text}, "v"), pages({value_doc(words("aAb", 4), "v", true)})));
    sp.push_back(rules_on("other-bytes", value_sels(words("\t\xc3\xa4>", 3), {Attribute}, "v"), pages({value_doc(words("\t\xc3\xa4>", 3), "v", false)})));
    // null bytes in literals: no value has one
    sp.push_back(rules_on("null-bytes", value_sels(words(std::string("a\0 ", 3), 3), {Attribute, Text}, "v"), pages({value_doc(words("a ", 4), "v", true)})));
    sp.push_back(test_api("null-bytes-api", words(std::string("ab\0 ", 4), deep ? 5 : 4), words("ab ", 4)));
    sp.push_back(rules_on("regex", regex_sels(regexes(deep ? 3 : 2), {Attribute}), pages({value_doc(words("ab ", 5), "v", false)})));
    sp.push_back(rules_on("regex-builtins", regex_sels(regexes(1), {Text, StripTags, InnerHtml}), pages({value_doc(words("ab ", 4), "v", true)})));
    sp.push_back(rules_on("lines", line_sels(deep ? 4 : 3, {Attribute}), pages({value_doc(words("a\n", deep ? 5 : 4), "v", false)})));
    sp.push_back(rules_on("lines-builtins", line_sels(2, {StripTags, InnerHtml}), pages({value_doc(words("a\nb", 3), "v", true)})));
    sp.push_back(test_api("api", lits, vals));
    sp.push_back(rules_on("pairs", pattern_pairs(), pages({pair_doc()})));
    sp.push_back(rules_on("long", long_sels(deep ? 400 : 200), pages({value_doc(long_values(deep ? 300 : 120), "v", false)})));
  }
  else return 4;
  return main_(o, std::move(sp));
}
