// C11-C13: the values that captures yield, against references for pipes, text
// extraction and serialization.
#include "vf.hpp"
#include "ref.hpp"
#include "gen.hpp"
#include "rxline.hpp"
#include "tags.hpp"
#include <hext/Hext.h>
#include <algorithm>
#include <memory>
#include <regex>

using namespace vf;

namespace {

struct Page
{
  std::string src;
  std::unique_ptr<hext::Html> html;
  std::unique_ptr<ref::Doc> doc;
  explicit Page(std::string s) : src(std::move(s))
  {
    html = std::make_unique<hext::Html>(src.c_str(), src.size());
    doc = std::make_unique<ref::Doc>(html->root());
  }
};

using KV = std::vector<std::pair<std::string, std::string>>;
using Res = std::vector<KV>;

Res run(const hext::Rule& r, const Page& p)
{
  Res out;
  for(const auto& m : r.extract(*p.html)) out.emplace_back(m.begin(), m.end());
  return out;
}

std::string str(const Res& r)
{
  std::string o = "[";
  for(const auto& g : r) { o += " {"; for(const auto& kv : g) o += " " + kv.first + "=\"" + show(kv.second) + "\""; o += " }"; }
  return o + " ]";
}

std::vector<std::string> words(const std::string& alphabet, int n)
{
  std::vector<std::string> out{""};
  for(std::size_t b = 0, len = 0; int(len) < n; ++len)
  {
    std::size_t e = out.size();
    for(; b < e; ++b) for(char c : alphabet) out.push_back(out[b] + c);
  }
  return out;
}

std::string esc(const std::string& s)
{
  std::string o;
  for(char c : s)
    if( c == '"' ) o += "&quot;"; else if( c == '&' ) o += "&amp;"; else if( c == '<' ) o += "&lt;"; else if( c == '>' ) o += "&gt;"; else o += c;
  return o;
}

bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'; }

std::string collapse(const std::string& s)
{
  std::string o, w;
  for(std::size_t i = 0; i <= s.size(); ++i)
    if( i == s.size() || ws(s[i]) ) { if( !w.empty() ) { if( !o.empty() ) o += ' '; o += w; } w.clear(); }
    else w += s[i];
  return o;
}

// ------------------------------------------------------------------ C11 ----

struct PipeAtom { std::string text; std::function<std::string(const std::string&)> f; std::function<std::unique_ptr<hext::StringPipe>()> make; };

std::string trim_of(const std::string& s, const std::string& set)
{
  std::size_t b = 0, e = s.size();
  while( b < e && set.find(s[b]) != std::string::npos ) ++b;
  while( e > b && set.find(s[e - 1]) != std::string::npos ) --e;
  return s.substr(b, e - b);
}

PipeAtom filter_atom(const std::string& rx, bool icase)
{
  auto r = std::make_shared<std::regex>(rx, icase ? std::regex::ECMAScript | std::regex::icase : std::regex::ECMAScript);
  return {"filter(/" + rx + "/" + (icase ? "i" : "") + ")", [r](const std::string& s) {
    std::smatch m;
    if( !std::regex_search(s, m, *r) ) return std::string();
    return m.size() > 1 ? m[1].str() : m[0].str();
  }, [=] { return std::make_unique<hext::RegexPipe>(boost::regex(rx, icase ? boost::regex::perl | boost::regex::icase : boost::regex::perl)); }};
}

PipeAtom replace_atom(const std::string& rx, const std::string& by, const std::string& sep = ",")
{
  auto r = std::make_shared<std::regex>(rx);
  return {"replace(/" + rx + "/" + sep + "\"" + by + "\")", [=](const std::string& s) { return std::regex_replace(s, *r, by); },
          [=] { return std::make_unique<hext::RegexReplacePipe>(boost::regex(rx), by); }};
}

std::vector<PipeAtom> pipe_atoms()
{
  using namespace hext;
  std::vector<PipeAtom> v;
  v.push_back({"trim", [](const std::string& s) { return trim_of(s, " "); }, [] { return std::make_unique<TrimPipe>(); }});
  v.push_back({"trim(\"ab\")", [](const std::string& s) { return trim_of(s, "ab"); }, [] { return std::make_unique<TrimPipe>("ab"); }});
  v.push_back({"trim('B ')", [](const std::string& s) { return trim_of(s, "B "); }, [] { return std::make_unique<TrimPipe>("B "); }});
  v.push_back({"collapsews", collapse, [] { return std::make_unique<CollapseWsPipe>(); }});
  v.push_back({"tolower", [](std::string s) { for(char& c : s) if( c >= 'A' && c <= 'Z' ) c = char(c + 32); return s; }, [] { return std::make_unique<CasePipe>(); }});
  v.push_back({"toupper", [](std::string s) { for(char& c : s) if( c >= 'a' && c <= 'z' ) c = char(c - 32); return s; }, [] { return std::make_unique<CasePipe>(CasePipe::ToUpper); }});
  v.push_back({"prepend(\" x\")", [](const std::string& s) { return " x" + s; }, [] { return std::make_unique<PrependPipe>(" x"); }});
  v.push_back({"append('Ya ')", [](const std::string& s) { return s + "Ya "; }, [] { return std::make_unique<AppendPipe>("Ya "); }});
  v.push_back({"prepend(\"b\")", [](const std::string& s) { return "b" + s; }, [] { return std::make_unique<PrependPipe>("b"); }});
  v.push_back({"append(\"b\")", [](const std::string& s) { return s + "b"; }, [] { return std::make_unique<AppendPipe>("b"); }});
  v.push_back(filter_atom("b", false));
  v.push_back(filter_atom("B", true));
  v.push_back(filter_atom("a(b?)", false));
  v.push_back(filter_atom("(x)|b", false));
  v.push_back(filter_atom("([ab])([^ab]+)", false));
  v.push_back(filter_atom("^ab$", false));
  v.push_back(filter_atom("", false));
  v.push_back(replace_atom("a", "z"));
  v.push_back(replace_atom("(a)(b)", "$2$1", ", "));
  v.push_back(replace_atom("[ab]+", "", "  , "));
  v.push_back(replace_atom(" ", "-"));
  return v;
}

// literals that contain null bytes: they are bytes like any other
std::vector<PipeAtom> null_pipe_atoms()
{
  using namespace hext;
  const std::string z(1, '\0');
  std::vector<PipeAtom> v;
  auto literal = [](const std::string& s) { return "(\"" + s + "\")"; };
  for(const auto& w : {z, z + "b", "a" + z, z + " "})
  {
    v.push_back({"append" + literal(w), [w](const std::string& s) { return s + w; }, [w] { return std::make_unique<AppendPipe>(w); }});
    v.push_back({"prepend" + literal(w), [w](const std::string& s) { return w + s; }, [w] { return std::make_unique<PrependPipe>(w); }});
  }
  for(const auto& w : {z, z + "b", "a" + z})
    v.push_back({"trim" + literal(w), [w](const std::string& s) { return trim_of(s, w); }, [w] { return std::make_unique<TrimPipe>(w); }});
  v.push_back(replace_atom("a", z));
  v.push_back(replace_atom("b", "x" + z + "y"));
  v.push_back(replace_atom("[^ab]", "-"));
  for(auto& p : pipe_atoms()) if( p.text != "filter(//)" ) v.push_back(p);
  v.push_back(filter_atom("[^ab]b?", false));
  v.push_back(filter_atom("b$", false));
  return v;
}

// the empty literal as regex is legal in hext, but std::regex is not asked to
// agree with boost on empty matches while replacing
struct PipeCase { std::string hext; std::vector<int> seq; };

enum Source { Attribute, OptAttribute, Text, StripTags, InnerHtml };
const char * kSrcText[] = {"v", "v", "@text", "@strip-tags", "@inner-html"};

Space pipes(const std::string& name, int upto, const std::string& alphabet, int len, bool api, bool nulls = false)
{
  auto atoms = std::make_shared<std::vector<PipeAtom>>(nulls ? null_pipe_atoms() : pipe_atoms());
  std::vector<std::vector<int>> seqs{{}};
  for(std::size_t b = 0, l = 0; int(l) < upto; ++l)
  {
    std::size_t e = seqs.size();
    for(; b < e; ++b) for(int a = 0; a < int(atoms->size()); ++a) { auto s = seqs[b]; s.push_back(a); seqs.push_back(s); }
  }
  auto vals = std::make_shared<std::vector<std::string>>(words(alphabet, len));
  std::string d = "<!DOCTYPE html><html><head></head><body><i></i>t";
  for(const auto& v : *vals) d += "<i v=\"" + esc(v) + "\">" + esc(v) + "</i>";
  auto page = std::make_shared<Page>(d + "</body></html>");
  auto sq = std::make_shared<std::vector<std::vector<int>>>(std::move(seqs));
  const int forms = api ? 2 : 1;
  Space s;
  s.name = name;
  s.n = sq->size();
  auto hext_of = [=](std::uint64_t o, int src) {
    std::string t = "<i " + std::string(kSrcText[src]);
    for(int a : (*sq)[o]) t += ":" + (*atoms)[std::size_t(a)].text;
    return t + ":k" + (src == OptAttribute ? "?" : "") + "/>";
  };
  s.run = [=](Ctx& c, std::uint64_t o) {
    const auto& seq = (*sq)[o];
    auto f = [&](std::string v) { for(int a : seq) v = (*atoms)[std::size_t(a)].f(v); return v; };
    for(int src = 0; src < 5; ++src)
      for(int form = 0; form < forms; ++form)
      {
        if( form && src == OptAttribute ) continue;
        // how text is escaped is not of interest here
        if( src == InnerHtml && alphabet.find_first_of("&<>\"") != std::string::npos ) continue;
        if( c.stopped() || !c.want(std::uint64_t(src * 2 + form)) ) continue;
        Res want;
        for(std::size_t n = 0; n < page->doc->nodes.size(); ++n)
        {
          const auto& x = page->doc->at(int(n));
          if( !page->doc->elem(int(n)) || x.tag != "i" ) continue;
          std::string v;
          if( src <= OptAttribute )
          {
            if( x.attrs.empty() ) continue;
            v = x.attrs[0].value;
          }
          else
          {
            for(int k : x.kids) v += page->doc->at(k).text;
            if( src == Text ) v = collapse(v);
            if( src == InnerHtml ) v = esc(v);
          }
          want.push_back({{"k", f(v)}});
        }
        auto t = hext_of(o, src);
        std::unique_ptr<hext::Rule> r;
        if( form == 0 )
        {
          try { r = std::make_unique<hext::Rule>(hext::ParseHext(t.c_str(), t.size())); }
          catch( const hext::SyntaxError& e ) { c.fail(show(t) + "\nis valid, but is not accepted: " + e.what()); return; }
        }
        else
        {
          t = "C++ interface: " + t;
          std::unique_ptr<hext::StringPipe> p;
          for(int a : seq)
          {
            auto q = (*atoms)[std::size_t(a)].make();
            if( p ) p->append(std::move(q)); else p = std::move(q);
          }
          r = std::make_unique<hext::Rule>(hext::HtmlTag::I);
          if( src == Attribute ) r->append_capture<hext::AttributeCapture>("v", "k", std::move(p));
          else r->append_capture<hext::FunctionCapture>(src == Text ? hext::TextBuiltin : src == StripTags ? hext::StripTagsBuiltin : hext::InnerHtmlBuiltin, "k", std::move(p));
        }
        auto got = run(*r, *page);
        c.validated(got.size());
        c.add(0, want.size());
        if( seq.size() ) c.nontrivial(fnv(t));
        c.outcome(fnv(str(want)));
        if( seq.size() > 1 && c.want_sample() ) c.sample(show(t) + " -> " + str(want).substr(0, 700));
        if( want != got )
        {
          std::size_t k = 0;
          while( k < want.size() && k < got.size() && want[k] == got[k] ) ++k;
          auto at = [&](const Res& r) { return k < r.size() ? str({r[k]}) : std::string("(no further result)"); };
          c.fail(show(t) + "\ndocument with all values over \"" + show(alphabet) + "\" up to length " + std::to_string(len)
                 + "\nresult " + std::to_string(k) + ": expected " + at(want) + " actual " + at(got));
        }
      }
  };
  s.describe = [=](std::uint64_t o, std::uint64_t i) { return hext_of(o, int(i / 2)); };
  return s;
}

// several captures in one rule: names, order, optional and mandatory ones
struct CapUnit { std::string text; std::string src; bool optional; std::string name; int fun; };

Space capture_lists(const std::string& name, int upto, bool any = false)
{
  std::vector<CapUnit> u;
  for(const char * n : {"k", "a.b-c_9", "\"q x\"", "7"})
  {
    std::string nm = n[0] == '"' ? std::string(n).substr(1, std::strlen(n) - 2) : n;
    u.push_back({"v:" + std::string(n), "v", false, nm, 0});
    u.push_back({"W:" + std::string(n) + "?", "w", true, nm, 0});
    u.push_back({"v:toupper:" + std::string(n) + "?", "v", true, nm, 1});
    if( !any ) u.push_back({"@text:trim:" + std::string(n), "", false, nm, 0});
  }
  auto un = std::make_shared<std::vector<CapUnit>>(u);
  std::vector<std::vector<int>> seqs{{}};
  for(std::size_t b = 0, l = 0; int(l) < upto; ++l)
  {
    std::size_t e = seqs.size();
    for(; b < e; ++b) for(int a = 0; a < int(u.size()); ++a) { auto s = seqs[b]; s.push_back(a); seqs.push_back(s); }
  }
  auto sq = std::make_shared<std::vector<std::vector<int>>>(std::move(seqs));
  auto page = std::make_shared<Page>("<!DOCTYPE html><html><head></head><body><i></i><i v=a>x</i><i w=b>y</i><i w=c v=d></i>"
    + std::string(any ? "t<!--c--> <p v=1>ttt</p>tttttttttttttttttttttttttttttttttttttttt" : "") + "<i v>z</i><i V=e W= vv=1>q</i></body></html>");
  Space s;
  s.name = name;
  s.n = sq->size();
  auto hext_of = [=](std::uint64_t o) {
    std::string t = any ? "<*" : "<i";
    for(int a : (*sq)[o]) t += " " + (*un)[std::size_t(a)].text;
    return t + "/>";
  };
  s.run = [=](Ctx& c, std::uint64_t o) {
    if( !c.want(0) ) return;
    auto t = hext_of(o);
    Res want;
    for(std::size_t n = 0; n < page->doc->nodes.size(); ++n)
    {
      const auto& x = page->doc->at(int(n));
      if( !page->doc->elem(int(n)) || (x.tag != "i" && !any) ) continue;
      KV kv;
      bool match = true;
      for(int a : (*sq)[o])
      {
        const auto& u = (*un)[std::size_t(a)];
        if( u.src.empty() )
        {
          std::string v;
          for(int k : x.kids) v += page->doc->at(k).text;
          kv.push_back({u.name, v});
          continue;
        }
        bool found = false;
        for(const auto& at : x.attrs)
          if( at.name == u.src )
          {
            found = true;
            std::string v = at.value;
            if( u.fun ) for(char& ch : v) ch = char(std::toupper(static_cast<unsigned char>(ch)));
            kv.push_back({u.name, v});
          }
        if( !found && !u.optional ) match = false;
      }
      std::stable_sort(kv.begin(), kv.end(), [](auto& a, auto& b) { return a.first < b.first; });
      if( match && !kv.empty() ) want.push_back(kv);
    }
    Res got;
    try { got = run(hext::ParseHext(t.c_str()), *page); }
    catch( const hext::SyntaxError& e ) { c.fail(t + "\nis valid, but is not accepted: " + e.what()); return; }
    c.validated();
    c.add(0, want.size());
    if( !want.empty() ) c.nontrivial(fnv(t));
    c.outcome(fnv(str(want)));
    if( c.want_sample() ) c.sample(show(t) + " -> " + str(want));
    if( want != got ) c.fail(t + "\ndocument " + page->src + "\nexpected " + str(want) + "\nactual   " + str(got));
  };
  s.describe = [=](std::uint64_t o, std::uint64_t) { return hext_of(o); };
  return s;
}

// values, names and pipe chains that grow one by one
Space long_values(const std::string& name, std::vector<std::uint64_t> ns)
{
  Space s;
  s.name = name;
  s.n = ns.size();
  s.run = [=](Ctx& c, std::uint64_t o) {
    const auto n = std::size_t(ns[o]);
    std::string v, cap;
    for(std::size_t i = 0; i < n; ++i) { v += i % 9 == 4 ? ' ' : char('a' + i % 11); cap += char('a' + i % 26); }
    Page p("<!DOCTYPE html><html><head></head><body><i v=\"" + v + "\">" + v + "</i></body></html>");
    std::string app, up = v;
    for(char& ch : up) ch = char(std::toupper(static_cast<unsigned char>(ch)));
    for(std::size_t i = 0; i < n && i < 60; ++i) app += std::string(":append(\"") + char('a' + i % 26) + "\")";
    std::string appended = v;
    for(std::size_t i = 0; i < n && i < 60; ++i) appended += char('a' + i % 26);
    std::vector<std::pair<std::string, std::pair<std::string, std::string>>> cases = {
      {"<i v:" + cap + "/>", {cap, v}},
      {"<i v:toupper:k/>", {"k", up}},
      {"<i @text:k/>", {"k", collapse(v)}},
      {"<i @strip-tags:k/>", {"k", v}},
      {"<i @inner-html:k/>", {"k", v}},
      {"<i v" + app + ":k/>", {"k", appended}},
      {"<i v:prepend(\"" + v + "\"):append('" + v + "'):k/>", {"k", v + v + v}},
      {"<i v:filter(/.*/):k/>", {"k", v}},
      {"<i v:filter(/(.{0," + std::to_string(std::min<std::size_t>(n, 200)) + "})/):k/>", {"k", v.substr(0, std::min<std::size_t>(n, 200))}},
    };
    for(std::size_t i = 0; i < cases.size(); ++i)
    {
      if( !c.want(i) ) continue;
      Res want{{cases[i].second}}, got = run(hext::ParseHext(cases[i].first.c_str()), p);
      c.validated();
      c.add(0);
      c.nontrivial(fnv(cases[i].first));
      if( want != got ) c.fail(cases[i].first + "\ndocument " + p.src + "\nexpected " + str(want) + "\nactual   " + str(got));
    }
  };
  s.describe = [](std::uint64_t o, std::uint64_t i) { return "length " + std::to_string(o + 1) + " case " + std::to_string(i); };
  return s;
}

// every character up to U+00ff (and some others) in every place of every pipe
Space characters(const std::string& name)
{
  auto utf8 = [](unsigned cp) {
    std::string s;
    if( cp < 0x80 ) s += char(cp);
    else if( cp < 0x800 ) { s += char(0xc0 | cp >> 6); s += char(0x80 | (cp & 63)); }
    else if( cp < 0x10000 ) { s += char(0xe0 | cp >> 12); s += char(0x80 | (cp >> 6 & 63)); s += char(0x80 | (cp & 63)); }
    else { s += char(0xf0 | cp >> 18); s += char(0x80 | (cp >> 12 & 63)); s += char(0x80 | (cp >> 6 & 63)); s += char(0x80 | (cp & 63)); }
    return s;
  };
  auto chars = std::make_shared<std::vector<std::string>>();
  for(unsigned cp = 1; cp < 0x100; ++cp)
    // carriage returns become newlines, C1 controls other characters
    if( cp != '\r' ) chars->push_back(utf8(cp));
  for(unsigned cp : {0x100u, 0x130u, 0x131u, 0x17fu, 0x3a3u, 0x401u, 0x7ffu, 0x800u, 0x1e9eu, 0x2028u, 0x20acu, 0x212au, 0xfb01u, 0xfeffu, 0xffeeu, 0x10000u, 0x1f600u, 0x10fffdu}) chars->push_back(utf8(cp));
  Space s;
  s.name = name;
  s.n = chars->size();
  s.run = [=](Ctx& c, std::uint64_t o) {
    using namespace hext;
    const auto& ch = (*chars)[o];
    auto up = [](std::string v) { for(char& x : v) if( x >= 'a' && x <= 'z' ) x = char(x - 32); return v; };
    auto low = [](std::string v) { for(char& x : v) if( x >= 'A' && x <= 'Z' ) x = char(x + 32); return v; };
    // as literal of the language; it cannot end in a backslash
    auto lit = [&](const std::string& v) { char q = v.find('"') == std::string::npos ? '"' : '\''; return q + v + q; };
    const bool meta = ch.size() == 1 && std::strchr("^$\\.*+?()[]{}|/", ch[0]);
    // escaped in an expression; the delimiter needs its own
    const std::string rx = ch == "\\" ? "[\\\\]" : meta ? "\\" + ch : ch;
    const bool alone = ch != "\n"; // newlines in expressions separate alternatives in some syntaxes
    for(const std::string& v : {ch, ch + ch, "a" + ch, ch + "Z", "aA" + ch + "zZ", " " + ch + " \t" + ch + "  "})
    {
      // the values as they arrive: the parser of documents replaces some characters
      Page p("<!DOCTYPE html><html><head></head><body><i v=\"" + esc(v) + "\"></i></body></html>");
      std::string w;
      for(std::size_t n = 0; n < p.doc->nodes.size(); ++n) if( p.doc->elem(int(n)) && p.doc->at(int(n)).tag == "i" ) w = p.doc->at(int(n)).attrs[0].value;
      if( w.empty() ) continue;
      auto repl = [&](const std::string& by) { std::string r; for(std::size_t i = 0; i < w.size(); ) if( w.compare(i, ch.size(), ch) == 0 ) { r += by; i += ch.size(); } else r += w[i++]; return r; };
      const bool has = w.find(ch) != std::string::npos;
      std::vector<std::pair<std::string, std::string>> cases = {
        {"tolower", low(w)}, {"toupper", up(w)}, {"collapsews", collapse(w)}, {"trim", trim_of(w, " ")},
        {"trim(" + lit(ch) + ")", trim_of(w, ch)}, {"trim(" + lit(" a" + ch) + ")", trim_of(w, " a" + ch)},
        {"prepend(" + lit(ch) + ")", ch + w}, {"append(" + lit(ch) + ")", w + ch},
        {"append(" + lit("-" + ch + "-") + "):tolower", low(w + "-" + ch + "-")},
        {"replace(/bb/," + lit("x") + ")", ch == "b" && w == "bb" ? "x" : w},
      };
      if( alone )
      {
        cases.push_back({"filter(/" + rx + "/)", has ? ch : ""});
        cases.push_back({"filter(/(" + rx + ")/)", has ? ch : ""});
        cases.push_back({"replace(/" + rx + "/,\"-\")", repl("-")});
        cases.push_back({"replace(/" + rx + "/,\"\")", repl("")});
        cases.push_back({"replace(/" + rx + "/,\"<$&>\")", repl("<" + ch + ">")});
        cases.push_back({"replace(/(" + rx + ")/,\"($1$$?:{})&\")", repl("(" + ch + "$?:{})&")});
      }
      // what stands for itself in replacements
      if( ch != "\\" && ch != "$" )
      {
        auto subst = [&](const std::string& by) { std::string r; for(char x : w) if( x == 'a' ) r += by; else r += x; return r; };
        cases.push_back({"replace(/a/," + lit(ch) + ")", subst(ch)});
        cases.push_back({"replace(/a/," + lit("(" + ch + ":?" + ch + ")") + ")", subst("(" + ch + ":?" + ch + ")")});
      }
      for(std::size_t i = 0; i < cases.size(); ++i)
      {
        if( c.stopped() || !c.want(i) ) continue;
        if( cases[i].first.find("\\\"") != std::string::npos ) continue;
        for(const char * form : {"<i v:", "<* v:"})
        {
          std::string t = form + cases[i].first + ":k/>";
          Res want{{{"k", cases[i].second}}}, got;
          try { got = run(ParseHext(t.c_str(), t.size()), p); }
          catch( const SyntaxError& e ) { c.fail(show(t) + "\nis valid, but is not accepted: " + e.what()); return; }
          c.validated();
          c.add(0);
          c.nontrivial(fnv(t + v));
          c.outcome(fnv(str(want)));
          if( c.want_sample() ) c.sample(show(t) + " " + show(v) + " -> " + str(want));
          if( want != got ) { c.fail(show(t) + "\nvalue " + show(w) + "\nexpected " + str(want) + "\nactual   " + str(got)); return; }
        }
      }
    }
  };
  s.describe = [=](std::uint64_t o, std::uint64_t i) { return "character " + show((*chars)[o]) + " pipe " + std::to_string(i); };
  return s;
}

// filter and replace on values of several lines
Space lines(const std::string& name, int n, int len)
{
  auto rxs = std::make_shared<std::vector<std::vector<rxline::El>>>(rxline::patterns(n));
  auto vals = std::make_shared<std::vector<std::string>>(words("a\n", len));
  std::string d = "<!DOCTYPE html><html><head></head><body>";
  for(const auto& v : *vals) d += "<i v=\"" + esc(v) + "\"></i>";
  auto page = std::make_shared<Page>(d + "</body></html>");
  Space s;
  s.name = name;
  s.n = rxs->size();
  s.run = [=](Ctx& c, std::uint64_t o) {
    const auto& rx = (*rxs)[o];
    const auto t = "<i v:filter(/" + rxline::text(rx) + "/):k v:replace(/" + rxline::text(rx) + "/,\"<$&>\"):l v:replace(/" + rxline::text(rx) + "/,\"-\"):m/>";
    auto got = run(hext::ParseHext(t.c_str()), *page);
    for(std::size_t i = 0; i < vals->size(); ++i)
    {
      const auto& v = (*vals)[i];
      if( !c.want(i) ) continue;
      // the replacement with the matches themselves
      std::string marked; { std::size_t at = 0, no = std::string::npos; for(;;) { auto m = rxline::search(rx, v, at, no); if( !m.ok ) { marked += v.substr(at); break; } marked += v.substr(at, m.b - at) + "<" + v.substr(m.b, m.e - m.b) + ">"; at = m.e; no = m.b == m.e ? m.e : std::string::npos; } }
      Res want{{{"k", rxline::filter(rx, v)}, {"l", marked}, {"m", rxline::replace(rx, v, "-")}}};
      c.validated();
      c.add(0);
      c.nontrivial(fnv(t + v));
      c.outcome(fnv(str(want)));
      if( c.want_sample() ) c.sample(show(t) + " " + show(v) + " -> " + str(want));
      if( got.size() != vals->size() || Res{got[i]} != want ) { c.fail(show(t) + "\nvalue " + show(v) + "\nexpected " + str(want) + "\nactual   " + (i < got.size() ? str({got[i]}) : "none")); return; }
    }
  };
  s.describe = [=](std::uint64_t o, std::uint64_t i) { return "expression " + rxline::text((*rxs)[o]) + " value " + show((*vals)[i]); };
  return s;
}

// ------------------------------------------------------------------ C12 ----

// Elements that do not separate words.
bool is_inline(const std::string& t)
{
  static const std::set<std::string> s = {
    "a", "abbr", "acronym", "b", "bdo", "big", "cite", "code", "del", "dfn", "em", "fieldset", "font", "i", "img",
    "ins", "kbd", "label", "legend", "map", "object", "q", "s", "samp", "small", "span", "strike", "strong", "sub",
    "sup", "tt", "u", "var"};
  return s.count(t) != 0;
}

bool is_text(const ref::Node& x) { return x.kind == ref::Node::Text || x.kind == ref::Node::Whitespace || x.kind == ref::Node::Cdata; }

void raw_text(const ref::Doc& d, int n, bool separate, std::string& o)
{
  const auto& x = d.at(n);
  if( is_text(x) ) o += x.text;
  if( x.kind != ref::Node::Element ) return;
  for(int k : x.kids)
  {
    bool sep = separate && d.elem(k) && !is_inline(d.at(k).tag);
    if( sep ) o += '\n';
    raw_text(d, k, separate, o);
    if( sep ) o += '\n';
  }
}

// all elements (and text nodes) of a document, in matching order
void order(const ref::Doc& d, const std::vector<int>& sib, std::vector<int>& out)
{
  out.insert(out.end(), sib.begin(), sib.end());
  for(int n : sib) if( d.elem(n) && !d.at(n).kids.empty() ) order(d, d.at(n).kids, out);
}

Space text_space(const std::string& name, std::uint64_t n, std::function<std::string(std::uint64_t)> make, std::uint64_t block = 256)
{
  Space s;
  s.name = name;
  s.n = (n + block - 1) / block;
  s.run = [=](Ctx& c, std::uint64_t o) {
    auto rt = hext::ParseHext("<* @text:a @strip-tags:b/>");
    for(std::uint64_t i = 0; i < block && o * block + i < n && !c.stopped(); ++i)
    {
      if( !c.want(i) ) continue;
      Page p(make(o * block + i));
      std::vector<int> all;
      order(*p.doc, {0}, all);
      Res want;
      for(int k : all)
      {
        std::string t, b;
        raw_text(*p.doc, k, true, t);
        raw_text(*p.doc, k, false, b);
        want.push_back({{"a", collapse(t)}, {"b", b}});
      }
      auto got = run(rt, p);
      c.validated();
      c.add(0, want.size());
      c.nontrivial(fnv(p.src));
      c.outcome(fnv(str(want)));
      if( c.want_sample() ) c.sample(show(p.src) + " -> " + str(want));
      if( want != got )
      {
        c.fail("<* @text:a @strip-tags:b/>\ndocument " + show(p.src) + "\nexpected " + str(want) + "\nactual   " + str(got));
        continue;
      }
      // the text that matches is the text that is captured
      const auto& t = want.back()[0].second;
      if( t.find('"') == std::string::npos && t.find('\\') == std::string::npos )
      {
        auto q = "<* @text==\"" + t + "\" @text:a @strip-tags:b/>";
        Res w2;
        for(auto& g : want) if( g[0].second == t ) w2.push_back(g);
        auto g2 = run(hext::ParseHext(q.c_str(), q.size()), p);
        c.validated();
        if( w2 != g2 ) c.fail(q + "\ndocument " + show(p.src) + "\nexpected " + str(w2) + "\nactual   " + str(g2));
      }
    }
  };
  s.describe = [=](std::uint64_t o, std::uint64_t i) { return show(make(o * block + i)); };
  return s;
}

std::vector<std::string> all_tag_names()
{
  std::vector<std::string> v;
#define X(T) v.push_back(ref::Doc::lower(#T));
  VF_TAGS(X)
#undef X
  v.push_back("x-y");
  v.push_back("spanx");
  return v;
}

// forests over text pieces and elements, addressed by index
struct Pieces
{
  std::vector<std::string> leaves;                             // complete pieces of markup
  std::vector<std::pair<std::string, std::string>> elements;   // opening and closing
};

std::vector<std::string> compositions(const Pieces& ps, int n)
{
  // by size; a leaf and an element both count 1
  std::vector<std::vector<std::string>> by(std::size_t(n + 1));
  by[0] = {""};
  for(int k = 1; k <= n; ++k)
  {
    auto& out = by[std::size_t(k)];
    for(const auto& l : ps.leaves) for(const auto& r : by[std::size_t(k - 1)]) out.push_back(l + r);
    for(const auto& e : ps.elements)
      for(int in = 0; in < k; ++in)
        for(const auto& b : by[std::size_t(in)]) for(const auto& r : by[std::size_t(k - 1 - in)])
          out.push_back(e.first + b + e.second + r);
  }
  std::vector<std::string> all;
  for(auto& l : by) all.insert(all.end(), l.begin(), l.end());
  return all;
}

const std::string kHead = "<!DOCTYPE html><html><head></head><body>", kTail = "</body></html>";

Space text_list(const std::string& name, std::vector<std::string> v)
{
  auto p = std::make_shared<std::vector<std::string>>(std::move(v));
  return text_space(name, p->size(), [p](std::uint64_t i) { return kHead + "<div id=r>" + (*p)[i] + "</div>" + kTail; });
}

// ------------------------------------------------------------------ C13 ----

// Serialization as in the HTML standard.
void spec_serialize(const ref::Doc& d, int n, std::string& o)
{
  static const std::set<std::string> voids = {"area", "base", "basefont", "bgsound", "br", "col", "embed", "frame", "hr", "img",
    "input", "keygen", "link", "meta", "param", "source", "track", "wbr"};
  static const std::set<std::string> raw = {"style", "script", "xmp", "iframe", "noembed", "noframes", "plaintext"};
  const auto& x = d.at(n);
  if( x.kind == ref::Node::Comment ) { o += "<!--" + x.text + "-->"; return; }
  if( is_text(x) )
  {
    if( x.parent >= 0 && d.elem(x.parent) && d.at(x.parent).ns == GUMBO_NAMESPACE_HTML && raw.count(d.at(x.parent).tag) ) { o += x.text; return; }
    o += esc(x.text);
    return;
  }
  if( !d.elem(n) && x.kind != ref::Node::Template ) return;
  o += "<" + x.tag;
  for(const auto& a : x.attrs)
  {
    o += " " + a.qname + "=\"";
    for(char c : a.value) if( c == '&' ) o += "&amp;"; else if( c == '"' ) o += "&quot;"; else o += c;
    o += "\"";
  }
  o += ">";
  if( x.ns == GUMBO_NAMESPACE_HTML && voids.count(x.tag) ) return;
  // the parser ignores the first newline in these
  if( x.ns == GUMBO_NAMESPACE_HTML && (x.tag == "pre" || x.tag == "textarea" || x.tag == "listing")
      && !x.kids.empty() && is_text(d.at(x.kids[0])) && d.at(x.kids[0]).text[0] == '\n' ) o += '\n';
  for(int k : x.kids) spec_serialize(d, k, o);
  o += "</" + x.tag + ">";
}

// structure of the content of a node; adjacent text counts as one
void canon(const ref::Doc& d, const std::vector<int>& kids, std::string& o)
{
  std::string text;
  auto flush = [&] { if( !text.empty() ) { o += "T" + std::to_string(text.size()) + ":" + text; text.clear(); } };
  for(int k : kids)
  {
    const auto& x = d.at(k);
    if( is_text(x) ) { text += x.text; continue; }
    flush();
    if( x.kind == ref::Node::Comment ) { o += "C" + std::to_string(x.text.size()) + ":" + x.text; continue; }
    o += (d.elem(k) ? "E" : x.kind == ref::Node::Template ? "P" : "?") + std::to_string(x.ns) + x.tag;
    auto as = x.attrs;
    for(const auto& a : as) o += "[" + a.name + "|" + a.qname + "=" + std::to_string(a.value.size()) + ":" + a.value + "]";
    o += "(";
    canon(d, x.kids, o);
    o += ")";
  }
  flush();
}

int find_r(const ref::Doc& d)
{
  for(std::size_t n = 0; n < d.nodes.size(); ++n)
    if( d.elem(int(n)) )
      for(const auto& a : d.nodes[n].attrs) if( a.name == "id" && a.value == "r" ) return int(n);
  return -1;
}

struct Ctn { std::string open, close; };
const std::vector<Ctn> kCtn = {{"<div id=r>", "</div>"}, {"<table><tbody id=r>", "</tbody></table>"}, {"<svg id=r>", "</svg>"}, {"<x-y id=r>", "</x-y>"}};

Space html_space(const std::string& name, std::vector<std::string> bodies, std::vector<int> ctns, std::uint64_t block = 128)
{
  auto v = std::make_shared<std::vector<std::string>>(std::move(bodies));
  const std::uint64_t n = v->size() * ctns.size();
  auto make = [=](std::uint64_t i, const std::string * body) {
    const auto& k = kCtn[std::size_t(ctns[i % ctns.size()])];
    return kHead + k.open + (body ? *body : (*v)[i / ctns.size()]) + k.close + kTail;
  };
  Space s;
  s.name = name;
  s.n = (n + block - 1) / block;
  s.run = [=](Ctx& c, std::uint64_t o) {
    auto rule = hext::ParseHext("<* id=\"r\" @inner-html:k/>");
    for(std::uint64_t i = 0; i < block && o * block + i < n && !c.stopped(); ++i)
    {
      if( !c.want(i) ) continue;
      auto idx = o * block + i;
      Page p(make(idx, nullptr));
      int r = find_r(*p.doc);
      if( r < 0 ) continue;
      std::string tree, spec;
      canon(*p.doc, p.doc->at(r).kids, tree);
      for(int k : p.doc->at(r).kids) spec_serialize(*p.doc, k, spec);
      auto got = run(rule, p);
      c.validated();
      if( got.size() != 1 || got[0].size() != 1 ) { c.fail("document " + show(p.src) + "\nexpected one value, got " + str(got)); continue; }
      auto reparse = [&](const std::string& body) {
        Page q(make(idx, &body));
        int x = find_r(*q.doc);
        std::string t;
        if( x >= 0 ) canon(*q.doc, q.doc->at(x).kids, t); else t = "-";
        return t;
      };
      // markup that no serialization can represent is skipped
      if( reparse(spec) != tree ) { c.add(1); continue; }
      c.add(0);
      c.nontrivial(fnv(p.src));
      c.outcome(fnv(tree));
      const auto& value = got[0][0].second;
      if( c.want_sample() ) c.sample(show(p.src) + " -> " + show(value));
      auto back = reparse(value);
      if( back != tree )
        c.fail("document " + show(p.src) + "\n@inner-html " + show(value) + "\nthat is parsed as " + show(back) + "\nbut the content is  " + show(tree)
               + "\nfor instance " + show(spec));
    }
  };
  s.describe = [=](std::uint64_t o, std::uint64_t i) { return show(make(o * block + i, nullptr)); };
  return s;
}

} // namespace

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  const bool deep = o.tier == "thorough";
  std::vector<Space> sp;
  const auto& P = o.property;
  std::vector<std::string> counters;
  if( P == "C11" )
  {
    counters = {"values_compared"};
    sp.push_back(pipes("pipes", deep ? 3 : 2, "abB ", deep ? 5 : 5, true));
    sp.push_back(pipes("pipes3", 3, "abB ", deep ? 4 : 3, false));
    sp.push_back(pipes("null bytes", deep ? 3 : 2, "ab ", deep ? 4 : 3, true, true));
    sp.push_back(pipes("bytes", 1, "a\t\n\xc3\xa4\"&<", 4, true));
    sp.push_back(characters("characters"));
    sp.push_back(lines("lines", deep ? 4 : 3, deep ? 7 : 6));
    sp.push_back(capture_lists("lists", deep ? 4 : 3));
    sp.push_back(capture_lists("lists of any node", deep ? 4 : 3, true));
    std::vector<std::uint64_t> ns;
    for(int n = 1; n <= (deep ? 1200 : 500); ++n) ns.push_back(std::uint64_t(n));
    sp.push_back(long_values("sizes", ns));
    sp.push_back(long_values("powers", powers(9, 17)));
  }
  else if( P == "C12" )
  {
    counters = {"nodes_compared"};
    std::vector<std::string> tags;
    for(const auto& t : all_tag_names())
      if( t != "template" )
        for(const char * f : {"a%b$c", "a %b$ c", "<i>a%</i>b$c", "%$%a$", "a<b>%b$</b>c", "a%<i>x</i>$c", "a<!--x-->%<!--y-->$b", "a<svg>b%c$d</svg>e", "<table>a%b$c</table>d"})
        {
          std::string x = f;
          for(std::size_t k; (k = x.find('%')) != std::string::npos; ) x.replace(k, 1, "<" + t + ">");
          for(std::size_t k; (k = x.find('$')) != std::string::npos; ) x.replace(k, 1, "</" + t + ">");
          tags.push_back(x);
        }
    sp.push_back(text_list("tags", tags));
    Pieces ps;
    ps.leaves = {"a", " ", "b ", "\n", "<br>", "&nbsp;"};
    ps.elements = {{"<b>", "</b>"}, {"<div>", "</div>"}, {"<x-y>", "</x-y>"}};
    sp.push_back(text_list("pieces", compositions(ps, deep ? 6 : 5)));
    Pieces q;
    q.leaves = {"a", "\t\f", "\r\n", "<!--c-->", "&#9;", "&#x20;", "&lt;b&gt;", "\xe2\x82\xac", "&nbsp;"};
    q.elements = {{"<i>", "</i>"}, {"<p>", "</p>"}, {"<script>", "</script>"}};
    sp.push_back(text_list("whitespace", compositions(q, deep ? 5 : 4)));
    // foreign content with CDATA sections, and templates (whose content is no
    // part of the document)
    Pieces f;
    f.leaves = {"a", " ", "<![CDATA[b]]>", "<![CDATA[ ]]>", "<!--c-->", "<![CDATA[<i>]]>"};
    f.elements = {{"<g>", "</g>"}, {"<desc><template>", "</template></desc>"}, {"<x-y>", "</x-y>"}};
    auto fs = compositions(f, deep ? 5 : 4);
    for(auto& x : fs) x = "<svg>" + x + "</svg>z";
    sp.push_back(text_list("foreign", fs));
    // all bytes as text
    std::vector<std::string> bytes;
    for(int b = 1; b < 256; ++b) if( b != '<' ) { std::string s(1, char(b)); bytes.push_back("x" + s + "y"); bytes.push_back(s + s + "x" + s); bytes.push_back("<i>" + s + "</i>" + s + "<p>" + s + "z" + s); }
    sp.push_back(text_list("bytes", bytes));
    std::vector<std::string> longs;
    for(int n = 1; n <= (deep ? 300 : 150); ++n)
    {
      std::string a, b, c, d;
      for(int k = 0; k < n; ++k) { a += k % 3 ? " " : "w"; b += "<i>"; c += k % 2 ? "<b>x</b>" : "<p>y</p>"; d += " "; }
      longs.push_back(a); longs.push_back(b + "x"); longs.push_back(c); longs.push_back("x" + d + "y" + d);
    }
    sp.push_back(text_list("sizes", longs));
    std::vector<std::string> big;
    for(auto n : powers(8, 17))
    {
      auto t = [&](std::uint64_t k, std::string x) { std::string o; for(std::uint64_t i = 0; i < k; ++i) o += x; return o; };
      big.push_back(t(n, "w")); big.push_back("x" + t(n, " ") + "y"); big.push_back(t(n / 2, "w ") + "x"); big.push_back(t(n, "<br>") + "x");
      big.push_back("a " + t(n - 1, "w") + " b"); big.push_back(t(n - 1, "\n") + "b<i> c</i>"); big.push_back(t(n / 4, "<p>x</p>")); big.push_back("&nbsp;" + t(n / 2, "&nbsp; ") + "z");
      if( n <= 1025 ) { big.push_back(t(n, "<span>") + "x"); big.push_back("y" + t(n, "<div>") + "x"); big.push_back(t(n, "<section>a<span>b</span>") + "x"); }
    }
    sp.push_back(text_space("powers", big.size(), [big](std::uint64_t i) { return kHead + "<div id=r>" + big[i] + "</div>" + kTail; }, 1));
  }
  else if( P == "C13" )
  {
    counters = {"reparsed", "not_representable"};
    std::vector<std::string> tags;
    for(const auto& t : all_tag_names())
        for(const char * f : {"<%>b</%>", "a<%></%>c", "<% a=\"x&amp;'&quot;\">", "<%>a&lt;b&amp;amp;c&gt;</%>d", "<i><% b></i>", "<%><!--c--><i>x</i></%>", "<%>\n</%>", "<%>\n\nb<i>\n</i></%>", "<% a='' b=c D-e=\"&lt;\">&nbsp;</%><b>z</b>"})
        {
          std::string x = f;
          for(std::size_t k; (k = x.find('%')) != std::string::npos; ) x.replace(k, 1, t);
          tags.push_back(x);
        }
    sp.push_back(html_space("tags", tags, {0, 1, 2, 3}));
    Pieces ps;
    ps.leaves = {"a", "&lt;", "&amp;amp;", " ", "<br>", "<!-- > -->", "&quot;'"};
    ps.elements = {{"<b x=\"&amp;quot;&quot;\">", "</b>"}, {"<div y='<>&lt;'>", "</div>"}, {"<x-y z>", "</x-y>"}, {"<style>", "</style>"}, {"<textarea>", "</textarea>"}};
    sp.push_back(html_space("pieces", compositions(ps, deep ? 5 : 4), {0}));
    Pieces t;
    t.leaves = {"x", "&gt;", "<img src=\"a&b\">"};
    t.elements = {{"<tr>", "</tr>"}, {"<td c=1>", "</td>"}, {"<svg xlink:href=\"#a\" viewBox='0'>", "</svg>"}, {"<b>", "</b>"}, {"<script>", "</script>"}};
    sp.push_back(html_space("structures", compositions(t, deep ? 5 : 4), {0, 1}));
    Pieces nl;
    nl.leaves = {"x", "\n", "&#10;", " ", "<!--\n-->"};
    nl.elements = {{"<pre>", "</pre>"}, {"<textarea a=b>", "</textarea>"}, {"<listing>", "</listing>"}, {"<template>", "</template>"}, {"<i>", "</i>"}};
    sp.push_back(html_space("newlines", compositions(nl, deep ? 5 : 4), {0, 3}));
    Pieces cd;
    cd.leaves = {"x", "<![CDATA[&lt;<b>]]>", "<![CDATA[ ]]>", "&amp;", "<!--c-->"};
    cd.elements = {{"<g>", "</g>"}, {"<style>", "</style>"}, {"<title><template>", "</template></title>"}, {"<pre>", "</pre>"}};
    sp.push_back(html_space("sections", compositions(cd, deep ? 5 : 4), {0, 2}));
    // comments of all kinds: short ones, all that begin with two characters,
    // those that some program gives a meaning
    std::vector<std::string> comments;
    {
      std::vector<std::string> w{""};
      for(std::size_t b = 0, len = 0; len < (deep ? 5 : 4); ++len)
        for(std::size_t e = w.size(); b < e; ++b) for(char ch : std::string("-!>< a[")) w.push_back(w[b] + ch);
      for(const auto& x : w) comments.push_back("a<!--" + x + "-->b<i></i>");
    }
    for(int a = 32; a < 127; ++a) for(int b = 32; b < 127; ++b) comments.push_back(std::string("<!--") + char(a) + char(b) + "x-->y");
    for(const char * x : {"[if IE]><b>x</b><![endif]", "[if lt IE 9]>", "[if !mso]><!-- ", "<![endif]", "[endif]", "[CDATA[x]]", "?php echo 1; ?", "?xml version='1.0'?", "#include file=x", "#echo", "esi <x>", "ko if: x", "/ko",
                          "googleoff: all", "google_ad_section_start", "noindex", "/noindex", "more", "nextpage", "wp:paragraph", "/wp:paragraph", "@license x", "! kept", "*", "//", "$x", "{{x}}", "<% x %>", "<style>", "<script>", "</script>",
                          "--", "->", ">", "--!", "<!--", "DOCTYPE html", "html", "sourceMappingURL=x", "\n", "\n\n", "\t", "&lt;", "&amp;", "&", "\"", "'", "htmlmin:ignore", "build:js", "endbuild", "react-text: 1", "/react-text", "v-if", "_ngcontent-c0", "?"})
      for(const char * f : {"<!--%-->", "a<!--%-->b", "<!-- % --><p>x", "<!--%--><!--%--> ", "<script></script><!--%-->", "<p><!--%--></p>"})
      {
        std::string y = f;
        for(std::size_t k = 0; (k = y.find('%', k)) != std::string::npos; k += std::strlen(x)) y.replace(k, 1, x);
        comments.push_back(y);
      }
    sp.push_back(html_space("comments", comments, {0, 1, 2, 3}));
    // attributes: every character in names, the names that HTML knows, names
    // with a meaning for some program, each with several values
    std::vector<std::string> attrs;
    for(int b = 1; b < 256; ++b)
      if( !std::strchr("\t\n\f\r />", b) )
        for(const std::string& a : {std::string(1, char(b)), std::string("x") + char(b), std::string("x") + char(b) + "y", std::string("xml") + char(b) + "lang"})
        {
          if( b != '=' ) attrs.push_back("<i " + a + ">x</i>");
          attrs.push_back("<b z " + a + "=\"v\" y=2></b>");
        }
    for(const char * a : {"abbr", "accept", "accesskey", "action", "align", "allow", "alt", "aria-label", "async", "autocomplete", "autofocus", "autoplay", "bgcolor", "border", "charset", "checked", "cite", "class", "color", "cols", "colspan",
                          "content", "contenteditable", "controls", "coords", "crossorigin", "data", "data-x", "data-", "datetime", "default", "defer", "dir", "dirname", "disabled", "download", "draggable", "enctype", "for", "form", "formaction", "headers",
                          "height", "hidden", "high", "href", "hreflang", "http-equiv", "id", "integrity", "is", "ismap", "itemid", "itemprop", "itemref", "itemscope", "itemtype", "kind", "label", "lang", "list", "loop", "low", "max", "maxlength", "media",
                          "method", "min", "multiple", "muted", "name", "nonce", "novalidate", "onclick", "onerror", "onload", "open", "optimum", "pattern", "ping", "placeholder", "poster", "preload", "readonly", "referrerpolicy", "rel", "required",
                          "reversed", "role", "rows", "rowspan", "sandbox", "scope", "selected", "shape", "size", "sizes", "slot", "span", "spellcheck", "src", "srcdoc", "srclang", "srcset", "start", "step", "style", "summary", "tabindex", "target", "text",
                          "title", "translate", "type", "usemap", "value", "width", "wrap", "xml:lang", "xmlns", "xmlns:x", "xlink:href", "ng-app", "v-if", "v-on:click", "@click", ":href", "#ref", "[prop]", "(event)", "*ngif", "hx-get", "x-data", "_", "-", "1"})
      for(const char * v : {"", "=''", "=1", "=\"a b\"", "=javascript:x", "=\"&lt;&quot;'\"", "='\"'", "=true", "=http://x/?a&amp;b=c", "=\" \"", "=\"\n\""})
      {
        attrs.push_back(std::string("<i ") + a + v + ">x</i>y");
        attrs.push_back(std::string("<img z=1 ") + a + v + " x=2>");
      }
    sp.push_back(html_space("attributes", attrs, {0, 3}));
    // foreign content: attributes with a prefix, names with capitals
    const std::vector<std::string> fa = {"xmlns=\"http://www.w3.org/2000/svg\"", "xmlns:xlink=\"http://www.w3.org/1999/xlink\"", "xlink:actuate=a", "xlink:arcrole=a", "xlink:href=\"a&amp;b\"",
      "xlink:role=a", "xlink:show=a", "xlink:title=\"&quot;\"", "xlink:type=a", "xml:base=a", "xml:lang=a", "xml:space=a", "viewBox='0'", "definitionurl=a", "xml:x=a", "xlink:x=a", "xmlns:x=a",
      "XLINK:HREF=A", "preserveaspectratio=a", "href=a", "lang=a"};
    const std::vector<std::string> fe = {"svg", "math", "g", "foreignObject", "linearGradient", "clipPath", "textPath", "mi", "mtext", "annotation-xml", "desc", "title", "a", "x-y", "script", "style", "image"};
    std::vector<std::string> foreign;
    for(const auto& a : fa) for(const auto& b : fa) for(const char * e : {"svg", "math"})
      foreign.push_back(std::string("<") + e + " " + a + " " + b + ">x</" + e + ">");
    for(const auto& e : fe) for(const auto& g : fe) for(const auto& a : fa)
    {
      foreign.push_back("<svg><" + e + " " + a + "><" + g + " " + a + ">a&lt;</" + g + ">b</" + e + ">c</svg>d");
      foreign.push_back("<math><" + e + " " + a + "><" + g + ">a&amp;</" + g + ">b</" + e + ">c</math>d");
    }
    sp.push_back(html_space("foreign", foreign, {0, 2}));
    // all bytes in text, attributes, comments
    std::vector<std::string> bytes;
    for(int b = 1; b < 256; ++b)
    {
      std::string s(1, char(b));
      std::string e = b == '<' ? "&lt;" : b == '&' ? "&amp;" : b == '"' ? "&quot;" : s;
      bytes.push_back("x" + e + "y");
      bytes.push_back("<i a=\"x" + e + "y\">" + e + "</i>");
      bytes.push_back("<!--x" + s + "y-->");
      bytes.push_back("<script>x" + s + "y</script><xmp>" + s + "</xmp>");
      char num[16]; std::snprintf(num, sizeof num, "&#%d;", b);
      bytes.push_back("<i a=\"" + std::string(num) + "\">" + num + "</i>");
    }
    // all pairs of special text
    const std::vector<std::string> sp2 = {"&", "<", ">", "\"", "'", "a", ";", "amp;", "lt;", "#38;", " ", "=", "/", "-", "!"};
    for(const auto& a : sp2) for(const auto& b : sp2) for(const auto& c : sp2)
    {
      auto e = esc(a + b + c);
      bytes.push_back(e);
      bytes.push_back("<i a=\"" + e + "\">" + e + "</i>");
    }
    sp.push_back(html_space("characters", bytes, {0, 3}));
    std::vector<std::string> longs;
    for(int n = 1; n <= (deep ? 300 : 150); ++n)
    {
      std::string a, b, c, d = "<i";
      for(int k = 0; k < n; ++k) { a += k % 3 ? "&lt;" : "w"; b += "<span>"; c += k % 2 ? "<b>x</b>" : "<p>&amp;</p>"; d += " a" + std::to_string(k) + "=\"" + std::string(std::size_t(k), '&') + "\""; }
      longs.push_back(a); longs.push_back(b + "x"); longs.push_back(c); longs.push_back(d + ">");
    }
    sp.push_back(html_space("sizes", longs, {0}));
    std::vector<std::string> big;
    for(auto n : powers(8, 17))
    {
      auto t = [&](std::uint64_t k, std::string x) { std::string o; for(std::uint64_t i = 0; i < k; ++i) o += x; return o; };
      big.push_back(t(n, "w")); big.push_back(t(n - 1, "w") + "&lt;x&amp;"); big.push_back(t(n / 4, "&amp;") + "x"); big.push_back(t(n / 4, "<i></i>"));
      big.push_back("<i a=\"" + t(n, "v") + "\">x</i>"); big.push_back("<i a=\"" + t(n - 1, "v") + "&quot;&amp;\">x</i>"); big.push_back("<!--" + t(n, "c") + "-->z");
      big.push_back("<script>" + t(n - 1, "<") + "&</script>"); big.push_back("<z" + t(n - 1, "q") + " b>x</z" + t(n - 1, "q") + ">"); big.push_back("<i z" + t(n - 1, "q") + "=1>x</i>");
      if( n <= 4097 ) { big.push_back(t(n, "<span>") + "x"); big.push_back("y" + t(n, "<div a=b>") + "x"); big.push_back(t(n, "<section>a<span>b</span>") + "x"); }
    }
    sp.push_back(html_space("powers", big, {0}, 1));
  }
  else return 4;
  return main_(o, std::move(sp), counters);
}
