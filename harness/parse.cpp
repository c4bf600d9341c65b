// C14-C16: the parser against a reference of the language: conformance with the
// lexical automaton (every state x every byte x distinguishing suffixes), with
// the pushdown of tags and nested rules, and with the meaning of patterns.
#include <algorithm>
#include <cstring>
#include "vf.hpp"
#include "hextlang.hpp"
#include "tags.hpp"
#include <hext/Hext.h>

using namespace vf;

namespace {

std::string property;

struct Got { bool ok = false; hext::Rule rule; std::string msg, other; };

Got parse(const std::string& t)
{
  Got g;
  // exactly sized, so that reading beyond the end is visible to sanitizers
  std::vector<char> buf(t.begin(), t.end());
  static const char empty = 0;
  const char * p = buf.empty() ? &empty : buf.data();
  try { g.rule = hext::ParseHext(p, buf.size()); g.ok = true; }
  catch( const hext::SyntaxError& e ) { g.msg = e.what(); }
  catch( const std::exception& e ) { g.other = std::string("an exception that is not a SyntaxError: ") + e.what(); }
  catch( ... ) { g.other = "an exception that is not a SyntaxError"; }
  return g;
}

std::string tag_of(const hext::Rule& r)
{
  if( auto n = r.get_tagname() ) return *n;
  switch( r.get_tag() )
  {
    case hext::HtmlTag::ANY: return "*";
#define X(n) case hext::HtmlTag::n: { std::string s = #n; for(char& c : s) c = c == '_' ? '-' : char(std::tolower(c)); return s; }
    VF_TAGS(X)
#undef X
    default: return "?";
  }
}

std::string str(const hext::Rule& r)
{
  std::string o = "<";
  if( r.is_optional() ) o += "?";
  if( r.is_greedy() ) o += "+";
  o += tag_of(r) + ">";
  if( r.child() ) o += str(*r.child());
  for(const auto& n : r.nested() ) o += "{" + str(n) + "}";
  o += "</>";
  if( r.next() ) o += str(*r.next());
  return o;
}

std::string str(const std::vector<lang::Rule>& v)
{
  std::string o;
  for(const auto& r : v)
  {
    o += "<";
    if( r.optional ) o += "?";
    if( r.greedy ) o += "+";
    o += r.tag + ">" + str(r.kids);
    for(const auto& n : r.nested) o += "{" + str(n) + "}";
    o += "</>";
  }
  return o;
}

// C14: verdict, C16: message, C15: structure
void judge(Ctx& c, const std::string& t)
{
  auto v = lang::read(t);
  auto g = parse(t);
  if( property == "C14" )
  {
    if( !g.other.empty() ) return c.fail("ParseHext(\"" + show(t) + "\") threw " + g.other);
    if( g.ok != v.ok )
      return c.fail("ParseHext(\"" + show(t) + "\") " + (g.ok ? "accepts the text, but it is invalid:\n" + v.msgs[0] : "rejects valid text:\n" + g.msg));
  }
  else if( property == "C16" )
  {
    if( g.ok || v.ok || !g.other.empty() ) { if( !v.ok ) c.fail("no SyntaxError for \"" + show(t) + "\", expected:\n" + v.msgs[0]); return; }
    // what() is a C string: a null byte in the text ends it
    for(auto& m : v.msgs) m = m.c_str();
    if( std::find(v.msgs.begin(), v.msgs.end(), g.msg) == v.msgs.end() )
      return c.fail("wrong message for \"" + show(t) + "\":\n" + g.msg + "\n-- expected:\n" + v.msgs[0]);
  }
  else if( v.ok )
  {
    if( !g.ok ) return c.fail("valid text \"" + show(t) + "\" rejected: " + g.msg + g.other);
    auto a = str(g.rule), b = v.chain.empty() ? std::string("<*></>") : str(v.chain);
    if( a != b ) return c.fail("ParseHext(\"" + show(t) + "\") returns " + a + ", expected " + b);
  }
  bool nt = property == "C14" ? true : property == "C16" ? !v.ok : v.ok;
  if( nt ) { c.nontrivial(fnv(t)); c.validated(); }
  c.outcome(fnv(v.ok ? "ok " + str(v.chain) : v.msgs[0]));
  if( c.want_sample() ) c.sample("\"" + show(t) + "\" -> " + (v.ok ? "valid: " + str(v.chain) : v.msgs[0]));
}

const std::vector<std::pair<std::string, std::string>>& contexts()
{
  static const std::vector<std::pair<std::string, std::string>> v = {
    {"", ""}, {"<a>", "</a>"}, {"<a>", ""}, {"<a>{", "}</a>"}, {"<a>{<b/>", "</a>"}, {"<x-y>\n{", "}\n</x-y>"}};
  return v;
}

const std::vector<std::string>& access()
{
  static const std::vector<std::string> v = [] {
    std::vector<std::string> r;
    auto& d = lang::dfa();
    for(int s = 0; s < int(d.states().size()); ++s) r.push_back(*d.shortest(0, [&](int x) { return x == s; }));
    return r;
  }();
  return v;
}

const std::vector<std::string>& completions()
{
  static const std::vector<std::string> v = [] {
    std::vector<std::string> r;
    auto& d = lang::dfa();
    for(int s = 0; s < int(d.states().size()); ++s) r.push_back(*d.shortest(s, [&](int x) { return d.states()[std::size_t(x)].accept; }));
    return r;
  }();
  return v;
}

// suffixes that tell the states of the automaton apart: for every state the
// text that completes it, and every byte
const std::vector<std::string>& suffixes()
{
  static const std::vector<std::string> v = [] {
    std::set<std::string> r(completions().begin(), completions().end());
    return std::vector<std::string>(r.begin(), r.end());
  }();
  return v;
}

void automaton(std::vector<Space>& sp)
{
  auto& d = lang::dfa();
  std::uint64_t n = d.states().size();
  sp.push_back({"every state x every byte", n, [&d](Ctx& c, std::uint64_t s) {
    std::uint64_t i = 0;
    auto& st = d.states()[s];
    std::set<int> seen;
    if( c.want(i) ) { c.model(1, 0); judge(c, access()[s]); }
    ++i;
    for(int b = 0; b < 256; ++b)
    {
      int t = st.to[std::size_t(b)];
      std::string text = access()[s] + char(b);
      if( c.want(i) ) { c.model(0, 1); judge(c, text); }
      ++i;
      if( t < 0 )
      {
        // whatever follows, the place of the error is the same
        if( c.want(i) ) { c.model(0, 1); judge(c, text + "<a/>"); }
        ++i;
        continue;
      }
      bool rep = seen.insert(t).second;
      for(auto& x : contexts())
      {
        if( c.want(i) ) { c.model(0, 1); judge(c, x.first + text + completions()[std::size_t(t)] + x.second); }
        ++i;
        if( !rep && !x.first.empty() ) continue;
      }
    }
  }, {}});
  sp.push_back({"every transition x distinguishing suffixes", n, [&d](Ctx& c, std::uint64_t s) {
    std::uint64_t i = 0;
    auto& st = d.states()[s];
    std::map<int, std::pair<int, int>> reps;
    for(int b = 0; b < 256; ++b)
      if( int t = st.to[std::size_t(b)]; t >= 0 ) { auto it = reps.emplace(t, std::make_pair(b, b)).first; it->second.second = b; }
    for(auto& [t, bs] : reps)
      for(int b : {bs.first, bs.second})
      {
        for(auto& w : suffixes())
        {
          if( c.want(i) ) { c.model(0, 1); judge(c, access()[s] + char(b) + w); }
          ++i;
        }
        if( bs.first == bs.second ) break;
      }
  }, {}});
}

// all sequences of tokens, as a tree of prefixes
Space sequences(const std::string& name, std::vector<std::string> tokens, int len, const std::string& pre = "", const std::string& post = "")
{
  std::uint64_t k = tokens.size(), n = k * k;
  return {name, n, [=](Ctx& c, std::uint64_t o) {
    std::uint64_t i = 0;
    std::function<void(const std::string&, int)> rec = [&](const std::string& t, int left) {
      if( c.stopped() ) return;
      if( c.want(i) ) { c.model(1, 1); judge(c, pre + t + post); }
      ++i;
      if( left ) for(auto& x : tokens) rec(t + x, left - 1);
    };
    if( o == 0 && c.want(i) ) judge(c, pre + post);
    ++i;
    if( o % k == 0 && c.want(i) ) judge(c, pre + tokens[o / k] + post);
    ++i;
    rec(tokens[o / k] + tokens[o % k], len - 2);
  }, {}};
}

Space list(const std::string& name, std::vector<std::string> texts, std::size_t block = 100)
{
  std::uint64_t n = (texts.size() + block - 1) / block;
  return {name, n, [block, texts = std::move(texts)](Ctx& c, std::uint64_t o) {
    for(std::size_t i = o * block; i < std::min<std::size_t>(texts.size(), o * block + block); ++i)
      if( c.want(i) ) { c.model(1, 1); judge(c, texts[i]); }
  }, {}};
}

std::vector<std::string> corpus()
{
  return {
    "<div id=\"x\" class='a b'!><a href:link?/>{<+b @text:trim:t/>}</div><?x-y:nth-child(-2n+1)/>",
    "# comment <a\n<*:not(:empty:only-child) @inner-html=~/a\\/b/ic! x^='y' z$=\"\" />",
    "<ul>\n  <li:first-child @text:prepend('<'):append(\">\"):filter(/(a)/i):\"na me\" />\n  <li:type-matches('h[1-6]'i)/>\n</ul>\n",
    "<a x:replace(/a/ , 'b'):toupper:tolower:collapsews:trim(\" \\\"\"):v.a-r_1?><b/>{<c/>}{<d><e/></d>}</a>",
    "<p:child-count(3):attribute-count(0):nth-last-of-type(even):nth-of-type(2n-3):last-child x==\"\"! y*=\"=\" z! @strip-tags:s>#\n</P>",
    "\xc3\xa4<a/>", "<a x=\"\xc3\xa4\"/>\n<b",
  };
}

// every single byte change, insertion, removal and truncation
Space mutations(bool all)
{
  auto texts = corpus();
  std::vector<std::pair<std::size_t, std::size_t>> idx;
  for(std::size_t t = 0; t < texts.size(); ++t) for(std::size_t p = 0; p <= texts[t].size(); ++p) idx.push_back({t, p});
  return {"single byte changes of long texts", idx.size(), [=](Ctx& c, std::uint64_t o) {
    auto& t = texts[idx[o].first];
    auto p = idx[o].second;
    std::uint64_t i = 0;
    auto go = [&](const std::string& s) { if( c.want(i) ) { c.model(1, 1); judge(c, s); } ++i; };
    go(t.substr(0, p));
    go(t.substr(p));
    for(std::size_t n = 1; n <= 12 && p + n <= t.size(); ++n) go(t.substr(0, p) + t.substr(p + n));
    for(std::size_t n = 1; n <= 12 && p + n <= t.size(); ++n) go(t.substr(0, p + n) + t.substr(p));
    for(int b = 0; b < 256; b += 1)
    {
      if( !all && b >= 0x80 && b % 16 ) continue;
      go(t.substr(0, p) + char(b) + t.substr(p));
      if( p < t.size() ) go(t.substr(0, p) + char(b) + t.substr(p + 1));
    }
  }, {}};
}

std::vector<std::string> number_texts()
{
  std::vector<std::string> nums, out;
  for(std::string d : {"0", "1", "7", "10", "007", "2147483646", "2147483647", "2147483648", "2147483649", "2147483650", "4294967295", "4294967296", "4294967297",
                       "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999999999",
                       "000000000000000000000000000000001", "00000000000002147483647", "00000000000002147483648", "2147483657"})
    nums.push_back(d);
  for(auto& n : nums)
  {
    for(std::string t : {"child-count", "attribute-count"})
      for(std::string s : {"", "-", "+", " "})
      { out.push_back("<a:" + t + "(" + s + n + ")/>"); out.push_back("<a:not(:" + t + "(" + s + n + "))/>"); out.push_back("<a:" + t + "(" + s + n + " )/>"); }
    for(std::string t : {"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"})
      for(std::string s : {"", "-", "+"})
      {
        for(std::string e : {"", "n", "n+1", "n-1", "n+", "n0", "nn", " n"}) { out.push_back("<a:" + t + "(" + s + n + e + ")/>"); out.push_back("<b>\n<a:not(:empty:" + t + "(" + s + n + e + "))/></b>"); }
        for(auto& m : nums) for(std::string p : {"+", "-"}) out.push_back("<a:" + t + "(" + s + n + "n" + p + m + ")/>");
      }
  }
  return out;
}

std::vector<std::string> words(const std::string& alphabet, int n)
{
  std::vector<std::string> out{""};
  for(std::size_t b = 0, len = 0; int(len) < n; ++len)
  {
    std::size_t e = out.size();
    for(; b < e; ++b) for(char c : alphabet) out.push_back(out[b] + c);
  }
  return out;
}

std::vector<std::string> regex_texts(int len)
{
  std::vector<std::string> out;
  for(auto& w : words("a()[]*\\{1}?|-", len))
  {
    out.push_back("<a x=~/" + w + "/c/>");
    out.push_back("<a>\n <*:not(:empty:type-matches('" + w + "')) /></a>");
    out.push_back("<a @text:trim:filter(\"" + w + "\"i):b/>");
    out.push_back("<a x:replace(/" + w + "/, '\\'')\n:b\n/>");
    if( w.size() <= 2 ) out.push_back("<a @text=~/" + w + "\n" + w + "/ic!/>");
  }
  return out;
}

std::vector<std::string> line_texts()
{
  std::vector<std::string> bad = {"!", "<a", "<a>", "</a>", "<a></b>", "<a>{", "<a>{}</a>", "}", "{", "<a>}", "<a:child-count(99999999999)/>", "<a b=~/(/ />", "<a b=~/\n(/ic />", "<a\n!", "<a\nb='", "\x80", "<a \xff", "# x", "<a/>\n!\n", "<a \t\t!", "<\n", "<a b\n=", "\xc3\xa4", "<a><*></a>", "<*></a>", "<*>", "<x-Y>", "<x-Y></x-y>", "<DIV>", "<DIV></x-y>", "<a>{<b/>", "<a>{</a>", "<a>{<b/></a>", "<a>{<b/>}</b>", "<a>{<b>}</b></a>", std::string("<a") + '\0', "<a/", "<a\r", "<a/\t>", "<a\x01>", "<a b:=>", "<a\x7f"};
  std::vector<std::string> pre = {""};
  for(int n : {1, 2, 8, 9, 10, 11, 98, 99, 100, 101, 998, 999, 1000, 9999}) { pre.push_back(std::string(std::size_t(n), '\n')); std::string s; for(int i = 0; i < n; ++i) s += "<a/>\n"; pre.push_back(s); pre.push_back(s + "    "); }
  for(std::string s : {" ", "\r\n", "\n\n \n", "<b/>", "#\n", "# text\n", "#\xc3\xbc\n", "<b/>\n<c/>  ", "\t"}) pre.push_back(s);
  std::vector<std::string> out;
  for(auto& p : pre) for(auto& b : bad) for(std::string q : {"", "\n", " ", "\n<a/>\nmore", "\xc3\xa4\n", ">"}) out.push_back(p + b + q);
  return out;
}

// lines, columns, literals, names, comments and numbers of rules next to the
// powers of two
std::vector<std::string> big_texts(int to, int rules_to)
{
  auto t = [&](std::uint64_t k, std::string x) { std::string o; for(std::uint64_t i = 0; i < k; ++i) o += x; return o; };
  std::vector<std::string> out;
  for(auto n : powers(7, to))
  {
    out.push_back(t(n, "\n") + "!");
    out.push_back(t(n - 1, "\n") + "<a></b>");
    out.push_back("\n" + t(n, " ") + "!\n<a/>");
    out.push_back(t(n, " ") + "<b><a></b>");
    out.push_back("<a>" + t(n, " ") + "</b>");
    out.push_back("<a b=\"" + t(n, "x") + "\"/>");
    out.push_back("<a b=\"" + t(n, "x") + "\" !/>");
    out.push_back("<a b=\"" + t(n, "x"));
    out.push_back("#" + t(n, "x") + "\n<a/>!");
    out.push_back("<a" + t(n, "x") + "/>");
    out.push_back("<a" + t(n, "x") + "></a" + t(n, "x") + ">");
    out.push_back("<a" + t(n, "x") + "></a" + t(n - 1, "x") + "y>");
    out.push_back("<a b:" + t(n, "x") + "/>?");
    out.push_back("<a:nth-child(" + t(n, "0") + "1)/>");
    out.push_back("<a:nth-child(" + t(n, "1") + ")/>");
    out.push_back("<a b=~/" + t(n, "x") + "/>");
    out.push_back("<a b=~/" + t(n, "x") + "(/>");
  }
  for(auto n : powers(4, rules_to))
  {
    out.push_back(t(n, "<a/>") + "!");
    out.push_back(t(n, "<a/>\n") + "</a>");
    out.push_back("<a" + t(n, " b") + "/>!");
    out.push_back("<a" + t(n, ":empty") + ":nth-child(x)/>");
    out.push_back("<a b" + t(n, ":trim") + ":x/>!");
    out.push_back("<a>" + t(n, "{<b/>}") + "{</a>");
    if( n > 300 ) continue;
    out.push_back(t(n, "<a>") + t(n, "</a>") + "!");
    out.push_back(t(n, "<a>") + t(n - 1, "</a>"));
    out.push_back(t(n, "<a>") + t(n + 1, "</a>"));
    out.push_back(t(n, "<a>{") + t(n - 1, "}</a>") + "}");
    out.push_back("<a" + t(n, ":not(:empty") + t(n, ")") + "/>!");
  }
  return out;
}

// names, lines and everything else that a message may contain, of every length
std::vector<std::string> length_texts(int to)
{
  std::vector<std::string> out;
  for(int n = 1; n <= to; ++n)
  {
    auto t = [&](const std::string& x) { std::string o; for(int i = 0; i < n; ++i) o += x; return o; };
    const std::string x = t("x");
    for(const auto& s : {"<x-" + x + ">", "<x-" + x + "></x-" + x + "y>", "<x-" + x + "></a>", "<a></x-" + x + ">", "</x-" + x + ">", "<x-" + x + ">{<a/>", "<a>{<x-" + x + "></a>}", "<x-" + x + "></X-" + x + ">",
                         "<a>\n<x-" + x + "\n>\n<b/>", "<a " + x + "!", "<a @text:" + x, "<a @" + x + "/>", "<a:" + x + "/>", "<a b:" + x + "(\"\"):c/>", "<a b=\"" + x + "\" \"\"/>", "<a b=~/" + x + "(/>", "<a b=~/" + t("(") + "/>", "<a b=~/" + t("\xc3\xa4") + "*+**/>",
                         t("\t") + "!", t(" ") + "!" + x, x + "!", t("\xc3\xa4"), "<a>" + t(" ") + "<b>", "#" + x + "!\n!", "<a/>" + t("\n") + "!", "<a/>" + t("\r\n") + "!", t("<a/>") + "!", "<a:nth-child(" + t("9") + ")/>", "<a:child-count(" + t("9") + " )/>",
                         "<" + x + "/><" + x + "></" + x + ">", "!" + t("\x01"), "\n!" + x + "\n" + x})
      out.push_back(s);
  }
  return out;
}

// ------------------------------------------------------------------ C15 ----

struct Atom { std::string text; std::function<void(hext::Rule&)> add; bool trait = false; };

using hext::Rule;
template<class T, class... A> std::unique_ptr<T> mk(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); }

boost::regex rx(const std::string& s, const std::string& flags = "")
{
  boost::regex::flag_type f = boost::regex::perl;
  for(char c : flags) f |= c == 'i' ? boost::regex::flag_type(boost::regex::icase) : boost::regex::flag_type(boost::regex::collate);
  return boost::regex(s, f);
}

std::vector<Atom> patterns()
{
  using namespace hext;
  std::vector<Atom> v;
  auto attr = [&](const std::string& text, const std::string& name, std::function<std::unique_ptr<ValueTest>()> t) {
    v.push_back({text, [=](Rule& r) { r.append_match<AttributeMatch>(name, t ? t() : nullptr); }});
  };
  auto fn = [&](const std::string& text, CaptureFunction f, std::function<std::unique_ptr<ValueTest>()> t) {
    v.push_back({text, [=](Rule& r) { r.append_match<FunctionValueMatch>(f, t()); }});
  };
  auto cap = [&](const std::string& text, const std::string& name, const std::string& as, bool optional, std::function<std::unique_ptr<StringPipe>()> p = {}) {
    v.push_back({text, [=](Rule& r) {
      r.append_capture<AttributeCapture>(name, as, p ? p() : nullptr);
      if( !optional ) r.append_match<AttributeMatch>(name);
    }});
  };
  auto fcap = [&](const std::string& text, CaptureFunction f, const std::string& as, std::function<std::unique_ptr<StringPipe>()> p = {}) {
    v.push_back({text, [=](Rule& r) { r.append_capture<FunctionCapture>(f, as, p ? p() : nullptr); }});
  };
  attr("a", "a", {});
  attr("a!", "a", [] { return mk<NegateTest>(nullptr); });
  attr("b='x'", "b", [] { return mk<ContainsWordsTest>("x"); });
  attr("b=\"y x\"!", "b", [] { return mk<NegateTest>(mk<ContainsWordsTest>("y x")); });
  attr("a==\"\"", "a", [] { return mk<EqualsTest>(""); });
  attr("b=='x y'!", "b", [] { return mk<NegateTest>(mk<EqualsTest>("x y")); });
  attr("a^='X'", "a", [] { return mk<BeginsWithTest>("X"); });
  attr("b*=\"y\"", "b", [] { return mk<ContainsTest>("y"); });
  attr("a$='X'", "a", [] { return mk<EndsWithTest>("X"); });
  attr("b$=''!", "b", [] { return mk<NegateTest>(mk<EndsWithTest>("")); });
  attr("a=~/x/i", "a", [] { return mk<RegexTest>(rx("x", "i")); });
  attr("a=~/x/", "a", [] { return mk<RegexTest>(rx("x")); });
  attr("b=~'X'c!", "b", [] { return mk<NegateTest>(mk<RegexTest>(rx("X", "c"))); });
  attr("b=~\"^Y\"ic", "b", [] { return mk<RegexTest>(rx("^Y", "ic")); });
  fn("@text='y'", TextBuiltin, [] { return mk<ContainsWordsTest>("y"); });
  fn("@text==\"x  y\"!", TextBuiltin, [] { return mk<NegateTest>(mk<EqualsTest>("x  y")); });
  fn("@strip-tags=='x  y'", StripTagsBuiltin, [] { return mk<EqualsTest>("x  y"); });
  fn("@inner-html^='<'", InnerHtmlBuiltin, [] { return mk<BeginsWithTest>("<"); });
  fn("@text=~/X/i!", TextBuiltin, [] { return mk<NegateTest>(mk<RegexTest>(rx("X", "i"))); });
  fn("@strip-tags=~/X/", StripTagsBuiltin, [] { return mk<RegexTest>(rx("X")); });
  cap("a:p", "a", "p", false);
  cap("a:p?", "a", "p", true);
  cap("b:trim", "b", "trim", true);
  v.back() = {"b:trim", [](Rule& r) { r.append_capture<AttributeCapture>("b", "trim"); r.append_match<AttributeMatch>("b"); }};
  cap("b:tolower:\"q r\"?", "b", "q r", true, [] { return mk<CasePipe>(); });
  cap("b:toupper:replace(/X/,'z'):p.-_1", "b", "p.-_1", false, [] { auto p = mk<CasePipe>(CasePipe::ToUpper); p->emplace<RegexReplacePipe>(rx("X"), "z"); return p; });
  cap("a:filter(/(x)|y/i):'p'?", "a", "p", true, [] { return mk<RegexPipe>(rx("(x)|y", "i")); });
  fcap("@text:t", TextBuiltin, "t");
  fcap("@inner-html:prepend('<'):h", InnerHtmlBuiltin, "h", [] { return mk<PrependPipe>("<"); });
  fcap("@strip-tags:collapsews:trim(\"y\"):append(''):''", StripTagsBuiltin, "", [] { auto p = mk<CollapseWsPipe>(); p->emplace<TrimPipe>("y"); p->emplace<AppendPipe>(""); return p; });
  fcap("@text:replace('X' \t,\n \"\"):filter(/x/):prepend(\"a\"):t", TextBuiltin, "t", [] { auto p = mk<RegexReplacePipe>(rx("X"), ""); p->emplace<RegexPipe>(rx("x")); p->emplace<PrependPipe>("a"); return p; });
  return v;
}

std::vector<Atom> traits()
{
  using namespace hext;
  std::vector<Atom> v;
  auto add = [&](const std::string& text, std::function<std::unique_ptr<Match>()> m) {
    v.push_back({text, [=](Rule& r) { r.append_match(m()); }, true});
  };
  using M = std::unique_ptr<Match>;
  add(":empty", []() -> M { return mk<ChildCountMatch>(0); });
  add(":child-count(2)", []() -> M { return mk<ChildCountMatch>(2); });
  add(":attribute-count(1)", []() -> M { return mk<AttributeCountMatch>(1); });
  add(":nth-child(2n+1)", []() -> M { return mk<NthChildMatch>(2, 1); });
  add(":nth-child(3)", []() -> M { return mk<NthChildMatch>(0, 3); });
  add(":nth-last-child(even)", []() -> M { return mk<NthChildMatch>(2, 0, NthChildMatch::Last); });
  add(":nth-of-type(odd)", []() -> M { return mk<NthChildMatch>(2, 1, NthChildMatch::First | NthChildMatch::OfType); });
  add(":nth-last-of-type(-1n+2)", []() -> M { return mk<NthChildMatch>(-1, 2, NthChildMatch::Last | NthChildMatch::OfType); });
  add(":first-child", []() -> M { return mk<NthChildMatch>(0, 1); });
  add(":last-child", []() -> M { return mk<NthChildMatch>(0, 1, NthChildMatch::Last); });
  add(":first-of-type", []() -> M { return mk<NthChildMatch>(0, 1, NthChildMatch::First | NthChildMatch::OfType); });
  add(":last-of-type", []() -> M { return mk<NthChildMatch>(0, 1, NthChildMatch::Last | NthChildMatch::OfType); });
  add(":only-child", []() -> M { return mk<OnlyChildMatch>(); });
  add(":only-of-type", []() -> M { return mk<OnlyChildMatch>(OnlyChildMatch::OfType); });
  add(":type-matches(/^[IB]$/i)", []() -> M { return mk<TypeRegexMatch>(rx("^[IB]$", "i")); });
  add(":type-matches('I')", []() -> M { return mk<TypeRegexMatch>(rx("I")); });
  std::size_t n = v.size();
  for(std::size_t i = 0; i < n; ++i)
  {
    auto a = v[i];
    v.push_back({":not(" + a.text + ")", [=](Rule& r) { Rule tmp; auto m = mk<NegateMatch>();
      // the same trait, inside of a negation
      static_cast<void>(tmp);
      switch( i )
      {
        case 0: m->append_match(mk<ChildCountMatch>(0)); break;
        case 1: m->append_match(mk<ChildCountMatch>(2)); break;
        case 2: m->append_match(mk<AttributeCountMatch>(1)); break;
        case 3: m->append_match(mk<NthChildMatch>(2, 1)); break;
        case 4: m->append_match(mk<NthChildMatch>(0, 3)); break;
        case 5: m->append_match(mk<NthChildMatch>(2, 0, NthChildMatch::Last)); break;
        case 6: m->append_match(mk<NthChildMatch>(2, 1, NthChildMatch::First | NthChildMatch::OfType)); break;
        case 7: m->append_match(mk<NthChildMatch>(-1, 2, NthChildMatch::Last | NthChildMatch::OfType)); break;
        case 8: m->append_match(mk<NthChildMatch>(0, 1)); break;
        case 9: m->append_match(mk<NthChildMatch>(0, 1, NthChildMatch::Last)); break;
        case 10: m->append_match(mk<NthChildMatch>(0, 1, NthChildMatch::First | NthChildMatch::OfType)); break;
        case 11: m->append_match(mk<NthChildMatch>(0, 1, NthChildMatch::Last | NthChildMatch::OfType)); break;
        case 12: m->append_match(mk<OnlyChildMatch>()); break;
        case 13: m->append_match(mk<OnlyChildMatch>(OnlyChildMatch::OfType)); break;
        case 14: m->append_match(mk<TypeRegexMatch>(rx("^[IB]$", "i"))); break;
        default: m->append_match(mk<TypeRegexMatch>(rx("I"))); break;
      }
      r.append_match(std::move(m)); }, true});
  }
  v.push_back({":not(:empty:first-child)", [](Rule& r) { auto m = mk<NegateMatch>(); m->append_match(mk<ChildCountMatch>(0)); m->append_match(mk<NthChildMatch>(0, 1)); r.append_match(std::move(m)); }, true});
  return v;
}

struct Probe
{
  std::string src;
  std::unique_ptr<hext::Html> html;
  std::vector<const GumboNode *> nodes;
  void add(const GumboNode * n)
  {
    nodes.push_back(n);
    if( n->type == GUMBO_NODE_ELEMENT ) for(unsigned i = 0; i < n->v.element.children.length; ++i) add(static_cast<const GumboNode *>(n->v.element.children.data[i]));
  }
  explicit Probe(std::string s) : src(std::move(s))
  {
    html = std::make_unique<hext::Html>(src.c_str(), src.size());
    add(html->root());
  }
};

const Probe& probe()
{
  static const Probe p(
    "<!DOCTYPE html><html><head></head><body>"
    "<i a='x' b='x'>x  y</i><i a='X' b='Y x'><b></b>X</i><u a=''></u>t<b b=' '> X y </b>"
    "<i b='x y'><u a='Xx' b='y'><i></i><b></b></u></i><x-y b='' a='yX'>y</x-y><i a='x y' b='X'></i>"
    "<ul><li a>x</li></ul></body></html>");
  return p;
}

std::string signature(const hext::Rule& r, const hext::Rule& want, const std::string& where, std::uint64_t& out)
{
  for(std::size_t i = 0; i < probe().nodes.size(); ++i)
  {
    auto n = probe().nodes[i];
    bool a = r.matches(n), b = want.matches(n);
    out = out * 31 + b;
    if( a != b ) return where + ": node " + std::to_string(i) + (b ? " should match, but does not" : " matches, but should not");
    auto x = r.capture(n), y = want.capture(n);
    for(auto& kv : y) out = out * 31 + fnv(kv.first + "=" + kv.second);
    if( x != y )
    {
      std::string s = where + ": node " + std::to_string(i) + " captures";
      for(auto& kv : x) s += " " + show(kv.first) + "=\"" + show(kv.second) + "\"";
      s += ", expected";
      for(auto& kv : y) s += " " + show(kv.first) + "=\"" + show(kv.second) + "\"";
      return s;
    }
  }
  if( r.is_optional() != want.is_optional() || r.is_greedy() != want.is_greedy() || tag_of(r) != tag_of(want) )
    return where + ": wrong flags or tag";
  if( !r.child() != !want.child() || !r.next() != !want.next() || r.nested().size() != want.nested().size() )
    return where + ": wrong structure";
  std::string e;
  if( r.child() && !(e = signature(*r.child(), *want.child(), where + "/child", out)).empty() ) return e;
  for(std::size_t i = 0; i < r.nested().size(); ++i)
    if( !(e = signature(r.nested()[i], want.nested()[i], where + "/nested", out)).empty() ) return e;
  if( r.next() && !(e = signature(*r.next(), *want.next(), where + "/next", out)).empty() ) return e;
  return "";
}

void meaning(Ctx& c, const std::string& text, const hext::Rule& want)
{
  auto g = parse(text);
  if( !g.ok ) return c.fail("valid text \"" + show(text) + "\" rejected: " + g.msg + g.other);
  std::uint64_t h = 7;
  auto e = signature(g.rule, want, "rule", h);
  if( !e.empty() ) return c.fail("\"" + show(text) + "\" parsed to a rule that does not mean what is written: " + e);
  c.model(1, probe().nodes.size());
  c.validated();
  c.nontrivial(fnv(text));
  c.outcome(h);
  if( c.want_sample() ) c.sample(show(text));
}

std::string rule_text(const std::string& tag, const std::vector<const Atom *>& as, const std::string& sep = " ")
{
  std::string t = tag;
  for(auto a : as) if( a->trait ) t += a->text;
  for(auto a : as) if( !a->trait ) t += sep + a->text;
  return t;
}
hext::Rule rule_of(const std::string& tag, const std::vector<const Atom *>& as)
{
  hext::Rule r;
  if( tag == "i" ) r.set_tag(hext::HtmlTag::I);
  for(auto a : as) if( a->trait ) a->add(r);
  for(auto a : as) if( !a->trait ) a->add(r);
  return r;
}

void meanings(std::vector<Space>& sp, bool thorough)
{
  auto at = std::make_shared<std::vector<Atom>>(patterns());
  std::size_t np = at->size();
  for(auto& t : traits()) at->push_back(t);
  std::uint64_t n = at->size();
  sp.push_back({"all sequences of up to three patterns and traits in a rule", n * n, [=](Ctx& c, std::uint64_t o) {
    std::uint64_t i = 0;
    const Atom * a = &(*at)[o / n], * b = &(*at)[o % n];
    auto go = [&](const std::vector<const Atom *>& as) {
      if( c.want(i) ) meaning(c, "<*" + rule_text("", as) + (i % 2 ? "/>" : " ></*>"), rule_of("*", as));
      ++i;
    };
    if( o == 0 ) go({});
    if( o % n == 0 ) go({a});
    go({a, b});
    for(auto& x : *at) { if( c.stopped() ) return; go({a, b, &x}); }
  }, {}});
  sp.push_back({"all pairs of patterns and traits in neighbouring rules", n, [=](Ctx& c, std::uint64_t o) {
    std::uint64_t i = 0;
    const Atom * a = &(*at)[o];
    for(auto& bx : *at)
    {
      const Atom * b = &bx;
      for(int rel = 0; rel < 6; ++rel)
      {
        if( !c.want(i) ) { ++i; continue; }
        ++i;
        std::string A = rule_text("", {a}), B = rule_text("", {b}), t, cA = A, cB = B;
        hext::Rule ra = rule_of("*", {a}), rb = rule_of("i", {b}), w = ra;
        switch( rel )
        {
          case 0: t = "<*" + A + "/><i" + B + "/>"; w.append_next(rb); break;
          case 1: t = "<*" + A + "><i" + B + "/></*>"; w.append_child(rb); break;
          case 2: t = "<*" + A + ">{<i" + B + "/>}</*>"; w.append_nested(rb); break;
          case 3: t = "<*><i" + B + "></i></*>\n<*" + A + "/>"; w = hext::Rule(); w.append_child(rb); w.append_next(ra); break;
          case 4: t = "<*" + A + ">{<?i" + B + "/>}<+*" + A + "/>{<?+i" + B + "/><*" + A + "/>}</*><i" + B + "/>";
          {
            auto ro = rb; ro.set_optional(true); w.append_nested(ro);
            auto rg = ra; rg.set_greedy(true); w.append_child(rg);
            auto rog = ro; rog.set_greedy(true); rog.append_next(ra); w.append_nested(rog);
            w.append_next(rb);
            break;
          }
          default:
            for(char& ch : cA) if( ch == '\n' ) ch = ' ';
            for(char& ch : cB) if( ch == '\n' ) ch = ' ';
            t = "#" + cA + "\n<*" + A + " \n\t>#" + cB + "\r\n{ #<\n<i" + B + " />\n# }\n}\f</*>\v"; w.append_nested(rb);
        }
        meaning(c, t, w);
      }
    }
  }, {}});
  // literals, in every place that takes one
  struct Lit { std::string pre, post; std::function<void(hext::Rule&, const std::string&)> add; bool regex = false; };
  using namespace hext;
  auto lits = std::make_shared<std::vector<Lit>>();
  auto va = [&](const std::string& op, auto m) {
    lits->push_back({" a" + op, "", [=](Rule& r, const std::string& s) { r.append_match<AttributeMatch>("a", m(s)); }});
    lits->push_back({" a" + op, "!", [=](Rule& r, const std::string& s) { r.append_match<AttributeMatch>("a", mk<NegateTest>(m(s))); }});
  };
  va("==", [](const std::string& s) { return mk<EqualsTest>(s); });
  va("=", [](const std::string& s) { return mk<ContainsWordsTest>(s); });
  va("^=", [](const std::string& s) { return mk<BeginsWithTest>(s); });
  va("*=", [](const std::string& s) { return mk<ContainsTest>(s); });
  va("$=", [](const std::string& s) { return mk<EndsWithTest>(s); });
  auto pc = [&](const std::string& n, auto p) {
    lits->push_back({" a:" + n + "(", "):p?", [=](Rule& r, const std::string& s) { r.append_capture<AttributeCapture>("a", "p", p(s)); }});
  };
  pc("trim", [](const std::string& s) { return mk<TrimPipe>(s); });
  pc("prepend", [](const std::string& s) { return mk<PrependPipe>(s); });
  pc("append", [](const std::string& s) { return mk<AppendPipe>(s); });
  pc("replace(/x/, ", [](const std::string& s) { return mk<RegexReplacePipe>(rx("x"), s); });
  lits->back().pre = " a:replace(/x/,";
  lits->push_back({" a:", "", [](Rule& r, const std::string& s) { r.append_capture<AttributeCapture>("a", s); r.append_match<AttributeMatch>("a"); }});
  lits->push_back({" @text:tolower:", "", [](Rule& r, const std::string& s) { r.append_capture<FunctionCapture>(TextBuiltin, s, mk<CasePipe>()); }});
  lits->push_back({" @strip-tags:", "", [](Rule& r, const std::string& s) { r.append_capture<FunctionCapture>(StripTagsBuiltin, s); }});
  for(std::string f : {"", "i", "c", "ci", "iic"})
  {
    lits->push_back({" a=~", f, [=](Rule& r, const std::string& s) { r.append_match<AttributeMatch>("a", mk<RegexTest>(rx(s, f))); }, true});
    lits->push_back({" @text=~", f + "!", [=](Rule& r, const std::string& s) { r.append_match<FunctionValueMatch>(TextBuiltin, mk<NegateTest>(mk<RegexTest>(rx(s, f)))); }, true});
    lits->push_back({":type-matches(", f + ")", [=](Rule& r, const std::string& s) { r.append_match<TypeRegexMatch>(rx(s, f)); }, true});
    lits->push_back({" a:filter(", f + "):p", [=](Rule& r, const std::string& s) { r.append_capture<AttributeCapture>("a", "p", mk<RegexPipe>(rx(s, f))); r.append_match<AttributeMatch>("a"); }, true});
    lits->push_back({" a:replace(", f + ",'z'):p", [=](Rule& r, const std::string& s) { r.append_capture<AttributeCapture>("a", "p", mk<RegexReplacePipe>(rx(s, f), "z")); r.append_match<AttributeMatch>("a"); }, true});
  }
  auto ws = std::make_shared<std::vector<std::string>>(words("xX \\\"'/>", thorough ? 5 : 4));
  ws->push_back(std::string("x\0y", 3));
  for(int b = 1; b < 256; ++b) ws->push_back(std::string(1, char(b)));
  std::uint64_t nl = lits->size();
  sp.push_back({"literals in every place", nl * 3, [=](Ctx& c, std::uint64_t o) {
    auto& l = (*lits)[o / 3];
    char d = "\"'/"[o % 3];
    if( d == '/' && !l.regex ) return;
    std::uint64_t i = 0;
    for(auto& w : *ws)
    {
      ++i;
      // only literals that end where the delimiter stands
      std::string q = std::string(1, d) + w + d;
      bool bs = false, good = true;
      for(std::size_t k = 1; k + 1 < q.size(); ++k) { if( q[k] == d && !bs ) good = false; bs = q[k] == '\\'; }
      if( bs || !good || !c.want(i) ) continue;
      hext::Rule r;
      if( l.regex ) { try { l.add(r, w); } catch( const boost::regex_error& ) { continue; } } else l.add(r, w);
      meaning(c, "<*" + l.pre + q + l.post + "/>", r);
    }
  }, {}});
  // numbers of rules, patterns, pipes and traits, and lengths of literals, names
  // and numbers: one by one and next to the powers of two
  std::vector<std::uint64_t> ns;
  for(std::uint64_t k = 1; k <= (thorough ? 200u : 100u); ++k) ns.push_back(k);
  for(auto k : powers(6, thorough ? 13 : 11)) ns.push_back(k);
  std::reverse(ns.begin(), ns.end());
  sp.push_back({"amounts", ns.size(), [=](Ctx& c, std::uint64_t o) {
    const auto n = ns[o];
    std::uint64_t i = 0;
    auto num = [](std::uint64_t k) { return std::to_string(k); };
    auto judge = [&](const std::string& t, const std::function<hext::Rule()>& want) { if( c.want(i++) ) meaning(c, t, want()); };
    auto cap = [&](std::uint64_t k, bool it = false) {
      hext::Rule r;
      if( it ) r.set_tag(hext::HtmlTag::I);
      r.append_capture<AttributeCapture>("a", "c" + num(k)); r.append_match<AttributeMatch>("a");
      return r;
    };
    auto flags = [](hext::Rule& r, std::uint64_t k) { r.set_optional(k % 3 == 1); r.set_greedy(k % 4 == 2); };
    auto tag = [](std::uint64_t k) { return std::string(k % 4 == 2 ? "+" : "") + (k % 3 == 1 ? "?" : "") + (k % 2 ? "i" : "*"); };
    auto body = [&](std::uint64_t k) { return "<" + tag(k) + " a:c" + num(k) + "/>"; };
    auto rule = [&](std::uint64_t k) { auto r = cap(k, k % 2); flags(r, k); return r; };
    std::string t, u, v, w;
    for(std::uint64_t k = 0; k < n; ++k) t += body(k) + (k % 5 ? "" : "\n");
    for(std::uint64_t k = 1; k < n; ++k) u += body(k);
    for(std::uint64_t k = 1; k < n; ++k) v += "{" + body(k) + body(k + 1) + "}";
    judge(t, [&] { auto r = rule(0); for(std::uint64_t k = 1; k < n; ++k) r.append_next(rule(k)); return r; });
    judge("<i a:c0>" + u + "</i><b/>", [&] {
      auto r = cap(0, true); for(std::uint64_t k = 1; k < n; ++k) r.append_child(rule(k));
      r.append_next(hext::Rule(hext::HtmlTag::B)); return r; });
    judge("<i a:c0>" + v + "<b/></i>", [&] {
      auto r = cap(0, true);
      for(std::uint64_t k = 1; k < n; ++k) { auto x = rule(k); x.append_next(rule(k + 1)); r.append_nested(std::move(x)); }
      r.append_child(hext::Rule(hext::HtmlTag::B)); return r; });
    if( n <= 300 )
    {
      // closed one by one, each with a rule behind it
      std::string d, e, f, g;
      for(std::uint64_t k = 0; k < n; ++k)
      {
        d += "<" + tag(k) + " a:c" + num(k) + ">"; e = "</" + std::string(k % 2 ? "i" : "*") + "><b a:d" + num(k) + "/>" + e;
        f += "<" + tag(k) + " a:c" + num(k) + ">{"; g = "}<b a:d" + num(k) + "/></" + std::string(k % 2 ? "i" : "*") + ">" + g;
      }
      auto b = [&](std::uint64_t k) { auto r = hext::Rule(hext::HtmlTag::B); r.append_capture<AttributeCapture>("a", "d" + num(k)); r.append_match<AttributeMatch>("a"); return r; };
      judge(d + e, [&] {
        auto r = rule(n - 1); r.append_next(b(n - 1));
        for(std::uint64_t k = n - 1; k-- > 0;) { auto x = rule(k); x.append_child(std::move(r)); x.append_next(b(k)); r = std::move(x); }
        return r; });
      judge(f + "<u/>" + g, [&] {
        hext::Rule r(hext::HtmlTag::U);
        for(std::uint64_t k = n; k-- > 0;) { auto x = rule(k); x.append_nested(std::move(r)); x.append_child(b(k)); r = std::move(x); }
        return r; });
    }
    {
      std::string caps, pats, pipes, traits, nots;
      for(std::uint64_t k = 0; k < n; ++k)
      {
        caps += " a:c" + num(k) + "?";
        pats += k + 1 < n ? " a^=''" : " a='x'";
        pipes += ":append('" + num(k % 10) + "')";
        traits += k + 1 < n ? ":attribute-count(2)" : ":nth-child(2)";
        nots += k + 1 < n ? ":child-count(7)" : ":nth-child(2)";
      }
      judge("<*" + caps + "/>", [&] { hext::Rule r; for(std::uint64_t k = 0; k < n; ++k) r.append_capture<AttributeCapture>("a", "c" + num(k)); return r; });
      judge("<* " + pats + "/>", [&] {
        hext::Rule r;
        if( n > 1 ) r.append_match<AttributeMatch>("a", mk<BeginsWithTest>(""));
        r.append_match<AttributeMatch>("a", mk<ContainsWordsTest>("x")); return r; });
      judge("<* a" + pipes + ":p/>", [&] {
        std::string all;
        for(std::uint64_t k = 0; k < n; ++k) all += num(k % 10);
        hext::Rule r; r.append_capture<AttributeCapture>("a", "p", mk<AppendPipe>(all)); r.append_match<AttributeMatch>("a"); return r; });
      judge("<*" + traits + "/>", [&] {
        hext::Rule r; if( n > 1 ) r.append_match<AttributeCountMatch>(2); r.append_match<NthChildMatch>(0, 2); return r; });
      judge("<*:not(" + nots + ")/>", [&] {
        auto m = mk<NegateMatch>(); if( n > 1 ) m->append_match(mk<ChildCountMatch>(7)); m->append_match(mk<NthChildMatch>(0, 2));
        hext::Rule r; r.append_match(std::move(m)); return r; });
      // long literals, names and numbers
      std::string x(n, 'x'), esc, zeros(n, '0');
      for(std::uint64_t k = 0; k < n; ++k) esc += "\\'";
      judge("<* @text:prepend('" + x + "'):" + x + "/>", [&] { hext::Rule r; r.append_capture<FunctionCapture>(TextBuiltin, x, mk<PrependPipe>(x)); return r; });
      judge("<* @text:append('" + esc + "'):p/>", [&] { hext::Rule r; r.append_capture<FunctionCapture>(TextBuiltin, "p", mk<AppendPipe>(esc)); return r; });
      judge("<* @text=~/^(" + x + ")?[xX]/ @text:replace(/" + x + "|[xX]/,\"" + x + "\"):p/>", [&] {
        hext::Rule r;
        r.append_match<FunctionValueMatch>(TextBuiltin, mk<RegexTest>(rx("^(" + x + ")?[xX]")));
        r.append_capture<FunctionCapture>(TextBuiltin, "p", mk<RegexReplacePipe>(rx(x + "|[xX]"), x)); return r; });
      judge("<*:nth-child(" + zeros + "2)/>", [&] { hext::Rule r; r.append_match<NthChildMatch>(0, 2); return r; });
      judge("<*:child-count(" + zeros + "2)" + std::string(n, ' ') + "a:p/>", [&] { hext::Rule r; r.append_match<ChildCountMatch>(2); r.append_capture<AttributeCapture>("a", "p"); r.append_match<AttributeMatch>("a"); return r; });
      judge(std::string(n, '\n') + "#" + x + "\n<x-" + x + " a" + x + "/>", [&] { hext::Rule r("x-" + x); r.append_match<AttributeMatch>("a" + x); return r; });
    }
  }, [ns](std::uint64_t o, std::uint64_t i) { return "amounts of " + std::to_string(ns[o]) + ", case " + std::to_string(i); }});
  // names of attributes, captures and tags
  auto nw = words("xY0-_", 3);
  std::vector<std::pair<std::string, std::function<hext::Rule()>>> names;
  for(auto& w : nw)
  {
    if( w.empty() ) continue;
    if( w[0] == 'x' || w[0] == 'Y' )
    {
      names.push_back({"<* " + w + "/>", [=] { hext::Rule r; r.append_match<AttributeMatch>(w); return r; }});
      names.push_back({"<* a" + w + ":" + w + "? />", [=] { hext::Rule r; r.append_capture<AttributeCapture>("a" + w, w); return r; }});
      names.push_back({"<" + w + "-1></" + w + "-1>", [=] { return hext::Rule(w + "-1"); }});
    }
    names.push_back({"<* @text:" + w + "./>", [=] { hext::Rule r; r.append_capture<FunctionCapture>(TextBuiltin, w + "."); return r; }});
  }
  for(std::string w : {"trim", "tolower", "toupper", "collapsews", "filter", "replace", "append", "prepend", "tri", "trimm", "to", "filte", "collapsewsx"})
  {
    names.push_back({"<* a:" + w + "/>", [=] { hext::Rule r; r.append_capture<AttributeCapture>("a", w); r.append_match<AttributeMatch>("a"); return r; }});
    names.push_back({"<* @text:toupper:" + w + "/>", [=] { hext::Rule r; r.append_capture<FunctionCapture>(TextBuiltin, w, mk<CasePipe>(CasePipe::ToUpper)); return r; }});
  }
  sp.push_back({"names", 1, [=](Ctx& c, std::uint64_t) {
    for(std::size_t i = 0; i < names.size(); ++i) if( c.want(i) ) meaning(c, names[i].first, names[i].second());
  }, {}});
  // nth patterns
  sp.push_back({"nth patterns", 1, [=](Ctx& c, std::uint64_t) {
    std::uint64_t i = 0;
    auto go = [&](const std::string& p, int a, int b) {
      for(int k = 0; k < 4; ++k)
      {
        if( !c.want(i) ) { ++i; continue; }
        ++i;
        hext::Rule r;
        const char * nm[] = {"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"};
        NthChildMatch::Option o[] = {NthChildMatch::First, NthChildMatch::Last, NthChildMatch::First | NthChildMatch::OfType, NthChildMatch::Last | NthChildMatch::OfType};
        auto m = mk<NegateMatch>();
        m->append_match(mk<NthChildMatch>(a, b, o[k]));
        r.append_match<NthChildMatch>(a, b, o[k]);
        r.append_match(std::move(m));
        r = hext::Rule();
        r.append_match<NthChildMatch>(a, b, o[k]);
        meaning(c, "<*:" + std::string(nm[k]) + "(" + p + ")/>", r);
      }
    };
    go("even", 2, 0);
    go("odd", 2, 1);
    for(int a = -12; a <= 12; ++a)
    {
      go(std::to_string(a), 0, a);
      go(std::to_string(a) + "n", a, 0);
      for(int b = -12; b <= 12; ++b) go(std::to_string(a) + "n" + (b < 0 ? "" : "+") + std::to_string(b), a, b);
    }
  }, {}});
}

} // namespace

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  property = o.property;
  bool th = o.tier == "thorough";
  lang::dfa(); access(); completions(); suffixes();
  std::vector<Space> sp;
  std::vector<std::string> tokens = {"<a>", "<b/>", "</a>", "<b>", "</b>", "{", "}"};
  std::vector<std::string> tags = {"<a>", "</a>", "<a/>", "</A>", "<x-y>", "</x-y>", "</X-y>", "<X-Y>", "<*>", "</*>", "{", "}", " ", "#<\n", "<DIV>", "</div>", "<+b>", "<?+b/>", "<!", "</x-y:empty>"};
  if( property == "C15" )
  {
    meanings(sp, th);
    sp.push_back(sequences("sequences of tags and braces", tokens, th ? 9 : 7));
    sp.push_back(sequences("sequences of rules with flags", {"<?+*/>", "<?*/>", "<+*/>", "<*/>", "<+?a/>", "<?x-y/>", "<?+*>", "<+a>", "</*>", "</a>", "{", "}"}, th ? 6 : 5));
    sp.push_back(sequences("sequences of tags, custom tags, blanks and comments", tags, th ? 5 : 4));
    sp.push_back(sequences("nested rules", {"<a>", "</a>", "{", "}", "<b/>"}, th ? 11 : 8, "<a>{<b>", "</b>}</a>"));
  }
  else
  {
    automaton(sp);
    sp.push_back(sequences("sequences of tags and braces", tokens, th ? 8 : 6));
    sp.push_back(sequences("sequences of tags, custom tags, blanks and comments", tags, th ? 5 : 4));
    sp.push_back(sequences("nested rules", {"<a>", "</a>", "{", "}", "<b/>"}, th ? 10 : 7, "<a>{<b>", "</b>}</a>"));
    sp.push_back(sequences("short texts", {"<", "a", "/", ">", " ", ":", "\"", "\\", "{", "}", "=", "!", "*", "#", "\n"}, th ? 6 : 5));
    sp.push_back(sequences("bodies of rules", {" ", "a", ":", "=", "~", "'", "/", "i", "!", "?", "@text", "trim", "\\", ",", "(", ")"}, th ? 6 : 5, "<a ", "/>"));
    sp.push_back(sequences("traits", {":", "not(", "empty", ")", "nth-child(", "1", "n", "-", "+", "even", "only-child", "type-matches(", "/", " "}, th ? 6 : 5, "<a:", "/>"));
    std::vector<std::string> bytes;
    for(int b = 0; b < 256; ++b) bytes.push_back(std::string(1, char(b)));
    sp.push_back(sequences("all pairs of bytes", bytes, 2));
    sp.push_back(mutations(th));
    sp.push_back(list("numbers", number_texts()));
    sp.push_back(list("regular expressions", regex_texts(th ? 5 : 3)));
    sp.push_back(list("lines and positions", line_texts()));
    sp.push_back(list("lengths", length_texts(th ? 1100 : 270), 50));
    sp.push_back(list("powers", big_texts(17, th ? 12 : 11), 1));
  }
  return main_(o, sp);
}
