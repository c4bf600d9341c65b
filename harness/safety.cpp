// C17: memory safety. Run under AddressSanitizer and UndefinedBehaviorSanitizer
// (a report ends the worker process, which the supervisor takes for the
// violation); allocated bytes are compared before and after every case.
#include <algorithm>
#include <cstring>
#include <memory>
#include "vf.hpp"
#include "hextlang.hpp"
#include "gen.hpp"
#include <hext/Hext.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
static std::size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static std::size_t live_bytes() { return 0; }
#endif

using namespace vf;

namespace {

// exactly sized heap copy, so that any access beyond it is noticed
struct Exact
{
  char * p; std::size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { if( n ) std::memcpy(p, s.data(), n); }
  ~Exact() { delete[] p; }
  Exact(const Exact&) = delete;
  Exact& operator=(const Exact&) = delete;
};

// runs f; a difference in allocated bytes must not persist (a first run may
// fill caches of the runtime)
template<class F> void leak_free(Ctx& c, const std::string& what, F&& f)
{
  std::size_t grow = 0;
  for(int i = 0; i < 3; ++i)
  {
    auto a = live_bytes();
    f();
    auto b = live_bytes();
    if( b <= a ) return;
    grow = b - a;
  }
  c.fail(what + ": leaks " + std::to_string(grow) + " bytes every time");
}

std::uint64_t consume(const hext::Result& r)
{
  std::uint64_t h = 3;
  for(auto& m : r) for(auto& kv : m) h = h * 31 + fnv(kv.first) + fnv(kv.second);
  return h;
}

const std::vector<hext::Rule>& rules()
{
  static const std::vector<hext::Rule> v = [] {
    std::vector<hext::Rule> r;
    for(const char * t : {
          "<* a:a? b:b? @text:t @inner-html:h @strip-tags:s/>",
          "<*:type-matches(/./) @text:trim(\" a\"):filter(/(a).?/):t a:replace(/x*/,'[$0$1]'):prepend(''):append('a'):tolower:toupper:collapsews:a />",
          "<*:not(:nth-last-of-type(2n+1):only-of-type)><?*:nth-of-type(-1n+3) @text=~/a|^$/:not/></*>",
          "<*><*:not(:nth-last-of-type(2n+1))/><?*:nth-of-type(-1n+3) @text=~/a|^$/ @text='a b' a='x'!/></*>",
          "<*>{<+* @inner-html:h/>{<?x-y/><* @text:t/>}}</*>",
          "<+?*:only-child @strip-tags:s/><x-y @inner-html:h a*='' b^=\"\"/><?*:not(:empty:last-child) b$='x' @strip-tags:x/><+* @text=='':x? />",
          "<html><head/><body @inner-html:h><?*:attribute-count(1):child-count(0)/><+* @text:t/></body></html>"})
      try { r.push_back(hext::ParseHext(t)); } catch( const hext::SyntaxError& ) {}
    return r;
  }();
  return v;
}

std::uint64_t everything(const hext::Html& html)
{
  std::uint64_t h = 0;
  for(auto& r : rules())
  {
    for(std::uint64_t limit : {std::uint64_t(0), std::uint64_t(3)})
      try { h = h * 7 + consume(r.extract(html, limit)); } catch( const hext::MaxSearchError& ) { h += 1; }
  }
  return h;
}

void html_case(Ctx& c, const std::string& t)
{
  std::uint64_t h = 0;
  leak_free(c, "parsing and extracting from \"" + show(t) + "\"", [&] {
    Exact b(t);
    hext::Html html(b.p, b.n);
    h = everything(html);
    hext::Html moved(std::move(html));
    html = std::move(moved);
    if( everything(html) != h ) c.fail("different results from \"" + show(t) + "\" after moving");
  });
  c.nontrivial(fnv(t));
  c.outcome(h);
  if( c.want_sample() ) c.sample("html: " + show(t));
}

const char * kDoc = "<!DOCTYPE html><html><body><a a='x' b='x y'>x <b></b></a><x-y a=''>a</x-y><b b>y</b><ul><li>1<li>2</ul><!--c--></body></html>";
const hext::Html& doc() { static const hext::Html h(kDoc); return h; }

void hext_case(Ctx& c, const std::string& t, bool use)
{
  std::uint64_t h = 0;
  leak_free(c, "parsing \"" + show(t) + "\" as hext", [&] {
    h = 0;
    try
    {
      std::unique_ptr<hext::Rule> r;
      { Exact b(t); r = std::make_unique<hext::Rule>(hext::ParseHext(b.p, b.n)); }
      if( !use ) return;
      // boost::regex may give up on a regular expression
      try
      {
        auto copy = std::make_unique<hext::Rule>(*r);
        auto res = std::make_unique<hext::Result>(r->extract(doc()));
        r.reset();
        h = consume(*res) + consume(copy->extract(doc()));
        copy.reset();
        h += consume(*res);
      }
      catch( const std::runtime_error& ) { h = 5; }
    }
    catch( const hext::SyntaxError& e ) { h = fnv(e.what()); }
    catch( const std::exception& ) { h = 6; }    // judged by C14
  });
  c.nontrivial(fnv(t));
  c.outcome(h);
  if( c.want_sample() ) c.sample("hext: " + show(t));
}

using Do = std::function<void(Ctx&, const std::string&)>;

Space sequences(const std::string& name, std::vector<std::string> tokens, int len, Do f, std::string pre = "", std::string post = "")
{
  std::uint64_t k = tokens.size();
  return {name, k, [=](Ctx& c, std::uint64_t o) {
    std::uint64_t i = 0;
    std::function<void(const std::string&, int)> rec = [&](const std::string& t, int left) {
      if( c.stopped() ) return;
      if( c.want(i) ) f(c, pre + t + post);
      ++i;
      if( left ) for(auto& x : tokens) rec(t + x, left - 1);
    };
    rec(tokens[o], len - 1);
  }, [=](std::uint64_t o, std::uint64_t inner) {
    std::uint64_t i = 0;
    std::string found;
    std::function<void(const std::string&, int)> rec = [&](const std::string& t, int left) {
      if( i == inner ) found = pre + t + post;
      ++i;
      if( left ) for(auto& x : tokens) rec(t + x, left - 1);
    };
    rec(tokens[o], len - 1);
    return show(found);
  }};
}

Space mutations(const std::string& name, std::vector<std::string> texts, Do f, int bytes)
{
  std::vector<std::pair<std::size_t, std::size_t>> idx;
  for(std::size_t t = 0; t < texts.size(); ++t) for(std::size_t p = 0; p <= texts[t].size(); ++p) idx.push_back({t, p});
  auto each = [=](std::uint64_t o, auto&& go) {
    auto& t = texts[idx[o].first];
    auto p = idx[o].second;
    go(t.substr(0, p));
    go(t.substr(p));
    for(std::size_t n : {1, 2, 5}) if( p + n <= t.size() ) { go(t.substr(0, p) + t.substr(p + n)); go(t.substr(0, p + n) + t.substr(p)); }
    for(int b = 0; b < 256; ++b)
    {
      if( bytes < 256 && (b >= 0x80 ? b % 32 : b >= 'b' && b <= 'z' && b % 4) ) continue;
      go(t.substr(0, p) + char(b) + t.substr(p));
      if( p < t.size() ) go(t.substr(0, p) + char(b) + t.substr(p + 1));
    }
  };
  return {name, idx.size(), [=](Ctx& c, std::uint64_t o) {
    std::uint64_t i = 0;
    each(o, [&](const std::string& s) { if( c.want(i) ) f(c, s); ++i; });
  }, [=](std::uint64_t o, std::uint64_t inner) {
    std::uint64_t i = 0;
    std::string found;
    each(o, [&](const std::string& s) { if( i++ == inner ) found = s; });
    return show(found);
  }};
}

std::vector<std::string> hext_corpus()
{
  return {
    "<div id=\"x\" class='a b'!><a href:link?/>{<+b @text:trim:t/>}</div><?x-y:nth-child(-2n+1)/>",
    "# c\n<*:not(:empty:only-child) @inner-html=~/a\\/b/ic! x^='y' z$=\"\" />",
    "<a x:replace(/a/ , 'b'):toupper:filter('(a)'):v.a-r_1?><b/>{<c/>}{<d><e/></d>}</a>",
    "<li:nth-last-of-type(2147483647n-2147483648):nth-child(-2147483648n+2147483647):child-count(2147483647) @text:prepend('<'):append(\">\"):\"na me\" />",
  };
}

std::vector<std::string> html_corpus()
{
  return {
    "<!DOCTYPE html><a a=\"x&amp;y\" b>x<x-y a='1'>t</x-y><!--c--></a>",
    "<table><tr><td>a<svg a=b><title xlink:href=x>y</title></svg><template>z</template>",
    "<script>a<b</script><style>x</style><br/><select><option>1</select>\0z<![CDATA[q]]></p>",
  };
}

// objects in every order of destruction
void lifetimes(Ctx& c, std::uint64_t o)
{
  static const std::vector<std::string> hexts = {"<a a:a/>", "<*>{<* @text:t @inner-html:h/>}</*>", "<x-y @strip-tags:s/>", "<+?b @text:filter(/(.)/):t/><*:type-matches(/B/i) b:b?/>"};
  auto& ht = hexts[o];
  std::uint64_t i = 0;
  std::vector<int> order = {0, 1, 2, 3, 4};   // buffer of hext, rule, buffer of html, html, copy of the result
  do
  {
    if( !c.want(i) ) { ++i; continue; }
    ++i;
    // the text of custom tags refers to the buffer that was parsed
    auto at = [&](int x) { return std::find(order.begin(), order.end(), x) - order.begin(); };
    std::uint64_t h = 0, h2 = 0;
    leak_free(c, "lifetimes of \"" + ht + "\"", [&] {
      auto bh = std::make_unique<Exact>(ht), bd = std::make_unique<Exact>(kDoc);
      auto rule = std::make_unique<hext::Rule>(hext::ParseHext(bh->p, bh->n));
      auto html = std::make_unique<hext::Html>(bd->p, bd->n);
      auto res = std::make_unique<hext::Result>(rule->extract(*html));
      auto res2 = std::make_unique<hext::Result>(*res);
      h = consume(*res);
      for(int k : order)
      {
        switch( k ) { case 0: bh.reset(); break; case 1: rule.reset(); break; case 2: bd.reset(); break; case 3: html.reset(); break; default: res2.reset(); }
        h2 = consume(*res);
        if( h2 != h ) c.fail("result changed when object " + std::to_string(k) + " was destroyed");
        if( rule && html && bd && consume(rule->extract(*html)) != h ) c.fail("extraction changed when object " + std::to_string(k) + " was destroyed");
      }
    });
    static_cast<void>(at);
    c.nontrivial(i * 8 + o);
    c.outcome(h);
  }
  while( std::next_permutation(order.begin(), order.end()) );
}

} // namespace

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  bool th = o.tier == "thorough";
  std::vector<Space> sp;
  auto deep_arg = std::find(o.rest.begin(), o.rest.end(), "--deep");
  if( deep_arg != o.rest.end() )
  {
    // nesting that needs more stack than there is
    struct Deep { const char * name; std::string open, close, mid; };
    static const std::vector<Deep> deep = {
      {"hext: child rules, 500000 deep", "<a>", "</a>", ""}, {"hext: nested rules, 500000 deep", "<a>{", "}</a>", "<b/>"}};
    auto& d = deep.at(std::size_t(std::stoi(*(deep_arg + 1))));
      sp.push_back({d.name, 1, [&d](Ctx& c, std::uint64_t) {
        if( !c.want(0) ) return;
        std::string t;
        for(int i = 0; i < 500000; ++i) t += d.open;
        t += d.mid;
        for(int i = 0; i < 500000; ++i) t += d.close;
        auto r = hext::ParseHext(t.c_str(), t.size());
        auto r2 = r;
        consume(r2.extract(doc()));
        c.nontrivial(1);
      }, [&d](std::uint64_t, std::uint64_t) { return std::string(d.name); }});
    o.jobs = 1;
    return main_(o, sp);
  }
  rules(); doc(); lang::dfa();
  Do hx = [](Ctx& c, const std::string& s) { hext_case(c, s, true); };
  Do hp = [](Ctx& c, const std::string& s) { hext_case(c, s, false); };
  Do ht = html_case;
  // hext
  std::vector<std::string> bytes;
  for(int b = 0; b < 256; ++b) bytes.push_back(std::string(1, char(b)));
  sp.push_back(sequences("hext: all pairs of bytes", bytes, 2, hx));
  auto& d = lang::dfa();
  sp.push_back({"hext: every state of the language x every byte", d.states().size(), [&d](Ctx& c, std::uint64_t s) {
    auto a = *d.shortest(0, [&](int x) { return std::uint64_t(x) == s; });
    for(int b = 0; b < 256; ++b)
      if( c.want(std::uint64_t(b)) )
      {
        int t = d.next(int(s), static_cast<unsigned char>(b));
        std::string text = a + char(b);
        if( t >= 0 ) text += *d.shortest(t, [&](int x) { return d.states()[std::size_t(x)].accept; });
        hext_case(c, text, t >= 0);
      }
  }, [&d](std::uint64_t s, std::uint64_t b) { return "prefix " + show(*d.shortest(0, [&](int x) { return std::uint64_t(x) == s; })) + " and byte " + std::to_string(b); }});
  sp.push_back(sequences("hext: sequences of tags and braces", {"<a>", "</a>", "<b/>", "{", "}", "<x-y>", "</x-y>", "<!"}, th ? 6 : 5, hp));
  sp.push_back(sequences("hext: bodies", {" ", "a", ":", "=~", "'", "/(", ")", "i", "!", "?", "@text", "trim", "\\"}, th ? 5 : 4, hx, "<a ", "/>"));
  sp.push_back(mutations("hext: single byte changes of long texts", hext_corpus(), hx, th ? 256 : 64));
  // HTML
  sp.push_back(sequences("html: all pairs of bytes", bytes, 2, ht));
  sp.push_back(sequences("html: short texts", {"<", ">", "/", "a", "x-y", " ", "\"", "=", "&", "!--", std::string(1, '\0'), "\xc3"}, th ? 5 : 4, ht));
  sp.push_back(sequences("html: sequences of tags", {"<a a=x b='y'>", "</a>", "<x-y>", "</x-y>", "<p>", "<table>", "<td>", "<svg>", "<template>", "<script>", "<!--", "-->", "<![CDATA[", "x", " ", "&lt;", "<br>", "</p>", "<math>", "<select>"}, th ? 4 : 3, ht));
  sp.push_back(mutations("html: single byte changes of long texts", html_corpus(), ht, th ? 256 : 64));
  auto dv = std::make_shared<std::vector<std::string>>(gen::docs(th ? 5 : 4, 2, true));
  sp.push_back({"html: all small documents", (dv->size() + 19) / 20, [dv](Ctx& c, std::uint64_t n) {
    for(std::size_t i = n * 20; i < std::min<std::size_t>(dv->size(), n * 20 + 20); ++i) if( c.want(i) ) html_case(c, (*dv)[i]);
  }, [dv](std::uint64_t, std::uint64_t i) { return (*dv)[i]; }});
  sp.push_back({"lifetimes", 4, lifetimes, {}});
  // growing sizes
  sp.push_back({"sizes", 14, [](Ctx& c, std::uint64_t k) {
    if( !c.want(k) ) return;
    std::size_t n = 1;
    for(std::uint64_t i = 0; i < k; ++i) n = n * 2 + (i % 3);     // up to about 2^14
    if( n > 4000 ) n = 4000;
    std::string a, b, e;
    for(std::size_t i = 0; i < n; ++i) { a += "<a x=~/a/ @text:t>"; b += "</a>"; }
    hext_case(c, a + b, true);
    e.clear(); for(std::size_t i = 0; i < n; ++i) e += "<a>{"; e += "<b/>"; for(std::size_t i = 0; i < n; ++i) e += "}</a>";
    hext_case(c, e, true);
    e.clear(); for(std::size_t i = 0; i < n; ++i) e += "<?a/>\n";
    hext_case(c, e, true);
    hext_case(c, e + "!", true);
    hext_case(c, "<a x='" + std::string(n, 'x') + "' " + std::string(n, 'y') + ":" + std::string(n, 'z') + "/>", true);
    hext_case(c, "<" + std::string(n, 'x') + "></" + std::string(n, 'x') + ">", true);
    hext_case(c, "<" + std::string(n, 'x') + "></" + std::string(n, 'y') + ">", true);
    hext_case(c, std::string(n, '\n') + "!", true);
    // documents in which a rule captures little
    static const hext::Rule r1 = hext::ParseHext("<*:empty @text:t @inner-html:h/>"), r2 = hext::ParseHext("<body @text:t @inner-html:h @strip-tags:s/>");
    auto go = [&](const std::string& h) { leak_free(c, "document of size " + std::to_string(n), [&] { Exact x(h); hext::Html d(x.p, x.n); consume(r1.extract(d)); consume(r2.extract(d)); }); };
    e.clear(); for(std::size_t i = 0; i < std::min<std::size_t>(n, 2000); ++i) e += "<div>";
    go(e + "x");
    e.clear(); for(std::size_t i = 0; i < n; ++i) e += "<b a=1></b> ";
    go(e);
    go("<p a='" + std::string(n, '&') + "'>" + std::string(n, '<') + std::string(n, ' ') + "x");
    go("<" + std::string(n, 'x') + ">x");
    c.nontrivial(k);
    c.outcome(k);
  }, [](std::uint64_t, std::uint64_t k) { return "size step " + std::to_string(k); }});
  return main_(o, sp);
}
