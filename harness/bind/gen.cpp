// C28, C29: enumerates the cases (hext, HTML, search limit) and the histories
// of operations that the drivers of each language run, with what the library
// itself gives. One JSON value per line.
//   gen cases quick|thorough        [hext, html, max, result | "any" | "syntax" | "limit" | "error"]
//   gen errors quick|thorough       the same, errors as {"at", "message"}
//   gen scripts quick|thorough      [hext, html, result or error, the same with a limit of 10000 or null]
//   gen memory quick|thorough       table of operations, then short lists of indices and cases, one per line
//   gen histories quick|thorough    table of operations, then a list of indices per line
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <set>
#include <string>
#include <vector>
#include <hext/Hext.h>

using namespace hext;

namespace {

bool utf8_ok(const std::string& s)
{
  for(std::size_t i = 0; i < s.size();)
  {
    unsigned char c = static_cast<unsigned char>(s[i]);
    int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if( n < 0 || i + static_cast<std::size_t>(n) >= s.size() ) return false;
    unsigned cp = n == 0 ? c : c & (0x3fu >> n);
    for(int k = 1; k <= n; ++k)
    {
      unsigned char d = static_cast<unsigned char>(s[i + static_cast<std::size_t>(k)]);
      if( (d & 0xc0) != 0x80 ) return false;
      cp = cp << 6 | (d & 0x3f);
    }
    if( (n == 2 && cp < 0x800) || (n == 3 && (cp < 0x10000 || cp > 0x10ffff)) || (cp >= 0xd800 && cp < 0xe000) ) return false;
    i += static_cast<std::size_t>(n) + 1;
  }
  return true;
}

std::string utf8(unsigned cp)
{
  std::string s;
  if( cp < 0x80 ) s += char(cp);
  else if( cp < 0x800 ) { s += char(0xc0 | cp >> 6); s += char(0x80 | (cp & 63)); }
  else if( cp < 0x10000 ) { s += char(0xe0 | cp >> 12); s += char(0x80 | (cp >> 6 & 63)); s += char(0x80 | (cp & 63)); }
  else { s += char(0xf0 | cp >> 18); s += char(0x80 | (cp >> 12 & 63)); s += char(0x80 | (cp >> 6 & 63)); s += char(0x80 | (cp & 63)); }
  return s;
}

std::string js(const std::string& s)
{
  std::string o = "\"";
  char b[8];
  for(unsigned char c : s)
    if( c == '"' || c == '\\' ) { o += '\\'; o += char(c); }
    else if( c < 0x20 || c == 0x7f ) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  return o + "\"";
}

bool representable(const Result& r)
{
  for(const auto& m : r) for(const auto& p : m) if( !utf8_ok(p.first) || !utf8_ok(p.second) ) return false;
  return true;
}

std::string js(const Result& r)
{
  std::string o = "[";
  for(const auto& m : r)
  {
    o += o.back() == '[' ? "{" : ",{";
    for(auto it = m.begin(); it != m.end();)
    {
      auto n = m.count(it->first);
      if( it != m.begin() ) o += ",";
      o += js(it->first) + ":";
      if( n == 1 ) { o += js(it->second); ++it; continue; }
      for(std::size_t i = 0; i < n; ++i, ++it) o += (i ? "," : "[") + js(it->second);
      o += "]";
    }
    o += "}";
  }
  return o + "]";
}

// an error as the languages have to report it: where, and with what message.
// It may end within a character, then only what precedes that is compared.
std::string failure(const char * at, const char * what)
{
  std::string t = what, p = t;
  while( !utf8_ok(p) ) p.pop_back();
  return std::string("{\"at\":\"") + at + "\",\"message\":" + js(p) + "}";
}

std::string outcome(const std::string& hext, const std::string& html, std::uint64_t max, bool messages = false)
{
  if( messages )
    try
    {
      Rule r = ParseHext(hext.data(), hext.size());
      Html h(html.data(), html.size());
      try { r.extract(h, max); }
      catch( const std::exception& e ) { return failure("extract", e.what()); }
    }
    catch( const std::exception& e ) { return failure("Rule", e.what()); }
  try
  {
    Rule r = ParseHext(hext.data(), hext.size());
    Html h(html.data(), html.size());
    Result res = r.extract(h, max);
    // there is no text for other bytes: anything but a crash will do
    return representable(res) ? js(res) : "\"any\"";
  }
  catch( const SyntaxError& ) { return "\"syntax\""; }
  catch( const MaxSearchError& ) { return "\"limit\""; }
  catch( const std::exception& ) { return "\"error\""; }
}

void emit(const std::string& hext, const std::string& html, std::uint64_t max = 0, bool messages = false)
{
  // a script passes text
  if( !utf8_ok(hext) || !utf8_ok(html) ) return;
  auto o = outcome(hext, html, max, messages);
  std::cout << "[" << js(hext) << "," << js(html) << "," << max << "," << o << "]\n";
}

std::vector<std::string> alphabet()
{
  std::vector<std::string> v;
  for(char c : std::string("\"\\/'<>&{}[]:,$#%a0-\x01\x07\b\t\n\v\f\r\x1b\x1f \x7f")) v.push_back(std::string(1, c));
  v.push_back(std::string(1, '\0'));
  for(unsigned cp : {0x80u, 0x85u, 0xa0u, 0xe9u, 0x7ffu, 0x800u, 0x2028u, 0x2029u, 0xd7ffu, 0xe000u, 0xfeffu, 0xfffdu, 0xffffu, 0x10000u, 0x1f600u, 0x10ffffu}) v.push_back(utf8(cp));
  return v;
}

std::vector<std::string> words(int n)
{
  auto a = alphabet();
  std::vector<std::string> v{""}, last{""};
  for(int i = 0; i < n; ++i)
  {
    std::vector<std::string> next;
    for(const auto& l : last) for(const auto& c : a) next.push_back(l + c);
    v.insert(v.end(), next.begin(), next.end());
    last = next;
  }
  // names that mean something to a language
  for(auto s : {"__proto__", "constructor", "prototype", "toString", "hasOwnProperty", "length", "__class__", "__dict__", "self", "this", "None", "null", "nil",
                "true", "0", "1", "-1", "00", "1.5", "1e3", "9223372036854775807", "9223372036854775808", "__init__", "default", "class", "then", "toJSON"})
    v.push_back(s);
  return v;
}

std::string literal(const std::string& s)
{
  std::string r = "\"";
  for(char c : s) { if( c == '"' ) r += '\\'; r += c; }
  return r + "\"";
}

std::uint64_t power(std::uint64_t b, int e) { std::uint64_t r = 1; while( e-- ) r *= b; return r; }

const char * const kRules[] = {
  "<a/>", "<*/>", "<a href:x/>", "<a href:x @text:y/>", "<a @text:x/><b @text:y/>", "<?a href:x/><b @text:y/>", "<+li @text:x/>", "<ul><li @text:x/></ul>",
  "<ul><+li @text:x/></ul>", "<ul><li @text:x/><li @text:x/></ul>", "<div>{<a href:x/><b @text:x/>}</div>", "{<a href:x/>}{<b @text:y/>}", "<*:nth-child(2n+1) @text:x/>",
  "<a href^='h' href:trim:toupper:x/>", "<a href=~/\\d+/ href:filter(/\\d+/):x/>", "<* @inner-html:h @strip-tags:s/>", "<a !href @text:x/>", "<a href?:x/>", "<a href:x? @text:x/>",
  "<p><b @text:x/></p>", "<*><*><* @text:x/></*></*>", "<li:not(:first-child) @text:x/>", "<a", "<a href:x/", "<a href=~/(/ />", "", "   ", "# only\n", "<a href:x/><!-- -->", "<b @text=~/(a+)+$/ @text:x/>",
};
const char * const kDocs[] = {
  "", " ", "x", "<a>", "<a href=1>one</a>", "<a href=http://x>1</a><b>2</b>", "<ul><li>1<li>2<li>3</ul>", "<div><a href=' u '>t</a><b>c</b></div><div><b>d</b></div>",
  "<p>a<b>b</b>c<b>d</b></p>", "<!DOCTYPE html><html><head><title>t</title></head><body><a href=5>5</a></body></html>", "<ul><li>1</li></ul><ul></ul><ul><li>2</li><li>3</li><li>4</li></ul>",
  "<a href=1>\xc3\xa4</a><a href=2>\xf0\x9f\x98\x80</a>", "<svg><a href=1>x</a></svg>", "<table><tr><td><a href=t>t</a></table>", "<a href='&lt;&amp;&quot;'>&copy;</a>",
  "<b>aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab</b>",
};

void cases(bool thorough)
{
  // values and names of all special characters, many at a time
  auto w = words(2);
  constexpr std::size_t kB = 16;
  for(std::size_t i = 0; i < w.size(); i += kB)
  {
    std::string val = "<p", ent, name = "<p", twice = "<p";
    for(std::size_t k = i; k < i + kB && k < w.size(); ++k)
    {
      ent += "<p a=\"";
      for(char c : w[k]) if( c == '"' ) ent += "&quot;"; else if( c == '\r' ) ent += "&#13;"; else if( c == '&' ) ent += "&amp;"; else ent += c;
      ent += "\"></p>";
      if( !w[k].empty() && w[k].back() == '\\' ) continue;
      val += " a:append(" + literal(w[k]) + "):" + (k % 3 ? "x" : "y");
      name += " a:" + literal(w[k]);
      twice += " a:" + literal(w[k]) + " b:" + literal(w[k]);
    }
    emit(val + "/>", "<p a=v>");
    emit("<p a:append(" + literal(w[i].empty() || w[i].back() == '\\' ? "x" : w[i]) + "):x/>", "<p a=''>");
    emit(name + "/>", "<p a=v b=w>");
    emit(twice + "/>", "<p a=v b=w>");
    emit("<p a:x/>", ent);
  }
  // each alone, as a single and as one of two values
  for(const auto& s : words(2))
  {
    if( !s.empty() && s.back() == '\\' ) continue;
    emit("<p a:append(" + literal(s) + "):" + literal(s) + "/>", "<p a=''>");
    emit("<p a:append(" + literal(s) + "):" + literal(s) + " a:" + literal(s) + "/>", "<p a=''>");
    emit("<p @text:x/>" + s, "<p>v</p>");
    emit("<p @text:x/>#" + s, "<p>v</p>");
    emit(s + "<p @text:x/>", "<p>v</p>");
    emit("<p @text:x/>", "<p>v</p>" + s + "<p>w</p>");
    emit("<p @text:x/>", s + "<p>v</p>");
  }
  // sequences of captures x multiplicities
  for(int n = 1; n <= (thorough ? 6 : 4); ++n)
    for(std::uint64_t i = 0; i < power(6, n); ++i)
    {
      std::string hext = "<p", html;
      for(int k = 0; k < n; ++k) { auto d = i / power(6, k) % 6; hext += std::string(" ") + "abc"[d % 3] + ":" + "xy"[d / 3] + "?"; }
      for(int s = 0; s < 8; ++s)
      {
        html += "<p";
        for(int k = 0; k < 3; ++k) if( s >> k & 1 ) html += std::string(" ") + "abc"[k] + "=" + "\xc3\xa9" + std::to_string(s) + "abc"[k];
        html += ">";
      }
      emit(hext + "/>", html);
    }
  // families
  for(std::uint64_t k = 1; k <= (thorough ? 300 : 80); ++k)
  {
    std::string hext = "<p", html;
    for(std::uint64_t i = 0; i < k; ++i) hext += (i == k / 2 ? " b:y" : "") + std::string(" a:append(\"") + std::to_string(i) + "\"):x";
    emit(hext + "/>", "<p a=1 b=2>");
    hext = "<p";
    for(std::uint64_t i = 0; i < k; ++i) hext += " a:n" + std::to_string(i) + (i % 7 == 3 ? " b:n" + std::to_string(i / 2) : std::string());
    emit(hext + "/>", "<p a=1 b=2>");
    for(std::uint64_t i = 0; i < k; ++i) html += i % 5 == 4 ? "<p>" : "<p a=" + std::to_string(i) + ">";
    emit("<p a:x?/>", html);
    if( k > 100 ) continue;
    std::uint64_t len = k < 30 ? k : k < 62 ? (std::uint64_t(1) << (k - 30) / 2 % 16) + k % 3 : k * 4096 + k % 3 - 1;
    html = "<p a='" + std::string(len, 'a') + "'>";
    for(std::uint64_t i = 0; i < len; ++i) html += i % 97 ? "b" : "\xc3\xa9\"";
    emit("<p a:x @text:y/>", html);
  }
  // the same next to the powers of two
  for(int e = 8; e <= (thorough ? 17 : 16); ++e) for(int d = -1; d <= 1; ++d)
  {
    auto k = (std::uint64_t(1) << e) + std::uint64_t(std::int64_t(d));
    auto t = [](std::uint64_t n, const std::string& x) { std::string o; for(std::uint64_t i = 0; i < n; ++i) o += x; return o; };
    emit("<ul><+li @text:x/></ul>", "<ul>" + t(k - 1, "<li>1</li>") + "<li>2</li></ul>");
    emit("<li @text:x/>", "<ul>" + t(k - 1, "<li>1</li>") + "<li>2</li></ul>");
    emit("<p a:x @text:y/>", "<p a='" + t(k, "a") + "'>" + t(k - 1, "b") + "\"");
    emit("<p a:" + t(k, "n") + " a:append('" + t(k, "v") + "'):x/>", "<p a=1>");
    emit("<p @text:x", t(k, " "));
    auto doc = t(k, "<i>a</i>");
    for(auto max : {std::uint64_t(1), k - 1, k, k + 1, k + 2, k + 3, k + 4, std::uint64_t(255), std::uint64_t(256), std::uint64_t(65536)})
      if( e < 10 || (e >= 15 && e < 17 && max > 1000 && (thorough || (max > k + 1 && max < k + 4))) ) emit("<p @text:x/>", doc, max);
    if( e > 12 ) continue;
    std::string hext = "<p";
    for(std::uint64_t i = 0; i < k; ++i) hext += " a:n" + std::to_string(i);
    emit(hext + " b:x/>", "<p a=1 b=2>");
  }
  // limits of all sizes
  for(int e = 5; e < 53; ++e) for(int d = -1; d <= 1; ++d) emit("<a href:x/>", "<a href=1>", (std::uint64_t(1) << e) + std::uint64_t(std::int64_t(d)));
  // rules x documents x limits
  for(auto r : kRules) for(auto d : kDocs)
    for(std::uint64_t max : {0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 30, 50, 100}) emit(r, d, max);
  // regular expressions work on bytes
  for(auto r : {"<p a:filter(/^./):x/>", "<p a:filter(/.$/):x/>", "<p a:filter(/^./):x a:x b:y/>", "<p a:filter(/^./):\"\xc3\xa9\" a:filter(/.$/):\"\xc3\xa9\"/>", "<p a:replace(/./,\"\\$&-\"):x/>", "<p a:trim(\"\xc3\xa4\"):x/>", "<p a:toupper:x/>"})
    for(auto d : {"<p a='\xc3\xa9' b=1>", "<p a='\xe2\x82\xac' b=1>", "<p a='\xf0\x9f\x98\x80' b='\xc3\xa9'><p a=x b=y>"}) emit(r, d);
  // limits beyond 32 and 53 bits do not wrap around
  for(std::uint64_t max : {std::uint64_t(1) << 31, (std::uint64_t(1) << 32) - 1, std::uint64_t(1) << 32, (std::uint64_t(1) << 32) + 1, (std::uint64_t(1) << 33) + 1, std::uint64_t(1) << 53})
    emit("<ul><+li @text:x/></ul>", "<ul><li>1<li>2</ul>", max);
}

// ---- errors -----------------------------------------------------------------

// searches that the regular expression library gives up (too many ways to
// match): in conditions, in pipes, with results before and after
std::vector<std::pair<std::string, std::string>> given_up()
{
  std::vector<std::pair<std::string, std::string>> v;
  const std::string rx = "/(a*)*(a*)*(a*)*b/", as(60, 'a');
  for(const auto& hext : {"<p x=~" + rx + " x:x/>", "<p @text=~" + rx + " @text:x/>", "<p x:filter(" + rx + "):x/>", "<p @text:replace(" + rx + ",\"-\"):x/>", "<p x=~" + rx + "! x:x/>", "<p:not(:type-matches(/x/)) x:trim:filter(" + rx + "i):x/>", "<?p x=~" + rx + " x:x/>", "<div>{<p @text=~" + rx + " @text:y/>}</div>"})
    for(const auto& html : {"<p x='" + as + "'>" + as + "</p>", "<div><p x=aab>aab</p><p x='" + as + "'>" + as + "</p></div>", "<p x='" + as + "'>" + as + "<p x=b>b", std::string("<div><p x=ab>b</p></div>")})
      v.push_back({hext, html});
  return v;
}

// texts that are no hext, and searches that are aborted, with their messages
void errors(bool thorough)
{
  auto bad = [](const std::string& s) { emit(s, "<a href=1>x</a><b>y</b>", 0, true); };
  const std::string base = "<a href^=\"h\" :first-child @text=~/x\\d(y)/i\n href:trim:x />\n<?b>{<x-y:nth-child(2n+1) @text:y/>}\n<!--\n# c\n</b>";
  const std::string good = "<a href^=\"h\" @text=~/x(y)/i\n href:trim:x />\n<?b>{<x-y:nth-child(2n+1) @text:y/>}\n# c\n</b>";
  auto al = alphabet();
  for(std::size_t i = 0; i <= base.size(); ++i) bad(base.substr(0, i));
  for(std::size_t i = 0; i <= good.size(); ++i)
  {
    bad(good.substr(0, i));
    for(const auto& c : al) { bad(good.substr(0, i) + c + good.substr(i)); if( i < good.size() ) bad(good.substr(0, i) + c + good.substr(i + 1)); }
  }
  for(const auto& w : words(2)) { bad(w); if( thorough ) { bad("<a\n" + w); bad("<a x=='" + w + "' " + w + "/>"); } }
  for(auto r : {"<a", "<a></b>", "</a>", "<a><b></a>", "<a>{<b/></a>", "<a>{}</a>", "{<b/>", "<x-y></x-z>", "<a:nth-child(99999999999)/>", "<a:child-count(-1)/>", "<a x=~/(/>", "<a x=~/[/i/>",
                "<a x:filter(/*/):x/>", "<a x=~/\xc3\xa4(/>", "<a x=='\xc3\xa4'></b>", "<a>\n\xe2\x82\xac\n</a>", "<a x:filter(/\xf0\x9f\x98\x80(/):y/>", "%s%n%d", "<a %s/>", "<a></%s>", "<%n></a>", "<a x=~/%s%n(/>"})
    for(int n : {0, 1, 8, 9, 10, 98, 99, 100, 998, 1000}) bad(std::string(std::size_t(n), '\n') + r);
  for(std::size_t n : {10, 63, 64, 100, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 200000})
  {
    bad(std::string(n, 'x'));
    bad("<a x=='" + std::string(n, 'x') + "' !>");
    bad("<a x=='" + std::string(n, 'x') + "\xc3\xa4'\xc3\xa4>");
    bad("<a x=='" + std::string(n, 'x') + "%s'></%n>");
    bad("<a" + std::string(n, 'x') + "></b>");
  }
  for(auto r : kRules) for(auto d : kDocs) for(std::uint64_t max : {1, 2, 3, 5, 8, 20}) emit(r, d, max, true);
  for(const auto& x : given_up()) for(std::uint64_t max : {0, 3, 100}) emit(x.first, x.second, max, true);
}

// ---- scripts ----------------------------------------------------------------

// what htmlext.py and the like have to print: [hext, html, outcome, outcome
// with the limit that most of them set]
void script(const std::string& hext, const std::string& html)
{
  if( !utf8_ok(hext) || !utf8_ok(html) ) return;
  auto o = outcome(hext, html, 0, true), l = outcome(hext, html, 10000, true);
  if( o == "\"any\"" || l == "\"any\"" ) return;
  std::cout << "[" << js(hext) << "," << js(html) << "," << o << "," << (l == o ? "null" : l) << "]\n";
}

void scripts(bool thorough)
{
  auto t = [](std::uint64_t n, const std::string& x) { std::string o; for(std::uint64_t i = 0; i < n; ++i) o += x; return o; };
  auto w = words(2);
  const std::size_t kB = thorough ? 8 : 64;
  for(std::size_t i = 0; i < w.size(); i += kB)
  {
    std::string val = "<p", ent, name = "<p", mixed = "<p";
    for(std::size_t k = i; k < i + kB && k < w.size(); ++k)
    {
      ent += "<p a=\"";
      for(char c : w[k]) if( c == '"' ) ent += "&quot;"; else if( c == '\r' ) ent += "&#13;"; else if( c == '&' ) ent += "&amp;"; else ent += c;
      ent += "\"></p>";
      if( !w[k].empty() && w[k].back() == '\\' ) continue;
      val += " a:append(" + literal(w[k]) + "):" + (k % 3 ? "x" : "y");
      name += " a:" + literal(w[k]);
      mixed += " a:append(" + literal(w[k]) + "):" + literal(w[k]) + (k % 2 ? " b:" + literal(w[k]) : "");
    }
    script(val + "/>", "<p a=v>");
    script(name + "/>", "<p a=v b=w>");
    script(mixed + "/>", "<p a=v b=w>");
    script("<p a:x/>", ent);
  }
  // what files begin and end with
  for(const char * a : {"\xef\xbb\xbf", "\xef\xbb\xbf\xef\xbb\xbf", "\n", "\n\n", "\r", "\r\n", " ", "\t", "\v", "\f", "\x1a", "\x04", "\xc2\xa0", "\xc2\x85", "\xe2\x80\xa8", "#!/usr/bin/htmlext\n", "<?php ?>", "\xe3\x80\x80", "__END__", "0"})
  {
    for(int w = 0; w < 4; ++w)
    {
      std::string b = w & 1 ? a : "", e = w & 2 ? a : "";
      script(b + "<p @text:x/>" + e, "<p>v</p>");
      script("<body @strip-tags:x @inner-html:y/>", b + "<p>v</p>" + e);
      script("<pre @strip-tags:x @inner-html:y/>", "<pre>" + b + "v" + e);
      script("<p a:append(\"" + b + "v" + e + "\"):x/>", "<p a=v>");
    }
  }
  // names alone: an object with one member (or members in sequence) is an object
  for(auto n : {"0", "1", "-1", "00", "9223372036854775807", "__proto__", "length", "toJSON", "constructor", "", " ", "1.5"})
  {
    script("<p a:" + literal(n) + "/>", "<p a=v>");
    script("<p a:" + literal(n) + " b:" + literal(n) + "/>", "<p a=v b=w>");
    script("<p a:" + literal(n) + " b:\"1\"/>", "<p a=v b=w><p a=x b=y>");
  }
  for(int n = 1; n <= (thorough ? 4 : 2); ++n)
    for(std::uint64_t i = 0; i < power(6, n); ++i)
    {
      std::string hext = "<p", html;
      for(int k = 0; k < n; ++k) { auto d = i / power(6, k) % 6; hext += std::string(" ") + "abc"[d % 3] + ":" + "01"[d / 3] + "?"; }
      for(int s = 0; s < 8; ++s)
      {
        html += "<p";
        for(int k = 0; k < 3; ++k) if( s >> k & 1 ) html += std::string(" ") + "abc"[k] + "=" + "\xc3\xa9" + std::to_string(s) + "abc"[k];
        html += ">";
      }
      script(hext + "/>", html);
    }
  // numbers and sizes
  std::vector<std::uint64_t> ns;
  for(std::uint64_t n = 0; n <= (thorough ? 60 : 12); ++n) ns.push_back(n);
  for(int e = thorough ? 6 : 12; e <= 17; ++e) for(int d = -1; d <= 1; ++d) ns.push_back((std::uint64_t(1) << e) + std::uint64_t(std::int64_t(d)));
  for(auto k : ns)
  {
    if( k ) script("<ul><+li @text:x/></ul>", "<ul>" + t(k - 1, "<li>1</li>") + "<li>2</li></ul>");
    if( k ) script("<li @text:x/>", "<ul>" + t(k - 1, "<li>1</li>") + "<li>2</li></ul>");
    script("<p a:x @text:y/>", "<p a='" + t(k, "a") + "'>" + t(k, "b") + "\"");
    script("<p @text:x/>" + t(k, "\n") + "#" + t(k, " "), "<p>x</p>" + t(k, " "));
    script("<p @text:x" + t(k, " "), "");
    if( k > 9000 && k < 11000 && !thorough ) continue;
    script("<p @text:x/>", t(k, "<i>a</i>") + "<p>x</p>");
  }
  for(std::uint64_t k : {9990, 9994, 9995, 9996, 9997, 9998, 9999, 10000, 10001}) script("<p @text:x/>", t(k, "<i>a</i>") + "<p>x</p>");
  for(auto r : kRules) for(auto d : kDocs) script(r, d);
  // errors
  for(const auto& x : given_up()) script(x.first, x.second);
  const std::string base = "<a href^=\"h\" :first-child @text=~/x\\d(y)/i\n href:trim:x />\n<?b>{<x-y:nth-child(2n+1) @text:y/>}\n<!--\n# c\n</b>";
  for(std::size_t i = 0; i <= base.size(); ++i) script(base.substr(0, i), "<a>");
  for(const auto& c : alphabet()) { script(c, "<a>"); script("<a>\n" + c + "\n</a>", "<a>"); script("<a x=='" + c + "'></b>", "<a>"); }
  for(auto r : {"<a></b>", "</a>", "<a>{<b/></a>", "<a>{}</a>", "<a:nth-child(99999999999)/>", "<a x=~/(/>", "<a x=~/\xc3\xa4(/>", "<a>\n\xe2\x82\xac\n</a>", "%s%n%d", "<a></%s>"})
    for(int n : {0, 9, 100, 1000}) script(std::string(std::size_t(n), '\n') + r, "");
}

// ---- histories --------------------------------------------------------------

struct Op { std::string name, js; int rule = -1, html = -1, result = -1; };

// a document refers to the text it was made of for the names of custom elements
const char * const kR[] = {"<a href:x @text:y @inner-html:z/>", "<ul>{<x-item @text:x/>}</ul>"};
const char * const kH[] = {"<a href=1>one<x-y>!</x-y></a><ul><x-item>p</x-item><li>q<X-Item>r</X-Item></ul>",
                           "<ul><x-item>\xc3\xa4</x-item></ul><ul><li>z</ul><a href='&#x1F600;'>two<x-z-name-that-is-longer-than-a-short-string></x-z-name-that-is-longer-than-a-short-string></a><a href=3>three</a>"};
const char * const kBad[] = {"<a href:x", "<a href=~/(/ />"};

std::vector<Op> ops()
{
  std::vector<Op> v;
  auto add = [&](Op o) { o.js = "[" + js(o.name) + "," + std::to_string(o.rule) + "," + std::to_string(o.html) + "," + std::to_string(o.result) + (o.js.empty() ? "" : "," + o.js) + "]"; v.push_back(o); };
  for(int i = 0; i < 2; ++i) { Op o; o.name = "rule"; o.rule = i; o.js = js(kR[i]); add(o); }
  for(int i = 0; i < 2; ++i) { Op o; o.name = "html"; o.html = i; o.js = js(kH[i]); add(o); }
  for(int r = 0; r < 2; ++r) for(int h = 0; h < 2; ++h)
  {
    Op o; o.name = "extract"; o.rule = r; o.html = h; o.result = (r + h) % 2; o.js = outcome(kR[r], kH[h], 0); add(o);
    Op l; l.name = "limit"; l.rule = r; l.html = h; add(l);
  }
  for(int i = 0; i < 2; ++i)
  {
    Op o; o.name = "bad"; o.rule = i; o.js = js(kBad[i]); add(o);
    Op a; a.name = "drop"; a.rule = i; add(a);
    Op b; b.name = "drop"; b.html = i; add(b);
    Op c; c.name = "drop"; c.result = i; add(c);
    Op m; m.name = "change"; m.result = i; add(m);
  }
  Op w; w.name = "wrong"; add(w);
  // a new rule or document in place of one that was released, with the text of
  // the other one
  for(int r = 0; r < 2; ++r) for(int h = 0; h < 2; ++h)
  {
    Op a; a.name = "new-rule"; a.rule = r; a.html = h; a.js = js(kR[1 - r]) + "," + outcome(kR[1 - r], kH[h], 0); add(a);
    Op b; b.name = "new-html"; b.rule = r; b.html = h; b.js = js(kH[1 - h]) + "," + outcome(kR[r], kH[1 - h], 0); add(b);
  }
  return v;
}

// slots in use: rules 1, 2; documents 4, 8; results 16, 32
int step(const Op& o, int s)
{
  int r = o.rule >= 0 ? 1 << o.rule : 0, h = o.html >= 0 ? 4 << o.html : 0, x = o.result >= 0 ? 16 << o.result : 0;
  if( o.name == "rule" ) return s | r;
  if( o.name == "html" ) return s | h;
  if( o.name == "extract" ) return (s & r) && (s & h) ? s | x : -1;
  if( o.name == "limit" ) return (s & r) && (s & h) ? s : -1;
  if( o.name == "drop" ) return s & (r | h | x) ? s & ~(r | h | x) : -1;
  if( o.name == "change" ) return s & x ? s & ~x : -1;
  if( o.name == "new-rule" ) return (s & r) && (s & h) ? s & ~r : -1;
  if( o.name == "new-html" ) return (s & r) && (s & h) ? s & ~h : -1;
  return s;
}

void memory(bool thorough)
{
  auto v = ops();
  std::cout << "[";
  for(std::size_t i = 0; i < v.size(); ++i) std::cout << (i ? "," : "") << v[i].js;
  std::cout << "]\n";
  std::vector<int> h;
  std::function<void(int, int)> go = [&](int s, int left) {
    for(std::size_t i = 0; i < v.size(); ++i)
    {
      int n = step(v[i], s);
      if( n < 0 ) continue;
      h.push_back(int(i));
      std::cout << "[";
      for(std::size_t k = 0; k < h.size(); ++k) std::cout << (k ? "," : "") << h[k];
      std::cout << "]\n";
      if( left > 1 ) go(n, left - 1);
      h.pop_back();
    }
  };
  go(0, thorough ? 3 : 2);
  h = {0, 1, 2, 3, 4, 6};
  int s = 0;
  for(int i : h) s = step(v[static_cast<std::size_t>(i)], s);
  go(s, thorough ? 2 : 1);
  // values of every kind, and those that cannot be converted
  for(auto r : {"<p a:x/>", "<p a:x a:y @text:x/>", "<p a:x a:x a:x/>", "<p a:x b:x? @inner-html:long-name-that-does-not-fit-into-a-short-string/>", "<p a:filter(/./):x/>", "<p a:x b:filter(/./):x @text:filter(/./):x/>", "<p a:x b:filter(/./):y @text:x/>"})
    for(auto d : {"<p>", "<p a=1 b=2>x</p>", "<p a=\"a value that is too long for a short string\" b=2>another text that is as long</p>", "<p a=1>x</p><p a=2>y</p><p a=3>z</p>", "<p a=\xc3\xa4 b=1>x</p>", "<p a=1 b=\xc3\xa4>\xc3\xa4</p>",
                  "<p a=1 b=2>x</p><p a=\xc3\xa4 b=\xc3\xa4>y</p>"})
      for(std::uint64_t max : {0, 3}) emit(r, d, max);
  for(auto r : {"<a", "</a>", "<a><b></a>", "<a x=~/(/>", "<a x=~/\xc3\xa4(/>", "<a>{<b/>", "<a @text:x", "<a nosuch=\"\xc3\xa4", "<a:nth-child(99999999999)/>"}) emit(r, "<p>", 0);
}

void histories(bool thorough)
{
  auto v = ops();
  std::cout << "[";
  for(std::size_t i = 0; i < v.size(); ++i) std::cout << (i ? "," : "") << v[i].js;
  std::cout << "]\n";
  std::vector<int> h;
  std::function<void(int, int)> go = [&](int s, int left) {
    if( left == 0 )
    {
      std::cout << "[";
      for(std::size_t i = 0; i < h.size(); ++i) std::cout << (i ? "," : "") << h[i];
      std::cout << "]\n";
      return;
    }
    for(std::size_t i = 0; i < v.size(); ++i)
    {
      int n = step(v[i], s);
      if( n < 0 ) continue;
      h.push_back(int(i));
      go(n, left - 1);
      h.pop_back();
    }
  };
  go(0, thorough ? 5 : 4);
  // from everything in use
  h = {0, 1, 2, 3, 4, 6};
  int s = 0;
  for(int i : h) s = step(v[static_cast<std::size_t>(i)], s);
  go(s, thorough ? 4 : 3);
}

} // namespace

int main(int argc, char ** argv)
{
  std::ios::sync_with_stdio(false);
  if( argc < 3 ) return 2;
  bool th = std::strcmp(argv[2], "thorough") == 0;
  if( std::strcmp(argv[1], "cases") == 0 ) cases(th); else if( std::strcmp(argv[1], "errors") == 0 ) errors(th); else if( std::strcmp(argv[1], "scripts") == 0 ) scripts(th); else if( std::strcmp(argv[1], "memory") == 0 ) memory(th); else histories(th);
  return 0;
}
