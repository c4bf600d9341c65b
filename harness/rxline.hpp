// A matcher for a few regular expressions, with the meaning that the default
// syntax (Perl) of the library gives them for values of several lines: a dot
// matches every character, ^ and $ match at both ends of every line.
#pragma once
#include <string>
#include <vector>

namespace rxline {

struct El { std::string text; std::string set; bool negated = false, star = false, group = false; char anchor = 0; };

inline std::vector<El> elements()
{
  return {{"a", "a"}, {".", "", true}, {"\\n", "\n"}, {"[^a]", "a", true}, {"\\s", "\n \t"}, {"^", "", false, false, false, '^'},
          {"$", "", false, false, false, '$'}, {".*", "", true, true}, {"a*", "a", false, true}, {"(.*)", "", true, true, true}, {"\\S", "\n \t", true}};
}

struct Match { bool ok = false; std::size_t b = 0, e = 0; bool grouped = false; std::size_t gb = 0, ge = 0; };

inline bool in(const El& e, char c) { return (e.set.find(c) != std::string::npos) != e.negated; }

// not_empty_at: a position where an empty match does not count
inline bool from(const std::vector<El>& p, std::size_t i, const std::string& s, std::size_t at, std::size_t start, std::size_t not_empty_at, Match& m)
{
  if( i == p.size() ) { if( at == start && start == not_empty_at ) return false; m.ok = true; m.b = start; m.e = at; return true; }
  const El& e = p[i];
  if( e.anchor == '^' ) return (at == 0 || s[at - 1] == '\n') && from(p, i + 1, s, at, start, not_empty_at, m);
  if( e.anchor == '$' ) return (at == s.size() || s[at] == '\n') && from(p, i + 1, s, at, start, not_empty_at, m);
  if( !e.star ) return at < s.size() && in(e, s[at]) && from(p, i + 1, s, at + 1, start, not_empty_at, m);
  std::size_t n = 0;
  while( at + n < s.size() && in(e, s[at + n]) ) ++n;
  for(std::size_t k = n + 1; k-- > 0; )
    if( from(p, i + 1, s, at + k, start, not_empty_at, m) )
    {
      // the first group of the pattern is the one that counts
      if( e.group ) { m.grouped = true; m.gb = at; m.ge = at + k; }
      return true;
    }
  return false;
}

inline Match search(const std::vector<El>& p, const std::string& s, std::size_t begin = 0, std::size_t not_empty_at = std::string::npos)
{
  Match m;
  for(std::size_t b = begin; b <= s.size() && !m.ok; ++b) from(p, 0, s, b, b, not_empty_at, m);
  return m;
}

inline std::string filter(const std::vector<El>& p, const std::string& s)
{
  auto m = search(p, s);
  if( !m.ok ) return "";
  return m.grouped ? s.substr(m.gb, m.ge - m.gb) : s.substr(m.b, m.e - m.b);
}

inline std::string replace(const std::vector<El>& p, const std::string& s, const std::string& by)
{
  std::string o;
  std::size_t at = 0, no = std::string::npos;
  for(;;)
  {
    auto m = search(p, s, at, no);
    if( !m.ok ) return o + s.substr(at);
    o += s.substr(at, m.b - at) + by;
    at = m.e;
    no = m.b == m.e ? m.e : std::string::npos;
  }
}

inline std::string text(const std::vector<El>& p) { std::string o; for(const auto& e : p) o += e.text; return o; }

inline std::vector<std::vector<El>> patterns(int n)
{
  std::vector<std::vector<El>> v{{}};
  for(std::size_t b = 0, l = 0; int(l) < n; ++l)
  {
    std::size_t e = v.size();
    for(; b < e; ++b) for(const auto& x : elements()) { auto q = v[b]; q.push_back(x); v.push_back(q); }
  }
  v.erase(v.begin());
  return v;
}

}
