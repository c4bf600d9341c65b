// Exhaustive generators of small documents and rule trees.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace gen {

// ------------------------------------------------------------ documents ----
// Labels >= 0 are elements, label -1 is a text node.
struct Tree { int label; std::vector<Tree> kids; };
using Forest = std::vector<Tree>;

// all forests with exactly n nodes; adjacent text nodes are excluded, because
// the HTML parser would merge them
inline const std::vector<Forest>& forests(int n, int nlabels, bool text)
{
  static std::map<std::tuple<int, int, bool>, std::vector<Forest>> memo;
  auto key = std::make_tuple(n, nlabels, text);
  auto it = memo.find(key);
  if( it != memo.end() ) return it->second;
  std::vector<Forest> out;
  if( n == 0 ) out.push_back({});
  for(int k = 1; k <= n; ++k)               // size of the first tree
  {
    auto below = forests(k - 1, nlabels, text);
    auto rest = forests(n - k, nlabels, text);
    for(int l = (text && k == 1) ? -1 : 0; l < nlabels; ++l)
      for(const auto& b : (l < 0 ? std::vector<Forest>{{}} : below))
        for(const auto& r : rest)
        {
          if( l < 0 && !r.empty() && r[0].label < 0 ) continue;
          Forest f;
          f.push_back({l, b});
          f.insert(f.end(), r.begin(), r.end());
          out.push_back(std::move(f));
        }
  }
  return memo.emplace(key, std::move(out)).first->second;
}

struct HtmlStyle
{
  std::vector<std::string> tags = {"div", "span", "section"};
  bool zz = false;       // give every second element an attribute zz
};

inline void render(const Forest& f, const HtmlStyle& st, int& id, std::string& out)
{
  for(const auto& t : f)
  {
    if( t.label < 0 ) { out += "t"; continue; }
    const auto& tag = st.tags[std::size_t(t.label)];
    out += "<" + tag + " id=" + std::to_string(id);
    if( st.zz && id % 2 ) out += " zz=z" + std::to_string(id);
    out += ">";
    ++id;
    render(t.kids, st, id, out);
    out += "</" + tag + ">";
  }
}

inline std::string html(const Forest& f, const HtmlStyle& st = {})
{
  int id = 0;
  std::string out = "<!DOCTYPE html><html><head></head><body>";
  render(f, st, id, out);
  return out + "</body></html>";
}

// documents with at most n nodes in the body
inline std::vector<std::string> docs(int n, int nlabels, bool text, const HtmlStyle& st = {})
{
  std::vector<std::string> out;
  for(int i = 0; i <= n; ++i)
    for(const auto& f : forests(i, nlabels, text)) out.push_back(html(f, st));
  return out;
}

// a body with a single list of at most n siblings
inline std::vector<std::string> rows(int n, int nlabels, const HtmlStyle& st = {})
{
  std::vector<std::string> out;
  std::vector<std::vector<int>> level{{}};
  for(int i = 0; i <= n; ++i)
  {
    std::vector<std::vector<int>> next;
    for(const auto& r : level)
    {
      Forest f;
      for(int l : r) f.push_back({l, {}});
      out.push_back(html(f, st));
      for(int l = 0; l < nlabels; ++l) { auto x = r; x.push_back(l); next.push_back(x); }
    }
    level = std::move(next);
  }
  return out;
}

// ---------------------------------------------------------------- rules ----
struct RuleSpec
{
  int tag = 0;            // index into a tag table; -1 any
  bool optional = false, greedy = false;
  int caps = 0;           // free for the check
  std::vector<RuleSpec> kids;
  std::vector<std::vector<RuleSpec>> nested;
};
using ChainSpec = std::vector<RuleSpec>;

// Shapes: how rules relate, without labels.
inline const std::vector<ChainSpec>& chains(int n, bool kids, bool nested);

inline std::vector<std::vector<ChainSpec>> nested_lists(int n, bool kids, bool nested)
{
  std::vector<std::vector<ChainSpec>> out;
  if( n == 0 ) return {{}};
  if( !nested ) return out;
  for(int b = 1; b <= n; ++b)
    for(const auto& c : chains(b, kids, nested))
      for(const auto& rest : nested_lists(n - b, kids, nested))
      {
        std::vector<ChainSpec> l{c};
        l.insert(l.end(), rest.begin(), rest.end());
        out.push_back(std::move(l));
      }
  return out;
}

inline const std::vector<ChainSpec>& chains(int n, bool kids, bool nested)
{
  static std::map<std::tuple<int, bool, bool>, std::vector<ChainSpec>> memo;
  auto key = std::make_tuple(n, kids, nested);
  auto it = memo.find(key);
  if( it != memo.end() ) return it->second;
  std::vector<ChainSpec> out;
  if( n == 0 ) out.push_back({});
  for(int k = 1; k <= n; ++k)
    for(int a = 0; a <= k - 1; ++a)
    {
      if( a && !kids ) break;
      auto cs = chains(a, kids, nested);
      auto ns = nested_lists(k - 1 - a, kids, nested);
      auto rs = chains(n - k, kids, nested);
      for(const auto& c : cs)
        for(const auto& nl : ns)
          for(const auto& r : rs)
          {
            ChainSpec s(1);
            s[0].kids = c;
            s[0].nested = nl;
            s.insert(s.end(), r.begin(), r.end());
            out.push_back(std::move(s));
          }
    }
  return memo.emplace(key, std::move(out)).first->second;
}

// visit the rules of a chain in a fixed order
template<class F> void visit(ChainSpec& c, F&& f)
{
  for(auto& r : c)
  {
    f(r);
    visit(r.kids, f);
    for(auto& n : r.nested) visit(n, f);
  }
}

inline bool has_nested(const ChainSpec& c)
{
  for(const auto& r : c) if( !r.nested.empty() || has_nested(r.kids) ) return true;
  return false;
}

// A family of labelled rule trees, addressable by index.
struct Family
{
  std::vector<ChainSpec> shapes;
  std::vector<int> sizes;
  std::vector<std::uint64_t> begin;
  std::uint64_t total = 0;
  int nlabels = 1;
  std::function<void(RuleSpec&, int label)> label;

  void add(int n, const std::vector<ChainSpec>& s)
  {
    std::uint64_t per = 1;
    for(int i = 0; i < n; ++i) per *= std::uint64_t(nlabels);
    for(const auto& c : s) { shapes.push_back(c); sizes.push_back(n); begin.push_back(total); total += per; }
  }
  ChainSpec get(std::uint64_t i) const
  {
    std::size_t lo = 0, hi = shapes.size();
    while( hi - lo > 1 ) { auto mid = (lo + hi) / 2; (begin[mid] <= i ? lo : hi) = mid; }
    ChainSpec c = shapes[lo];
    std::uint64_t x = i - begin[lo];
    visit(c, [&](RuleSpec& r) { label(r, int(x % std::uint64_t(nlabels))); x /= std::uint64_t(nlabels); });
    return c;
  }
};

inline std::string to_hext(const ChainSpec& c, const std::vector<std::string>& tags, int& id)
{
  std::string o;
  for(const auto& r : c)
  {
    std::string t = r.tag < 0 ? "*" : tags[std::size_t(r.tag)];
    o += "<" + std::string(r.greedy ? "+" : "") + (r.optional ? "?" : "") + t + " [r" + std::to_string(id++) + "]";
    if( r.kids.empty() && r.nested.empty() ) { o += "/>"; continue; }
    o += ">" + to_hext(r.kids, tags, id);
    for(const auto& n : r.nested) o += "{" + to_hext(n, tags, id) + "}";
    o += "</" + t + ">";
  }
  return o;
}

} // namespace gen
