// Reference model of Hext, written from its documentation: the parsed document
// as a plain tree, rules as plain data, and a matcher in terms of positions in
// sibling lists. Nothing here uses libhext; gumbo (the HTML parser) and
// boost::regex are trusted.
#pragma once
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <strings.h>
#include <utility>
#include <vector>
#include <gumbo.h>
#include <boost/regex.hpp>

namespace ref {

struct Attr { std::string name, value; std::string qname; };   // qname: with the prefix of a foreign attribute

struct Node
{
  enum Kind { Element, Text, Whitespace, Comment, Cdata, Template, Other } kind = Other;
  std::string tag;                 // lower case name of an element
  bool known = false;              // is it a tag that HTML defines?
  std::vector<Attr> attrs;
  std::string text;
  std::vector<int> kids;
  int ns = 0;                      // namespace of an element
  int parent = -1;
  int pos = 0;                     // position among its siblings
  const GumboNode * g = nullptr;
};

struct Doc
{
  std::vector<Node> nodes;         // 0 is the root element
  std::map<const GumboNode *, int> index;

  static std::string lower(std::string s)
  {
    for(char& c : s) if( c >= 'A' && c <= 'Z' ) c = char(c - 'A' + 'a');
    return s;
  }

  static std::string element_name(const GumboElement& e)
  {
    if( e.tag != GUMBO_TAG_UNKNOWN ) return gumbo_normalized_tagname(e.tag);
    // "<name ...>"
    const char * b = e.original_tag.data;
    std::size_t n = e.original_tag.length, i = 1;
    if( !b || n < 2 ) return "";
    if( b[1] == '/' ) i = 2;
    std::size_t s = i;
    while( i < n && b[i] != '>' && b[i] != '/' && b[i] != ' ' && b[i] != '\t' && b[i] != '\n' && b[i] != '\f' && b[i] != '\r' ) ++i;
    return lower(std::string(b + s, i - s));
  }

  int add(const GumboNode * g, int parent, int pos)
  {
    int me = int(nodes.size());
    nodes.emplace_back();
    index[g] = me;
    {
      Node& n = nodes.back();
      n.g = g;
      n.parent = parent;
      n.pos = pos;
      switch( g->type )
      {
        case GUMBO_NODE_ELEMENT: n.kind = Node::Element; break;
        case GUMBO_NODE_TEMPLATE: n.kind = Node::Template; break;
        case GUMBO_NODE_TEXT: n.kind = Node::Text; break;
        case GUMBO_NODE_WHITESPACE: n.kind = Node::Whitespace; break;
        case GUMBO_NODE_COMMENT: n.kind = Node::Comment; break;
        case GUMBO_NODE_CDATA: n.kind = Node::Cdata; break;
        default: n.kind = Node::Other;
      }
      if( n.kind == Node::Element || n.kind == Node::Template )
      {
        n.known = g->v.element.tag != GUMBO_TAG_UNKNOWN;
        n.tag = element_name(g->v.element);
        n.ns = int(g->v.element.tag_namespace);
        for(unsigned i = 0; i < g->v.element.attributes.length; ++i)
        {
          auto a = static_cast<const GumboAttribute *>(g->v.element.attributes.data[i]);
          std::string name = a->name ? a->name : "", q = name;
          if( a->attr_namespace == GUMBO_ATTR_NAMESPACE_XLINK ) q = "xlink:" + name;
          else if( a->attr_namespace == GUMBO_ATTR_NAMESPACE_XML ) q = "xml:" + name;
          else if( a->attr_namespace == GUMBO_ATTR_NAMESPACE_XMLNS && name != "xmlns" ) q = "xmlns:" + name;
          n.attrs.push_back({name, a->value ? a->value : "", q});
        }
      }
      else if( n.kind != Node::Other )
        n.text = g->v.text.text ? g->v.text.text : "";
    }
    if( g->type == GUMBO_NODE_ELEMENT || g->type == GUMBO_NODE_TEMPLATE )
    {
      const GumboVector& c = g->v.element.children;
      for(unsigned i = 0; i < c.length; ++i)
      {
        int k = add(static_cast<const GumboNode *>(c.data[i]), me, int(i));
        nodes[std::size_t(me)].kids.push_back(k);
      }
    }
    return me;
  }

  explicit Doc(const GumboNode * root) { if( root ) add(root, -1, 0); }

  const Node& at(int i) const { return nodes[std::size_t(i)]; }
  bool elem(int i) const { return at(i).kind == Node::Element; }
};

// ---------------------------------------------------------------- rules ----

struct Rule
{
  int id = 0;
  bool optional = false, greedy = false;
  std::function<bool(const Doc&, int)> pred;   // tag and predicates
  std::vector<Rule> kids;                      // chain of child rules
  std::vector<std::vector<Rule>> nested;       // nested chains
};
using Chain = std::vector<Rule>;
using Pair = std::pair<const Rule *, int>;
using Group = std::vector<Pair>;

inline int next_mandatory(const Chain& c, int from, int to)
{
  for(int i = from; i < to; ++i) if( !c[std::size_t(i)].optional ) return i;
  return -1;
}
inline bool has_mandatory(const Chain& c) { return next_mandatory(c, 0, int(c.size())) >= 0; }

class Matcher
{
public:
  explicit Matcher(const Doc& d) : doc(d) {}
  std::uint64_t states = 0, transitions = 0, searches = 0;

  // all groups found in the sibling list and below it
  void search(const Chain& chain, const std::vector<int>& sib, std::vector<Group>& out)
  {
    ++searches;
    int p = 0, m = int(sib.size());
    while( p >= 0 && p < m )
    {
      Group g;
      p = group(chain, sib, p, g);
      if( !g.empty() ) out.push_back(std::move(g));
    }
    for(int n : sib)
      if( doc.elem(n) && !doc.at(n).kids.empty() )
        search(chain, doc.at(n).kids, out);
  }

  std::vector<Group> run(const Chain& chain)
  {
    std::vector<Group> out;
    if( !doc.nodes.empty() ) search(chain, {0}, out);
    return out;
  }

private:
  const Doc& doc;

  bool node_matches(const Rule& r, int n, Group& out)
  {
    ++transitions;
    if( !r.pred(doc, n) ) return false;
    if( r.kids.empty() && r.nested.empty() ) return true;
    if( !doc.elem(n) ) return false;
    const auto& sib = doc.at(n).kids;
    Group sub;
    if( !r.kids.empty() )
    {
      bool ok = !has_mandatory(r.kids);
      int p = 0, m = int(sib.size());
      while( p >= 0 && p < m )
      {
        Group g;
        p = group(r.kids, sib, p, g);
        if( !g.empty() ) { ok = true; sub.insert(sub.end(), g.begin(), g.end()); }
      }
      if( !ok ) return false;
    }
    for(const auto& nest : r.nested)
    {
      std::vector<Group> gs;
      if( !sib.empty() ) search(nest, sib, gs);
      if( gs.empty() && has_mandatory(nest) ) return false;
      for(auto& g : gs) sub.insert(sub.end(), g.begin(), g.end());
    }
    out.insert(out.end(), sub.begin(), sub.end());
    return true;
  }

  // first position in [from,to) whose node matches
  int first(const Rule& r, const std::vector<int>& sib, int from, int to, Group& out)
  {
    for(int p = from; p < to; ++p)
      if( node_matches(r, sib[std::size_t(p)], out) ) return p;
    return -1;
  }

  // bind the rules [i,e) to the siblings [p,end), each as if it was optional;
  // returns the position behind the last bound sibling, or -1
  int fill(const Chain& c, int i, int e, const std::vector<int>& sib, int p, int end, Group& g)
  {
    int behind = -1;
    while( i < e )
    {
      const Rule& r = c[std::size_t(i)];
      int q = first(r, sib, p, end, g);
      if( q >= 0 )
      {
        g.push_back({&r, sib[std::size_t(q)]});
        p = behind = q + 1;
        if( r.greedy ) continue;
      }
      ++i;
    }
    return behind;
  }

  // Match one group starting at position p. Returns where to continue, -1 for
  // nowhere. An unsuccessful group stays empty.
  int group(const Chain& c, const std::vector<int>& sib, int p, Group& out)
  {
    const int k = int(c.size()), m = int(sib.size());
    Group g;
    int i = 0;
    while( i < k && p < m )
    {
      ++states;
      const Rule& r = c[std::size_t(i)];
      bool repeating = r.greedy && !g.empty() && g.back().first == &r;
      if( r.optional || repeating )
      {
        int stop = next_mandatory(c, i + 1, k);
        if( stop >= 0 )
        {
          const Rule& s = c[std::size_t(stop)];
          Group below;
          int q = first(s, sib, p, m, below);
          if( q < 0 ) return -1;
          g.insert(g.end(), below.begin(), below.end());
          fill(c, i, stop, sib, p, q, g);
          g.push_back({&s, sib[std::size_t(q)]});
          i = stop + 1;
          p = q + 1;
          continue;
        }
        stop = next_mandatory(c, 0, i);
        if( stop < 0 )
        {
          int next = fill(c, i, k, sib, p, m, g);
          out = std::move(g);
          return next;
        }
        Group ignored;
        int q = first(c[std::size_t(stop)], sib, p, m, ignored);
        fill(c, i, k, sib, p, q < 0 ? m : q, g);
        out = std::move(g);
        return q;
      }
      int q = first(r, sib, p, m, g);
      if( q < 0 ) return -1;
      g.push_back({&r, sib[std::size_t(q)]});
      if( !r.greedy ) ++i;
      p = q + 1;
    }
    if( i < k && c[std::size_t(i)].greedy && !g.empty() && g.back().first == &c[std::size_t(i)] ) ++i;
    while( i < k && c[std::size_t(i)].optional ) ++i;
    if( i < k ) return -1;
    out = std::move(g);
    return p;
  }
};

} // namespace ref
