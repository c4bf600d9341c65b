// Reference for the hext language, written from its documentation: the lexical
// grammar as a nondeterministic automaton (made deterministic by the subset
// construction), the tag and nesting rules as a pushdown on top of it, and the
// text of error messages. Nothing here uses libhext.
#pragma once
#include <array>
#include <bitset>
#include <cstdint>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include <strings.h>
#include <boost/regex.hpp>
#include "tags.hpp"

namespace lang {

using Class = std::bitset<256>;

struct Ex;
using E = std::shared_ptr<Ex>;
struct Ex { enum K { Cls, Seq, Alt, Star } k; Class c; std::vector<E> sub; };

inline E cls(Class c) { return std::make_shared<Ex>(Ex{Ex::Cls, c, {}}); }
inline E seq(std::vector<E> v) { return std::make_shared<Ex>(Ex{Ex::Seq, {}, std::move(v)}); }
inline E alt(std::vector<E> v) { return std::make_shared<Ex>(Ex{Ex::Alt, {}, std::move(v)}); }
inline E star(E e) { return std::make_shared<Ex>(Ex{Ex::Star, {}, {std::move(e)}}); }
inline E opt(E e) { return alt({std::move(e), seq({})}); }
inline E plus(E e) { return seq({e, star(e)}); }
inline E lit(const std::string& s)
{
  std::vector<E> v;
  for(unsigned char ch : s) { Class c; c.set(ch); v.push_back(cls(c)); }
  return seq(v);
}
inline Class chars(const std::string& s) { Class c; for(unsigned char ch : s) c.set(ch); return c; }
inline Class range(int a, int b) { Class c; for(int i = a; i <= b; ++i) c.set(std::size_t(i)); return c; }
inline E alts(std::initializer_list<const char *> l) { std::vector<E> v; for(auto s : l) v.push_back(lit(s)); return alt(v); }

inline const Class& kSpace() { static const Class c = chars(" \t\n\v\f\r"); return c; }
inline const Class& kDigit() { static const Class c = range('0', '9'); return c; }
inline const Class& kAlpha() { static const Class c = range('a', 'z') | range('A', 'Z'); return c; }
inline const Class& kName() { static const Class c = kAlpha() | kDigit() | chars("-_"); return c; }

// text between delimiters: a delimiter directly behind a backslash does not
// close
inline E delimited(char d)
{
  Class no = ~chars(std::string("\\") + d), bs = chars("\\"), any = ~chars("\\");
  return seq({cls(chars(std::string(1, d))), star(alt({cls(no), seq({plus(cls(bs)), cls(any)})})), cls(chars(std::string(1, d)))});
}

inline E grammar()
{
  E sp = cls(kSpace());
  E quoted = alt({delimited('"'), delimited('\'')});
  E regex = seq({alt({delimited('/'), delimited('"'), delimited('\'')}), star(cls(chars("ic")))});
  E digits = plus(cls(kDigit()));
  E nth = alt({lit("even"), lit("odd"), seq({opt(lit("-")), digits, opt(seq({lit("n"), opt(seq({cls(chars("+-")), digits}))}))})});
  E trait = seq({lit(":"), alt({
    alts({"empty", "first-child", "last-child", "first-of-type", "last-of-type", "only-child", "only-of-type"}),
    seq({alts({"child-count(", "attribute-count("}), digits, lit(")")}),
    seq({alts({"nth-child(", "nth-last-child(", "nth-of-type(", "nth-last-of-type("}), nth, lit(")")}),
    seq({lit("type-matches("), regex, lit(")")}) })});
  E not_trait = seq({lit(":not("), plus(trait), lit(")")});
  E pipe = seq({lit(":"), alt({
    alts({"trim", "collapsews", "tolower", "toupper"}),
    seq({alts({"trim(", "prepend(", "append("}), quoted, lit(")")}),
    seq({lit("filter("), regex, lit(")")}),
    seq({lit("replace("), regex, star(sp), lit(","), star(sp), quoted, lit(")")}) })});
  E capture = seq({star(pipe), lit(":"), alt({quoted, plus(cls(kName() | chars(".")))})});
  E match_arg = seq({alts({"=", "==", "^=", "*=", "$="}), quoted});
  E regex_arg = seq({lit("=~"), regex});
  E builtin = alts({"@text", "@inner-html", "@strip-tags"});
  E attr = seq({cls(kAlpha()), star(cls(kName()))});
  E neg = opt(lit("!"));
  E pattern = seq({plus(sp), alt({
    seq({builtin, capture}), seq({builtin, regex_arg, neg}), seq({builtin, match_arg, neg}),
    seq({attr, capture, opt(lit("?"))}), seq({attr, regex_arg, neg}), seq({attr, match_arg, neg}), seq({attr, neg}) })});
  E tag = alt({lit("*"), seq({cls(kAlpha()), star(cls(kName()))})});
  E open = seq({lit("<"), star(cls(chars("?+"))), tag, star(alt({not_trait, trait})), star(pattern), star(sp), alts({"/>", ">"})});
  E close = seq({lit("</"), tag, lit(">")});
  return star(alt({sp, seq({lit("#"), star(cls(~chars("\n"))), lit("\n")}), lit("{"), lit("}"), open, close}));
}

class Dfa
{
public:
  struct State { std::array<int, 256> to; bool accept; };

  Dfa()
  {
    int s = node(), e = compile(grammar(), s);
    accept_ = e;
    std::set<int> init{s};
    close(init);
    id(init);
    for(std::size_t i = 0; i < states_.size(); ++i)
      for(int c = 0; c < 256; ++c)
      {
        std::set<int> t;
        for(int n : sets_[i]) for(auto& a : nfa_[std::size_t(n)].arcs) if( a.first.test(std::size_t(c)) ) t.insert(a.second);
        int to = -1;
        if( !t.empty() ) { close(t); to = id(t); }
        states_[i].to[std::size_t(c)] = to;
      }
    minimize();
  }

  const std::vector<State>& states() const { return states_; }
  int next(int s, unsigned char c) const { return states_[std::size_t(s)].to[c]; }

  // position of the first byte that cannot follow; size() if all can
  std::size_t viable(const std::string& t, int& s) const
  {
    s = 0;
    for(std::size_t i = 0; i < t.size(); ++i)
    {
      int n = next(s, static_cast<unsigned char>(t[i]));
      if( n < 0 ) return i;
      s = n;
    }
    return t.size();
  }

  // shortest text from state a to a state where `goal` holds
  template<class F> std::optional<std::string> shortest(int a, F&& goal) const
  {
    std::vector<int> from(states_.size(), -2), by(states_.size());
    std::deque<int> q{a};
    from[std::size_t(a)] = -1;
    while( !q.empty() )
    {
      int s = q.front(); q.pop_front();
      if( goal(s) )
      {
        std::string t;
        while( from[std::size_t(s)] >= 0 ) { t.insert(t.begin(), char(by[std::size_t(s)])); s = from[std::size_t(s)]; }
        return t;
      }
      // printable bytes first
      for(int k = 0; k < 256; ++k)
      {
        int c = (k + 'a') & 255, n = states_[std::size_t(s)].to[std::size_t(c)];
        if( n >= 0 && from[std::size_t(n)] == -2 ) { from[std::size_t(n)] = s; by[std::size_t(n)] = c; q.push_back(n); }
      }
    }
    return {};
  }

private:
  struct N { std::vector<std::pair<Class, int>> arcs; std::vector<int> eps; };
  std::vector<N> nfa_;
  std::vector<State> states_;
  std::vector<std::set<int>> sets_;
  std::map<std::set<int>, int> ids_;
  int accept_ = 0;

  int node() { nfa_.emplace_back(); return int(nfa_.size()) - 1; }
  void eps(int a, int b) { nfa_[std::size_t(a)].eps.push_back(b); }
  int compile(const E& e, int s)
  {
    switch( e->k )
    {
      case Ex::Cls: { int t = node(); nfa_[std::size_t(s)].arcs.push_back({e->c, t}); return t; }
      case Ex::Seq: for(auto& x : e->sub) s = compile(x, s); return s;
      case Ex::Alt: { int t = node(); for(auto& x : e->sub) { int b = node(); eps(s, b); eps(compile(x, b), t); } return t; }
      default: { int h = node(), t = node(); eps(s, h); eps(h, t); int b = node(); eps(h, b); eps(compile(e->sub[0], b), h); return t; }
    }
  }
  void close(std::set<int>& s)
  {
    std::deque<int> q(s.begin(), s.end());
    while( !q.empty() ) { int n = q.front(); q.pop_front(); for(int m : nfa_[std::size_t(n)].eps) if( s.insert(m).second ) q.push_back(m); }
  }
  int id(const std::set<int>& s)
  {
    auto it = ids_.find(s);
    if( it != ids_.end() ) return it->second;
    int i = int(states_.size());
    ids_[s] = i;
    sets_.push_back(s);
    State st;
    st.to.fill(-1);
    st.accept = s.count(accept_) > 0;
    states_.push_back(st);
    return i;
  }
  void minimize()
  {
    // Moore; the start state keeps number 0
    std::vector<int> cl(states_.size());
    for(std::size_t i = 0; i < states_.size(); ++i) cl[i] = states_[i].accept;
    for(std::size_t count = 0;;)
    {
      std::map<std::vector<int>, int> sig;
      std::vector<int> n(states_.size());
      for(std::size_t i = 0; i < states_.size(); ++i)
      {
        std::vector<int> v{cl[i]};
        for(int t : states_[i].to) v.push_back(t < 0 ? -1 : cl[std::size_t(t)]);
        n[i] = sig.emplace(v, int(sig.size())).first->second;
      }
      cl = n;
      if( sig.size() == count ) break;
      count = sig.size();
    }
    int swap0 = cl[0];
    for(int& c : cl) if( c == swap0 ) c = 0; else if( c == 0 ) c = swap0;
    std::vector<State> m(std::size_t(*std::max_element(cl.begin(), cl.end()) + 1));
    for(std::size_t i = 0; i < states_.size(); ++i)
    {
      auto& t = m[std::size_t(cl[i])];
      t = states_[i];
      for(int& x : t.to) if( x >= 0 ) x = cl[std::size_t(x)];
    }
    states_ = m;
  }
};

inline const Dfa& dfa() { static const Dfa d; return d; }

// --------------------------------------------------------------- structure --

inline const std::set<std::string>& html_tags()
{
  static const std::set<std::string> s = [] {
    std::set<std::string> r;
    const char * names[] = {
#define X(n) #n,
      VF_TAGS(X)
#undef X
    };
    for(std::string n : names)
    {
      for(char& c : n) c = c == '_' ? '-' : char(std::tolower(c));
      r.insert(n);
    }
    return r;
  }();
  return s;
}

inline std::string lower(std::string s) { for(char& c : s) if( c >= 'A' && c <= 'Z' ) c = char(c + 32); return s; }

struct Rule
{
  std::string tag = "*";       // as written, lower case if it is an HTML tag
  bool optional = false, greedy = false;
  std::vector<Rule> kids;      // chain of child rules
  std::vector<std::vector<Rule>> nested;
};

struct Fault { std::vector<std::string> msgs; };   // acceptable messages

// ----------------------------------------------------------------- errors ---

struct Verdict
{
  bool ok = false;
  std::vector<Rule> chain;             // if ok; empty: no rule in the text
  std::vector<std::string> msgs;       // otherwise: the acceptable messages
};

inline std::string char_name(char c)
{
  switch( c ) { case '\n': return "[newline]"; case '\t': return "[tab]"; case '\r': return "[carriage-return]"; case ' ': return "[space]"; case 0: return "[nullbyte]"; }
  if( c > 0x20 && c < 0x7f ) return std::string(1, c);
  return "[ascii: " + std::to_string(int(static_cast<signed char>(c))) + "]";
}

// "<what> at line L, char C:" plus the text up to position `at` plus a mark
inline std::string located(const std::string& what, const std::string& t, std::size_t at, std::size_t mark)
{
  std::size_t line = 1, col = 1;
  for(std::size_t i = 0; i < at; ++i) if( t[i] == '\n' ) { ++line; col = 1; } else ++col;
  std::string o = what;
  if( at == t.size() ) o += "at end of input:\n\n";
  else o += "at line " + std::to_string(line) + ", char " + std::to_string(col) + ":\n\n";
  std::string part = t.substr(0, at == t.size() || t[at] == '\n' ? at : at + 1);
  std::vector<std::string> lines{""};
  for(char c : part) if( c == '\n' ) lines.push_back(""); else lines.back() += c;
  std::size_t w = std::to_string(lines.size()).size();
  for(std::size_t i = 0; i < lines.size(); ++i)
  {
    auto n = std::to_string(i + 1);
    o += std::string(w - n.size(), ' ') + n + ": " + lines[i] + "\n";
  }
  if( !mark ) return o;
  for(char c : t) if( static_cast<unsigned char>(c) >= 128 ) return o;
  if( mark > col ) mark = col;
  return o + std::string(w + 2 + col - mark, ' ') + std::string(mark, '^') + " here\n";
}

class Reader
{
public:
  explicit Reader(const std::string& t) : t_(t) {}

  Verdict read()
  {
    int s;
    std::size_t n = t_.size(), e = dfa().viable(t_, s);
    bool complete = e == n && dfa().states()[std::size_t(s)].accept;
    limit_ = complete ? n + 1 : e;      // events at positions < limit_ happen
    frames_.emplace_back();
    end_ = e;
    i_ = 0;
    while( !v_.msgs.size() && i_ < end_ ) item();
    if( !v_.msgs.empty() ) return v_;
    if( !complete )
    {
      v_.msgs.push_back(e == n ? located("Premature termination ", t_, n, 1)
                               : located("Unexpected character '" + char_name(t_[e]) + "' ", t_, e, 1));
      return v_;
    }
    if( frames_.size() > 1 ) { fail(n, "Unclosed nested rule"); return v_; }
    if( !frames_[0].open.empty() )
    {
      v_.msgs.push_back(located("Missing closing tag '</" + frames_[0].open.back().tag + ">' ", t_, n, 0));
      return v_;
    }
    v_.ok = true;
    v_.chain = frames_[0].done;
    return v_;
  }

private:
  struct Frame { std::vector<Rule> open; std::vector<Rule> done; };
  const std::string& t_;
  std::size_t i_ = 0, end_ = 0, limit_ = 0;
  std::vector<Frame> frames_;
  Verdict v_;

  bool more() const { return i_ < end_ && v_.msgs.empty(); }
  char cur() const { return t_[i_]; }
  bool is(char c) const { return i_ < end_ && t_[i_] == c; }
  bool in(const Class& c) const { return i_ < end_ && c.test(static_cast<unsigned char>(t_[i_])); }
  // something that ends before position p has an effect only if the text goes
  // on validly at p
  bool reached(std::size_t p) const { return p < limit_; }
  void fail(std::size_t p, const std::string& what) { if( v_.msgs.empty() && reached(p) ) v_.msgs.push_back(located(what + " ", t_, p - 1, 1)); }

  void item()
  {
    char c = cur();
    if( in(kSpace()) ) { ++i_; return; }
    if( c == '#' ) { while( i_ < end_ && cur() != '\n' ) ++i_; ++i_; return; }
    if( c == '{' )
    {
      ++i_;
      if( !reached(i_) ) return;
      if( frames_.back().open.empty() ) { fail(i_, "Nested rules must have a parent"); return; }
      frames_.emplace_back();
      return;
    }
    if( c == '}' )
    {
      ++i_;
      if( !reached(i_) ) return;
      Frame& f = frames_.back();
      if( !f.open.empty() ) { fail(i_, "Closing nested rule without open"); return; }
      if( frames_.size() == 1 )
      {
        // both are true
        fail(i_, "Nested rules cannot be empty");
        v_.msgs.push_back(located("Closing nested rule without open ", t_, i_ - 1, 1));
        return;
      }
      if( f.done.empty() ) { fail(i_, "Nested rules cannot be empty"); return; }
      auto chain = std::move(f.done);
      frames_.pop_back();
      frames_.back().open.back().nested.push_back(std::move(chain));
      return;
    }
    // '<'
    ++i_;
    if( is('/') ) { ++i_; close(); return; }
    open();
  }

  std::string name()
  {
    std::size_t b = i_;
    if( is('*') ) ++i_;
    else while( in(kName()) ) ++i_;
    return t_.substr(b, i_ - b);
  }

  void close()
  {
    std::string n = name();
    if( !reached(i_) || n.empty() ) return;
    Frame& f = frames_.back();
    std::string want;
    bool good = false;
    if( !f.open.empty() )
    {
      want = f.open.back().tag;
      good = html_tags().count(want) ? lower(n) == want : n == want;
    }
    if( !good )
    {
      v_.msgs.push_back(located("Unexpected closing tag '</" + n + ">'" + (f.open.empty() ? "" : ", expected '</" + want + ">'") + " ",
                                t_, i_ - 1, n.size() + 2));
      return;
    }
    pop();
    if( is('>') ) ++i_;
  }

  void pop()
  {
    Frame& f = frames_.back();
    Rule r = std::move(f.open.back());
    f.open.pop_back();
    (f.open.empty() ? f.done : f.open.back().kids).push_back(std::move(r));
  }

  void open()
  {
    Rule r;
    while( is('?') || is('+') ) { (is('?') ? r.optional : r.greedy) = true; ++i_; }
    r.tag = name();
    if( html_tags().count(lower(r.tag)) ) r.tag = lower(r.tag);
    frames_.back().open.push_back(std::move(r));
    traits(false);
    while( more() )
    {
      while( in(kSpace()) ) ++i_;
      if( i_ >= end_ ) return;
      if( is('>') ) { ++i_; return; }
      if( is('/') ) { ++i_; if( is('>') ) { ++i_; if( reached(i_) ) pop(); } return; }
      pattern();
    }
  }

  bool word(const char * w)
  {
    std::size_t n = std::strlen(w);
    if( i_ + n <= end_ && t_.compare(i_, n, w) == 0 ) { i_ += n; return true; }
    return false;
  }

  void traits(bool inside_not)
  {
    while( more() && is(':') )
    {
      ++i_;
      if( !inside_not && word("not(") ) { traits(true); if( is(')') ) ++i_; continue; }
      while( in(kName()) ) ++i_;
      if( !is('(') ) continue;
      std::string n = t_.substr(t_.rfind(':', i_) + 1, i_ - t_.rfind(':', i_) - 1);
      ++i_;
      if( n == "type-matches" ) regex();
      else if( n == "child-count" || n == "attribute-count" ) number(0);
      else if( in(kAlpha()) ) { while( in(kAlpha()) ) ++i_; }
      else
      {
        std::size_t b = i_;
        if( is('-') ) ++i_;
        number(i_ - b);
        if( more() && is('n') )
        {
          ++i_;
          if( is('+') || is('-') ) { ++i_; number(1); }
        }
      }
      if( more() && is(')') ) ++i_;
    }
  }

  void number(std::size_t sign)
  {
    std::size_t b = i_;
    while( in(kDigit()) ) ++i_;
    if( b == i_ || !v_.msgs.empty() ) return;
    bool minus = sign && t_[b - 1] == '-';
    // decimal comparison with the limits of int
    std::string d = t_.substr(b, i_ - b), lim = minus ? "2147483648" : "2147483647";
    d.erase(0, std::min(d.find_first_not_of('0'), d.size()));
    if( d.size() > lim.size() || (d.size() == lim.size() && d > lim) ) fail(i_, "Number out of range");
  }

  void literal()
  {
    char d = cur();
    ++i_;
    bool bs = false;
    for(; i_ < end_; ++i_)
    {
      if( cur() == d && !bs ) { ++i_; return; }
      bs = cur() == '\\';
    }
  }

  void regex()
  {
    if( i_ >= end_ ) return;
    std::size_t b = i_;
    literal();
    std::size_t c = i_;
    boost::regex::flag_type f = boost::regex::perl;
    while( is('i') || is('c') ) { f |= is('i') ? boost::regex::flag_type(boost::regex::icase) : boost::regex::flag_type(boost::regex::collate); ++i_; }
    if( !reached(i_) || c < b + 2 ) return;
    try { boost::regex r(t_.substr(b + 1, c - b - 2), f); }
    catch( const boost::regex_error& e )
    {
      v_.msgs.push_back(located("In regular expression ", t_, i_ - 1, i_ - b) + "\nError: " + boost::regex_traits<char>().error_string(e.code()));
    }
  }

  void arg()      // behind '(' of a pipe or behind an operator
  {
    if( i_ < end_ && (is('"') || is('\'')) ) literal();
  }

  void pattern()
  {
    if( is('@') ) ++i_;
    while( in(kName()) ) ++i_;
    if( i_ >= end_ ) return;
    if( is('!') ) { ++i_; return; }
    if( is(':') )
    {
      while( more() && is(':') )
      {
        ++i_;
        if( is('"') || is('\'') ) { literal(); break; }
        std::size_t b = i_;
        while( in(kName() | chars(".")) ) ++i_;
        std::string n = t_.substr(b, i_ - b);
        if( !is('(') ) continue;
        ++i_;
        if( n == "filter" || n == "replace" ) regex(); else arg();
        if( !v_.msgs.empty() ) return;
        if( n == "replace" )
        {
          while( in(kSpace()) ) ++i_;
          if( is(',') ) ++i_;
          while( in(kSpace()) ) ++i_;
          arg();
        }
        if( is(')') ) ++i_;
      }
      if( more() && is('?') ) ++i_;
      return;
    }
    if( word("=~") ) { regex(); if( more() && is('!') ) ++i_; return; }
    if( is('^') || is('*') || is('$') ) ++i_;
    while( is('=') ) ++i_;
    arg();
    if( more() && is('!') ) ++i_;
  }
};

inline Verdict read(const std::string& t) { return Reader(t).read(); }

} // namespace lang
