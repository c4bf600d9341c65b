// C20: ownership of documents. Every history of operations on a set of Html
// objects, up to a depth, on hext::Html and on a model (object -> document);
// after every step every owner still holds its own, intact document. Runs under
// AddressSanitizer, with a balance of allocations.
#include <memory>
#include "vf.hpp"
#include <hext/Hext.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
static std::size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static std::size_t live_bytes() { return 0; }
#endif

using namespace vf;

namespace {

const std::vector<std::string>& sources()
{
  static const std::vector<std::string> v = {"<a x='1'>first</a>", "<x-y x='2'><b>second</b> document, of another size</x-y><!--c-->", "", std::string("<i x='3'>\0</i>", 14)};
  return v;
}

const hext::Rule& rule()
{
  static const hext::Rule r = hext::ParseHext("<*><* x:x? @text:t @inner-html:h><*/></*></*>");
  return r;
}

std::string content(const hext::Html& h)
{
  static const hext::Rule all = hext::ParseHext("<* x:x? @text:t @inner-html:h/>");
  std::string s;
  for(auto& m : all.extract(h)) { for(auto& kv : m) s += kv.first + "=" + kv.second + ";"; s += "|"; }
  return s;
}

const std::vector<std::string>& contents()
{
  static const std::vector<std::string> v = [] {
    std::vector<std::string> r;
    for(auto& s : sources()) { hext::Html h(s.c_str(), s.size()); r.push_back(content(h)); }
    return r;
  }();
  return v;
}

constexpr int K = 3;

// raw storage, so that objects can be built in place and destroyed explicitly
struct World
{
  alignas(hext::Html) unsigned char mem[K][sizeof(hext::Html)];
  enum { None, Moved, Owner } state[K] = {None, None, None};
  int d[K] = {-1, -1, -1};
  hext::Html& at(int i) { return *reinterpret_cast<hext::Html *>(mem[i]); }
  ~World() { for(int i = 0; i < K; ++i) if( state[i] != None ) at(i).~Html(); }
};

struct Op { std::string name; std::function<bool(World&)> run; };

const std::vector<Op>& ops(bool full)
{
  static std::map<bool, std::vector<Op>> cache;
  auto& v = cache[full];
  if( !v.empty() ) return v;
  for(int i = 0; i < K; ++i)
  {
    auto I = "h" + std::to_string(i);
    for(int d = 0; d < (full ? 4 : 2); ++d)
      v.push_back({"new " + I + "(document " + std::to_string(d) + ")", [=](World& w) {
        if( w.state[i] != World::None ) return false;
        new(w.mem[i]) hext::Html(sources()[std::size_t(d)].c_str(), sources()[std::size_t(d)].size());
        w.state[i] = World::Owner; w.d[i] = d;
        return true;
      }});
    v.push_back({"delete " + I, [=](World& w) {
      if( w.state[i] == World::None ) return false;
      w.at(i).~Html();
      w.state[i] = World::None;
      return true;
    }});
    for(int j = 0; j < K; ++j)
    {
      auto J = "h" + std::to_string(j);
      v.push_back({I + " = move(" + J + ")", [=](World& w) {
        if( w.state[i] == World::None || w.state[j] == World::None ) return false;
        auto& x = w.at(i);
        x = std::move(w.at(j));
        if( i == j )
        {
          // whatever a self-move leaves behind must be whole
          if( w.state[i] == World::Owner && !x.root() ) w.state[i] = World::Moved;
          return true;
        }
        w.state[i] = w.state[j];
        w.d[i] = w.d[j];
        if( w.state[j] == World::Owner ) w.state[j] = World::Moved;
        return true;
      }});
      if( i == j ) continue;
      v.push_back({"new " + I + "(move(" + J + "))", [=](World& w) {
        if( w.state[i] != World::None || w.state[j] == World::None ) return false;
        new(w.mem[i]) hext::Html(std::move(w.at(j)));
        w.state[i] = w.state[j];
        w.d[i] = w.d[j];
        if( w.state[j] == World::Owner ) w.state[j] = World::Moved;
        return true;
      }});
      if( i < j )
        v.push_back({"swap(" + I + ", " + J + ")", [=](World& w) {
          if( w.state[i] == World::None || w.state[j] == World::None ) return false;
          std::swap(w.at(i), w.at(j));
          std::swap(w.state[i], w.state[j]);
          std::swap(w.d[i], w.d[j]);
          return true;
        }});
    }
  }
  return v;
}

// a moved-from object may be asked for its root and extracted from
std::string check(World& w)
{
  for(int i = 0; i < K; ++i)
  {
    if( w.state[i] == World::Owner )
    {
      if( !w.at(i).root() ) return "h" + std::to_string(i) + " has lost its document";
      auto c = content(w.at(i));
      if( c != contents()[std::size_t(w.d[i])] ) return "h" + std::to_string(i) + " holds " + show(c) + ", expected " + show(contents()[std::size_t(w.d[i])]);
    }
    for(int j = 0; j < i; ++j)
      if( w.state[i] != World::None && w.state[j] != World::None && w.at(i).root() && w.at(i).root() == w.at(j).root() )
        return "h" + std::to_string(j) + " and h" + std::to_string(i) + " hold the same document";
  }
  return "";
}

void explore(std::vector<Space>& sp, const std::string& name, int depth, bool full)
{
  auto& v = ops(full);
  std::uint64_t n = v.size();
  auto text = [&v](const std::vector<int>& seq) { std::string t; for(int x : seq) t += (t.empty() ? "" : "; ") + v[std::size_t(x)].name; return t; };
  sp.push_back({name, n * n, [=, &v](Ctx& c, std::uint64_t o) {
    std::uint64_t i = 0;
    std::vector<int> seq = {int(o / n), int(o % n)};
    std::function<void(int)> rec = [&](int left) {
      if( c.stopped() || c.violated ) return;
      bool possible = true;
      std::string error;
      if( c.want(i) || c.replay )
      {
        std::size_t grow = 1;
        for(int round = 0; round < 3 && grow && error.empty(); ++round)
        {
          auto before = live_bytes();
          {
            World w;
            for(std::size_t k = 0; k < seq.size() && error.empty(); ++k)
            {
              if( !v[std::size_t(seq[k])].run(w) ) { possible = false; break; }
              if( k + 1 == seq.size() || c.replay ) error = check(w);
            }
            std::string sig;
            for(int k = 0; k < K; ++k) sig += w.state[k] == World::Owner ? std::to_string(w.d[k]) : w.state[k] == World::Moved ? "m" : "-";
            if( possible ) c.outcome(fnv(sig));
          }
          auto after = live_bytes();
          grow = possible && after > before ? after - before : 0;
        }
        if( error.empty() && grow ) error = "leaks " + std::to_string(grow) + " bytes";
        if( !error.empty() ) { c.fail(text(seq) + ": " + error); return; }
        if( possible ) { c.model(1, 1); c.validated(); c.nontrivial(fnv(text(seq))); if( c.want_sample() ) c.sample(text(seq)); }
      }
      ++i;
      if( !possible || !left ) return;
      for(int x = 0; x < int(n); ++x) { seq.push_back(x); rec(left - 1); seq.pop_back(); }
    };
    rec(depth - 2);
  }, [=](std::uint64_t o, std::uint64_t i) { return text({int(o / n), int(o % n)}) + "; history number " + std::to_string(i); }});
}

} // namespace

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  bool th = o.tier == "thorough";
  contents();
  std::vector<Space> sp;
  explore(sp, "histories on three objects, four documents", th ? 5 : 4, true);
  explore(sp, "histories on three objects, two documents", th ? 6 : 5, false);
  // results and documents: a result does not refer to the document
  sp.push_back({"results outlive documents", sources().size(), [](Ctx& c, std::uint64_t d) {
    for(std::uint64_t k = 0; k < 3; ++k)
    {
      if( !c.want(k) ) continue;
      hext::Result r;
      {
        auto src = std::make_unique<std::string>(sources()[d]);
        hext::Html h(src->c_str(), src->size());
        r = rule().extract(h);
        if( k == 1 ) { hext::Html g(std::move(h)); }
        if( k == 2 ) { hext::Html g(std::move(h)); h = hext::Html("<b>", 3); }
      }
      hext::Html h(sources()[d].c_str(), sources()[d].size());
      if( r != rule().extract(h) ) c.fail("a result changed when its document was destroyed");
      c.nontrivial(d * 3 + k);
      c.validated();
      c.model(1, 1);
    }
  }, {}});
  return main_(o, sp);
}
