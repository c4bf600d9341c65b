// C25-C27: the real htmlext executable. C25: what it prints is exactly the
// library's result as JSON; C26: every combination of options and inputs;
// C27: every system call that reads inputs or writes output fails, is cut
// short or interrupted (ptrace).
#include <algorithm>
#include <fcntl.h>
#include <pty.h>
#include <signal.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <termios.h>
#include "vf.hpp"
#include <hext/Hext.h>
#include <hext/Version.h>

using namespace vf;
using namespace hext;

namespace {

std::string g_exe, g_dir;

std::string S(const char * s, std::size_t n) { return std::string(s, n); }

// ---- running the program ----------------------------------------------------

struct Run { int status = -1; std::string out, err; bool signalled() const { return WIFSIGNALED(status); } int rc() const { return WIFEXITED(status) ? WEXITSTATUS(status) : -1; } };

struct Io
{
  enum Out { Mem, Tty, Closed, Full, BrokenPipe, ReadOnly } out = Mem;
  enum In { Null, File, Pipe, InClosed, InTty } in = Null;
  std::string input;                  // for File and Pipe
  bool err_closed = false;
  bool err_tty = false;               // the terminal of InTty
  std::string dir;                    // where to run, below g_dir
};

std::string slurp(int fd)
{
  std::string s;
  char b[65536];
  off_t at = 0;
  for(;;)
  {
    ssize_t n = pread(fd, b, sizeof b, at);
    if( n <= 0 ) break;
    s.append(b, static_cast<std::size_t>(n));
    at += n;
  }
  return s;
}

int memfd(const char * name) { return static_cast<int>(syscall(SYS_memfd_create, name, 1u)); }

// what a tty shows, with its line ends undone
std::string drain_pty(int fd)
{
  std::string s;
  char b[65536];
  for(;;)
  {
    ssize_t n = read(fd, b, sizeof b);
    if( n < 0 && errno == EINTR ) continue;
    if( n <= 0 ) break;
    s.append(b, static_cast<std::size_t>(n));
  }
  return s;
}

[[noreturn]] void child(const std::vector<std::string>& args, const Io& io, int out, int err, int in, bool trace)
{
  if( chdir((g_dir + "/" + io.dir).c_str()) ) _exit(120);
  std::vector<char *> argv{const_cast<char *>("htmlext")};
  for(const auto& a : args) argv.push_back(const_cast<char *>(a.c_str()));
  argv.push_back(nullptr);
  if( io.in == Io::InClosed ) close(0); else dup2(in, 0);
  if( io.out == Io::Closed ) close(1); else dup2(out, 1);
  if( io.err_closed ) close(2); else dup2(err, 2);
  signal(SIGPIPE, SIG_DFL);
  alarm(30);
  if( trace ) { ptrace(PTRACE_TRACEME, 0, nullptr, nullptr); raise(SIGSTOP); }
  execv(g_exe.c_str(), argv.data());
  _exit(121);
}

struct Spawned { pid_t pid; int out, err, master, terminal = -1; bool err_tty = false; };

Spawned spawn(const std::vector<std::string>& args, const Io& io, bool trace)
{
  int out = -1, master = -1, in = -1;
  int p[2];
  switch( io.out )
  {
    case Io::Mem: out = memfd("out"); break;
    case Io::Tty:
    {
      struct termios t;
      if( openpty(&master, &out, nullptr, nullptr, nullptr) ) { std::perror("openpty"); _exit(4); }
      tcgetattr(out, &t);
      t.c_oflag &= ~static_cast<tcflag_t>(OPOST);
      tcsetattr(out, TCSANOW, &t);
      break;
    }
    case Io::Full: out = open("/dev/full", O_WRONLY | O_CLOEXEC); break;
    case Io::BrokenPipe: if( pipe2(p, O_CLOEXEC) ) _exit(4); close(p[0]); out = p[1]; break;
    case Io::ReadOnly: out = open("/dev/null", O_RDONLY | O_CLOEXEC); break;
    case Io::Closed: break;
  }
  if( io.in == Io::File || io.in == Io::Pipe )
  {
    if( io.in == Io::File ) in = memfd("in");
    else
    {
      if( pipe2(p, O_CLOEXEC) ) _exit(4);
      in = p[0];
      fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
    }
    int w = io.in == Io::File ? in : p[1];
    for(std::size_t i = 0; i < io.input.size();)
    {
      ssize_t n = write(w, io.input.data() + i, io.input.size() - i);
      if( n <= 0 ) _exit(4);
      i += static_cast<std::size_t>(n);
    }
    if( io.in == Io::File ) lseek(in, 0, SEEK_SET); else close(p[1]);
  }
  else if( io.in != Io::InTty ) in = open("/dev/null", O_RDONLY | O_CLOEXEC);
  int terminal = -1;
  if( io.in == Io::InTty && openpty(&terminal, &in, nullptr, nullptr, nullptr) ) { std::perror("openpty"); _exit(4); }
  if( terminal >= 0 ) { fcntl(terminal, F_SETFD, FD_CLOEXEC); fcntl(in, F_SETFD, FD_CLOEXEC); }
  int err = io.err_tty && terminal >= 0 ? dup(in) : memfd("err");
  pid_t pid = fork();
  if( pid < 0 ) { std::perror("fork"); _exit(4); }
  if( pid == 0 ) child(args, io, out, err, in, trace);
  close(in);
  if( io.out == Io::Tty || io.out == Io::Full || io.out == Io::BrokenPipe || io.out == Io::ReadOnly ) { close(out); out = -1; }
  return {pid, out, err, master, terminal, io.err_tty && terminal >= 0};
}

Run finish(Spawned& s, int status)
{
  Run r;
  r.status = status;
  if( s.master >= 0 ) close(s.master);
  if( s.out >= 0 ) { r.out = slurp(s.out); close(s.out); }
  if( s.err_tty ) { close(s.err); r.err = drain_pty(s.terminal); }
  else { r.err = slurp(s.err); close(s.err); }
  if( s.terminal >= 0 ) close(s.terminal);
  if( WIFEXITED(status) && WEXITSTATUS(status) >= 120 ) { std::fprintf(stderr, "cannot run %s\n", g_exe.c_str()); _exit(4); }
  return r;
}

Run run(const std::vector<std::string>& args, const Io& io = Io())
{
  auto s = spawn(args, io, false);
  std::string tty;
  if( s.master >= 0 ) tty = drain_pty(s.master);
  int st = 0;
  while( waitpid(s.pid, &st, 0) < 0 && errno == EINTR ) {}
  Run r = finish(s, st);
  if( s.master >= 0 ) r.out = tty;
  return r;
}

std::string show_args(const std::vector<std::string>& a)
{
  std::string s = "htmlext";
  for(const auto& x : a) s += " '" + show(x) + "'";
  return s;
}

// ---- files ------------------------------------------------------------------

std::map<std::string, std::string> g_files;

void put(const std::string& name, const std::string& content)
{
  g_files[name] = content;
  std::ofstream f(g_dir + "/" + name, std::ios::binary);
  f.write(content.data(), static_cast<std::streamsize>(content.size()));
}

// ---- JSON, strictly ---------------------------------------------------------

struct Json
{
  enum K { Str, Arr, Obj } k = Str;
  std::string s;
  std::vector<Json> a;
  std::vector<std::pair<std::string, Json>> o;
  bool operator==(const Json& r) const
  {
    if( k != r.k ) return false;
    if( k == Str ) return s == r.s;
    if( k == Arr ) return a == r.a;
    if( o.size() != r.o.size() ) return false;
    for(const auto& p : o)
    {
      auto it = std::find_if(r.o.begin(), r.o.end(), [&](const auto& q) { return q.first == p.first; });
      if( it == r.o.end() || !(it->second == p.second) ) return false;
    }
    return true;
  }
  std::string str() const
  {
    if( k == Str ) return "\"" + show(s) + "\"";
    std::string r = k == Arr ? "[" : "{";
    for(const auto& x : a) r += x.str() + ",";
    for(const auto& p : o) r += "\"" + show(p.first) + "\":" + p.second.str() + ",";
    return r + (k == Arr ? "]" : "}");
  }
};

bool utf8_ok(const std::string& s)
{
  for(std::size_t i = 0; i < s.size();)
  {
    unsigned char c = static_cast<unsigned char>(s[i]);
    int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if( n < 0 || i + static_cast<std::size_t>(n) >= s.size() ) return false;
    unsigned cp = n == 0 ? c : c & (0x3fu >> n);
    for(int k = 1; k <= n; ++k)
    {
      unsigned char d = static_cast<unsigned char>(s[i + static_cast<std::size_t>(k)]);
      if( (d & 0xc0) != 0x80 ) return false;
      cp = cp << 6 | (d & 0x3f);
    }
    if( (n == 2 && cp < 0x800) || (n == 3 && (cp < 0x10000 || cp > 0x10ffff)) || (cp >= 0xd800 && cp < 0xe000) ) return false;
    i += static_cast<std::size_t>(n) + 1;
  }
  return true;
}

std::string utf8(unsigned cp)
{
  std::string s;
  if( cp < 0x80 ) s += char(cp);
  else if( cp < 0x800 ) { s += char(0xc0 | cp >> 6); s += char(0x80 | (cp & 63)); }
  else if( cp < 0x10000 ) { s += char(0xe0 | cp >> 12); s += char(0x80 | (cp >> 6 & 63)); s += char(0x80 | (cp & 63)); }
  else { s += char(0xf0 | cp >> 18); s += char(0x80 | (cp >> 12 & 63)); s += char(0x80 | (cp >> 6 & 63)); s += char(0x80 | (cp & 63)); }
  return s;
}

// a sequence of JSON texts, with where each of them lies
class JsonReader
{
public:
  struct Item { Json v; std::size_t from, to; };
  explicit JsonReader(const std::string& t) : t_(t) {}
  std::string error;
  std::vector<Item> read()
  {
    std::vector<Item> v;
    if( !utf8_ok(t_) ) { error = "the output is not UTF-8"; return v; }
    for(;;)
    {
      ws();
      if( at_ == t_.size() ) break;
      std::size_t from = at_;
      Json j;
      if( !value(j) ) { if( error.empty() ) error = "not JSON at byte " + std::to_string(at_); break; }
      v.push_back({std::move(j), from, at_});
    }
    return v;
  }
private:
  const std::string& t_;
  std::size_t at_ = 0;
  void ws() { while( at_ < t_.size() && std::strchr(" \t\r\n", t_[at_]) && t_[at_] ) ++at_; }
  bool eat(char c) { ws(); if( at_ < t_.size() && t_[at_] == c ) { ++at_; return true; } return false; }
  bool hex4(unsigned& v)
  {
    v = 0;
    for(int i = 0; i < 4; ++i)
    {
      if( at_ >= t_.size() || !std::isxdigit(static_cast<unsigned char>(t_[at_])) ) return false;
      char c = t_[at_++];
      v = v * 16 + static_cast<unsigned>(c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
    }
    return true;
  }
  bool string(std::string& s)
  {
    if( !eat('"') ) return false;
    for(;;)
    {
      if( at_ >= t_.size() ) return false;
      char c = t_[at_++];
      if( c == '"' ) return true;
      if( static_cast<unsigned char>(c) < 0x20 ) { error = "raw control character in a JSON string"; return false; }
      if( c != '\\' ) { s += c; continue; }
      if( at_ >= t_.size() ) return false;
      c = t_[at_++];
      static const char e[] = "\"\\/bfnrt", m[] = "\"\\/\b\f\n\r\t";
      if( c == 'u' )
      {
        unsigned v, w;
        if( !hex4(v) ) return false;
        if( v >= 0xdc00 && v < 0xe000 ) return false;
        if( v >= 0xd800 && v < 0xdc00 )
        {
          if( t_.compare(at_, 2, "\\u") ) return false;
          at_ += 2;
          if( !hex4(w) || w < 0xdc00 || w >= 0xe000 ) return false;
          v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
        }
        s += utf8(v);
      }
      else if( const char * p = c ? std::strchr(e, c) : nullptr ) s += m[p - e];
      else return false;
    }
  }
  bool value(Json& j)
  {
    ws();
    if( at_ >= t_.size() ) return false;
    if( t_[at_] == '"' ) { j.k = Json::Str; return string(j.s); }
    if( eat('[') )
    {
      j.k = Json::Arr;
      if( eat(']') ) return true;
      do { j.a.emplace_back(); if( !value(j.a.back()) ) return false; } while( eat(',') );
      return eat(']');
    }
    if( eat('{') )
    {
      j.k = Json::Obj;
      if( eat('}') ) return true;
      do
      {
        std::string key;
        if( !string(key) || !eat(':') ) return false;
        for(const auto& p : j.o) if( p.first == key ) { error = "duplicate key in an object: " + show(key); return false; }
        j.o.emplace_back(key, Json());
        if( !value(j.o.back().second) ) return false;
      } while( eat(',') );
      return eat('}');
    }
    return false;
  }
};

// ---- what has to be printed -------------------------------------------------

struct Style { bool pretty = false, array = false, filter = false; std::string key; };

Json object(const ResultMap& m)
{
  Json o;
  o.k = Json::Obj;
  for(const auto& p : m)
  {
    auto it = std::find_if(o.o.begin(), o.o.end(), [&](const auto& q) { return q.first == p.first; });
    Json v;
    v.s = p.second;
    if( it == o.o.end() ) o.o.emplace_back(p.first, v);
    else if( it->second.k == Json::Arr ) it->second.a.push_back(v);
    else { Json a; a.k = Json::Arr; a.a = {it->second, v}; it->second = a; }
  }
  return o;
}

// `out` has to be the output for these results (or, if `prefix`, for some of
// them, from the first on); "" if it is
std::string judge(const std::string& out, const std::vector<Result>& results, const Style& st, bool prefix = false)
{
  if( st.filter )
  {
    std::string want;
    std::vector<std::size_t> ends{0};
    for(const auto& r : results) for(const auto& m : r) for(const auto& p : m)
      if( p.first == st.key ) { want += p.second + "\n"; ends.push_back(want.size()); }
    if( prefix ? want.compare(0, out.size(), out) != 0 || out.size() > want.size() : want != out )
      return "expected output: " + show(want) + "\nactual output:   " + show(out);
    return "";
  }
  std::vector<Json> want;
  for(const auto& r : results)
    if( st.array )
    {
      Json a;
      a.k = Json::Arr;
      for(const auto& m : r) a.a.push_back(object(m));
      if( !a.a.empty() ) want.push_back(a);
    }
    else for(const auto& m : r) want.push_back(object(m));
  JsonReader rd(out);
  auto got = rd.read();
  auto bad = [&](const std::string& what) {
    std::string w;
    for(const auto& j : want) w += j.str() + "\n";
    return what + "\nexpected:\n" + w.substr(0, 2000) + "\nactual output:\n" + out.substr(0, 2000);
  };
  if( !rd.error.empty() ) return bad(rd.error);
  if( got.size() > want.size() || (!prefix && got.size() < want.size()) ) return bad("wrong number of results");
  std::size_t end = 0;
  for(std::size_t i = 0; i < got.size(); ++i)
  {
    if( !(got[i].v == want[i]) ) return bad("result " + std::to_string(i + 1) + " differs");
    std::string text = out.substr(got[i].from, got[i].to - got[i].from);
    if( out.substr(end, got[i].from - end) != (i ? "\n" : "") ) return bad("result " + std::to_string(i + 1) + " does not begin on a line of its own");
    end = got[i].to;
    auto lines = static_cast<std::size_t>(std::count(text.begin(), text.end(), '\n')) + 1;
    if( !st.pretty && lines != 1 ) return bad("a result is spread over several lines");
    // pretty: every member and element on an indented line
    if( st.pretty && text.size() > 2 )
    {
      std::size_t need = 0;
      std::function<void(const Json&)> cnt = [&](const Json& j) {
        if( j.k == Json::Arr ) for(const auto& x : j.a) { ++need; cnt(x); }
        if( j.k == Json::Obj ) for(const auto& p : j.o) { ++need; cnt(p.second); }
      };
      cnt(got[i].v);
      if( lines < need + 1 || text.find("\n ") == std::string::npos ) return bad("not indented");
    }
  }
  if( out.substr(end) != (got.empty() ? "" : "\n") ) return bad("the output does not end with a line end");
  return "";
}

Rule parse(const std::string& s) { return ParseHext(s.data(), s.size()); }

Result extract(const std::string& hext, const std::string& html)
{
  Html h(html.data(), html.size());
  return parse(hext).extract(h);
}

std::string tmp_name(const std::string& ext)
{
  return "w" + std::to_string(getpid()) + ext;
}

// a run that has to succeed
bool expect(Ctx& c, const std::vector<std::string>& args, const Style& st, const std::vector<Result>& res, const std::string& about, const Io& io = Io())
{
  Run r = run(args, io);
  std::string e;
  if( r.rc() != 0 ) e = "exit status " + std::to_string(r.status);
  else if( !r.err.empty() ) e = "unexpected message";
  else e = judge(r.out, res, st);
  std::uint64_t h = fnv(r.out);
  c.outcome(h);
  if( e.empty() ) return true;
  c.fail(show_args(args) + "\n" + about + "\n" + e + (r.err.empty() ? "" : "\nstderr: " + show(r.err)));
  return false;
}

struct Mode { const char * name; std::vector<std::string> args; Style st; };

std::vector<Mode> modes()
{
  Style n, p, a, ap;
  p.pretty = ap.pretty = a.array = ap.array = true;
  return {{"default", {}, n}, {"compact", {"-c"}, n}, {"pretty", {"-p"}, p}, {"array", {"-a"}, a}, {"array, pretty", {"-a", "--pretty"}, ap},
          {"pretty, compact", {"--compact", "-p"}, p}, {"array, compact", {"--array", "-c"}, a}};
}

Mode filter_mode(const std::string& key)
{
  Style s;
  s.filter = true;
  s.key = key;
  // an empty key is one that no result has
  if( key.empty() ) return {"filter", {"-f", ""}, s};
  return {"filter", {"--filter=" + key}, s};
}

// ---- C25 --------------------------------------------------------------------

// hext literal of a text that does not end in a backslash (no literal does)
std::string literal(const std::string& s)
{
  std::string r = "\"";
  for(char c : s) { if( c == '"' ) r += '\\'; r += c; }
  return r + "\"";
}

const std::vector<std::string>& alphabet()
{
  static const std::vector<std::string> a = [] {
    std::vector<std::string> v;
    for(char c : std::string("\"\\/'<>&{}[]:,au0-\x01\x07\b\t\n\v\f\r\x1b\x1f \x7f$")) v.push_back(std::string(1, c));
    v.push_back(std::string(1, '\0'));
    for(unsigned cp : {0x80u, 0x85u, 0xa0u, 0xe9u, 0x7ffu, 0x800u, 0x2028u, 0x2029u, 0xd7ffu, 0xe000u, 0xfeffu, 0xfffdu, 0xffffu, 0x10000u, 0x1f600u, 0x10ffffu}) v.push_back(utf8(cp));
    return v;
  }();
  return a;
}

// strings over the alphabet, by index; (n=1: 1, n=2: 2...)
std::string word(std::uint64_t i)
{
  const auto& a = alphabet();
  if( i == 0 ) return "";
  --i;
  if( i < a.size() ) return a[i];
  i -= a.size();
  if( i < a.size() * a.size() ) return a[i / a.size()] + a[i % a.size()];
  i -= a.size() * a.size();
  return a[i / a.size() / a.size()] + a[i / a.size() % a.size()] + a[i % a.size()];
}
std::uint64_t words(int n)
{
  std::uint64_t a = alphabet().size();
  return n == 0 ? 1 : n == 1 ? 1 + a : n == 2 ? 1 + a + a * a : 1 + a + a * a + a * a * a;
}

struct Files
{
  std::string hext = tmp_name(".hext"), html = tmp_name(".html");
  Files(const std::string& r, const std::string& d) { put(hext, r); put(html, d); }
  std::vector<std::string> args(const std::vector<std::string>& pre) const
  {
    auto a = pre;
    a.push_back("--hext"); a.push_back(hext); a.push_back("-i"); a.push_back(html);
    return a;
  }
  ~Files() { unlink((g_dir + "/" + hext).c_str()); unlink((g_dir + "/" + html).c_str()); }
};

std::string about(const std::string& hext, const std::string& html) { return "hext: " + show(hext).substr(0, 1500) + "\nHTML: " + show(html).substr(0, 1500); }

void one(Ctx& c, std::uint64_t& inner, const std::string& hext, const std::string& html, const std::vector<Mode>& ms)
{
  std::unique_ptr<Files> f;
  Result res;
  for(const auto& m : ms)
  {
    if( !c.want(inner++) ) continue;
    if( !f ) { f = std::make_unique<Files>(hext, html); res = extract(hext, html); }
    if( !res.empty() ) c.nontrivial(fnv(hext + "\1" + html + "\1" + m.name + m.st.key));
    if( c.want_sample() ) c.sample(show_args(f->args(m.args)) + "  " + about(hext, html).substr(0, 600));
    if( !expect(c, f->args(m.args), m.st, {res}, about(hext, html)) ) return;
  }
}

Space characters_in_values(int n)
{
  constexpr std::uint64_t kB = 60;
  return {"every text of up to " + std::to_string(n) + " special characters as value x output options", (words(n) + kB - 1) / kB,
    [n](Ctx& c, std::uint64_t outer) {
      // as a literal of the rule (exact) and through the document
      std::string hext = "<p a:x", html = "<p a=v>", entities = "";
      for(std::uint64_t i = outer * kB; i < (outer + 1) * kB && i < words(n); ++i)
      {
        if( word(i).empty() || word(i).back() != '\\' )
          hext += " a:append(" + literal(word(i)) + "):" + (i % 3 ? "x" : "y");
        entities += "<p a=\"";
        for(char ch : word(i)) if( ch == '"' ) entities += "&quot;"; else if( ch == '\r' ) entities += "&#13;"; else if( ch == '&' ) entities += "&amp;"; else entities += ch;
        entities += "\"></p>";
      }
      hext += "/>";
      std::uint64_t inner = 0;
      auto ms = modes();
      ms.push_back(filter_mode("x"));
      ms.push_back(filter_mode("z"));
      one(c, inner, hext, html, ms);
      one(c, inner, "<p a:x/>", entities, ms);
    }, nullptr};
}

Space characters_in_names(int n)
{
  constexpr std::uint64_t kB = 24;
  return {"every text of up to " + std::to_string(n) + " special characters as name x output options, as key of --filter", (words(n) + kB - 1) / kB,
    [n](Ctx& c, std::uint64_t outer) {
      std::string hext = "<p", html = "<p a=v b=w>";
      auto ms = modes();
      for(std::uint64_t i = outer * kB; i < (outer + 1) * kB && i < words(n); ++i)
      {
        std::string w = word(i);
        if( !w.empty() && w.back() == '\\' ) continue;
        hext += " a:" + literal(w);
        if( i % 2 ) hext += " b:" + literal(w);
        if( w.find('\0') == std::string::npos ) ms.push_back(filter_mode(w));
      }
      hext += "/>";
      std::uint64_t inner = 0;
      try { parse(hext); } catch( const SyntaxError& ) { c.want(inner++); c.fail("names are refused: " + show(hext)); return; }
      one(c, inner, hext, html, ms);
    }, nullptr};
}

std::uint64_t power(std::uint64_t b, int e) { std::uint64_t r = 1; while( e-- ) r *= b; return r; }

// sequences of optional captures of a, b, c into x, y; one element for every
// subset of the attributes
Space sequences(int n)
{
  return {"every sequence of " + std::to_string(n) + " captures x multiplicities x output options", power(6, n),
    [n](Ctx& c, std::uint64_t outer) {
      std::string hext = "<p", html;
      for(int i = 0; i < n; ++i)
      {
        auto k = outer / power(6, i) % 6;
        hext += std::string(" ") + "abc"[k % 3] + ":" + "xy"[k / 3] + "?";
      }
      hext += "/>";
      for(int s = 0; s < 8; ++s)
      {
        html += "<p";
        for(int i = 0; i < 3; ++i) if( s >> i & 1 ) html += std::string(" ") + "abc"[i] + "=" + "\xc3\xa9" + std::to_string(s) + "abc"[i];
        html += ">";
      }
      std::uint64_t inner = 0;
      auto ms = modes();
      std::vector<Mode> few{ms[0], ms[2], ms[3], filter_mode("x"), filter_mode("")};
      if( n <= 3 ) { few.push_back(ms[4]); few.push_back(filter_mode("y")); few.push_back(filter_mode("xy")); }
      one(c, inner, hext, html, few);
    }, nullptr};
}

// one parameter each: values of one name, names, results, sizes
Space families(bool thorough)
{
  std::uint64_t n = thorough ? 140 : 70;
  return {"families: 1.." + std::to_string(n) + " values of a name, names, results; sizes", n * 5,
    [n](Ctx& c, std::uint64_t outer) {
      auto k = outer / 5 + 1;
      std::string hext, html;
      auto ms = modes();
      std::vector<Mode> use{ms[0], ms[2], ms[3], ms[4], filter_mode("x")};
      switch( outer % 5 )
      {
        case 0:   // one name, k values (with one of another name in between)
          hext = "<p";
          for(std::uint64_t i = 0; i < k; ++i) hext += (i == k / 2 ? " b:y" : "") + std::string(" a:append(\"") + std::to_string(i) + "\"):x";
          hext += "/>"; html = "<p a=1 b=2>";
          break;
        case 1:   // k names
          hext = "<p";
          for(std::uint64_t i = 0; i < k; ++i) hext += " a:n" + std::to_string(i) + (i % 7 == 3 ? " b:n" + std::to_string(i / 2) : std::string());
          hext += "/>"; html = "<p a=1 b=2>";
          use.push_back(filter_mode("n0"));
          use.push_back(filter_mode("n" + std::to_string(k / 2)));
          break;
        case 2:   // k results
          hext = "<p a:x?/>";
          for(std::uint64_t i = 0; i < k; ++i) html += i % 5 == 4 ? "<p>" : "<p a=" + std::to_string(i) + ">";
          break;
        case 3:   // long values
        {
          std::uint64_t len = k < 30 ? k : k < 62 ? (std::uint64_t(1) << (k - 30) / 2 % 16) + k % 3 : k * 4096 + k % 3 - 1;
          hext = "<p a:x @text:y/>"; html = "<p a='" + std::string(len, 'a') + "'>";
          for(std::uint64_t i = 0; i < len; ++i) html += i % 97 ? "b" : "\xc3\xa9\"";
          break;
        }
        case 4:   // one rule, lists below elements
          hext = "<ul><li @text:x/></ul>";
          for(std::uint64_t i = 0; i < 3; ++i) { html += "<ul>"; for(std::uint64_t j = 0; j < (i == 1 ? k : i); ++j) html += "<li>" + std::to_string(j) + "</li>"; html += "</ul>"; }
          break;
      }
      std::uint64_t inner = 0;
      one(c, inner, hext, html, use);
    }, nullptr};
}

// the same parameters next to the powers of two
Space powers_families(int to)
{
  auto ns = powers(8, to);
  return {"families next to the powers of two", ns.size() * 5, [ns](Ctx& c, std::uint64_t outer) {
    auto k = ns[ns.size() - 1 - outer / 5];
    auto t = [](std::uint64_t n, const std::string& x) { std::string o; for(std::uint64_t i = 0; i < n; ++i) o += x; return o; };
    std::string hext, html;
    auto ms = modes();
    std::vector<Mode> use{ms[0], ms[2], ms[3], ms[4], filter_mode("x")};
    switch( outer % 5 )
    {
      case 0: hext = "<ul><+li @text:x/></ul>"; html = "<ul>" + t(k - 1, "<li>1</li>") + "<li>2</li></ul>"; break;
      case 1: hext = "<li @text:x/>"; html = "<ul>" + t(k - 1, "<li>1</li>") + "<li>2</li></ul>"; break;
      case 2: hext = "<p a:x @text:y/>"; html = "<p a='" + t(k, "a") + "'>" + t(k - 1, "b") + "\""; break;
      case 3:
        if( k > 5000 ) return;
        hext = "<p";
        for(std::uint64_t i = 0; i < k; ++i) hext += " a:n" + std::to_string(i);
        hext += " b:x/>"; html = "<p a=1 b=2>";
        break;
      case 4: hext = "<p a:x a:" + t(k, "n") + "/>"; html = "<p a='1'>"; use.push_back(filter_mode(t(k < 65000 ? k : 65000, "n"))); break;
    }
    std::uint64_t inner = 0;
    one(c, inner, hext, html, use);
  }, nullptr};
}

// output to a terminal is pretty unless --compact is given; whether standard
// input and standard error are terminals does not matter
Space terminal()
{
  static const std::string kDoc = "<ul><li>1<li>2</ul>";
  return {"which standard streams are terminals x output options x results", 64,
    [](Ctx& c, std::uint64_t outer) {
      std::vector<std::string> args{"-s", outer & 1 ? "<li @text:x/>" : "<u/>", "-i", "tty"};
      const std::string f = tmp_name(".tty");
      put(f, kDoc);
      args.back() = f;
      Style st;
      Io io;
      io.out = outer & 8 ? Io::Tty : Io::Mem;
      switch( outer >> 4 )
      {
        case 0: io.in = Io::Null; break;
        case 1: io.in = Io::InTty; break;
        case 2: io.in = Io::InTty; io.err_tty = true; break;
        case 3: io.in = Io::InClosed; break;
      }
      st.pretty = !(outer & 2) && (outer & 8);
      if( outer & 2 ) args.push_back("-c");
      if( outer & 4 ) { args.push_back("-a"); st.array = true; }
      if( !c.want(0) ) return;
      c.model(1, 1);
      c.validated();
      c.nontrivial(fnv("tty" + std::to_string(outer)));
      expect(c, args, st, {extract(args[1], kDoc)}, "terminals: " + std::string(outer >> 4 == 1 || outer >> 4 == 2 ? "standard input " : "") + (outer >> 4 == 2 ? "standard error " : "") + (outer & 8 ? "standard output" : ""), io);
      unlink((g_dir + "/" + f).c_str());
    }, nullptr};
}

std::vector<Space> c25(bool thorough)
{
  std::vector<Space> v{characters_in_values(2), characters_in_names(thorough ? 2 : 1), families(thorough)};
  if( thorough ) v[0] = characters_in_values(3);
  else v.push_back(characters_in_names(2));
  for(int n = 1; n <= (thorough ? 5 : 4); ++n) v.push_back(sequences(n));
  if( !thorough ) v.erase(v.begin() + 1);
  v.push_back(powers_families(17));
  v.push_back(terminal());
  return v;
}

// ---- C26 --------------------------------------------------------------------

struct Tok
{
  std::vector<std::string> argv;
  enum K { Hext, Str, Html, Pos, Array, Pretty, Compact, Filter, Lint, Max, Help, Version, Bad, BadAtEnd, End, No } k;
  std::string val;
  bool core = false;
  // a second one, if flags are grouped
  K k2 = No;
};

const char kStdin[] = "<ul><li>stdin<li>2</ul>";

const std::vector<Tok>& tokens()
{
  static const std::vector<Tok> t{
    {{"-x", "r1"}, Tok::Hext, "r1", true},
    {{"--hext=r2"}, Tok::Hext, "r2", true},
    {{"-s", "<x-y @text:x/>"}, Tok::Str, "<x-y @text:x/>", true},
    {{"-i", "h1"}, Tok::Html, "h1", true},
    {{"--html", "h2"}, Tok::Html, "h2", true},
    {{"r1"}, Tok::Pos, "r1", true},
    {{"h2"}, Tok::Pos, "h2", true},
    {{"--array"}, Tok::Array, "", true},
    {{"-f", "x"}, Tok::Filter, "x", true},
    {{"-l"}, Tok::Lint, "", true},
    {{"-m", "12"}, Tok::Max, "12", true},
    // the others
    {{"--str=<li @text:y/><i/>"}, Tok::Str, "<li @text:y/><i/>", false},
    {{"-p"}, Tok::Pretty, "", false},
    {{"--compact"}, Tok::Compact, "", false},
    {{"--lint"}, Tok::Lint, "", false},
    {{"--max-searches=1000"}, Tok::Max, "1000", false},
    {{"--max-searches", "1"}, Tok::Max, "1", false},
    {{"--help"}, Tok::Help, "", false},
    {{"-V"}, Tok::Version, "", false},
    {{"-x", "bad"}, Tok::Hext, "bad", false},
    {{"-s", "<a b=/>"}, Tok::Str, "<a b=/>", false},
    {{"-x", "missing"}, Tok::Hext, "missing", false},
    {{"-i", "missing"}, Tok::Html, "missing", false},
    {{"-x", "dir"}, Tok::Hext, "dir", false},
    {{"--html=dir"}, Tok::Html, "dir", false},
    {{"-x", "empty"}, Tok::Hext, "empty", false},
    {{"-i", "empty"}, Tok::Html, "empty", false},
    {{"-i", "-"}, Tok::Html, "-", false},
    {{"missing"}, Tok::Pos, "missing", false},
    {{"-m", "many"}, Tok::Bad, "", false},
    {{"-m", "18446744073709551616"}, Tok::Bad, "", false},
    {{"-m", "12x"}, Tok::Bad, "", false},
    {{"--max-searches=1.5"}, Tok::Bad, "", false},
    {{"-m", ""}, Tok::Bad, "", false},
    {{"--bogus"}, Tok::Bad, "", false},
    {{"-q"}, Tok::Bad, "", false},
    {{"-f"}, Tok::BadAtEnd, "", false},
    {{"--html"}, Tok::BadAtEnd, "", false},
    {{"-m"}, Tok::BadAtEnd, "", false},
    // flags in one argument, values in the argument of the flag, beginnings of names
    {{"-cl"}, Tok::Compact, "", true, Tok::Lint},
    {{"-ap"}, Tok::Array, "", false, Tok::Pretty},
    {{"-pa"}, Tok::Pretty, "", false, Tok::Array},
    {{"-la"}, Tok::Lint, "", false, Tok::Array},
    {{"-ch"}, Tok::Compact, "", false, Tok::Help},
    {{"--lin"}, Tok::Lint, "", false},
    {{"--arr"}, Tok::Array, "", false},
    {{"--ht", "h1"}, Tok::Html, "h1", false},
    {{"--he"}, Tok::Bad, "", false}, // help or hext
    {{"--htm=h1"}, Tok::Html, "h1", false},
    {{"-xr1"}, Tok::Hext, "r1", false},
    {{"-ih1"}, Tok::Html, "h1", false},
    {{"-m12"}, Tok::Max, "12", false},
    {{"-fx"}, Tok::Filter, "x", false},
    {{"-s<li @text:z/>"}, Tok::Str, "<li @text:z/>", false},
    {{"--"}, Tok::End, "", true},
  };
  return t;
}

void standard_files()
{
  put("r1", "<li @text:x/>\n");
  put("r2", "<ul><li @text:x/><li @text:x/></ul><a href:y/>\n");
  put("bad", "<a href:x/>\n<b c'/>\n");
  put("empty", "");
  // documents refer to their text for the names of custom elements; short texts
  // are a part of the string that holds them
  put("h1", "<!DOCTYPE html><html><body><ul><li>\xc3\xa4</li><li>two</li></ul><a href=u><x-y>B</x-y></a><p><X-Y>C</X-Y></p>\n");
  put("h2", "<li>1<x-y>D");
  // after --, these are files
  put("-l", "<li @text:l/>\n<li>5</li>");
  put("--array", "<li>6</li>");
  mkdir((g_dir + "/dir").c_str(), 0755);
}

struct Expect
{
  bool skip = false, ok = false, any_out = false;
  std::vector<std::string> out_has, err_has;
  std::vector<Result> results;
  Style st;
  std::string kind;
};

const std::string * content(const std::string& f)
{
  static const std::string in = kStdin;
  if( f == "-" ) return &in;
  auto it = g_files.find(f);
  return it == g_files.end() ? nullptr : &it->second;
}

Expect model(const std::vector<const Tok *>& seq)
{
  Expect e;
  std::vector<std::string> hext, str, html;
  bool help = false, version = false, lint = false, posarg = false, bad = false, compact = false;
  std::uint64_t max = 0;
  std::set<int> seen;
  int stdins = 0;
  std::size_t pos = 0;
  bool end = false;
  auto flag = [&](Tok::K k, const std::string& val) {
    // nothing is said about repeated flags
    if( !seen.insert(k).second ) e.skip = true;
    if( k == Tok::Array ) e.st.array = true;
    if( k == Tok::Pretty ) e.st.pretty = true;
    if( k == Tok::Compact ) compact = true;
    if( k == Tok::Filter ) { e.st.filter = true; e.st.key = val; }
    if( k == Tok::Lint ) lint = true;
    if( k == Tok::Max ) max = std::stoull(val);
    if( k == Tok::Help ) help = true;
    if( k == Tok::Version ) version = true;
  };
  for(std::size_t i = 0; i < seq.size(); ++i)
  {
    const Tok& t = *seq[i];
    if( end )
    {
      // everything is a file
      for(const auto& a : t.argv) { posarg = true; if( a == "-" && stdins++ ) e.skip = true; (pos++ ? html : hext).push_back(a); }
      continue;
    }
    switch( t.k )
    {
      case Tok::Hext: hext.push_back(t.val); break;
      case Tok::Str: str.push_back(t.val); break;
      case Tok::Html: html.push_back(t.val); if( t.val == "-" && stdins++ ) e.skip = true; break;
      case Tok::Pos: posarg = true; (pos++ ? html : hext).push_back(t.val); break;
      case Tok::Bad: bad = true; break;
      case Tok::BadAtEnd: if( i + 1 != seq.size() ) e.skip = true; bad = true; break;
      case Tok::End: end = true; break;
      default:
        flag(t.k, t.val);
        if( t.k2 != Tok::No ) flag(t.k2, "");
    }
  }
  (void)compact;
  if( e.skip ) return e;
  // --lint takes no positional arguments
  if( lint && posarg ) bad = true;
  if( bad ) { e.kind = "argument error"; return e; }
  if( help ) { e.kind = "help"; e.ok = e.any_out = true; e.out_has = {"--hext", "--html", "--str", "--compact", "--pretty", "--array", "--filter", "--lint", "--max-searches", "--help", "--version"}; return e; }
  if( version ) { e.kind = "version"; e.ok = e.any_out = true; return e; }
  if( hext.empty() && str.empty() ) { e.kind = "no hext"; return e; }
  if( !lint && html.empty() ) { e.kind = "no HTML"; return e; }
  std::vector<Rule> rules;
  for(const auto& f : hext)
  {
    auto s = content(f);
    if( !s ) { e.kind = "unreadable hext"; e.err_has = {f}; return e; }
    try { rules.push_back(parse(*s)); } catch( const SyntaxError& x ) { e.kind = "syntax error"; e.err_has = {f, x.what()}; return e; }
  }
  for(const auto& s : str)
    try { rules.push_back(parse(s)); } catch( const SyntaxError& x ) { e.kind = "syntax error"; e.err_has = {x.what()}; return e; }
  if( lint ) { e.kind = "lint"; e.ok = true; e.results.clear(); return e; }
  std::vector<Html> docs;
  for(const auto& f : html)
  {
    auto s = content(f);
    if( !s ) { e.kind = "unreadable HTML"; e.err_has = {f}; return e; }
    docs.emplace_back(s->data(), s->size());
  }
  for(const auto& r : rules) for(const auto& d : docs)
    try { e.results.push_back(r.extract(d, max)); } catch( const MaxSearchError& ) { e.kind = "search limit"; return e; }
  e.ok = true;
  e.kind = "results";
  return e;
}

// how an error that exists once (the first in order) is judged: any of several
// may be reported; the model names the one of the documented order
void command(Ctx& c, const std::vector<const Tok *>& seq)
{
  Expect e = model(seq);
  if( e.skip ) return;
  std::vector<std::string> args;
  bool in = false;
  for(auto t : seq) { for(const auto& a : t->argv) args.push_back(a); if( t->val == "-" ) in = true; }
  Io io;
  if( in ) { io.in = args.size() % 2 ? Io::Pipe : Io::File; io.input = kStdin; }
  Run r = run(args, io);
  std::string bad;
  if( e.ok )
  {
    if( r.rc() != 0 ) bad = "exit status " + std::to_string(r.status) + " instead of 0";
    else if( !r.err.empty() ) bad = "unexpected message on standard error";
    else if( e.any_out )
    {
      if( r.out.empty() ) bad = "nothing is printed";
      for(const auto& s : e.out_has) if( r.out.find(s) == std::string::npos ) bad = "the output lacks " + s;
    }
    else bad = judge(r.out, e.results, e.st);
  }
  else
  {
    if( r.signalled() ) bad = "terminated by signal " + std::to_string(WTERMSIG(r.status));
    else if( r.rc() == 0 ) bad = "exit status 0";
    else if( r.err.empty() ) bad = "no message";
    else
    {
      for(const auto& s : e.err_has) if( r.err.find(s) == std::string::npos ) bad = "the message lacks " + show(s);
      if( bad.empty() ) bad = judge(r.out, e.results, e.st, true);
    }
  }
  c.model(1, static_cast<std::uint64_t>(seq.size()));
  c.validated();
  if( !e.ok || !e.results.empty() ) { std::string k; for(const auto& a : args) k += a + "\1"; c.nontrivial(fnv(k)); }
  c.outcome(fnv(e.kind + std::to_string(r.status) + r.out));
  if( c.want_sample() ) c.sample(show_args(args) + ": " + e.kind);
  if( !bad.empty() ) c.fail(show_args(args) + "\nmodel: " + e.kind + "\n" + bad + "\nstatus " + std::to_string(r.status) + "\nstdout: " + show(r.out).substr(0, 1000) + "\nstderr: " + show(r.err).substr(0, 1000));
}

Space sequences_of_tokens(int n, bool core)
{
  static std::vector<const Tok *> all, few;
  if( all.empty() ) for(const auto& t : tokens()) { all.push_back(&t); if( t.core ) few.push_back(&t); }
  const auto * v = core ? &few : &all;
  int head = n > 2 ? 2 : n;
  return {"every sequence of " + std::to_string(n) + (core ? " of the main" : " of all") + " arguments (" + std::to_string(v->size()) + ")", power(v->size(), head),
    [v, n, head](Ctx& c, std::uint64_t outer) {
      auto m = power(v->size(), n - head);
      for(std::uint64_t i = 0; i < m; ++i)
      {
        if( !c.want(i) ) continue;
        std::vector<const Tok *> s;
        for(int k = 0; k < head; ++k) s.push_back((*v)[outer / power(v->size(), k) % v->size()]);
        for(int k = 0; k < n - head; ++k) s.push_back((*v)[i / power(v->size(), k) % v->size()]);
        command(c, s);
        if( c.violated ) return;
      }
    }, nullptr};
}

// n rules (files, strings alternately) times m documents of some size
Space many(int n)
{
  return {"up to " + std::to_string(n) + " x " + std::to_string(n) + " inputs, by options and positions, of several sizes", static_cast<std::uint64_t>(n * n),
    [n](Ctx& c, std::uint64_t outer) {
      int nr = int(outer) / n + 1, nd = int(outer) % n + 1;
      for(std::uint64_t inner = 0; inner < 8; ++inner)
      {
        if( !c.want(inner) ) continue;
        bool positional = inner & 1, big = inner & 2, mixed = inner & 4;
        std::vector<std::string> args, made;
        std::vector<Rule> rules;
        std::vector<std::string> docs;
        auto rule = [&](int i) { return i % 3 == 0 ? "<b @text:x" + std::to_string(i) + "/>" : i % 3 == 1 ? "<i @inner-html:\"" + std::to_string(i) + "\"/>" : std::string("<p><b @text:y/></p>"); };
        for(int i = 0; i < nr; ++i)
          if( !mixed || i % 2 == 0 )
          {
            std::string f = tmp_name((".r" + std::to_string(i)).c_str());
            put(f, rule(i));
            made.push_back(f);
            if( !(positional && i == 0) ) args.push_back("-x");
            args.push_back(f);
            rules.push_back(parse(rule(i)));
          }
        for(int i = 0; i < nr; ++i)
          if( mixed && i % 2 ) { args.push_back("--str"); args.push_back(rule(i)); rules.push_back(parse(rule(i))); }
        for(int i = 0; i < nd; ++i)
        {
          std::string f = tmp_name((".h" + std::to_string(i)).c_str());
          std::string d = i % 4 == 3 ? std::string("<b>") : "<b>" + std::to_string(i) + "</b>";
          if( i % 2 ) d += "<i><u>" + std::to_string(i) + "</u>&amp;</i>";
          if( big ) { d += "<p>"; for(int k = 0; k < 300 * (i + 1); ++k) d += "<b>" + std::to_string(k) + "</b>"; }
          put(f, d);
          made.push_back(f);
          if( !positional ) args.push_back("-i");
          args.push_back(f);
          docs.push_back(d);
        }
        std::vector<Result> res;
        for(const auto& r : rules) for(const auto& d : docs) { Html h(d.data(), d.size()); res.push_back(r.extract(h)); }
        c.model(1, rules.size() * docs.size());
        c.validated();
        c.nontrivial(fnv(std::to_string(outer * 8 + inner) + "many"));
        bool ok = expect(c, args, Style(), res, "");
        for(const auto& f : made) { unlink((g_dir + "/" + f).c_str()); g_files.erase(f); }
        if( !ok ) return;
      }
    }, nullptr};
}

// contents of every size around the buffers, as file and through stdin
Space contents()
{
  static const std::vector<std::uint64_t> sizes = [] {
    std::vector<std::uint64_t> v;
    for(std::uint64_t i = 0; i < 12; ++i) v.push_back(i);
    for(std::uint64_t b : {1023u, 4096u, 8191u, 8192u, 16384u, 24573u, 65536u, 131072u, 400000u}) for(std::uint64_t d = 0; d < 5; ++d) v.push_back(b - 2 + d);
    return v;
  }();
  return {"contents of " + std::to_string(sizes.size()) + " sizes x kinds x ways", sizes.size(),
    [](Ctx& c, std::uint64_t outer) {
      static const std::vector<std::string> fill{"b", std::string(1, '\0'), "\r\n", "\n", "\xff", "\x1a", "\xc3\xa4", "\xef\xbb\xbf"};
      for(std::uint64_t inner = 0; inner < fill.size() * 4; ++inner)
      {
        if( !c.want(inner) ) continue;
        const auto& f = fill[inner / 4];
        std::string d;
        auto n = sizes[outer];
        while( d.size() < n ) d += f;
        d.resize(n);
        // the end of the input has to arrive
        std::string tail = "<b k=1>";
        if( d.size() > tail.size() ) d.replace(d.size() - tail.size(), tail.size(), tail);
        std::string hext = "<b k:append(\"!\"):k/><body><*/></body>";
        Io io;
        std::vector<std::string> args{"-s", "<b k:k/>", "-i", "-"};
        std::string name = tmp_name(".big");
        Result want;
        if( inner % 4 == 3 )
        {
          // as hext: blanks or a comment of this size in front of the rule
          std::string r = f == "\n" || f == "\r\n" ? d.substr(0, d.size() > 7 ? d.size() - 7 : 0) : "#" + d + "\n";
          if( f != "\n" && f != "\r\n" ) { r.clear(); r = "#"; while( r.size() < n ) r += f; r += "\n"; }
          r += "<p c:x/>";
          put(name, r);
          put(name + "h", "<p c=v>");
          args = {"-x", name, "-i", name + "h"};
          Html h("<p c=v>", 7);
          try { want = parse(r).extract(h); }
          catch( const SyntaxError& x )
          {
            Run rr = run(args);
            unlink((g_dir + "/" + name).c_str()); unlink((g_dir + "/" + name + "h").c_str());
            if( rr.rc() == 0 || rr.err.empty() || !rr.out.empty() ) { c.fail(show_args(args) + "\na syntax error is not reported"); return; }
            continue;
          }
        }
        else
        {
          Html h(d.data(), d.size());
          want = parse("<b k:k/>").extract(h);
          if( inner % 4 == 0 ) { put(name, d); args.back() = name; }
          else { io.in = inner % 4 == 1 ? Io::File : Io::Pipe; io.input = d; }
        }
        c.model(1, 1);
        c.validated();
        if( !want.empty() ) c.nontrivial(fnv(std::to_string(outer * 100 + inner) + "contents"));
        bool ok = expect(c, args, Style(), {want}, std::to_string(n) + " bytes of " + show(f) + ", way " + std::to_string(inner % 4), io);
        unlink((g_dir + "/" + name).c_str());
        unlink((g_dir + "/" + name + "h").c_str());
        if( !ok ) return;
      }
    }, nullptr};
}

// search limits: below what is needed an error, from there on the full output
Space limits(std::uint64_t n)
{
  // and the numbers around the powers of two
  std::vector<std::uint64_t> ms;
  for(std::uint64_t i = 0; i <= n; ++i) ms.push_back(i);
  for(int k = 8; k <= 64; ++k)
    for(std::uint64_t d : {std::uint64_t(-2), std::uint64_t(-1), std::uint64_t(0), std::uint64_t(1), std::uint64_t(2), std::uint64_t(3), std::uint64_t(5)})
      if( k < 64 || d > 5 ) ms.push_back((k < 64 ? std::uint64_t(1) << k : 0) + d);
  return {"every --max-searches of 0.." + std::to_string(n) + " and around every power of two up to 2^64", ms.size(),
    [ms](Ctx& c, std::uint64_t index) {
      const auto outer = ms[index];
      for(std::uint64_t inner = 0; inner < 3; ++inner)
      {
        if( !c.want(inner) ) continue;
        std::vector<std::string> args{"-x", "r2", "-x", "r1", "-i", "h1", "-i", "h2"};
        if( inner == 1 ) { args.push_back("-m"); args.push_back(std::to_string(outer)); }
        else args.insert(args.begin(), "--max-searches=" + std::to_string(outer));
        Style st;
        if( inner == 2 ) { args.push_back("--filter=x"); st.filter = true; st.key = "x"; }
        std::vector<Result> res;
        bool over = false;
        for(auto r : {"r2", "r1"}) for(auto d : {"h1", "h2"})
          if( !over )
            try { Html h(g_files[d].data(), g_files[d].size()); res.push_back(parse(g_files[r]).extract(h, outer)); } catch( const MaxSearchError& ) { over = true; }
        Run r = run(args);
        std::string e;
        if( over ? r.rc() <= 0 : r.rc() != 0 ) e = "exit status " + std::to_string(r.status);
        else if( over == r.err.empty() ) e = over ? "no message" : "unexpected message";
        else e = judge(r.out, res, st, over);
        c.model(1, 1);
        c.validated();
        c.nontrivial(fnv("limit" + std::to_string(outer * 3 + inner)));
        c.outcome(fnv(r.out + std::to_string(r.status)));
        if( !e.empty() ) { c.fail(show_args(args) + "\n" + (over ? "the limit is exceeded" : "the limit suffices") + "\n" + e + "\nstdout: " + show(r.out) + "\nstderr: " + show(r.err)); return; }
      }
    }, nullptr};
}

// several hexts and documents with a limit: every sequence of up to n hexts and
// m documents, with every limit that is just enough for one of the pairs, or
// one too small
Space limited_sequences(int n, int m)
{
  static const std::vector<std::string> hexts{"<p @text:x/>", "<p/><b @text:x/>", "<li><i @text:x/></li>"};
  static const std::vector<std::string> htmls{"<p>1</p>", "<p>2</p><b>3</b><p></p><b>4</b>", "<ul><li><i>5</i></li><li>6<i>7</i></li></ul><p>8</p>"};
  const auto k = std::uint64_t(hexts.size()), j = std::uint64_t(htmls.size());
  std::uint64_t rs = 0, ds = 0;
  for(int i = 1; i <= n; ++i) rs += power(k, i);
  for(int i = 1; i <= m; ++i) ds += power(j, i);
  return {"sequences of up to " + std::to_string(n) + " hexts and up to " + std::to_string(m) + " documents with every relevant limit", rs * ds,
    [=](Ctx& c, std::uint64_t outer) {
      // how much a pair needs
      static const std::vector<std::uint64_t> limits = [] {
        std::vector<std::uint64_t> v{0};
        for(const auto& r : hexts) for(const auto& d : htmls)
        {
          Html h(d.data(), d.size());
          std::uint64_t l = 1;
          for(;; ++l) try { parse(r).extract(h, l); break; } catch( const MaxSearchError& ) {}
          v.push_back(l);
          if( l > 1 ) v.push_back(l - 1);
        }
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        return v;
      }();
      auto seq = [](std::uint64_t i, std::uint64_t base, int to) { std::vector<std::size_t> v; for(int l = 1; l <= to; ++l) { if( i < power(base, l) ) { for(int q = 0; q < l; ++q, i /= base) v.push_back(std::size_t(i % base)); break; } i -= power(base, l); } return v; };
      const auto r = seq(outer % rs, k, n), d = seq(outer / rs, j, m);
      for(std::uint64_t inner = 0; inner < limits.size(); ++inner)
      {
        if( !c.want(inner) ) continue;
        std::vector<std::string> args{"--max-searches", std::to_string(limits[inner])};
        Style st;
        if( inner % 2 ) { args.push_back("-a"); st.array = true; }
        for(auto a : r) { args.push_back("-s"); args.push_back(hexts[a]); }
        for(auto b : d)
        {
          const std::string f = tmp_name(".lim" + std::to_string(b));
          put(f, htmls[b]);
          args.push_back("-i");
          args.push_back(f);
        }
        std::vector<Result> res;
        bool over = false;
        for(auto a : r) for(auto b : d)
          if( !over )
            try { const auto& x = htmls[b]; Html h(x.data(), x.size()); res.push_back(parse(hexts[a]).extract(h, limits[inner])); } catch( const MaxSearchError& ) { over = true; }
        Run rr = run(args);
        std::string e;
        if( over ? rr.rc() <= 0 : rr.rc() != 0 ) e = "exit status " + std::to_string(rr.status);
        else if( over == rr.err.empty() ) e = over ? "no message" : "unexpected message";
        else e = judge(rr.out, res, st, over);
        for(auto b : d) unlink((g_dir + "/" + tmp_name(".lim" + std::to_string(b))).c_str());
        c.model(1, 1);
        c.validated();
        c.nontrivial(fnv("limits" + std::to_string(outer * 100 + inner)));
        c.outcome(fnv(rr.out + std::to_string(rr.status)));
        if( !e.empty() ) { c.fail(show_args(args) + "\n" + (over ? "the limit is exceeded" : "the limit suffices") + "\n" + e + "\nstdout: " + show(rr.out) + "\nstderr: " + show(rr.err)); return; }
      }
    }, nullptr};
}

// extractions that the regular expression library gives up: every sequence of
// hexts and inputs with some pairs that it cannot do
Space given_up(int n)
{
  std::uint64_t rs = 0, ds = 0;
  for(int k = 1; k <= n; ++k) { rs += power(3, k); ds += power(3, k); }
  return {"sequences of up to " + std::to_string(n) + " hexts and inputs, some of which are too hard to match together", rs * ds,
    [rs, n](Ctx& c, std::uint64_t outer) {
      static const std::string kRx = "/(a*)*(a*)*(a*)*b/", kAs(60, 'a');
      static const std::vector<std::string> hexts{"<p @text:x/>", "<p x=~" + kRx + " x:x/>", "<p x:filter(" + kRx + "):x @text:y/>"};
      static const std::vector<std::string> htmls{"<p x=aab>1</p>", "<p x='" + kAs + "'>2</p>", "<p x=b>3</p><p>4</p><p x='" + kAs + "'>5</p><p x=b>6</p>"};
      auto seq = [n](std::uint64_t i) { std::vector<int> v; for(int k = 1; k <= n; ++k) { if( i < power(3, k) ) { for(int j = 0; j < k; ++j, i /= 3) v.push_back(int(i % 3)); break; } i -= power(3, k); } return v; };
      const auto r = seq(outer % rs), d = seq(outer / rs);
      for(std::uint64_t inner = 0; inner < 3; ++inner)
      {
        if( !c.want(inner) ) continue;
        std::vector<std::string> args;
        Style st;
        if( inner == 1 ) { args.push_back("-a"); st.array = true; }
        if( inner == 2 ) { args.push_back("--filter=x"); st.filter = true; st.key = "x"; }
        for(int k : r) { args.push_back("-s"); args.push_back(hexts[std::size_t(k)]); }
        for(int k : d)
        {
          const std::string f = tmp_name(".hard" + std::to_string(k));
          put(f, htmls[std::size_t(k)]);
          args.push_back("-i");
          args.push_back(f);
        }
        std::vector<Result> res;
        std::string message;
        for(int a : r) for(int b : d)
          if( message.empty() )
            try { const auto& x = htmls[std::size_t(b)]; Html h(x.data(), x.size()); res.push_back(parse(hexts[std::size_t(a)]).extract(h)); } catch( const std::exception& e ) { message = e.what(); }
        Run rr = run(args);
        std::string e;
        if( message.empty() ? rr.rc() != 0 : rr.rc() <= 0 ) e = "exit status " + std::to_string(rr.status);
        else if( message.empty() ? !rr.err.empty() : rr.err.find(message) == std::string::npos ) e = message.empty() ? "unexpected message" : "the message is missing: " + message;
        else e = judge(rr.out, res, st, !message.empty());
        for(int k : d) unlink((g_dir + "/" + tmp_name(".hard" + std::to_string(k))).c_str());
        c.model(1, 1);
        c.validated();
        c.nontrivial(fnv("hard" + std::to_string(outer * 3 + inner)));
        c.outcome(fnv(rr.out + std::to_string(rr.status)));
        if( !e.empty() ) { c.fail(show_args(args) + "\n" + e + "\nstdout: " + show(rr.out) + "\nstderr: " + show(rr.err)); return; }
      }
    }, nullptr};
}

// files with all sorts of names, in a directory of their own: as hext and as
// HTML, in every way to name them, existing and missing, with a standard input
// that is not asked for
Space names()
{
  static const std::vector<std::string> ns = [] {
    std::vector<std::string> v{"-", "--", "-m", "--lint", "-i", "--html", "-1", "a b", " ", "\t", "a\nb", "\n", "\xc3\xa4", "\xff", "\x01", "\x7f", "@h", "@", "a=b", "=", "*", "?", "%s%n%d", "~", "~root", "$HOME", "`id`", "'", "\"", "\\", "a\\", "#", "&", ";", "|", "<", ">", "!", "0", "1", "./x", "./-", "./--", ".//x", "../x", "...", ".x", "http:", "file:x", "c:x", "con", "stdin", "x.hext", "x.html", "x.gz"};
    for(std::size_t n : {100u, 253u, 254u, 255u}) v.push_back(std::string(n, 'n'));
    return v;
  }();
  return {"names of files x ways to name them", ns.size(),
    [](Ctx& c, std::uint64_t outer) {
      const auto& n = ns[outer];
      const std::string top = tmp_name(".names"), dir = top + "/d";
      ::mkdir((g_dir + "/" + top).c_str(), 0700);
      ::mkdir((g_dir + "/" + dir).c_str(), 0700);
      auto write = [&](const std::string& name, const std::string& text) { std::ofstream f(g_dir + "/" + dir + "/" + name, std::ios::binary); f << text; };
      const bool dash = n[0] == '-';
      // which one has the name (hext, HTML), how, whether it exists
      for(std::uint64_t inner = 0; inner < 2 * 5 * 2; ++inner)
      {
        if( !c.want(inner) ) continue;
        const bool html = inner % 2, missing = inner / 10;
        const int way = int(inner / 2 % 5);
        // -, and with it standard input, if there is no such file
        if( missing && n == "-" ) continue;
        if( dash && n != "-" && way < 2 ) continue;
        // the option takes it for its value as it is
        if( n == "--" && way == 0 ) continue;
        const std::string hext = "<p @text:x/>", doc = "<p>in the file</p>";
        std::vector<std::string> args;
        const std::string flag = html ? "i" : "x", opt = html ? "html" : "hext";
        auto other = [&] { if( html ) { args.push_back("-s"); args.push_back(hext); } else { write("h", doc); args.push_back("-i"); args.push_back("h"); } };
        if( way < 4 ) other();
        if( way == 0 ) { args.push_back("-" + flag); args.push_back(n); }
        else if( way == 1 ) { args.push_back("--" + opt); args.push_back(n); }
        else if( way == 2 ) args.push_back("--" + opt + "=" + n);
        else if( way == 3 ) args.push_back("-" + flag + n);
        else
        {
          write("r", hext); write("h", doc);
          args.push_back("-c");
          args.push_back("--");
          args.push_back(html ? "r" : n);
          args.push_back(html ? n : "h");
        }
        if( !missing ) write(n, html ? doc : hext);
        Io io;
        io.dir = dir;
        io.in = Io::File;
        io.input = html ? "<p>in the input</p>" : "<p @text:y/>";
        Run r = run(args, io);
        ::unlink((g_dir + "/" + dir + "/" + n).c_str());
        std::string e;
        if( missing ) { if( r.rc() <= 0 ) e = "exit status " + std::to_string(r.status); else if( r.err.empty() ) e = "no message"; else if( !r.out.empty() ) e = "unexpected output"; }
        else if( r.rc() != 0 || !r.err.empty() ) e = "exit status " + std::to_string(r.status);
        else if( r.out != "{\"x\":\"in the file\"}\n" ) e = "wrong output";
        c.model(1, 1);
        c.validated();
        c.nontrivial(fnv("names" + std::to_string(outer * 100 + inner)));
        c.outcome(fnv(r.out + std::to_string(r.status)));
        if( !e.empty() ) { c.fail(show_args(args) + (missing ? " (no such file)" : " (the file exists)") + "\n" + e + "\nstdout: " + show(r.out) + "\nstderr: " + show(r.err)); break; }
      }
      for(const char * f : {"r", "h"}) ::unlink((g_dir + "/" + dir + "/" + f).c_str());
      ::rmdir((g_dir + "/" + dir).c_str());
      ::rmdir((g_dir + "/" + top).c_str());
    }, nullptr};
}

std::vector<Space> c26(bool thorough)
{
  std::vector<Space> v;
  for(int n = 0; n <= (thorough ? 4 : 3); ++n) v.push_back(sequences_of_tokens(n, false));
  v.push_back(sequences_of_tokens(4, true));
  if( thorough ) v.push_back(sequences_of_tokens(5, true));
  v.push_back(many(thorough ? 20 : 9));
  v.push_back(contents());
  v.push_back(names());
  v.push_back(terminal());
  v.push_back(limits(thorough ? 300 : 100));
  v.push_back(limited_sequences(3, thorough ? 3 : 2));
  v.push_back(given_up(thorough ? 3 : 2));
  return v;
}

// ---- C27 --------------------------------------------------------------------

struct Fault
{
  enum Call { None, Open, Read, Write } call = None;
  std::uint64_t at = 0;               // which of those calls
  int err = 0;                        // error, or
  int shortened = 0;                  // 1: one byte, 2: half, 3: all but one byte
  bool forever = false;               // all later ones of the kind, too
  bool shorts() const { return shortened || err == EINTR; }
  std::string str() const
  {
    static const char * const n[] = {"-", "open", "read", "write"};
    return std::string(n[call]) + " #" + std::to_string(at) + (forever ? " and all later ones: " : ": ") + (err ? strerror(err) : shortened == 1 ? "one byte only" : shortened == 2 ? "half only" : "all but one byte");
  }
};

struct Trace { std::uint64_t opens = 0, reads = 0, writes = 0, calls = 0; bool hit = false, failed = false; };

std::string peek_string(pid_t pid, unsigned long addr)
{
  std::string s;
  for(unsigned long a = addr; s.size() < 4096;)
  {
    errno = 0;
    long w = ptrace(PTRACE_PEEKDATA, pid, a & ~7ul, nullptr);
    if( errno ) break;
    for(unsigned long k = a & 7; k < 8; ++k, ++a)
    {
      char ch = reinterpret_cast<char *>(&w)[k];
      if( !ch ) return s;
      s += ch;
    }
  }
  return s;
}

// inputs are the files in the scratch directory (which are named relative to
// it) and standard input
bool is_input(const std::string& path)
{
  return g_files.count(path) || path == "/dev/stdin" || path == "dir" || path == "missing";
}

Run traced(const std::vector<std::string>& args, const Io& io, const std::vector<Fault>& faults, Trace& t)
{
  auto s = spawn(args, io, true);
  int st = 0;
  if( waitpid(s.pid, &st, 0) != s.pid || !WIFSTOPPED(st) ) { std::fprintf(stderr, "cannot trace\n"); _exit(4); }
  ptrace(PTRACE_SETOPTIONS, s.pid, nullptr, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
  std::set<int> in;
  std::vector<std::string> opened;
  bool entry = true, is_open = false, changed = false, started = false;
  unsigned long fake = 0;
  bool faking = false;
  user_regs_struct saved{};
  int sig = 0;
  for(;;)
  {
    ptrace(PTRACE_SYSCALL, s.pid, nullptr, reinterpret_cast<void *>(static_cast<long>(sig)));
    sig = 0;
    if( waitpid(s.pid, &st, 0) != s.pid ) break;
    if( WIFEXITED(st) || WIFSIGNALED(st) ) break;
    if( !WIFSTOPPED(st) ) continue;
    if( WSTOPSIG(st) != (SIGTRAP | 0x80) ) { sig = WSTOPSIG(st) == SIGTRAP ? 0 : WSTOPSIG(st); continue; }
    user_regs_struct r;
    ptrace(PTRACE_GETREGS, s.pid, nullptr, &r);
    if( entry )
    {
      entry = false;
      is_open = changed = faking = false;
      long nr = static_cast<long>(r.orig_rax);
      if( nr == SYS_execve ) { started = true; continue; }
      if( !started ) continue;
      ++t.calls;
      std::uint64_t n = 0;
      Fault::Call k = Fault::None;
      unsigned long len = r.rdx;
      bool vec = nr == SYS_readv || nr == SYS_writev;
      if( nr == SYS_openat || nr == SYS_open )
      {
        if( is_input(peek_string(s.pid, nr == SYS_open ? r.rdi : r.rsi)) ) { k = Fault::Open; n = ++t.opens; is_open = true; }
      }
      else if( (nr == SYS_read || nr == SYS_readv || nr == SYS_pread64) && in.count(static_cast<int>(r.rdi)) ) { k = Fault::Read; n = ++t.reads; }
      else if( (nr == SYS_write || nr == SYS_writev) && r.rdi == 1 && !in.count(1) ) { k = Fault::Write; n = ++t.writes; }
      else if( nr == SYS_close ) in.erase(static_cast<int>(r.rdi));
      auto hit = std::find_if(faults.begin(), faults.end(), [&](const Fault& x) { return k == x.call && k != Fault::None && (n == x.at || (x.forever && n > x.at)); });
      if( hit != faults.end() )
      {
        const Fault& f = *hit;
        saved = r;
        if( f.err )
        {
          t.hit = true;
          if( !f.shorts() ) t.failed = true;
          changed = faking = true;
          fake = static_cast<unsigned long>(-static_cast<long>(f.err));
          r.orig_rax = static_cast<unsigned long>(-1);
          ptrace(PTRACE_SETREGS, s.pid, nullptr, &r);
        }
        else
        {
          unsigned long base = r.rsi;
          unsigned long total = len;
          if( vec )
          {
            // the first piece that has any bytes
            total = 0;
            for(unsigned long i = 0; i < r.rdx && !total; ++i)
            {
              base = static_cast<unsigned long>(ptrace(PTRACE_PEEKDATA, s.pid, r.rsi + i * 16, nullptr));
              total = static_cast<unsigned long>(ptrace(PTRACE_PEEKDATA, s.pid, r.rsi + i * 16 + 8, nullptr));
            }
          }
          unsigned long m = f.shortened == 1 ? 1 : f.shortened == 2 ? (total + 1) / 2 : total > 1 ? total - 1 : 1;
          if( total > 0 )
          {
            if( m < total || vec ) t.hit = true;
            changed = true;
            if( vec ) r.orig_rax = nr == SYS_readv ? SYS_read : SYS_write;
            r.rsi = base;
            r.rdx = m;
            ptrace(PTRACE_SETREGS, s.pid, nullptr, &r);
          }
        }
      }
    }
    else
    {
      entry = true;
      if( changed )
      {
        unsigned long rax = faking ? fake : r.rax;
        saved.rax = rax;
        saved.rcx = r.rcx; saved.r11 = r.r11; saved.rip = r.rip;
        ptrace(PTRACE_SETREGS, s.pid, nullptr, &saved);
        r.rax = rax;
      }
      if( is_open && static_cast<long>(r.rax) >= 0 ) in.insert(static_cast<int>(r.rax));
    }
  }
  return finish(s, st);
}

struct Scenario { std::string name; std::vector<std::string> args; Io io; };

std::vector<Scenario> g_scen;

void big_files()
{
  std::string h = "<ul>", r;
  for(int i = 0; i < 900; ++i) h += "<li>entry " + std::to_string(i) + " \xc3\xa4\"</li>\n";
  put("big.html", h + "</ul>");
  put("end.html", std::string(20000, ' ') + "<ul><li>last</li></ul>");
  for(int i = 0; i < 600; ++i) r += "# comment " + std::to_string(i) + "\n";
  put("big.hext", r + "<li @text:x/>\n");
}

void scenarios()
{
  Io none, file, pipe;
  file.in = Io::File; pipe.in = Io::Pipe;
  file.input = pipe.input = g_files["big.html"];
  g_scen = {
    {"small", {"-x", "r1", "-i", "h1"}, none},
    {"large input, large output", {"-x", "r1", "-i", "big.html"}, none},
    {"large input, small output", {"-x", "r1", "-i", "end.html"}, none},
    {"large hext, several inputs", {"big.hext", "h1", "end.html", "h2"}, none},
    {"several hext", {"-x", "r1", "-x", "big.hext", "-s", "<b @text:x/>", "-i", "h1", "-i", "end.html", "-a"}, none},
    {"large array, pretty", {"-a", "-p", "-x", "r1", "-i", "big.html"}, none},
    {"filter", {"-f", "x", "-x", "r1", "-i", "big.html"}, none},
    {"stdin (file)", {"-s", "<li @text:x/>", "-i", "-"}, file},
    {"stdin (pipe)", {"-s", "<li @text:x/>", "-i", "-", "-i", "h1"}, pipe},
    {"no result", {"-s", "<u/>", "-i", "big.html"}, none},
    {"lint", {"-l", "-x", "big.hext", "-x", "r1"}, none},
    {"help", {"--help"}, none},
    {"version", {"--version"}, none},
  };
}

std::string check_fault(const Run& full, const Run& r, const std::vector<Fault>& fs, const Trace& t)
{
  if( r.signalled() ) return "terminated by signal " + std::to_string(WTERMSIG(r.status));
  if( !t.failed )
  {
    // nothing happened, or nothing that matters
    // htmlext has no signal handlers: it may take an interruption for a failure
    for(const auto& f : fs)
      if( f.err == EINTR && r.rc() > 0 && !r.err.empty() && full.out.compare(0, r.out.size(), r.out) == 0 ) return "";
    if( r.rc() != 0 ) return "exit status " + std::to_string(r.status) + " although the transfer could be continued";
    if( r.out != full.out ) return "the output differs";
    if( !r.err.empty() ) return "unexpected message";
    return "";
  }
  if( r.rc() == 0 ) return "exit status 0";
  if( r.err.empty() ) return "no message";
  if( r.out.size() > full.out.size() || full.out.compare(0, r.out.size(), r.out) ) return "what is written is not a prefix of the full output";
  return "";
}

std::vector<Fault> fault_kinds(Fault::Call call, bool thorough, bool every_error = false)
{
  std::vector<Fault> v;
  std::vector<int> errs;
  if( call == Fault::Open ) errs = {EACCES, ENOENT, EMFILE, EIO, EINTR};
  if( call == Fault::Read ) errs = {EIO, EAGAIN, EISDIR, EINTR};
  if( call == Fault::Write ) errs = {EIO, ENOSPC, EPIPE, EAGAIN, EBADF, EINTR};
  // whatever the call may report
  if( every_error )
  {
    if( call == Fault::Open ) errs.insert(errs.end(), {EBUSY, EDQUOT, EEXIST, EFAULT, EFBIG, EINVAL, EISDIR, ELOOP, ENAMETOOLONG, ENFILE, ENODEV, ENOMEM, ENOSPC, ENOTDIR, ENXIO, EOPNOTSUPP, EOVERFLOW, EPERM, EROFS, ETXTBSY, EAGAIN, ESTALE, ETIMEDOUT, ECONNREFUSED, EBADF, EPIPE, ENOSYS});
    if( call == Fault::Read ) errs.insert(errs.end(), {EBADF, EFAULT, EINVAL, ENXIO, ENOMEM, EPERM, ESTALE, ETIMEDOUT, ECONNRESET, ENOTCONN, ENODEV, ESPIPE, EOVERFLOW, ENOENT, EACCES, EPIPE});
    if( call == Fault::Write ) errs.insert(errs.end(), {EDESTADDRREQ, EDQUOT, EFAULT, EFBIG, EINVAL, EPERM, ENOMEM, ENXIO, ESTALE, ETIMEDOUT, ECONNRESET, EROFS, EISDIR, ENOTCONN});
  }
  else if( thorough ) for(int e : {ENOMEM, EPERM, EFBIG, EDQUOT, EINVAL, ELOOP}) errs.push_back(e);
  for(int e : errs)
  {
    Fault f; f.call = call; f.err = e;
    v.push_back(f);
    if( e != EINTR ) { f.forever = true; v.push_back(f); }
  }
  if( call != Fault::Open )
    for(int s = 1; s <= 3; ++s)
    {
      Fault f; f.call = call; f.shortened = s;
      v.push_back(f);
      if( s > 1 ) { f.forever = true; v.push_back(f); }
    }
  return v;
}

void report(Ctx& c, const Scenario& sc, const Run& full, const Run& r, const std::vector<Fault>& fs, const std::string& e)
{
  std::string f;
  for(const auto& x : fs) f += (f.empty() ? "" : ", then ") + x.str();
  c.fail(show_args(sc.args) + "\nfaults: " + f + "\n" + e + "\nstatus " + std::to_string(r.status) + ", " + std::to_string(r.out.size()) + " of " +
    std::to_string(full.out.size()) + " bytes\nstderr: " + show(r.err).substr(0, 800));
}

void judged(Ctx& c, const Scenario& sc, const Run& full, const std::vector<Fault>& fs, Trace& t)
{
  Run r = traced(sc.args, sc.io, fs, t);
  auto e = check_fault(full, r, fs, t);
  c.model(0, 1);
  c.validated();
  if( t.hit )
  {
    std::string k = sc.name;
    for(const auto& x : fs) k += x.str();
    c.nontrivial(fnv(k));
    c.add(0);
    if( !t.failed ) c.add(1);
  }
  c.outcome(fnv(r.out + std::to_string(r.status) + r.err));
  if( !e.empty() ) report(c, sc, full, r, fs, e);
}

Space faults(bool thorough)
{
  return {"every open, read and write x errors, interruptions and short transfers, in " + std::to_string(g_scen.size()) + " runs", g_scen.size() * 3,
    [thorough](Ctx& c, std::uint64_t outer) {
      const auto& sc = g_scen[outer / 3];
      auto call = static_cast<Fault::Call>(outer % 3 + 1);
      Trace t0;
      Run full = traced(sc.args, sc.io, {}, t0);
      std::uint64_t inner = 0;
      if( c.want(inner++) )
      {
        c.model(t0.opens + t0.reads + t0.writes, 0);
        Run plain = run(sc.args, sc.io);
        if( full.rc() != 0 || plain.out != full.out || !full.err.empty() )
          return c.fail(show_args(sc.args) + "\nfails without any fault: " + full.err);
      }
      auto n = call == Fault::Open ? t0.opens : call == Fault::Read ? t0.reads : t0.writes;
      auto few = fault_kinds(call, thorough), all = fault_kinds(call, thorough, true);
      for(std::uint64_t at = 1; at <= n; ++at)
        for(Fault f : thorough || at <= 8 || at + 2 > n ? all : few)
        {
          if( !c.want(inner++) ) continue;
          f.at = at;
          if( c.want_sample() ) c.sample(sc.name + ": " + f.str());
          Trace t;
          judged(c, sc, full, {f}, t);
          if( c.violated ) return;
        }
    }, nullptr};
}

// a transfer that can be continued, then something else with a later one
Space pairs(bool thorough)
{
  return {"every interrupted or short read or write, then a fault of every later one", g_scen.size() * 2 * 16,
    [thorough](Ctx& c, std::uint64_t outer) {
      const auto& sc = g_scen[outer / 32];
      auto call = outer / 16 % 2 ? Fault::Write : Fault::Read;
      Trace t0;
      Run full = traced(sc.args, sc.io, {}, t0);
      std::uint64_t inner = 0;
      auto n = call == Fault::Read ? t0.reads : t0.writes;
      for(std::uint64_t at = 1 + outer % 16; at <= n; at += 16)
        for(const Fault& k : fault_kinds(call, false))
        {
          if( !k.shorts() || k.forever ) continue;
          Fault f1 = k;
          f1.at = at;
          // how many there are then
          Trace t1;
          traced(sc.args, sc.io, {f1}, t1);
          auto m = call == Fault::Read ? t1.reads : t1.writes;
          for(std::uint64_t at2 = at + 1; at2 <= m; ++at2)
            for(const Fault& k2 : fault_kinds(call, thorough))
            {
              if( !thorough && k2.err && k2.err != EIO && k2.err != ENOSPC && k2.err != EINTR ) continue;
              if( !c.want(inner++) ) continue;
              Fault f2 = k2;
              f2.at = at2;
              Trace t;
              judged(c, sc, full, {f1, f2}, t);
              if( c.violated ) return;
            }
        }
    }, nullptr};
}

// every pattern of full, short and interrupted transfers
Space patterns(int len)
{
  return {"every pattern of full, one-byte, half and interrupted transfers over " + std::to_string(len) + " consecutive reads or writes", g_scen.size() * 2 * power(4, len - 2),
    [len](Ctx& c, std::uint64_t outer) {
      auto per = power(4, len - 2);
      const auto& sc = g_scen[outer / (2 * per)];
      auto call = outer / per % 2 ? Fault::Write : Fault::Read;
      Trace t0;
      Run full = traced(sc.args, sc.io, {}, t0);
      auto n = call == Fault::Read ? t0.reads : t0.writes;
      if( n == 0 ) return;
      for(std::uint64_t inner = 0; inner < 16; ++inner)
      {
        if( !c.want(inner) ) continue;
        std::vector<Fault> fs;
        auto pat = outer % per * 16 + inner;
        for(int i = 0; i < len; ++i, pat /= 4)
        {
          Fault f;
          f.call = call;
          f.at = static_cast<std::uint64_t>(i) + 1;
          if( pat % 4 == 0 ) continue;
          if( pat % 4 == 3 ) f.err = EINTR; else f.shortened = static_cast<int>(pat % 4);
          fs.push_back(f);
        }
        if( fs.empty() ) continue;
        Trace t;
        judged(c, sc, full, fs, t);
        if( c.violated ) return;
      }
    }, nullptr};
}

// inputs that cannot be read, outputs that cannot be written
Space devices()
{
  return {"standard output closed, full, read-only or without a reader; standard input or error closed", g_scen.size() * 6,
    [](Ctx& c, std::uint64_t outer) {
      const auto& sc = g_scen[outer / 6];
      if( !c.want(0) ) return;
      Run full = run(sc.args, sc.io);
      Io io = sc.io;
      static const Io::Out o[] = {Io::Closed, Io::Full, Io::BrokenPipe, Io::ReadOnly};
      bool stdin_case = outer % 6 == 4 && io.in != Io::Null;
      if( outer % 6 < 4 ) io.out = o[outer % 6];
      else if( outer % 6 == 4 ) io.in = Io::InClosed;
      else io.err_closed = true;
      Run r = run(sc.args, io);
      std::string e;
      bool must_fail = stdin_case || (outer % 6 < 4 && !full.out.empty());
      if( must_fail )
      {
        bool pipe = !stdin_case && io.out == Io::BrokenPipe && r.signalled() && WTERMSIG(r.status) == SIGPIPE;
        if( r.rc() == 0 ) e = "exit status 0";
        else if( r.signalled() && !pipe ) e = "terminated by a signal";
        else if( r.err.empty() && !pipe ) e = "no message";
      }
      else if( r.rc() != 0 ) e = "exit status " + std::to_string(r.status) + " although nothing is missing";
      else if( io.out == Io::Mem && r.out != full.out ) e = "the output differs";
      c.model(1, 1);
      c.validated();
      c.nontrivial(fnv("device" + std::to_string(outer)));
      c.outcome(fnv(r.err + std::to_string(r.status)));
      if( !e.empty() ) c.fail(show_args(sc.args) + "\nway " + std::to_string(outer % 6) + ": " + e + "\nstderr: " + show(r.err));
    }, nullptr};
}

std::vector<Space> c27(bool thorough)
{
  return {faults(thorough), pairs(thorough), patterns(thorough ? 6 : 4), devices()};
}

} // namespace

int main(int argc, char ** argv)
{
  auto o = parse_args(argc, argv);
  o.hang_s = 90;
  const char * exe = std::getenv("HTMLEXT");
  if( !exe ) { std::fprintf(stderr, "HTMLEXT is not set\n"); return 4; }
  g_exe = exe;
  char dir[] = "/tmp/verif-cli-XXXXXX";
  if( !mkdtemp(dir) ) { std::perror("mkdtemp"); return 4; }
  g_dir = dir;
  standard_files();
  big_files();
  scenarios();
  bool th = o.tier == "thorough";
  std::vector<Space> sp = o.property == "C25" ? c25(th) : o.property == "C26" ? c26(th) : c27(th);
  int rc = main_(o, sp, o.property == "C27" ? std::vector<std::string>{"faults that took place", "of these short or interrupted"} : std::vector<std::string>{});
  std::string cmd = "exec rm -rf -- " + g_dir;
  if( std::system(cmd.c_str()) ) std::perror("rm");
  return rc;
}
