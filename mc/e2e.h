// Runs the real evaluation tool (its main(), compiled into the harness from
// the repository's source) on given inputs, in this process or in a child.
//
// Compile with -DTOOL='"tools/Icdar17KwsEval.cc"' -Wl,--wrap=exit
#ifndef VERIF_E2E_H_
#define VERIF_E2E_H_

#include "mc.h"
#include "oracle.h"

#include <setjmp.h>
#include <stdio_ext.h>
#include <iostream>

#define main kws_tool_main
#include TOOL
#undef main

namespace e2e {

inline int call_main(int (*f)(int, const char**), int argc, const char** argv) { return f(argc, argv); }
inline int call_main(int (*f)(int, char**), int argc, const char** argv) { return f(argc, (char**)argv); }

static jmp_buf exit_jmp; static bool exit_armed = false; static int exit_code = 0;

}  // namespace e2e
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int c) __attribute__((noreturn));
extern "C" void __wrap_exit(int c) {
  if (e2e::exit_armed) { e2e::exit_code = c; e2e::exit_armed = false; longjmp(e2e::exit_jmp, 1); }
  __real_exit(c);
}
namespace e2e {

struct Result { int status = 0; std::string out, err; };   // status: exit code, -1: died of an exception/signal

// ---- memory files -------------------------------------------------------
struct MemFile {
  int fd = -1; std::string path;
  void open_() { if (fd < 0) { fd = memfd_create("in", MFD_CLOEXEC); path = "/proc/self/fd/" + std::to_string(fd); } }
  void set(const std::string& s) {
    open_();
    if (ftruncate(fd, 0)) abort();
    size_t o = 0; while (o < s.size()) { ssize_t r = pwrite(fd, s.data() + o, s.size() - o, o); if (r <= 0) abort(); o += r; }
  }
  std::string get() const {
    if (fd < 0) return "";
    struct stat st; if (fstat(fd, &st)) return ""; std::string s(st.st_size, 0);
    size_t o = 0; while (o < s.size()) { ssize_t r = pread(fd, &s[o], s.size() - o, o); if (r <= 0) break; o += r; }
    s.resize(o); return s;
  }
};
static MemFile cap1, cap2;     // what goes to the file descriptors 1 and 2

inline void init() {
  cap1.open_(); cap2.open_();
  struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z);
  dup2(cap1.fd, 1); dup2(cap2.fd, 2);
  signal(SIGPIPE, SIG_DFL);
}
static struct InitReg { InitReg() { mc::worker_init().push_back(init); mc::history_matters() = false; } } init_reg;

inline std::vector<const char*> make_argv(const std::vector<std::string>& args) {
  std::vector<const char*> v; v.push_back("tool");
  for (auto& a : args) v.push_back(a.c_str());
  v.push_back(nullptr);
  return v;
}

struct StreamGuard {
  std::streambuf *o, *e; std::stringbuf ob, eb;
  StreamGuard() : o(std::cout.rdbuf(&ob)), e(std::cerr.rdbuf(&eb)) {}
  ~StreamGuard() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

// In this process. The tool reads only files here.
inline Result run(const std::vector<std::string>& args) {
  Result r; std::vector<const char*> av = make_argv(args);
  std::cout.clear(); std::cerr.clear();
  const auto fl = std::cout.flags(); const auto pr = std::cout.precision();
  {
    StreamGuard g;
    exit_armed = true;
    if (setjmp(exit_jmp) == 0) {
      try { r.status = call_main(kws_tool_main, (int)av.size() - 1, av.data()); }
      catch (const mc::Violation&) { exit_armed = false; throw; }
      catch (const std::exception& e) { r.status = -1; r.err = std::string("exception: ") + e.what() + "\n"; }
      catch (...) { r.status = -1; r.err = "exception\n"; }
    } else {
      r.status = exit_code;
    }
    exit_armed = false;
    r.out = g.ob.str(); r.err += g.eb.str();
  }
  std::cout.flags(fl); std::cout.precision(pr);
  fflush(stdout); fflush(stderr);
  struct stat st;
  if (fstat(1, &st) == 0 && st.st_size > 0) { r.out += cap1.get(); if (ftruncate(cap1.fd, 0)) abort(); lseek(1, 0, SEEK_SET); }
  if (fstat(2, &st) == 0 && st.st_size > 0) { r.err += cap2.get(); if (ftruncate(cap2.fd, 0)) abort(); lseek(2, 0, SEEK_SET); }
  r.status &= r.status < 0 ? -1 : 255;
  return r;
}

// In a child process, with the real standard streams. `prepare` runs in the
// child before main(). out_fd >= 0: standard output of the child.
inline Result run_fork(const std::vector<std::string>& args, const std::function<void()>& prepare = nullptr,
                       int in_fd = -1, int out_fd = -1, double limit = 20) {
  Result r; std::vector<const char*> av = make_argv(args);
  static MemFile o, e; o.set(""); e.set("");
  lseek(o.fd, 0, SEEK_SET); lseek(e.fd, 0, SEEK_SET);
  pid_t p = fork();
  if (p == 0) {
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTERM}) signal(s, SIG_DFL);
    int nul = -1; if (in_fd < 0) nul = open("/dev/null", O_RDONLY);
    dup2(in_fd < 0 ? nul : in_fd, 0); dup2(out_fd >= 0 ? out_fd : o.fd, 1); dup2(e.fd, 2);
    __fpurge(stdin); clearerr(stdin); std::cin.clear();
    if (prepare) prepare();
    int rc = 0;
    try { rc = call_main(kws_tool_main, (int)av.size() - 1, av.data()); }
    catch (...) { signal(SIGABRT, SIG_DFL); abort(); }      // as an uncaught exception ends the tool
    __real_exit(rc);
  }
  int st = 0; double t0 = mc::now(); bool killed = false;
  useconds_t nap = 20;
  for (;;) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) break;
    if (mc::now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; }
    usleep(nap); if (nap < 2000) nap += nap / 4 + 1;
  }
  r.out = o.get(); r.err = e.get();
  r.status = killed ? -2 : WIFSIGNALED(st) ? -1 : WEXITSTATUS(st);
  if (WIFSIGNALED(st)) r.err += std::string("[signal ") + strsignal(WTERMSIG(st)) + "]";
  return r;
}

// ---- printed values ------------------------------------------------------
struct Printed {
  bool ok = false; std::string why;
  double v[4], lo[4], hi[4]; bool ci[4];
};
static const char* const kNames[4] = {"gAP", "mAP", "gNDCG", "mNDCG"};

inline bool num(const std::string& s, double* d) {
  if (s.empty() || isspace((unsigned char)s[0])) return false;
  char* e; *d = strtod(s.c_str(), &e); return *e == 0;
}
inline Printed parse(const std::string& out) {
  Printed p; bool seen[4] = {false, false, false, false};
  for (int k = 0; k < 4; ++k) { p.ci[k] = false; p.v[k] = p.lo[k] = p.hi[k] = 0; }
  std::stringstream ss(out); std::string l;
  while (std::getline(ss, l)) {
    size_t eq = l.find(" = "); int k = -1;
    if (eq != std::string::npos) for (int i = 0; i < 4; ++i) if (l.substr(0, eq) == kNames[i]) k = i;
    if (k < 0) { p.why = "unexpected line on the standard output: " + l; return p; }
    if (seen[k]) { p.why = std::string(kNames[k]) + " was printed twice"; return p; }
    seen[k] = true;
    std::string rest = l.substr(eq + 3); size_t b = rest.find(" [");
    if (b != std::string::npos) {
      std::string in = rest.substr(b + 2); rest = rest.substr(0, b);
      size_t c = in.find(", ");
      if (in.empty() || in.back() != ']' || c == std::string::npos || !num(in.substr(0, c), &p.lo[k]) ||
          !num(in.substr(c + 2, in.size() - c - 3), &p.hi[k])) { p.why = "bad interval: " + l; return p; }
      p.ci[k] = true;
    }
    if (!num(rest, &p.v[k])) { p.why = "bad number: " + l; return p; }
  }
  for (int k = 0; k < 4; ++k) if (!seen[k]) { p.why = std::string(kNames[k]) + " was not printed"; return p; }
  p.ok = true;
  return p;
}

// ---- texts ---------------------------------------------------------------
#ifdef SIMPLE_TOOL
inline std::string text(const ora::Obj& o) { return o.q + " " + o.d; }
inline ora::Accept accept() { return ora::accept_simple; }
#else
inline std::string text(const ora::Obj& o) {
  return o.q + " " + o.d + " " + std::to_string(o.b.x) + " " + std::to_string(o.b.y) + " " +
         std::to_string(o.b.w) + " " + std::to_string(o.b.h);
}
inline ora::Accept accept() { return ora::accept_icdar; }
#endif
inline std::string refs_text(const std::vector<ora::Obj>& v) { std::string s; for (auto& o : v) s += text(o) + "\n"; return s; }
inline std::string score_text(const ora::Hyp& h) {
  if (!h.text.empty()) return h.text;
  char b[64]; snprintf(b, sizeof b, "%.9g", h.s); return b;
}
inline std::string hyps_text(const std::vector<ora::Hyp>& v) {
  std::string s; for (auto& h : v) s += text(h.o) + " " + score_text(h) + "\n"; return s;
}
inline ora::Hyp hyp(const ora::Obj& o, const std::string& lit) { return ora::Hyp{o, strtof(lit.c_str(), nullptr), lit}; }

inline std::vector<std::string> opt_args(const ora::Opts& o) {
  // The defaults are left out, so that they are exercised as defaults.
  std::vector<std::string> a;
  if (!o.collapse) { a.push_back("--collapse_matches"); a.push_back("false"); }
  if (!o.interp) { a.push_back("--interpolated_precision"); a.push_back("false"); }
  if (!o.trap) { a.push_back("--trapezoid_integral"); a.push_back("false"); }
  if (o.sort != ora::DESC) { a.push_back("--sort"); a.push_back(o.sort == ora::ASC ? "asc" : "none"); }
  return a;
}
inline std::string opts_str(const ora::Opts& o) {
  return std::string("collapse=") + (o.collapse ? "1" : "0") + " interp=" + (o.interp ? "1" : "0") +
         " trap=" + (o.trap ? "1" : "0") + " sort=" + (o.sort == ora::DESC ? "desc" : o.sort == ora::ASC ? "asc" : "none");
}

static MemFile f_ref, f_hyp;

inline std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : " ") + x; return s; }

// Runs the tool on the files and demands the four values of the definitions.
// Returns what was printed.
inline Printed check_values(mc::Ctx& ctx, const ora::Problem& p, const ora::Opts& o,
                            const std::vector<std::string>& extra = {}, bool ties_known = true) {
  std::string rt = refs_text(p.refs), ht = hyps_text(p.hyps);
  f_ref.set(rt); f_hyp.set(ht);
  std::vector<std::string> a = opt_args(o);
  a.insert(a.end(), extra.begin(), extra.end());
  a.push_back(f_ref.path); a.push_back(f_hyp.path);
  if (ctx.describing()) ctx.say("--- references\n%s--- hypotheses\n%s--- options: %s", rt.substr(0, 3000).c_str(), ht.substr(0, 3000).c_str(), join(a).c_str());
  Result r = run(a);
  ora::Values want = ora::evaluate(p, o);
  ctx.compared();
  CHECK(r.status == 0, "the tool ended with status %d on well formed files: %s", r.status, r.err.substr(0, 400).c_str());
  Printed pr = parse(r.out);
  CHECK(pr.ok, "%s", pr.why.c_str());
  for (int k = 0; k < 4; ++k) {
    CHECK(!pr.ci[k], "%s has an interval that was not requested", kNames[k]);
    CHECK(pr.v[k] >= 0 && pr.v[k] <= 1.0000001, "%s = %.9g is not in [0, 1]", kNames[k], pr.v[k]);
  }
  ora::Values got{pr.v[0], pr.v[1], pr.v[2], pr.v[3]};
  ctx.say("expected gAP=%.9g mAP=%.9g gNDCG=%.9g mNDCG=%.9g\nprinted:\n%s", want.gap, want.map, want.gndcg, want.mndcg, r.out.c_str());
  ctx.outcome(mc::hash_str(r.out));
  if (!ora::same(want, got)) {
    // Another way to break the ties is as good.
    int a = ora::allowed(p, o, [&](const ora::Grouped& G) { return ora::same(ora::values(G, o), got); });
    CHECK(a != 0, "printed gAP=%.6g mAP=%.6g gNDCG=%.6g mNDCG=%.6g, the definitions give gAP=%.6g mAP=%.6g gNDCG=%.6g mNDCG=%.6g (%s)",
              got.gap, got.map, got.gndcg, got.mndcg, want.gap, want.map, want.gndcg, want.mndcg, opts_str(o).c_str());
  }
  return pr;
}

inline uint64_t problem_hash(const ora::Problem& p, const ora::Opts& o) {
  uint64_t h = mc::mix(o.collapse + 2 * o.interp + 4 * o.trap, o.sort);
  for (auto& r : p.refs) h = mc::hash_str(text(r), h);
  h = mc::mix(h, 77);
  for (auto& x : p.hyps) h = mc::hash_str(text(x.o) + score_text(x), h);
  return h;
}

// Words with a meaning in other formats: quotes, escapes, comments, markers, other scripts' blanks.
inline const std::vector<std::string>& odd_words() {
  static const std::vector<std::string> W = {"//", "--", "---", "/*", "*/", "/* */", "<!--", "-->", "%", "%%", "%20", "&amp;", "\"", "\"\"", "\"a b\"", "'a b'", "\\", "\\n", "\\ ", "\\\n", "$", "$HOME", "~", "`a`", "REM", "rem", "dnl", "!", "!#", ";", ";;", "=", "==", "EOF", "END", "end", "__END__", "__DATA__", ".", "..", "...", "<?xml", "{", "}", "[a]", "(a)", "query", "Query", "QUERY", "query doc", "word", "id", "ID", "docid",
    "null", "NULL", "None", "nan", "NaN", "inf", "-inf", "NA", "N/A", "true", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xc2\xa0", "\xc2\x85", "\xe2\x80\x83", "\xe2\x80\xa8", "\xe3\x80\x80", "\xe2\x80\x8b", std::string(1, '\0'), std::string(2, '\0'), "\x1a", "\x04", "\x1b[0m", "\x0b", "\x0c", "\x1c", "\x1f", "#", "##", "#!", "# ", " #", "\t#", "#\t", "a#", "0", "00", "-0", "+0", "0x10", "1e2", "1,5", "1_000", "1'000", "1f", "1L", "1u", "\xd9\xa1", "\r", "\r\r", "\n", "\n\n", "@", "@a", "include", "#include", "<", ">", "|", "||", "a|b", "a,b", "a;b", "a:b", "a=b", "a/b", "a\\b"};
  return W;
}
// Those that are one name, and every byte alone, in front, at the end and in the middle of a name, and all pairs of some.
inline const std::vector<std::string>& odd_names() {
  static std::vector<std::string> N;
  if (N.empty()) {
    auto one = [](const std::string& s) { for (char c : s) if (c == ' ' || (c >= '\t' && c <= '\r')) return false; return !s.empty() && s[0] != '#'; };
    std::set<std::string> seen; auto add = [&](const std::string& s) { if (one(s) && seen.insert(s).second) N.push_back(s); };
    for (auto& w : odd_words()) { add(w); add(w + "a"); add("a" + w); }
    for (int c = 0; c < 256; ++c) { std::string b(1, (char)c); add(b); add(b + "a"); add("a" + b); add("a" + b + "z"); add(b + "a" + b); }
    static const char A[] = "\xef\xbb\xfe\xff\xc2\xa0/*-;%!\"'\\,:<&=|#.+0a@$"; for (char x : std::string(A)) for (char y : std::string(A)) add(std::string(1, x) + y);
  }
  return N;
}

}  // namespace e2e
#endif
