// C18, C19: faults in the reads and the writes of the tool.
//
// Reads and writes of the files are interposed (the tool runs in this process);
// the standard input and output are real descriptors of a child process.
#include "e2e.h"

#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <termios.h>

using e2e::MemFile; using e2e::Result; using ora::Obj; using ora::Hyp; using ora::Box;
typedef std::vector<std::string> Args;

// ---- interposition --------------------------------------------------------
struct Inject {
  bool on = false; dev_t dev = 0; ino_t ino = 0;
  // reads
  std::vector<size_t> sizes; size_t rest = SIZE_MAX;    // how much each read returns at most
  size_t nread = 0, got = 0; bool eintr = false, eintr_now = false;
  size_t fail_after = SIZE_MAX; int err = EIO;
  // writes
  size_t wcap = SIZE_MAX, put = 0, wfail_after = SIZE_MAX; int werr = ENOSPC; bool weintr = false, weintr_now = false;
  size_t hits = 0, failures = 0;
};
static Inject inj;
static bool target(int fd) { if (!inj.on) return false; struct stat st; return fstat(fd, &st) == 0 && st.st_dev == inj.dev && st.st_ino == inj.ino; }
extern "C" ssize_t read(int fd, void* b, size_t n) {
  if (!target(fd)) return syscall(SYS_read, fd, b, n);
  inj.hits++;
  if (inj.eintr) { inj.eintr_now = !inj.eintr_now; if (inj.eintr_now) { errno = EINTR; return -1; } }
  if (inj.got >= inj.fail_after) { inj.failures++; errno = inj.err; return -1; }
  size_t cap = inj.nread < inj.sizes.size() ? inj.sizes[inj.nread] : inj.rest; inj.nread++;
  n = std::min(std::min(n, cap), inj.fail_after - inj.got);
  ssize_t r = syscall(SYS_read, fd, b, n); if (r > 0) inj.got += r;
  return r;
}
static ssize_t wr(int fd, const struct iovec* v, int c) {
  inj.hits++;
  if (inj.weintr) { inj.weintr_now = !inj.weintr_now; if (inj.weintr_now) { errno = EINTR; return -1; } }
  std::string s; for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len);
  if (s.empty()) return 0;
  if (inj.put >= inj.wfail_after) { inj.failures++; errno = inj.werr; return -1; }
  size_t n = std::min(std::min(s.size(), inj.wcap), inj.wfail_after - inj.put);
  ssize_t r = syscall(SYS_write, fd, s.data(), n); if (r > 0) inj.put += r;
  return r;
}
extern "C" ssize_t write(int fd, const void* b, size_t n) { if (!target(fd)) return syscall(SYS_write, fd, b, n); struct iovec v = {(void*)b, n}; return wr(fd, &v, 1); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) { if (!target(fd)) return syscall(SYS_writev, fd, v, c); return wr(fd, v, c); }
static void aim(const MemFile& f) { inj = Inject(); struct stat st; fstat(f.fd, &st); inj.dev = st.st_dev; inj.ino = st.st_ino; }
struct Armed { Armed() { inj.on = true; } ~Armed() { inj.on = false; } };

// ---- data -----------------------------------------------------------------
static Obj spot(const std::string& q, int i) {
#ifndef SIMPLE_TOOL
  return Obj{q, "d", Box{10 * i, 0, 4, 4}};
#else
  return Obj{q, "d" + std::to_string(i), {}};
#endif
}
static MemFile f_set, f_grp, f_dump, f_gc, f_mc;
static void data(int n, std::string* r, std::string* h) {      // every line counts: removing any changes a value
  std::vector<Obj> R; std::vector<Hyp> H; const char* Q[3] = {"aa", "b", "c"};
  for (int i = 0; i < n; ++i) { Obj o = spot(Q[i % 3], i); if (i % 4 != 2) R.push_back(o); if (i % 5 != 3) H.push_back(e2e::hyp(o, std::to_string(900 - i) + ".5")); }
  *r = e2e::refs_text(R); *h = e2e::hyps_text(H);
}
struct Input { std::string name, r, h, s, g; int use; };      // use: 0 nothing, 1 query set, 2 query groups
static Input input(int size, int use) { Input in; data(size, &in.r, &in.h); in.s = "aa\nc\nzz\n"; in.g = "G aa\nH b c\n"; in.use = use;
  if (size > 100) { for (int i = 0; i < size; ++i) { in.s += "unused" + std::to_string(i) + "\n"; in.g += "K unused" + std::to_string(i) + "\n"; } in.s += "b\n"; in.g += "G c\n"; }
  return in; }
static Args files(const Input& in, bool hyp = true) {
  e2e::f_ref.set(in.r); e2e::f_hyp.set(in.h); f_set.set(in.s); f_grp.set(in.g); Args a;
  if (in.use == 1) a = {"--query_set", f_set.path}; if (in.use == 2) a = {"--query_groups", f_grp.path};
  a.push_back(e2e::f_ref.path); if (hyp) a.push_back(e2e::f_hyp.path); return a;
}
static const MemFile& file(int t) { return t == 0 ? e2e::f_ref : t == 1 ? e2e::f_hyp : t == 2 ? f_set : f_grp; }
static const std::string& text(const Input& in, int t) { return t == 0 ? in.r : t == 1 ? in.h : t == 2 ? in.s : in.g; }
static const char* const kT[4] = {"references", "hypotheses", "query set", "query groups"};
static void intact(mc::Ctx& ctx, const Input& in) { CHECK(e2e::f_ref.get() == in.r && e2e::f_hyp.get() == in.h && f_set.get() == in.s && f_grp.get() == in.g, "an input file was modified"); }
static Result plain(mc::Ctx& ctx, const Args& a) { Result r = e2e::run(a); CHECK(r.status == 0 && e2e::parse(r.out).ok, "the run without faults failed: %s", r.err.c_str()); return r; }

// ---- C18 ------------------------------------------------------------------
static void short_reads(mc::Ctx& ctx, const Input& in, int t, const std::vector<size_t>& sizes, size_t rest, bool eintr) {
  Args a = files(in); Result want = plain(ctx, a);
  uint64_t h = t * 4 + in.use; for (size_t s : sizes) h = mc::mix(h, s); ctx.state(mc::mix(mc::mix(h, rest), eintr + text(in, t).size() * 2));
  aim(file(t)); inj.sizes = sizes; inj.rest = rest; inj.eintr = eintr;
  ctx.say("%s (%zu bytes): reads return %s%zu bytes, then at most %zu%s", kT[t], text(in, t).size(), sizes.size() ? (std::to_string(sizes[0]) + ", ").c_str() : "", sizes.size() > 1 ? sizes[1] : 0, rest, eintr ? ", each interrupted once" : "");
  Result got; { Armed on; got = e2e::run(a); } ctx.compared(); ctx.outcome(inj.nread);
  CHECK(got.status == 0 && got.out == want.out, "%s: short reads change the result (status %d):\n%s\nmust be\n%s", kT[t], got.status, got.out.c_str(), want.out.c_str());
}
static int pick_target(mc::Ctx& ctx, Input* in, int size) { int t = ctx.choose(4); *in = input(size, t == 2 ? 1 : t == 3 ? 2 : 0); return t; }
MC_FAMILY(C18_split, "each input file: the first read ends at every byte, the second after 1, 2, 3 bytes or at the end; interrupted or not") {
  Input in; int t = pick_target(ctx, &in, 9); size_t len = text(in, t).size(); int a = 1 + ctx.choose((int)len); if (!ctx.mine()) return;
  int b = ctx.choose(4); short_reads(ctx, in, t, {(size_t)a, (size_t)(b == 3 ? 100000 : b + 1)}, SIZE_MAX, ctx.flip());
}
MC_FAMILY(C18_two, "each input file: every pair of cut points") {
  Input in; int t = pick_target(ctx, &in, 5); size_t len = text(in, t).size(); int a = 1 + ctx.choose((int)len); if (!ctx.mine()) return;
  int b = 1 + ctx.choose((int)len); short_reads(ctx, in, t, {(size_t)a, (size_t)b}, SIZE_MAX, false);
}
MC_FAMILY(C18_chunks, "each input file, small and of tens of kilobytes: all reads of 1..70 bytes and sizes around the buffer sizes") {
  static const int sz[] = {100, 127, 128, 129, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8190, 8191, 8192, 16384};
  Input in; int big = ctx.choose(2); int t = pick_target(ctx, &in, big ? 1500 : 9); int c = ctx.choose(87); if (!ctx.mine()) return;
  short_reads(ctx, in, t, {}, c < 70 ? c + 1 : sz[c - 70], ctx.flip());
}
MC_FAMILY(C18_fail, "each input file: a read fails (6 errors) after every number of bytes, delivered at once, byte by byte or in sevens") {
  Input in; int t = pick_target(ctx, &in, 9); size_t len = text(in, t).size(); int k = ctx.choose((int)len + 1); if (!ctx.mine()) return;
  static const int E[6] = {EIO, EISDIR, ENOMEM, ESTALE, EOVERFLOW, EBADF}; int e = ctx.choose(6), ch = ctx.choose(3);
  Args a = files(in); plain(ctx, a); ctx.state(((t * 1000 + k) * 6 + e) * 3 + ch);
  aim(file(t)); inj.fail_after = k; inj.err = E[e]; if (ch) inj.rest = ch == 1 ? 1 : 7;
  ctx.say("%s: reading fails after %d of %zu bytes (%s)", kT[t], k, len, strerror(E[e]));
  Result got; { Armed on; got = e2e::run(a); } ctx.compared(); if (!inj.failures) return;
  ctx.outcome(got.status); CHECK(got.status != 0, "%s: a read failed after %d of %zu bytes and the tool ended with status 0:\n%s", kT[t], k, len, got.out.c_str());
  CHECK(got.out.empty(), "%s: a read failed after %d of %zu bytes and the tool printed results:\n%s", kT[t], k, len, got.out.c_str());
}
MC_FAMILY(C18_fail_big, "files of tens of kilobytes: a read fails at each multiple of 512 bytes and one byte around it") {
  Input in; int t = pick_target(ctx, &in, 1500); size_t len = text(in, t).size(); int k = ctx.choose((int)(len / 512) + 1), d = ctx.choose(3) - 1; if (!ctx.mine()) return;
  long at = k * 512L + d; if (at < 0 || at > (long)len) return; Args a = files(in); ctx.state(t * 1000000 + at);
  aim(file(t)); inj.fail_after = at; Result got; { Armed on; got = e2e::run(a); } ctx.compared(); if (!inj.failures) return;
  CHECK(got.status != 0 && got.out.empty(), "%s: a read failed after %ld of %zu bytes, status %d:\n%s", kT[t], at, len, got.status, got.out.c_str());
}
static std::string bad_path(int k) {
  const char* s = getenv("VERIF_SCRATCH"); std::string d = std::string(s ? s : "/tmp") + "/bad." + std::to_string(getpid());
  switch (k) { case 0: return d + ".missing"; case 1: return "/dev/null/x"; case 2: return std::string(300, 'n'); case 3: return std::string(5000, 'n'); case 4: return "/"; case 5: return "."; case 6: return "/proc/self/fd/99999";
    case 7: { std::string l = d + ".loop"; unlink(l.c_str()); if (symlink(l.c_str(), l.c_str())) {} return l; }
    case 8: { std::string l = d + ".dangling"; unlink(l.c_str()); if (symlink("/nonexistent/x", l.c_str())) {} return l; }
    default: { std::string l = d + ".sock"; unlink(l.c_str()); int fd = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; if (l.size() < sizeof u.sun_path) { strcpy(u.sun_path, l.c_str()); if (bind(fd, (struct sockaddr*)&u, sizeof u)) {} } close(fd); return l; } }
}
static void clean_paths() { for (int k : {7, 8, 9}) { const char* s = getenv("VERIF_SCRATCH"); std::string d = std::string(s ? s : "/tmp") + "/bad." + std::to_string(getpid()); unlink((d + (k == 7 ? ".loop" : k == 8 ? ".dangling" : ".sock")).c_str()); } }
MC_FAMILY(C18_open, "each input path replaced by 10 that cannot be opened or read as a file, and by none when descriptors run out") {
  Input in; int t = pick_target(ctx, &in, 9), k = ctx.choose(11); if (!ctx.mine()) return; int use2 = ctx.choose(3); if (t < 2) in.use = use2;
  Args a = files(in); Result got; ctx.state(t * 100 + k * 3 + use2); ctx.say("%s, path %d", kT[t], k);
  if (k < 10) { std::string p = bad_path(k); for (auto& x : a) if (x == file(t).path) x = p; got = e2e::run(a); clean_paths(); }
  else { struct rlimit o, n; getrlimit(RLIMIT_NOFILE, &o); n = o; n.rlim_cur = 3; setrlimit(RLIMIT_NOFILE, &n); got = e2e::run(a); setrlimit(RLIMIT_NOFILE, &o); }
  ctx.compared(); CHECK(got.status != 0 && got.out.empty(), "%s from a bad path: status %d, output:\n%s", kT[t], got.status, got.out.c_str());
}
// ---- pipes ------------------------------------------------------------------
static pid_t feed(const std::string& s, const std::vector<size_t>& cuts, int* rfd);
static std::string fifo_path(int t) { const char* s = getenv("VERIF_SCRATCH"); return std::string(s ? s : "/tmp") + "/fifo." + std::to_string(getpid()) + "." + std::to_string(t); }
MC_FAMILY(C18_pipe, "every set of the 4 input files given as pipes or as named pipes, small and of tens of kilobytes, at once or in pieces, ending normally or with a wrong line: the results of the files") {
  int mask = 1 + ctx.choose(15), size = ctx.choose(4), how = ctx.choose(4); if (!ctx.mine()) return; int named = ctx.choose(2), bad = ctx.choose(2), use = mask & 8 ? 2 : mask & 4 ? 1 : 0; static const int ns[4] = {1, 9, 60, 1500}; if ((mask & 12) == 12) return; if (ns[size] > 100 && how % 2) return;
  Input in = input(ns[size], use); if (bad) { if (mask & 1) in.r += "wrong\n"; else if (mask & 2) in.h += "wrong\n"; else return; } Args a = files(in); Result want = e2e::run(a);
  ctx.state((((mask * 4 + size) * 4 + how) * 2 + named) * 2 + bad); ctx.say("inputs %d as %spipes, %d data, pieces %d", mask, named ? "named " : "", ns[size], how); std::vector<pid_t> ps; std::vector<int> fds; std::vector<std::string> names;
  for (int t = 0; t < 4; ++t) if (mask >> t & 1) {
    std::string path; const std::string& s = text(in, t); std::vector<size_t> cuts; if (how == 1) cuts = {1, s.size() / 2}; if (how == 2) cuts = {4096, 4096, 4096}; if (how == 3) cuts.assign(std::min<size_t>(s.size(), 200), 7);
    if (!named) { int fd; ps.push_back(feed(s, cuts, &fd)); fds.push_back(fd); path = "/proc/self/fd/" + std::to_string(fd); }
    else { path = fifo_path(t); unlink(path.c_str()); if (mkfifo(path.c_str(), 0600)) abort(); names.push_back(path); pid_t p = fork(); if (p == 0) { signal(SIGPIPE, SIG_IGN); alarm(20); int fd = open(path.c_str(), O_WRONLY); size_t o = 0, i = 0; while (o < s.size()) { size_t n = i < cuts.size() ? cuts[i] : s.size() - o; ++i; n = std::min(n, s.size() - o); ssize_t r = write(fd, s.data() + o, n); if (r <= 0) break; o += r; } _exit(0); } ps.push_back(p); }
    for (auto& x : a) if (x == file(t).path) x = path;
  }
  Result got = e2e::run_fork(a); for (int fd : fds) close(fd); for (pid_t p : ps) { kill(p, SIGKILL); waitpid(p, nullptr, 0); } for (auto& n : names) unlink(n.c_str()); ctx.compared(); ctx.outcome(got.status);
  CHECK((got.status == 0) == (want.status == 0) && got.status >= 0 && got.out == want.out, "from pipes (status %d):\n%s\nfrom the files (status %d):\n%s", got.status, got.out.c_str(), want.status, want.out.c_str());
}
// ---- standard input -------------------------------------------------------
// Feeds the text in pieces; the next one only when the last was consumed.
static pid_t feed(const std::string& s, const std::vector<size_t>& cuts, int* rfd) {
  int fd[2]; if (pipe(fd)) abort(); pid_t p = fork();
  if (p == 0) { close(fd[0]); signal(SIGPIPE, SIG_IGN); size_t o = 0, i = 0;
    while (o < s.size()) { size_t n = i < cuts.size() ? cuts[i] : s.size() - o; ++i; n = std::min(n, s.size() - o); ssize_t r = write(fd[1], s.data() + o, n); if (r <= 0) break; o += r;
      for (int k = 0; k < 20000 && o < s.size(); ++k) { int q = 0; if (ioctl(fd[1], FIONREAD, &q) || q == 0) break; usleep(20); } }
    _exit(0); }
  close(fd[1]); *rfd = fd[0]; return p;
}
MC_FAMILY(C18_stdin, "the hypotheses through a pipe: cut at every byte, or in pieces of 1..16 bytes, give the results of the file") {
  Input in = input(9, 0); size_t len = in.h.size(); int how = ctx.choose((int)len + 16); if (!ctx.mine()) return; in.use = how % 3; std::vector<size_t> cuts;
  if (how < (int)len) cuts = {(size_t)how + 1}; else cuts.assign(len, how - len + 1);
  Args a = files(in); Result want = plain(ctx, a); a.pop_back(); int fd; pid_t p = feed(in.h, cuts, &fd); Result got = e2e::run_fork(a, nullptr, fd); close(fd); waitpid(p, nullptr, 0); ctx.compared(); ctx.state(how);
  ctx.say("pieces of %zu bytes", cuts[0]); CHECK(got.status == 0 && got.out == want.out, "from the standard input (status %d):\n%s\nfrom the file:\n%s", got.status, got.out.c_str(), want.out.c_str());
}
MC_FAMILY(C18_stdin_same, "48 texts (comments, blanks, no final newline, empty, tens of kilobytes, wrong lines) as a file, a pipe and a redirected file") {
  int k = ctx.choose(8), deco = ctx.choose(6), via = ctx.choose(2); if (!ctx.mine()) return; static const int ns[] = {0, 1, 2, 3, 9, 50, 400, 1500}; Input in = input(ns[k], 0);
  if (in.r.empty()) in.r = e2e::refs_text({spot("aa", 1)});
  if (deco == 1) in.h = "# c\n\n" + in.h; if (deco == 2 && !in.h.empty()) in.h.pop_back(); if (deco == 3) in.h += "wrong\n"; if (deco == 4) in.h = "wrong line\n" + in.h; if (deco == 5) in.h += "#";
  Args a = files(in); Result want = e2e::run(a); a.pop_back(); int fd; pid_t p = -1; if (via) p = feed(in.h, {}, &fd); else { fd = e2e::f_hyp.fd; lseek(fd, 0, SEEK_SET); }
  Result got = e2e::run_fork(a, nullptr, fd); if (via) { close(fd); waitpid(p, nullptr, 0); } ctx.compared(); ctx.state(k * 100 + deco * 2 + via); ctx.outcome(got.status);
  CHECK((got.status == 0) == (want.status == 0) && got.out == want.out, "from the standard input (status %d):\n%s\nfrom the file (status %d):\n%s", got.status, got.out.c_str(), want.status, want.out.c_str());
}
MC_FAMILY(C18_stdin_options, "6 inputs x every subset of the 12 other options, the hypotheses in a file, a pipe or a redirected file: the same values, dump and curves") {
  int k = ctx.choose(6), m = ctx.choose(1 << 12), via = ctx.choose(2); if (!ctx.mine()) return; if (!ctx.thorough() && (m * 2 + via + k) % 7) return; static const int ns[] = {0, 1, 3, 9, 50, 400}; Input in = input(ns[k], 0); if (in.r.empty()) in.r = e2e::refs_text({spot("aa", 1)}); static MemFile o1, o2, o3, sel; sel.set("aa\nab\nba\n"); o1.set(""); o2.set(""); o3.set("");
  Args files_ = files(in), a; static const char* const T[12][2] = {{"--collapse_matches", "false"}, {"--interpolated_precision", "false"}, {"--trapezoid_integral", "false"}, {"--sort", "asc"}, {"--sort", "none"}, {"--dump_matches", "1"}, {"--output_grp", "2"}, {"--output_mrp", "3"}, {"--rp_curve_samples", "5"}, {"--bootstrap_ci_gap", "true"}, {"--bootstrap_ci_mndcg", "true"}, {"--query_set", "4"}}; for (int i = 0; i < 12; ++i) if (m >> i & 1) { a.push_back(T[i][0]); a.push_back(i == 5 ? o1.path : i == 6 ? o2.path : i == 7 ? o3.path : i == 11 ? sel.path : T[i][1]); } if (m >> 9 & 3) { a.push_back("--bootstrap_samples"); a.push_back("3"); }
  a.push_back(files_[files_.size() - 2]); Args b = a; a.push_back(files_.back()); Result want = e2e::run(a); std::string w1 = o1.get(), w2 = o2.get(), w3 = o3.get(); o1.set(""); o2.set(""); o3.set(""); int fd; pid_t p = -1; if (via) p = feed(in.h, {}, &fd); else { fd = e2e::f_hyp.fd; lseek(fd, 0, SEEK_SET); }
  Result got = e2e::run_fork(b, nullptr, fd); if (via) { close(fd); waitpid(p, nullptr, 0); } ctx.compared(); ctx.state(mc::mix(k, m * 2 + via)); ctx.say("%s", e2e::join(b).c_str()); CHECK(want.status == 0, "status %d: %s (%s)", want.status, want.err.c_str(), e2e::join(a).c_str());
  CHECK(got.status == 0 && got.out == want.out, "from the standard input (status %d):\n%s\nfrom the file:\n%s(%s)", got.status, got.out.c_str(), want.out.c_str(), e2e::join(b).c_str()); CHECK(o1.get() == w1 && o2.get() == w2 && o3.get() == w3, "a file written by the tool is another with the hypotheses on the standard input (%s)", e2e::join(b).c_str());
}
MC_FAMILY(C18_stdin_fail, "the standard input fails after every number of bytes (a terminal that hangs up), is a directory, is closed or write-only") {
  Input in = input(9, 0); size_t len = in.h.size(); int k = ctx.choose((int)len + 5); if (!ctx.mine()) return; in.use = k % 3; Args a = files(in, false); Result got; ctx.state(k);
  if (k <= (int)len) {
    int m = posix_openpt(O_RDWR | O_NOCTTY); if (m < 0 || grantpt(m) || unlockpt(m)) { if (m >= 0) close(m); return; }      // no terminals here
    int s = open(ptsname(m), O_RDWR | O_NOCTTY); if (s < 0) { close(m); return; }
    struct termios t; tcgetattr(s, &t); cfmakeraw(&t); tcsetattr(s, TCSANOW, &t); size_t o = 0; while (o < (size_t)k) { ssize_t r = write(s, in.h.data() + o, k - o); if (r <= 0) break; o += r; }
    // wait until the bytes can be read, then hang up
    for (int i = 0; i < 2000; ++i) { int q = 0; ioctl(m, FIONREAD, &q); if (q >= k) break; usleep(50); }
    close(s); got = e2e::run_fork(a, nullptr, m); close(m); ctx.say("hang-up after %d of %zu bytes", k, len);
  } else if (k == (int)len + 1) { int d = open("/", O_RDONLY | O_DIRECTORY); got = e2e::run_fork(a, nullptr, d); close(d); ctx.say("a directory"); }
  else if (k == (int)len + 2) { got = e2e::run_fork(a, [] { close(0); }); ctx.say("closed"); }
  else if (k == (int)len + 3) { int d = open("/dev/null", O_WRONLY); got = e2e::run_fork(a, nullptr, d); close(d); ctx.say("write-only"); }
  else { int p[2]; if (pipe(p)) abort(); got = e2e::run_fork(a, nullptr, p[1]); close(p[0]); close(p[1]); ctx.say("the wrong end of a pipe"); }
  ctx.compared(); CHECK(got.status != 0, "reading the standard input failed and the tool ended with status 0:\n%s", got.out.c_str()); CHECK(got.out.empty(), "reading the standard input failed and the tool printed results:\n%s", got.out.c_str());
}

// ---- C19 ------------------------------------------------------------------
// With repeated matches, which the dump lists at its end.
static Input rinput(int size, int use) { Input in = input(size, use); std::vector<Hyp> H; const char* Q[3] = {"aa", "b", "c"}; for (int i = 0; i < size; ++i) if (i % 4 != 2 && i % 5 != 3 && i % 3 != 1) H.push_back(e2e::hyp(spot(Q[i % 3], i), "-" + std::to_string(10 + i))); in.h += e2e::hyps_text(H); return in; }
struct Out { std::string dump, gc, mc, out; };
static const char* const kO[3] = {"dump_matches", "output_grp", "output_mrp"};
static MemFile& outfile(int i) { return i == 0 ? f_dump : i == 1 ? f_gc : f_mc; }
static Args out_args(const Input& in, int mask, int samples, bool hyp = true) {
  Args f = files(in, hyp), a; for (int i = 0; i < 3; ++i) if (mask >> i & 1) { outfile(i).set(""); a.push_back(std::string("--") + kO[i]); a.push_back(outfile(i).path); }
  a.push_back("--rp_curve_samples"); a.push_back(std::to_string(samples)); a.insert(a.end(), f.begin(), f.end()); return a;
}
static Out outs() { return Out{f_dump.get(), f_gc.get(), f_mc.get(), ""}; }
static std::string& part(Out& o, int i) { return i == 0 ? o.dump : i == 1 ? o.gc : o.mc; }
// The outputs of the run without faults.
static Out good(mc::Ctx& ctx, const Input& in, int mask, int samples) {
  Args a = out_args(in, mask, samples); Result r = plain(ctx, a); Out o = outs(); o.out = r.out;
  for (int i = 0; i < 3; ++i) if (mask >> i & 1) { CHECK(!part(o, i).empty() || (samples < 2 && i), "%s: nothing was written", kO[i]); }
  return o;
}
static void judge(mc::Ctx& ctx, const Result& got, Out want, int mask, const std::string& out, const char* what) {
  ctx.compared(); ctx.outcome(got.status != 0); if (got.status != 0) return;
  Out o = outs(); for (int i = 0; i < 3; ++i) if (mask >> i & 1) CHECK(part(o, i) == part(want, i), "%s: status 0 and %s holds %zu bytes, must hold %zu (or differs)", what, kO[i], part(o, i).size(), part(want, i).size());
  CHECK(out == want.out, "%s: status 0 and the standard output holds %zu bytes, must hold %zu:\n%s", what, out.size(), want.out.size(), out.c_str());
}
MC_FAMILY(C19_byte, "each output file: writing fails (5 errors) after every number of bytes, in full or one-byte, seven-byte writes, interrupted or not") {
  int t = ctx.choose(3), samples = 4; Input in = rinput(5, 0); Out want = good(ctx, in, 1 << t, samples); size_t len = part(want, t).size(); int k = ctx.choose((int)len); if (!ctx.mine()) return;
  static const int E[5] = {ENOSPC, EIO, EDQUOT, EFBIG, EBADF}; int e = ctx.choose(5), ch = ctx.choose(3); Args a = out_args(in, 1 << t, samples); ctx.state(((t * 10000 + k) * 5 + e) * 3 + ch);
  aim(outfile(t)); inj.wfail_after = k; inj.werr = E[e]; if (ch) inj.wcap = ch == 1 ? 1 : 7; inj.weintr = e == 0 && ch == 2; ctx.say("%s: writing fails after %d of %zu bytes (%s)", kO[t], k, len, strerror(E[e]));
  Result got; { Armed on; got = e2e::run(a); } judge(ctx, got, want, 1 << t, got.out, "a write failed"); intact(ctx, in);
}
MC_FAMILY(C19_short, "each output file: writes of at most 1..64 bytes, interrupted or not, leave the same file") {
  int t = ctx.choose(3), c = 1 + ctx.choose(64), e = ctx.choose(2), big = ctx.choose(2); if (!ctx.mine()) return; const int n = big ? 60 : 9, m = big ? 90 : 5; Input in = rinput(n, 0); Out want = good(ctx, in, 1 << t, m); Args a = out_args(in, 1 << t, m);
  aim(outfile(t)); inj.wcap = c; inj.weintr = e; ctx.state((t * 100 + c) * 4 + e * 2 + big); ctx.say("%s: writes of at most %d bytes", kO[t], c); Result got; { Armed on; got = e2e::run(a); }
  CHECK(got.status == 0, "short writes are not an error: %s", got.err.c_str()); judge(ctx, got, want, 1 << t, got.out, "short writes"); intact(ctx, in);
}
MC_FAMILY(C19_big, "each output file of tens of kilobytes: writing fails at each multiple of 256 bytes and one byte around it") {
  int t = ctx.choose(3); Input in = rinput(250, 0); Out want = good(ctx, in, 1 << t, 700); size_t len = part(want, t).size(); int k = ctx.choose((int)(len / 256) + 1), d = ctx.choose(3) - 1; if (!ctx.mine()) return;
  long at = k * 256L + d; if (at < 0 || at >= (long)len) return; Args a = out_args(in, 1 << t, 700); aim(outfile(t)); inj.wfail_after = at; ctx.state(t * 1000000 + at); Result got; { Armed on; got = e2e::run(a); }
  judge(ctx, got, want, 1 << t, got.out, "a write failed"); intact(ctx, in);
}
// Everything at once in a real process: a limit on the size of the files.
static MemFile f_stdout;
static Result limited(const Args& a, long limit, bool signal_default) {
  f_stdout.set(""); lseek(f_stdout.fd, 0, SEEK_SET);
  Result r = e2e::run_fork(a, [=] { if (limit >= 0) { signal(SIGXFSZ, signal_default ? SIG_DFL : SIG_IGN); struct rlimit l = {(rlim_t)limit, (rlim_t)limit}; setrlimit(RLIMIT_FSIZE, &l); } }, -1, f_stdout.fd);
  r.out = f_stdout.get(); return r;
}
MC_FAMILY(C19_limit, "every file size limit from 0 to beyond the largest output x every set of requested outputs, the standard output a file too; two data sets") {
  int mask = ctx.choose(8), size = ctx.choose(2), use = ctx.choose(2); Input in = rinput(size ? 9 : 3, use * 2); int samples = size ? 6 : 2; Out want = good(ctx, in, mask, samples);
  size_t max = want.out.size(); for (int i = 0; i < 3; ++i) if (mask >> i & 1) max = std::max(max, part(want, i).size()); int lim = ctx.choose((int)max + 3); if (!ctx.mine()) return;
  // the descriptor that collects stderr is limited as well: it is not an output
  Args a = out_args(in, mask, samples); ctx.state(((mask * 2 + size) * 2 + use) * 10000 + lim); ctx.say("outputs %d, limit %d bytes of %zu", mask, lim, max);
  Result got = limited(a, lim, lim % 7 == 3); judge(ctx, got, want, mask, got.out, "with a file size limit"); intact(ctx, in);
}
MC_FAMILY(C19_nolimit, "every set of requested outputs in a real process without faults: status 0 and the same files") {
  int mask = ctx.choose(8), size = ctx.choose(4), use = ctx.choose(3); if (!ctx.mine()) return; static const int ns[4] = {1, 3, 9, 100}; Input in = rinput(ns[size], use); Out want = good(ctx, in, mask, 11); Args a = out_args(in, mask, 11); ctx.state((mask * 4 + size) * 3 + use);
  Result got = limited(a, -1, false); CHECK(got.status == 0, "the tool ended with status %d: %s", got.status, got.err.c_str()); judge(ctx, got, want, mask, got.out, "without faults"); intact(ctx, in);
}
static int bad_stdout(int k) {
  if (k == 0) return open("/dev/full", O_WRONLY); if (k == 1) return open("/dev/null", O_RDONLY);
  int p[2]; if (k == 2) { if (pipe(p)) abort(); close(p[0]); return p[1]; }
  if (k == 3) { if (pipe2(p, O_NONBLOCK)) abort(); char b[4096]; memset(b, 'x', sizeof b); while (write(p[1], b, sizeof b) > 0) {} while (write(p[1], b, 1) > 0) {} return p[1]; }
  if (k == 4) { if (pipe(p)) abort(); close(p[1]); return p[0]; }
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort(); shutdown(p[0], SHUT_WR); return p[0];
}
MC_FAMILY(C19_stdout, "the standard output full, read-only, a pipe without reader, a full pipe, a shut socket or closed x settings with intervals and outputs") {
  int k = ctx.choose(7), sig = ctx.choose(2), mask = ctx.choose(8), ci = ctx.choose(2); if (!ctx.mine()) return; Input in = rinput(5, 0); Args a = out_args(in, mask, 3); if (k == 6 && mask) return; ctx.state(((k * 2 + sig) * 8 + mask) * 2 + ci);
  if (ci) { a.insert(a.begin(), {"--bootstrap_samples", "3", "--bootstrap_ci_gap", "true"}); } ctx.say("standard output %d, outputs %d", k, mask);
  int fd = k == 6 ? -1 : bad_stdout(k); if (fd < 0 && k < 6) return;
  Result r = e2e::run_fork(a, [=] { signal(SIGPIPE, sig ? SIG_IGN : SIG_DFL); if (k == 6) close(1); }, -1, fd); if (fd >= 0) close(fd);
  ctx.compared(); CHECK(r.status != 0, "the results could not be written and the tool ended with status 0"); intact(ctx, in);
}
MC_FAMILY(C19_path, "each output to 8 paths that cannot be written, alone and with the others: never status 0") {
  int t = ctx.choose(3), k = ctx.choose(8), mask = ctx.choose(8); if (!ctx.mine()) return; if (!(mask >> t & 1)) return; Input in = rinput(5, 0); Args a = out_args(in, mask, 3); ctx.state((t * 8 + k) * 8 + mask);
  std::string p = k == 0 ? "/dev/full" : k == 1 ? "/nonexistent/dir/x" : k == 2 ? "/" : k == 3 ? "/dev/null/x" : k == 4 ? std::string(300, 'n') : k == 5 ? "." : k == 6 ? bad_path(7) : bad_path(9);
  for (auto& x : a) if (x == outfile(t).path) x = p; ctx.say("%s to %s", kO[t], p.c_str());
  Result r = k % 2 ? e2e::run(a) : e2e::run_fork(a); clean_paths(); ctx.compared(); CHECK(r.status != 0, "%s could not be written to %s and the tool ended with status 0", kO[t], p.c_str()); intact(ctx, in);
}
MC_FAMILY(C19_rewrite, "an output file that held something longer or shorter before holds exactly the new output; input files stay intact") {
  int mask = 1 + ctx.choose(7), old = ctx.choose(4), use = ctx.choose(3); if (!ctx.mine()) return; Input in = rinput(9, use); Out want = good(ctx, in, mask, 7); Args a = out_args(in, mask, 7); ctx.state((mask * 4 + old) * 3 + use);
  for (int i = 0; i < 3; ++i) if (mask >> i & 1) outfile(i).set(std::string(old == 0 ? 1 : old == 1 ? 50 : old == 2 ? 5000 : 100000, 'z'));
  Result got = e2e::run(a); CHECK(got.status == 0, "the tool ended with status %d: %s", got.status, got.err.c_str()); judge(ctx, got, want, mask, got.out, "over an old file"); intact(ctx, in);
}
