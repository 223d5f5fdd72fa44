// Stateless exhaustive explorer (small model checker) used by every check.
//
// A *family* is a function that asks the explorer for nondeterministic choices
// (Ctx::choose), builds one execution from them, runs the code under test and
// the reference model, and compares.  The explorer enumerates EVERY sequence
// of choices depth first, sharded over worker processes.  A crash, a hang, an
// unexpected exception or a disagreement is a violation; it is replayed in a
// fresh process before it is reported.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_

#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#ifdef __SANITIZE_ADDRESS__
// Errors end the process by a signal, like any other crash. Leaks are not looked for.
extern "C" const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=0:quarantine_size_mb=8"; }
extern "C" const char* __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0:symbolize=0"; }
#endif

namespace mc {

struct Violation { std::string msg; };

inline double now() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 12) + (h >> 4);
  h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
  return h;
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 14695981039346656037ULL) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return mix(h, s.size());
}

struct Options {
  bool thorough = false;
  bool safety = false;      // only crashes, sanitizer reports and executions without end count
  double scale = 1.0;
};

static const int kMaxPath = 4096;

struct Slot {                       // one per worker, shared memory
  volatile uint64_t beat;           // executions started
  volatile uint64_t execs, edges, compares, prunes;
  volatile int pathlen;
  volatile int path[kMaxPath];
  volatile int arity[kMaxPath];
  volatile int done, capped, stop;
  volatile int nviol;
  volatile int nknown;
  volatile uint64_t nstates, noutcomes;
  char viol[4][2048];
  int vpath[4][kMaxPath];
  int vpathlen[4];
  char known[64][512];
};

class Ctx {
 public:
  // ---- used by families ----
  int choose(int n) {
    if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
    int c;
    if (pos_ < path_.size()) {
      c = path_[pos_];
      if (replay_) {
        if (c >= n) throw Violation{"replay divergence"};
        if (arity_.size() <= pos_) arity_.resize(pos_ + 1);
        arity_[pos_] = n;
      } else if (arity_[pos_] != n || c >= n) {
        fprintf(stderr, "explorer: nondeterministic family (arity %d != %d at %zu)\n",
                arity_[pos_], n, pos_);
        _exit(97);
      }
    } else {
      c = 0; path_.push_back(0); arity_.push_back(n);
      if (path_.size() >= (size_t)kMaxPath) { fprintf(stderr, "path too long\n"); _exit(97); }
      if (slot_) { slot_->path[pos_] = 0; slot_->arity[pos_] = n; slot_->pathlen = pos_ + 1; }
    }
    ++pos_;
    return c;
  }
  bool flip() { return choose(2) == 1; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }

  // Shard point: false when another worker explores this subtree.
  bool mine() {
    mine_called_ = true;
    if (replay_ || nworkers_ <= 1) { shardpos_ = pos_; return true; }
    std::vector<int> pre(path_.begin(), path_.begin() + pos_);
    if (!have_shard_ || pre != last_shard_) {
      last_shard_ = pre; have_shard_ = true; ++shard_counter_;
    }
    shardpos_ = pos_;
    // pseudo-random but fixed assignment, to balance the load
    uint64_t z = mix(0x1234567, shard_counter_);
    bool m = (int)(z % (uint64_t)nworkers_) == worker_;
    if (!m) skipped_ = true;
    return m;
  }

  void state(uint64_t h) { if (states_.size() < kSetCap) states_.insert(h); else set_capped_ = true; }
  void outcome(uint64_t h) { if (outcomes_.size() < kSetCap) outcomes_.insert(h); else set_capped_ = true; }
  void compared(uint64_t n = 1) { compares_ += n; }   // executions of the real code compared with the model

  void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Violation{buf};
  }
  void check(bool ok, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
    if (ok) return;
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Violation{buf};
  }
  // A failure that is accepted only when the known-findings file lists `key`.
  void known_or_fail(const std::string& key, const std::string& msg) {
    if (!known_keys_ || !known_keys_->count(key)) throw Violation{"[" + key + "] " + msg};
    knowns_[key]++;
    if (known_example_[key].empty()) known_example_[key] = msg;
  }

  bool describing() const { return describe_; }
  void say(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!describe_) return;
    char buf[8192]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    text_ += buf; text_ += "\n";
  }
  bool thorough() const { return opt_->thorough; }
  int bound(int quick, int thorough) const { return opt_->thorough ? thorough : quick; }

  // ---- internals ----
  static const size_t kSetCap = 3000000;
  std::vector<int> path_, arity_, last_shard_;
  size_t pos_ = 0, shardpos_ = 0;
  bool replay_ = false, describe_ = false, skipped_ = false, mine_called_ = false, have_shard_ = false, set_capped_ = false;
  int nworkers_ = 1, worker_ = 0;
  uint64_t shard_counter_ = 0, compares_ = 0;
  Slot* slot_ = nullptr;
  const Options* opt_ = nullptr;
  const std::set<std::string>* known_keys_ = nullptr;
  std::map<std::string, uint64_t> knowns_;
  std::map<std::string, std::string> known_example_;
  std::unordered_set<uint64_t> states_, outcomes_;
  std::string text_;
};

typedef std::function<void(Ctx&)> Body;
struct Family { std::string name, rule; Body body; bool thorough_only; bool large() const { return name.size() > 5 && name.compare(name.size() - 5, 5, "_huge") == 0; } };

inline std::vector<Family>& families() { static std::vector<Family> f; return f; }
struct Register {
  Register(const char* name, const char* rule, Body b, bool thorough_only = false) {
    families().push_back(Family{name, rule, b, thorough_only});
  }
};
// Lazy: the arguments of the message are evaluated only on failure.
// Instantiations that the repository itself has no use of; left out (-DVERIF_PLAIN)
// when a harness does not compile with them.
#ifdef VERIF_PLAIN
#define EXOTIC(...)
#define EXOTIC_OR(exotic, plain) plain
#else
#define EXOTIC(...) __VA_ARGS__
#define EXOTIC_OR(exotic, plain) exotic
#endif
#define CHECK(cond, ...) do { if (!(cond)) ctx.fail(__VA_ARGS__); } while (0)
#define MC_FAMILY(id, rule) \
  static void id(mc::Ctx& ctx); \
  static mc::Register reg_##id(#id, rule, id); \
  static void id(mc::Ctx& ctx)
#define MC_FAMILY_THOROUGH(id, rule) \
  static void id(mc::Ctx& ctx); \
  static mc::Register reg_##id(#id, rule, id, true); \
  static void id(mc::Ctx& ctx)

// Called in every worker (and replay process) before anything is explored.
inline std::vector<std::function<void()>>& worker_init() {
  static std::vector<std::function<void()>> v; return v;
}

// Whether what one execution does may depend on those before it in the same
// process. False where every execution stands for a process of its own.
inline bool& history_matters() { static bool b = true; return b; }

inline std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Runner {
  Options opt;
  int nworkers = 8;
  double deadline = 1e18;
  double hang_s = 30;
  std::string out, statedir, self;
  std::set<std::string> known_keys;
  FILE* rep = nullptr;      // report stream (the real stdout)

  static std::string path_text(const int* p, int n) {
    std::string s; for (int i = 0; i < n; ++i) { if (i) s += ","; s += std::to_string(p[i]); }
    return s.empty() ? "-" : s;
  }

  // Runs one path in this process.
  std::string run_one(const Family& f, const std::vector<int>& path, std::string* text, bool describe) {
    Ctx c; c.opt_ = &opt; c.replay_ = true; c.describe_ = describe; c.path_ = path;
    c.known_keys_ = &known_keys;
    std::string msg;
    try { f.body(c); }
    catch (const Violation& v) { msg = v.msg; }
    catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
      if (opt.safety) msg.clear();
    if (text) *text = c.text_;
    return msg;
  }

  // Fresh-process replay. Returns "" when it passes.
  std::string replay_fresh(const Family& f, const std::vector<int>& path, std::string* text, double limit) {
    int fd[2]; if (pipe(fd)) abort();
    fflush(rep);
    pid_t p = fork();
    if (p == 0) {
      close(fd[0]);
      { int e = memfd_create("err", MFD_CLOEXEC); if (e >= 0) dup2(e, 2); }       // for what the sanitizers report
      for (auto& g : worker_init()) g();
      std::string t;
      // The description goes out first, so that it survives a crash.
      { std::string dummy; }
      Ctx c; c.opt_ = &opt; c.replay_ = true; c.describe_ = true; c.path_ = path; c.known_keys_ = &known_keys;
      static Ctx* cur; cur = &c; static int ofd; ofd = fd[1];
      struct H { static void h(int s) {
        ssize_t r = write(ofd, cur->text_.data(), cur->text_.size()); (void)r;
        static char said[3000]; ssize_t n = pread(2, said, sizeof said, 0); if (n > 0) { r = write(ofd, "\n", 1); r = write(ofd, said, n); }
        signal(s, SIG_DFL); raise(s); } };
      static char altstack[1 << 16];
      stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
      sigaltstack(&ss, nullptr);
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = H::h; sa.sa_flags = SA_ONSTACK;
      for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTERM}) sigaction(s, &sa, nullptr);
      std::string msg;
      try { f.body(c); }
      catch (const Violation& v) { msg = v.msg; }
      catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
      if (opt.safety) msg.clear();
      std::string o = c.text_;
      o += std::string("\n\001") + msg;
      size_t off = 0; while (off < o.size()) { ssize_t r = write(fd[1], o.data() + off, o.size() - off); if (r <= 0) break; off += r; }
      _exit(msg.empty() ? 0 : 3);
    }
    close(fd[1]);
    std::string got; double t0 = now(); bool killed = false;
    for (;;) {
      pollfd pf{fd[0], POLLIN, 0};
      int r = poll(&pf, 1, 200);
      if (r > 0) { char b[4096]; ssize_t n = read(fd[0], b, sizeof b); if (n <= 0) break; got.append(b, n); }
      if (now() - t0 > limit) { kill(p, SIGTERM); usleep(200000); kill(p, SIGKILL); killed = true;
        char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) got.append(b, n);
        break; }
    }
    close(fd[0]);
    int st; waitpid(p, &st, 0);
    size_t k = got.rfind('\001');
    std::string msg = k == std::string::npos ? "" : got.substr(k + 1);
    if (text) *text = k == std::string::npos ? got : got.substr(0, k);
    if (killed) return "hang: no end after " + std::to_string((int)limit) + " s";
    if (WIFSIGNALED(st)) return std::string("crash: signal ") + strsignal(WTERMSIG(st));
    if (WEXITSTATUS(st) == 0) return "";
    if (WEXITSTATUS(st) == 3) return msg.empty() ? "violation" : msg;
    return "process ended with status " + std::to_string(WEXITSTATUS(st));
  }

  // A violation that a fresh process does not show may need the executions
  // before it (state kept in static variables): repeats all of them.
  std::string replay_history(const Family& f, int w, int W, const std::vector<int>& path, double limit) {
    if (!history_matters()) return "";
    Slot* s = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(rep);
    pid_t p = fork();
    if (p == 0) { statedir = "/nonexistent"; deadline = now() + limit; worker(f, w, W, s, {}, {}); }
    std::string msg; double t0 = now(); int seen = 0; bool dead = false, late = false; int st = 0;
    while (msg.empty() && !dead && !late) {
      usleep(2000);
      dead = waitpid(p, &st, WNOHANG) == p; late = now() - t0 > limit + 10;
      for (; seen < s->nviol && msg.empty(); ++seen)
        if (std::vector<int>(s->vpath[seen], s->vpath[seen] + s->vpathlen[seen]) == path) msg = s->viol[seen];
    }
    if (msg.empty() && dead && !s->done && std::vector<int>(s->path, s->path + s->pathlen) == path)
      msg = WIFSIGNALED(st) ? std::string("crash: signal ") + strsignal(WTERMSIG(st)) : "worker ended";
    if (!dead) { kill(p, SIGKILL); waitpid(p, &st, 0); }
    munmap(s, sizeof(Slot));
    if (!msg.empty()) msg += " [after the executions before it in the same process: worker " + std::to_string(w) + " of " + std::to_string(W) + "]";
    return msg;
  }

  void worker(const Family& f, int w, int W, Slot* s, std::vector<int> start, std::vector<int> start_arity) {
    for (auto& g : worker_init()) g();
    Ctx c; c.opt_ = &opt; c.nworkers_ = W; c.worker_ = w; c.slot_ = s; c.known_keys_ = &known_keys;
    c.path_ = start; c.arity_ = start_arity;
    // A worker restarted after a crash that did not reproduce starts over, to
    // count the shard points as before, and ignores what it saw already.
    std::vector<int> resume = start; bool skipping = !start.empty();
    c.path_.clear(); c.arity_.clear();
    for (;;) {
      c.pos_ = 0; c.shardpos_ = 0; c.skipped_ = false; c.mine_called_ = false;
      const size_t startlen = c.path_.size();
      for (size_t i = 0; i < c.path_.size(); ++i) { s->path[i] = c.path_[i]; s->arity[i] = c.arity_[i]; }
      s->pathlen = (int)c.path_.size();
      s->beat = s->beat + 1;
      std::string msg;
      try { c.text_.clear(); f.body(c); }
      catch (const Violation& v) { msg = v.msg; }
      catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
      if (opt.safety) msg.clear();
      if (c.pos_ < c.path_.size()) {
        // The body ended early compared with the recorded path: only legal when
        // the path was extended by this very execution.
        c.path_.resize(c.pos_); c.arity_.resize(c.pos_);
      }
      bool past = !skipping || (std::vector<int>(c.path_.begin(), c.path_.end()) > resume);
      if (past) skipping = false;
      if (!c.mine_called_) { c.shardpos_ = c.pos_; if (w != 0) c.skipped_ = true; }
      // Edges of the choice tree seen for the first time in this execution: the
      // ones above the shard point belong to worker 0, the others to their owner.
      for (size_t i = startlen ? startlen - 1 : 0; i < c.pos_; ++i)
        if (i < c.shardpos_ ? w == 0 : !c.skipped_) s->edges = s->edges + 1;
      if (!c.skipped_) s->execs = s->execs + 1;
      else s->prunes = s->prunes + 1;
      if (!msg.empty() && past && s->nviol < 4) {
        int k = s->nviol;
        snprintf(s->viol[k], sizeof s->viol[k], "%s", msg.c_str());
        for (size_t i = 0; i < c.path_.size(); ++i) s->vpath[k][i] = c.path_[i];
        s->vpathlen[k] = (int)c.path_.size();
        s->nviol = k + 1;
      }
      if (s->nviol >= 4) { s->capped = 1; break; }
      // backtrack
      while (!c.path_.empty() && c.path_.back() + 1 >= c.arity_.back()) { c.path_.pop_back(); c.arity_.pop_back(); }
      if (c.path_.empty()) break;
      c.path_.back()++;
      if (s->stop || now() > deadline) { s->capped = 2; break; }
    }
    s->compares = s->compares + c.compares_;
    int n = 0;
    for (auto& k : c.known_example_) if (n < 64)
      snprintf(s->known[n++], 512, "%s\t%llu\t%s", k.first.c_str(), (unsigned long long)c.knowns_[k.first], k.second.c_str());
    s->nknown = n;
    s->nstates = c.states_.size(); s->noutcomes = c.outcomes_.size();
    dump(statedir + "/s." + std::to_string(w), c.states_);
    dump(statedir + "/o." + std::to_string(w), c.outcomes_);
    s->done = 1;
    _exit(0);
  }
  static void dump(const std::string& fn, const std::unordered_set<uint64_t>& v) {
    FILE* f = fopen(fn.c_str(), "wb"); if (!f) return;
    for (uint64_t x : v) fwrite(&x, 8, 1, f);
    fclose(f);
  }
  static void load(const std::string& fn, std::vector<uint64_t>* v) {
    FILE* f = fopen(fn.c_str(), "rb"); if (!f) return;
    uint64_t x; while (fread(&x, 8, 1, f) == 1) v->push_back(x);
    fclose(f); unlink(fn.c_str());
  }

  struct Found { std::string msg, text; std::vector<int> path; };
  struct Result {
    uint64_t execs = 0, edges = 0, compares = 0, states = 0, outcomes = 0;
    bool capped = false, slow = false; double wall = 0;
    std::vector<Found> found; std::vector<std::string> unreproduced;
    std::vector<std::string> samples; std::map<std::string, std::pair<uint64_t, std::string>> known;
  };

  Result explore(const Family& f) {
    Result r; double t0 = now();
    int W = nworkers;
    Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)slots, 0, sizeof(Slot) * W);
    std::vector<pid_t> pid(W); std::vector<uint64_t> lastbeat(W, 0); std::vector<double> lasttime(W, now());
    std::vector<int> restarts(W, 0), handled(W, 0);
    fflush(rep);
    auto spawn = [&](int w, std::vector<int> start, std::vector<int> ar) {
      pid_t p = fork();
      if (p == 0) { worker(f, w, W, &slots[w], start, ar); }
      pid[w] = p; lasttime[w] = now(); lastbeat[w] = slots[w].beat;
    };
    for (int w = 0; w < W; ++w) spawn(w, {}, {});
    int live = W;
    while (live > 0) {
      usleep(live == W ? 2000 : 5000);
      for (int w = 0; w < W; ++w) {          // replay new violations at once
        while (handled[w] < slots[w].nviol) {
          int k = handled[w]++;
          std::vector<int> p(slots[w].vpath[k], slots[w].vpath[k] + slots[w].vpathlen[k]);
          if (r.found.size() >= 3) continue;
          std::string text, m = replay_fresh(f, p, &text, hang_s * 2);
          if (m.empty()) m = replay_history(f, w, W, p, 60 + (now() - t0));
          if (!m.empty()) r.found.push_back(Found{m, text, p});
          else r.unreproduced.push_back(std::string(slots[w].viol[k]) + " at " + path_text(p.data(), p.size()));
        }
      }
      if (!r.found.empty()) for (int w = 0; w < W; ++w) slots[w].stop = 1;
      for (int w = 0; w < W; ++w) {
        if (pid[w] <= 0) continue;
        int st; pid_t q = waitpid(pid[w], &st, WNOHANG);
        bool dead = q == pid[w];
        bool bad = false; std::string why;
        if (dead) {
          pid[w] = 0; --live;
          if (!slots[w].done) {
            bad = true;
            why = WIFSIGNALED(st) ? std::string("crash: signal ") + strsignal(WTERMSIG(st))
                                  : "worker ended with status " + std::to_string(WEXITSTATUS(st));
            if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { fprintf(rep, "EXPLORER-ERROR family %s\n", f.name.c_str()); fflush(rep); exit(2); }
          }
        } else {
          if (slots[w].beat != lastbeat[w]) { lastbeat[w] = slots[w].beat; lasttime[w] = now(); }
          else if (now() - lasttime[w] > hang_s && f.large()) {
            // Slow on large inputs is not wrong. What never ends, never ends on small ones either.
            r.slow = r.capped = true;
            for (int v = 0; v < W; ++v) if (pid[v] > 0) { kill(pid[v], SIGKILL); waitpid(pid[v], &st, 0); pid[v] = 0; --live; }
          }
          else if (now() - lasttime[w] > hang_s) {
            kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; --live; bad = true; why = "hang";
          }
        }
        if (bad) {
          std::vector<int> p(slots[w].path, slots[w].path + slots[w].pathlen);
          std::string text, m = replay_fresh(f, p, &text, hang_s * 2);
          if (m.empty() && dead) m = replay_history(f, w, W, p, 60 + (now() - t0));
          if (!m.empty()) { r.found.push_back(Found{m, text, p}); r.capped = true; }
          else {
            r.unreproduced.push_back(why + " at " + path_text(p.data(), p.size()));
            if (restarts[w]++ < 3) { spawn(w, p, {}); ++live; }
            else r.capped = true;
          }
        }
      }
    }
    for (int w = 0; w < W; ++w) {
      Slot& s = slots[w];
      r.execs += s.execs; r.edges += s.edges; r.compares += s.compares;
      if (s.capped) r.capped = true;
      for (int k = 0; k < s.nknown; ++k) {
        std::string l = s.known[k]; size_t a = l.find('\t'), b = l.find('\t', a + 1);
        auto& e = r.known[l.substr(0, a)];
        e.first += strtoull(l.c_str() + a + 1, nullptr, 10); if (e.second.empty()) e.second = l.substr(b + 1);
      }
      for (; handled[w] < s.nviol; ++handled[w]) {
        int k = handled[w];
        std::vector<int> p(s.vpath[k], s.vpath[k] + s.vpathlen[k]);
        if (r.found.size() >= 3) continue;
        std::string text, m = replay_fresh(f, p, &text, hang_s * 2);
        if (m.empty()) m = replay_history(f, w, W, p, 60 + (now() - t0));
        if (!m.empty()) r.found.push_back(Found{m, text, p});
        else r.unreproduced.push_back(std::string(s.viol[k]) + " at " + path_text(p.data(), p.size()));
      }
    }
    std::vector<uint64_t> st, oc;
    for (int w = 0; w < W; ++w) {
      load(statedir + "/s." + std::to_string(w), &st);
      load(statedir + "/o." + std::to_string(w), &oc);
    }
    std::sort(st.begin(), st.end()); r.states = std::unique(st.begin(), st.end()) - st.begin();
    std::sort(oc.begin(), oc.end()); r.outcomes = std::unique(oc.begin(), oc.end()) - oc.begin();
    // Samples: the last executions of two workers, described.
    for (int w = 0; !r.slow && w < W && r.samples.size() < 2; w += (W > 4 ? 4 : 1)) {
      if (!slots[w].execs) continue;
      std::vector<int> p(slots[w].path, slots[w].path + slots[w].pathlen);
      std::string text; std::string m = replay_fresh(f, p, &text, hang_s);
      if (m.empty()) r.samples.push_back("choices=" + path_text(p.data(), p.size()) + "\n" + text.substr(0, 1200));
    }
    r.wall = now() - t0;
    munmap(slots, sizeof(Slot) * W);
    return r;
  }

  int main(int argc, char** argv) {
    std::string only, replay, select; double budget = 0;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() { return std::string(argv[++i]); };
      if (a == "--tier") opt.thorough = val() == "thorough";
      else if (a == "--workers") nworkers = atoi(val().c_str());
      else if (a == "--safety") opt.safety = true;
      else if (a == "--out") out = val();
      else if (a == "--dir") statedir = val();
      else if (a == "--family") only = val();
      else if (a == "--select") select = val();     // comma separated prefixes; whole names end with $
      else if (a == "--replay") replay = val();
      else if (a == "--budget") budget = atof(val().c_str());
      else if (a == "--hang") hang_s = atof(val().c_str());
      else if (a == "--known") known_keys.insert(val());
      else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    mallopt(M_PERTURB, 0xA5);
    rep = fdopen(dup(1), "w"); fcntl(fileno(rep), F_SETFD, FD_CLOEXEC);
    if (!replay.empty()) {
      std::vector<int> p; if (replay != "-") { std::stringstream ss(replay); std::string t; while (std::getline(ss, t, ',')) p.push_back(atoi(t.c_str())); }
      for (auto& f : families()) if (f.name == only) {
        std::string text, m = replay_fresh(f, p, &text, hang_s * 2);
        fprintf(rep, "%s\n%s\n", text.c_str(), m.empty() ? "PASS" : ("FAIL: " + m).c_str()); fflush(rep);
        return m.empty() ? 0 : 1;
      }
      fprintf(rep, "no such family\n"); fflush(rep); return 2;
    }
    std::string js = "{\"families\":["; bool first = true, bad = false;
    std::vector<std::string> pre; { std::stringstream ss(select); std::string t; while (std::getline(ss, t, ',')) pre.push_back(t); }
    auto wanted = [&](const Family& f) {
      if (f.thorough_only && !opt.thorough) return false;
      if (!only.empty()) return f.name == only;
      if (pre.empty()) return true;
      for (auto& p : pre) if (!p.empty() && p.back() == '$' ? f.name + "$" == p : f.name.compare(0, p.size(), p) == 0) return true;
      return false;
    };
    size_t todo = 0; for (auto& f : families()) todo += wanted(f);
    double t0 = now();
    for (auto& f : families()) {
      if (!wanted(f)) continue;
      // The time is only a safety net; when it cuts, the family is reported as capped.
      double left = t0 + budget - now();
      deadline = budget > 0 ? now() + std::max(3.0, todo > 1 ? left * 0.5 : left) : 1e18;
      --todo;
      Result r = explore(f);
      if (!r.found.empty()) bad = true;
      fprintf(rep, "  family %-28s execs=%llu compares=%llu states=%llu edges=%llu outcomes=%llu wall=%.1fs%s%s\n", f.name.c_str(),
              (unsigned long long)r.execs, (unsigned long long)r.compares, (unsigned long long)r.states, (unsigned long long)r.edges,
              (unsigned long long)r.outcomes, r.wall, r.slow ? " SLOW" : r.capped ? " CAPPED" : "", r.unreproduced.empty() ? "" : " UNREPRODUCED");
      for (auto& u : r.unreproduced) fprintf(rep, "    unreproduced: %s\n", u.substr(0, 600).c_str());
      for (auto& x : r.found) fprintf(rep, "    FOUND: %s\n", x.msg.substr(0, 1500).c_str());
      fflush(rep);
      if (!first) js += ","; first = false;
      js += "{\"name\":" + json_str(f.name) + ",\"rule\":" + json_str(f.rule) +
            ",\"execs\":" + std::to_string(r.execs) + ",\"compares\":" + std::to_string(r.compares) +
            ",\"states\":" + std::to_string(r.states) + ",\"edges\":" + std::to_string(r.edges) +
            ",\"outcomes\":" + std::to_string(r.outcomes) + ",\"capped\":" + (r.capped ? "true" : "false") +
            ",\"wall\":" + std::to_string(r.wall) + ",\"samples\":[";
      for (size_t i = 0; i < r.samples.size(); ++i) js += (i ? "," : "") + json_str(r.samples[i]);
      js += "],\"unreproduced\":[";
      for (size_t i = 0; i < r.unreproduced.size(); ++i) js += (i ? "," : "") + json_str(r.unreproduced[i]);
      js += "],\"known\":{";
      bool k1 = true;
      for (auto& k : r.known) { if (!k1) js += ","; k1 = false; js += json_str(k.first) + ":[" + std::to_string(k.second.first) + "," + json_str(k.second.second) + "]"; }
      js += "},\"found\":[";
      for (size_t i = 0; i < r.found.size(); ++i) {
        auto& x = r.found[i];
        js += (i ? "," : "") + std::string("{\"msg\":") + json_str(x.msg) + ",\"path\":" + json_str(path_text(x.path.data(), x.path.size())) + ",\"text\":" + json_str(x.text) + "}";
      }
      js += "]}";
      if (bad) break;           // one violation is enough
    }
    js += "]}\n";
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (!f) return 2; fputs(js.c_str(), f); fclose(f); }
    return bad ? 1 : 0;
  }
};

}  // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { mc::Runner r; return r.main(argc, argv); }
#endif

#endif
