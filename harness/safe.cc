// C29: the tool ends by itself, with status 0 or 1, on whatever it is given, and what it does
// depends on nothing but its input. Built twice: with the sanitizers and the checked containers,
// where any error in the use of memory or in an operation ends the process; and without them,
// where every run is repeated over differently filled memory.
#include "e2e.h"

using e2e::MemFile; using e2e::Result; using ora::Obj; using ora::Hyp; using ora::Box;
typedef std::vector<std::string> Args;
static MemFile f_sel, f_o1, f_o2, f_o3;

static volatile char sink;
static void __attribute__((noinline)) wash(int c) { char b[1 << 16]; memset(b, c, sizeof b); sink = b[sizeof b / 2]; asm volatile("" ::"r"(b) : "memory"); }
struct Seen { Result r; std::string o[3]; };
static Args made;                    // files the tool may have made
static Seen once(const Args& a, int fill) {
  for (auto& m : made) unlink(m.c_str());
  f_o1.set("old"); f_o2.set("old"); f_o3.set("old");
#ifndef __SANITIZE_ADDRESS__
  mallopt(M_PERTURB, fill);
#endif
  wash(fill); Seen s; s.r = e2e::run(a); s.o[0] = f_o1.get(); s.o[1] = f_o2.get(); s.o[2] = f_o3.get(); return s;
}
static Seen go(mc::Ctx& ctx, const Args& a) {
  ctx.say("options: %s", e2e::join(a).c_str()); if (ctx.describing()) ctx.say("--- references\n%s\n--- hypotheses\n%s", e2e::f_ref.get().substr(0, 2000).c_str(), e2e::f_hyp.get().substr(0, 2000).c_str());
  std::string in[3] = {e2e::f_ref.get(), e2e::f_hyp.get(), f_sel.get()};
  Seen s = once(a, 0xa5); ctx.compared(); ctx.outcome(mc::hash_str(s.r.out + std::to_string(s.r.status)));
  // A curve that cannot be written ends the tool by the exception of the stream.
  bool unwritable = std::find(a.begin(), a.end(), "/") != a.end();
  CHECK(s.r.status == 0 || s.r.status == 1 || (unwritable && s.r.err.find("iostream error") != std::string::npos), "the tool ended with status %d: %s", s.r.status, s.r.err.c_str());
#ifndef __SANITIZE_ADDRESS__
  e2e::f_ref.set(in[0]); e2e::f_hyp.set(in[1]); f_sel.set(in[2]); std::cin.clear(); Seen t = once(a, 0x7f); CHECK(t.r.status == s.r.status && t.r.out == s.r.out && t.r.err == s.r.err && t.o[0] == s.o[0] && t.o[1] == s.o[1] && t.o[2] == s.o[2], "the same run over memory with other contents is another:\n%s%s---\n%s%s", s.r.out.c_str(), s.r.err.c_str(), t.r.out.c_str(), t.r.err.c_str());
#endif
  return s;
}
#ifndef SIMPLE_TOOL
static Obj spot(const std::string& q, int i) { return Obj{q, "d" + std::to_string(i % 2), Box{3 * (i / 2), 0, 4, 4}}; }
static const std::vector<std::string> kLines = {"q d 0 0 4 4", "p d 1 0 4 4", "q d 2 0 4 4", "q e 0 0 4 4", "", " ", "# c", "q", "q d 0 0 4", "q d 0 0 4 4 4", "q d -1 0 4 4", "q d 0 0 0 0", "q d 4294967295 4294967295 4294967295 4294967295", "q d 4294967296 0 1 1", "q d 0 0 1 x", "\t q \t d 1 1 1 1 \r"};
#else
static Obj spot(const std::string& q, int i) { return Obj{q, "d" + std::to_string(i), {}}; }
static const std::vector<std::string> kLines = {"q d", "p d", "q q", "q e", "", " ", "# c", "q", "q d e", "q d e f", "\t q \t d \r", "d q", "q #", "#q d", "q d #", "-- -"};
#endif
static const std::vector<std::string> kScores = {" 1", " -0.5", " 1e38", " 1e39", " nan", " inf", " x", "", " 1e-45", " 0"};

static void everything(Args* a, int extra) {
  if (extra & 1) a->insert(a->end(), {"--dump_matches", f_o1.path}); if (extra & 2) a->insert(a->end(), {"--output_grp", f_o2.path, "--output_mrp", f_o3.path, "--rp_curve_samples", "5"});
  if (extra & 4) a->insert(a->end(), {"--bootstrap_ci_gap", "true", "--bootstrap_ci_map", "true", "--bootstrap_ci_gndcg", "true", "--bootstrap_ci_mndcg", "true", "--bootstrap_samples", "3"});
  if (extra & 8) a->insert(a->end(), {"--query_groups", f_sel.path});
}
static std::string scratch;         // the working directory of this process
static const struct Paths { Paths() { mc::worker_init().push_back([] { f_o1.open_(); f_o2.open_(); f_o3.open_(); f_sel.open_(); e2e::f_ref.open_(); e2e::f_hyp.open_(); const char* d = getenv("VERIF_SCRATCH"); scratch = std::string(d ? d : "/tmp") + "/w" + std::to_string(getpid()); if (mkdir(scratch.c_str(), 0700) || chdir(scratch.c_str())) _exit(97); int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); close(nul); }); } } paths;     // in each process its own

MC_FAMILY(C29_lines, "every file of <=2 lines of 16 kinds as the references with every file of <=2 such lines, each with one of 10 scores, as the hypotheses; the dump, the curves, the intervals and groups asked for or not") {
  std::string r, h; int extra = ctx.choose(4), nr = ctx.choose(3); for (int i = 0; i < nr; ++i) r += kLines[ctx.choose(16)] + "\n"; if (!ctx.mine()) return;
  int nh = ctx.choose(ctx.bound(2, 3)), kind = nh == 2 ? ctx.choose(3) : 0; for (int i = 0; i < nh; ++i) { h += kLines[ctx.choose(16)]; h += kScores[kind == 0 ? ctx.choose(10) : kind == 1 ? i : 0] + "\n"; }
  e2e::f_ref.set(r); e2e::f_hyp.set(h); f_sel.set("G q x\nH p\n"); ctx.state(mc::hash_str(r + "|" + h, extra + 1)); Args a; everything(&a, extra == 0 ? 0 : extra == 1 ? 7 : extra == 2 ? 15 : 11); a.push_back(e2e::f_ref.path); a.push_back(e2e::f_hyp.path); go(ctx, a);
}
MC_FAMILY(C29_bytes, "every file of <=4 (thorough: 5) bytes of 10 as the references, the hypotheses, the query set and the groups") {
  static const char A[] = {'a', ' ', '\n', '#', '1', '.', '-', '\0', '\r', '\xff'}; int who = ctx.choose(4), n = ctx.choose(ctx.bound(5, 6)); std::string s; for (int i = 0; i < n; ++i) { s += A[ctx.choose(10)]; if (i == 1 && !ctx.mine()) return; } if (n < 2 && !ctx.mine()) return;
  std::vector<Obj> R = {spot("a", 0), spot("a1", 1)}; std::vector<Hyp> H = {e2e::hyp(R[0], "2"), e2e::hyp(R[1], "1")}; e2e::f_ref.set(who == 0 ? s : e2e::refs_text(R)); e2e::f_hyp.set(who == 1 ? s : e2e::hyps_text(H)); f_sel.set(s); ctx.state(mc::hash_str(s, who + 1));
  Args a; if (who >= 2) { a.push_back(who == 2 ? "--query_set" : "--query_groups"); a.push_back(f_sel.path); } a.push_back(e2e::f_ref.path); a.push_back(e2e::f_hyp.path); go(ctx, a);
}
// Inputs of every small size.
static void problem(int k) {
  static const int nr[] = {0, 1, 0, 1, 1, 2, 3, 5, 17, 64}, nh[] = {0, 0, 1, 1, 2, 1, 3, 7, 17, 65}; std::vector<Obj> R; std::vector<Hyp> H;
  for (int i = 0; i < nr[k]; ++i) R.push_back(spot(i % 3 ? "q" : "p", i)); for (int i = 0; i < nh[k]; ++i) H.push_back(e2e::hyp(spot(i % 4 ? "q" : "p", i), std::to_string(i * 7 % 5))); e2e::f_ref.set(e2e::refs_text(R)); e2e::f_hyp.set(e2e::hyps_text(H));
}
static const std::vector<Args>& settings() {
  static const std::vector<Args> v = {{}, {"--collapse_matches", "false"}, {"--interpolated_precision", "false"}, {"--trapezoid_integral", "false"}, {"--query_set", f_sel.path}, {"--query_groups", f_sel.path}, {"--query_groups", "/dev/null"}, {"--query_set", "/dev/null"},
    {"--dump_matches", f_o1.path}, {"--dump_matches", "/nonexistent/x"}, {"--output_grp", f_o2.path}, {"--output_mrp", f_o3.path}, {"--output_grp", "/"}, {"--rp_curve_samples", "0"}, {"--rp_curve_samples", "1"}, {"--rp_curve_samples", "2"}, {"--rp_curve_samples", "3"},
    {"--bootstrap_ci_gap", "true"}, {"--bootstrap_ci_map", "true"}, {"--bootstrap_ci_gndcg", "true"}, {"--bootstrap_ci_mndcg", "true"}, {"--bootstrap_samples", "0"}, {"--bootstrap_samples", "1"}, {"--bootstrap_samples", "2"}, {"--bootstrap_seed", "0"}, {"--bootstrap_seed", "4294967295"},
    {"--bootstrap_alpha", "0"}, {"--bootstrap_alpha", "1"}, {"--bootstrap_alpha", "2"}, {"--bootstrap_alpha", "-1"}, {"--bootstrap_alpha", "1e308"}, {"--bootstrap_alpha", "-1e308"}, {"--bootstrap_alpha", "1e-320"}, {"--bootstrap_alpha", "nan"}, {"--bootstrap_alpha", "inf"}, {"--sort", "asc"}, {"--sort", "none"}, {"--sort", ""}, {"--bootstrap_ci_gap", "true", "--bootstrap_ci_mndcg", "true"}};
  return v;
}
MC_FAMILY(C29_options, "10 inputs of 0 to 65 lines x every pair (thorough: every three) of 39 settings of the options, extreme ones too") {
  auto& S = settings(); int n = (int)S.size(), k = ctx.choose(10), i = ctx.choose(n); if (!ctx.mine()) return; int j = ctx.choose(n), l = ctx.thorough() && k < 7 ? ctx.choose(n) : 0; if (j < i || (l && l < j)) return; problem(k); f_sel.set("p q\nq\n"); ctx.state(((k * 64 + i) * 64 + j) * 64 + l);
  Args a; bool few = false; for (int x : {i, j, l}) { a.insert(a.end(), S[x].begin(), S[x].end()); few |= !S[x].empty() && S[x][0] == "--bootstrap_samples"; } if (!few) { a.push_back("--bootstrap_samples"); a.push_back("3"); } bool pts = false; for (auto& x : a) pts |= x == "--rp_curve_samples"; if (!pts) { a.push_back("--rp_curve_samples"); a.push_back("4"); } a.push_back(e2e::f_ref.path); a.push_back(e2e::f_hyp.path); go(ctx, a);
}
MC_FAMILY(C29_ends, "10 inputs x curves of 0 to 20 points, alpha 0 to 1 in twentieths x 0 to 10 replicates: the ends of the intervals and the curves") {
  int k = ctx.choose(10), s = ctx.choose(21); if (!ctx.mine()) return; int b = ctx.choose(11), m = ctx.choose(4); problem(k); char al[16]; snprintf(al, sizeof al, "%.2f", s * 0.05); ctx.state((k * 32 + s) * 64 + b * 4 + m);
  Args a = {"--output_grp", f_o1.path, "--output_mrp", f_o2.path, "--rp_curve_samples", std::to_string(s), "--bootstrap_alpha", al, "--bootstrap_samples", std::to_string(b), "--bootstrap_ci_gap", "true", "--bootstrap_ci_map", "true", "--bootstrap_ci_gndcg", "true", "--bootstrap_ci_mndcg", "true"}; if (m & 1) a.insert(a.end(), {"--interpolated_precision", "false"}); if (m & 2) a.insert(a.end(), {"--collapse_matches", "false"}); a.push_back(e2e::f_ref.path); a.push_back(e2e::f_hyp.path); Seen r = go(ctx, a); CHECK(r.r.status == 0, "status 1: %s", r.r.err.c_str());
}
MC_FAMILY(C29_words, "every command line of <=3 (thorough: 4) words of 22, options with and without values, files that exist and that do not") {
  problem(6); static Args W; if (W.empty()) W = {e2e::f_ref.path, e2e::f_hyp.path, "--", "-", "", "--help", "--sort", "asc", "--sort=asc", "--collapse_matches", "false", "--dump_matches", "--bootstrap_alpha", "0.1", "--rp_curve_samples", "-5", "--bootstrap_seed", "99999999999999999999", "--nothing", "/nonexistent/x", "=", "--=x"};
  made.assign(W.begin() + 2, W.end()); for (auto& m : made) if (!m.empty() && m[0] == '/') m = "";      // only those in the working directory
  int n = ctx.choose(ctx.bound(4, 5)); Args a; for (int i = 0; i < n; ++i) { a.push_back(W[ctx.choose(22)]); if (i == 1 && !ctx.mine()) return; } if (n < 2 && !ctx.mine()) return;
  ctx.state(mc::hash_str(e2e::join(a), n + 1)); go(ctx, a);
}
MC_FAMILY(C29_long, "one field, line or file of 1000 to 200000 (thorough: 2000000) characters or lines: names, numbers, blanks, comments, lines, queries in a group") {
  static const int ns[] = {1000, 4095, 4096, 8191, 8192, 65536, 200000, 2000000}; int n = ns[ctx.choose(ctx.bound(7, 8))], kind = ctx.choose(9); if (!ctx.mine()) return; int who = ctx.choose(2); std::string x(n, kind == 0 ? 'a' : kind == 1 ? '1' : kind == 2 ? ' ' : kind == 3 ? '#' : kind == 4 ? '\n' : kind == 5 ? '0' : '.'), r = e2e::refs_text({spot("q", 0)}), h = e2e::hyps_text({e2e::hyp(spot("q", 0), "1")}), sel = "G q\n";
  if (kind == 6) { std::string s; for (int i = 0; i < n / 10; ++i) s += who ? e2e::hyps_text({e2e::hyp(spot("q" + std::to_string(i), i % 7), std::to_string(i % 1000))}) : e2e::refs_text({spot("q" + std::to_string(i % 90), i % 5)}); (who ? h : r) += s; }
  else if (kind == 7) { for (int i = 0; i < n / 10; ++i) sel += who ? " q" + std::to_string(i) : "G" + std::to_string(i) + " q\n"; sel = "G q" + sel + "\n"; } else if (kind == 8) { std::string s; for (int i = 0; i < n / 10; ++i) s += "x "; (who ? h : r) += s + "\n"; } else { std::string& t = who ? h : r; t = t.substr(0, t.size() - 1) + x + "\n" + x + t; }
  e2e::f_ref.set(r); e2e::f_hyp.set(h); f_sel.set(sel); ctx.state(mc::mix(n, kind * 2 + who)); ctx.say("%d of kind %d", n, kind); Args a; everything(&a, n <= 8192 ? 15 : 11); a.push_back(e2e::f_ref.path); a.push_back(e2e::f_hyp.path); go(ctx, a);
}
#ifndef SIMPLE_TOOL
MC_FAMILY(C29_boxes, "every reference and hypothesis with coordinates of 5 from 0 to the end of the range, and pairs of hypotheses and references of 81 boxes") {
  static const unsigned C[] = {0, 1, 65536, 2147483648u, 4294967295u}; int two = ctx.choose(2), a = ctx.choose(two ? 81 : 625); if (!ctx.mine()) return; int b = ctx.choose(two ? 81 : 625), c = two ? ctx.choose(9) : 0; auto bx = [&](int i) { long long v[4]; for (auto& x : v) { x = two ? C[i % 3 == 2 ? 4 : i % 3] : C[i % 5]; i /= two ? 3 : 5; } return Box{v[0], v[1], v[2], v[3]}; };
  ctx.state(mc::mix(two * 1000 + a, b * 9 + c)); std::vector<Obj> R = {Obj{"q", "d", bx(a)}}; std::vector<Hyp> H = {e2e::hyp(Obj{"q", "d", bx(b)}, "1")}; if (two) { R.push_back(Obj{"q", "d", bx(c * 9)}); H.push_back(e2e::hyp(Obj{"q", "d", bx(c * 10)}, "0.5")); } e2e::f_ref.set(e2e::refs_text(R)); e2e::f_hyp.set(e2e::hyps_text(H)); Args args; everything(&args, two ? 1 : 0); args.push_back(e2e::f_ref.path); args.push_back(e2e::f_hyp.path); Seen s = go(ctx, args); CHECK(s.r.status == 0, "status 1: %s", s.r.err.c_str());
}
#endif
