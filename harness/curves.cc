// C25: the recall-precision curve files sample the curve of the definitions.
#include "e2e.h"

#include <fstream>

using ora::Obj; using ora::Opts; using ora::Problem; using e2e::MemFile; using e2e::Printed; using e2e::Result;
typedef std::vector<std::string> Args; typedef std::vector<double> Vec;

static bool near(double a, double b, double rel = 1e-6, double abs = 1e-9) { return std::fabs(a - b) <= rel * std::fabs(b) + abs; }
static std::string str(const Vec& v) { std::string s; char b[40]; for (double x : v) { snprintf(b, sizeof b, "%.9g ", x); s += b; } return s; }

// The precision at recall x of a curve given by its points in order.
static double sample(const Vec& rc, const Vec& pr, double x, bool linear) {
  for (size_t j = 0; j < rc.size(); ++j) {
    if (rc[j] < x) continue;
    if (!linear || j == 0) return pr[j];
    // on the segment from the point before (which has less recall than x)
    return pr[j] + (rc[j] - x) / (rc[j] - rc[j - 1]) * (pr[j - 1] - pr[j]);
  }
  return 0;
}

#ifndef SIMPLE_TOOL
// ---- the functions of core/Assessment.h -------------------------------------
template <class T> static void one_sample(mc::Ctx& ctx, const Vec& rc, const Vec& pr, const Vec& xs, bool linear, double tol) {
  std::vector<T> a(rc.begin(), rc.end()), b(pr.begin(), pr.end()), x(xs.begin(), xs.end()), y(3, T(0.7));
  kws::core::SampleCurveAtGivenPoints(a, b, x, &y, linear); ctx.compared();
  CHECK(y.size() == x.size(), "%zu precisions for %zu recalls", y.size(), x.size());
  for (size_t i = 0; i < xs.size(); ++i) { double w = sample(rc, pr, xs[i], linear); CHECK(near(y[i], w, tol, tol), "curve (rc %s, pr %s) at %g is %.9g, must be %.9g (linear=%d)", str(rc).c_str(), str(pr).c_str(), xs[i], (double)y[i], w, linear); }
}
MC_FAMILY(C25_sample, "every curve of up to 4 (thorough: 5) points with recalls in quarters, non decreasing, and precisions in {0, 1/4, 1} x every non decreasing list of up to 2 (thorough: 3) recalls in eighths x interpolation") {
  Vec rc, pr; int n = ctx.choose(ctx.bound(5, 6)), lo = 0; static const double P[3] = {0, 0.25, 1};
  for (int i = 0; i < n; ++i) { lo += ctx.choose(5 - lo); rc.push_back(lo / 4.0); pr.push_back(P[ctx.choose(3)]); if (i == 1 && !ctx.mine()) return; }
  if (n < 2 && !ctx.mine()) return;
  uint64_t h = n; for (double x : rc) h = mc::mix(h, x * 4); for (double x : pr) h = mc::mix(h, x * 4);
  Vec xs; int m = ctx.bound(2, 3), from = 0; for (int i = 0; i < m; ++i) { int k = ctx.choose(10 - from); if (k == 9 - from) break; from += k; xs.push_back(from / 8.0); }
  for (double x : xs) h = mc::mix(h, x * 8 + 1); ctx.state(h);
  for (int lin = 0; lin < 2; ++lin) { one_sample<double>(ctx, rc, pr, xs, lin, 1e-12); EXOTIC(one_sample<float>(ctx, rc, pr, xs, lin, 1e-6);) }
}
MC_FAMILY(C25_sample_grid, "every curve of up to 4 (thorough: 5) points with recalls in quarters and precisions in {0, 1/2, 1} x grids of 2, 3, 5, 9, 17 and 33 points x interpolation") {
  Vec rc, pr; int n = ctx.choose(ctx.bound(5, 6)), lo = 0; static const double P[3] = {0, 0.5, 1};
  for (int i = 0; i < n; ++i) { lo += ctx.choose(5 - lo); rc.push_back(lo / 4.0); pr.push_back(P[ctx.choose(3)]); if (i == 1 && !ctx.mine()) return; }
  if (n < 2 && !ctx.mine()) return;
  uint64_t h = n; for (double x : rc) h = mc::mix(h, x * 4); for (double x : pr) h = mc::mix(h, x * 4); ctx.state(h);
  for (int g : {2, 3, 5, 9, 17, 33}) { Vec xs; for (int k = 0; k < g; ++k) xs.push_back((double)k / (g - 1)); for (int lin = 0; lin < 2; ++lin) one_sample<double>(ctx, rc, pr, xs, lin, 1e-12); }
}
MC_FAMILY(C25_points, "all numbers of sample points from 0 to 3000 (thorough: 12000) and around powers of ten and two: evenly spaced from 0 to 1") {
  static const size_t more[] = {4095, 4096, 4097, 9999, 10000, 10001, 65535, 65536, 65537, 100000, 131073}; int m = ctx.bound(3001, 12001), k = ctx.choose(m + 11); if (!ctx.mine()) return; size_t n = k < m ? k : more[k - m]; ctx.state(n);
  std::vector<double> x(5, 3.0); kws::core::GetEvenlyDistributedPoints01Interval(n, &x); EXOTIC_OR(std::vector<float>, std::vector<double>) f; kws::core::GetEvenlyDistributedPoints01Interval(n, &f); ctx.compared(2);
  CHECK(x.size() == (n < 2 ? 0 : n) && f.size() == x.size(), "%zu points were asked for, got %zu", n, x.size());
  for (size_t i = 0; i < x.size(); ++i) { double w = (double)i / (n - 1); CHECK(near(x[i], w, 1e-13, 1e-13) && near(f[i], w, 1e-5, 1e-7), "point %zu of %zu is %.17g", i, n, x[i]); }
  if (n > 1) CHECK(x[0] == 0, "the first of %zu points is %g", n, x[0]); if (n > 1) CHECK(near(x.back(), 1, 1e-13, 1e-13), "the last of %zu points is %.17g", n, x.back());
}
#endif

// ---- the tools ------------------------------------------------------------------
static MemFile fg, fm, f_sel;
static bool read_curve(const std::string& text, Vec* x, Vec* y, std::string* why) {
  std::stringstream ss(text); std::string l; if (!text.empty() && text.back() != '\n') { *why = "the last line is incomplete"; return false; }
  while (std::getline(ss, l)) { size_t b = l.find_first_of(" \t"); double u, v; if (b == std::string::npos || !e2e::num(l.substr(0, b), &u) || !e2e::num(l.substr(l.find_first_not_of(" \t", b) == std::string::npos ? b : l.find_first_not_of(" \t", b)), &v)) { *why = "bad line: " + l; return false; } x->push_back(u); y->push_back(v); }
  return true;
}
static bool pow2(long long n) { return n > 0 && (n & (n - 1)) == 0; }
// All the values the mean (or only) curve may have at point k of n: where a
// recall could equal the point up to rounding, the next one may be used.
static bool at(const std::vector<ora::Curve>& cs, int k, int n, bool linear, double got, double* want) {
  const double x = (double)k / (n - 1); std::set<double> sums = {0}; *want = 0;
  for (auto& c : cs) {
    std::set<double> v = {sample(c.rc, c.pr, x, linear)};
    bool exact = pow2(n - 1); if (!exact) for (double e : {-1e-12, 1e-12}) v.insert(sample(c.rc, c.pr, std::max(0.0, std::min(1.0, x + e)), linear));
    *want += sample(c.rc, c.pr, x, linear); std::set<double> s; for (double a : sums) for (double b : v) s.insert(a + b); sums.swap(s); if (sums.size() > 4096) return true;
  }
  if (!cs.empty()) *want /= cs.size();
  for (double s : sums) if (near(got, cs.empty() ? 0 : s / cs.size())) return true; return false;
}
static std::vector<std::vector<ora::Curve>> both(const ora::Grouped& G, const Opts& o) {
  std::vector<std::vector<ora::Curve>> r(2); r[0].push_back(ora::curve(G.all, G.missed, o.collapse, o.interp)); for (auto& g : G.g) r[1].push_back(ora::curve(g.second.first, g.second.second, o.collapse, o.interp)); return r;
}
static void one_curve(mc::Ctx& ctx, const char* name, const std::vector<ora::Curve>& cs, const std::string& text, int n, bool linear) {
  Vec x, y; std::string why; CHECK(read_curve(text, &x, &y, &why), "%s: %s", name, why.c_str()); size_t m = n < 2 ? 0 : n;
  CHECK(x.size() == m, "%s: %zu lines for %d sample points", name, x.size(), n);
  for (size_t k = 0; k < m; ++k) { CHECK(near(x[k], (double)k / (n - 1)), "%s: recall point %zu of %d is %g", name, k, n, x[k]); double w; CHECK(at(cs, (int)k, n, linear, y[k], &w), "%s: the precision at recall %zu/%d is %.7g, must be %.7g (%s)", name, k, n - 1, y[k], w, linear ? "linear" : "steps"); }
}
// which: 1 global, 2 mean, 3 both.
static void curves(mc::Ctx& ctx, Problem& p, const Opts& o, const std::vector<int>& ns, int which = 3, const Args& extra = {}) {
  p.acc = e2e::accept(); e2e::f_ref.set(e2e::refs_text(p.refs)); e2e::f_hyp.set(e2e::hyps_text(p.hyps)); ora::Grouped G; ora::evaluate(p, o, &G); auto cs = both(G, o);
  if (ctx.describing()) ctx.say("--- references\n%s--- hypotheses\n%s", e2e::refs_text(p.refs).substr(0, 3000).c_str(), e2e::hyps_text(p.hyps).substr(0, 3000).c_str());
  Args a = e2e::opt_args(o); a.insert(a.end(), extra.begin(), extra.end()); Args plain = a; plain.push_back(e2e::f_ref.path); plain.push_back(e2e::f_hyp.path); Result r0 = e2e::run(plain); CHECK(r0.status == 0, "status %d: %s", r0.status, r0.err.c_str());
  ctx.state(mc::mix(e2e::problem_hash(p, o), mc::hash_str(e2e::join(extra), which)));
  for (int n : ns) {
    fg.set("stale content that is replaced\n"); fm.set("stale content that is replaced\n"); Args b = a; if (which & 1) { b.push_back("--output_grp"); b.push_back(fg.path); } if (which & 2) { b.push_back("--output_mrp"); b.push_back(fm.path); } if (n != 10000) { b.push_back("--rp_curve_samples"); b.push_back(std::to_string(n)); } b.push_back(e2e::f_ref.path); b.push_back(e2e::f_hyp.path);
    Result r = e2e::run(b); ctx.compared(); ctx.say("%s\n%s--- global\n%s--- mean\n%s", e2e::join(b).c_str(), r.out.c_str(), fg.get().substr(0, 2000).c_str(), fm.get().substr(0, 2000).c_str());
    CHECK(r.status == 0, "status %d: %s", r.status, r.err.c_str()); CHECK(r.out == r0.out, "asking for curves changes what is printed:\n%s---\n%s", r0.out.c_str(), r.out.c_str());
    if (which & 1) { one_curve(ctx, "global curve", cs[0], fg.get(), n, o.trap); ctx.outcome(mc::hash_str(fg.get())); } if (which & 2) { one_curve(ctx, "mean curve", cs[1], fm.get(), n, o.trap); ctx.outcome(mc::hash_str(fm.get())); }
  }
}
static Obj spot(const std::string& q, int i) {
#ifdef SIMPLE_TOOL
  return Obj{q, "d" + std::to_string(i), {}};
#else
  return Obj{q, "d", ora::Box{10 * i, 0, 4, 4}};
#endif
}
static Opts pick_opts(mc::Ctx& ctx) { Opts o; o.collapse = !ctx.flip(); o.interp = !ctx.flip(); o.trap = !ctx.flip(); o.sort = ora::DESC; return o; }
// Every ranked list of hits and false positives over 2 queries. When ties are
// not collapsed their order is free, so they are made only between equals.
static Problem ranked(mc::Ctx& ctx, int maxn, int maxmiss, bool ties, bool* mine) {
  Problem p; int n = ctx.choose(maxn + 1), cur = 0; *mine = true;
  for (int i = 0; i < n; ++i) { int hit = ctx.flip(), q = ctx.flip(); if (i == 0 || !ties || ctx.flip()) ++cur; Obj o = spot(q ? "b" : "a", i); if (hit) p.refs.push_back(o); p.hyps.push_back(e2e::hyp(o, std::to_string(20 - cur))); if (i == 1 && !ctx.mine()) { *mine = false; return p; } }
  if (n < 2 && !ctx.mine()) { *mine = false; return p; }
  int ma = ctx.choose(maxmiss + 1), mb = ctx.choose(maxmiss + 1); for (int i = 0; i < ma; ++i) p.refs.push_back(spot("a", 50 + i)); for (int i = 0; i < mb; ++i) p.refs.push_back(spot(i ? "c" : "b", 60 + i));
  return p;
}
MC_FAMILY(C25_tool_lists, "every list of up to 4 (thorough: 5) ranked hits and false positives over 2 queries with distinct scores, 0..2 missed references of each query, all collapse, interpolation, trapezoid settings, 2, 5, 9 and 7 sample points") { bool m; Problem p = ranked(ctx, ctx.bound(4, 5), 2, false, &m); if (!m) return; curves(ctx, p, pick_opts(ctx), {2, 5, 9, 7}); }
MC_FAMILY(C25_tool_ties, "every list of up to 4 (thorough: 5) entries, tied or not, collapsed, 0..1 missed references of each query, 5, 17 and 4 sample points") { bool m; Problem p = ranked(ctx, ctx.bound(4, 5), 1, true, &m); if (!m) return; Opts o{true, !ctx.flip(), !ctx.flip(), ora::DESC}; curves(ctx, p, o, {5, 17, 4}); }
MC_FAMILY(C25_tool_numbers, "every list of up to 2 entries, 8 settings x each or both curves x 0, 1, 2, 3, 6, 11, 100, 1001 and (by default) 10000 sample points") { bool m; Problem p = ranked(ctx, 2, 1, false, &m); if (!m) return; Opts o = pick_opts(ctx); int w = 1 + ctx.choose(3); static const int N[] = {0, 1, 2, 3, 6, 11, 100, 1001, 10000}; int k = ctx.choose(9); curves(ctx, p, o, {N[k]}, w); }
MC_FAMILY(C25_tool_sorts, "every list of up to 3 entries, other sorting criteria, 8 settings") { bool m; Problem p = ranked(ctx, 3, 1, false, &m); if (!m) return; Opts o = pick_opts(ctx); o.sort = ctx.flip() ? ora::ASC : ora::NONE; if (ctx.flip()) std::reverse(p.hyps.begin(), p.hyps.end()); curves(ctx, p, o, {5, 9}); }
MC_FAMILY(C25_tool_groups, "every list of up to 3 (thorough: 4) entries x query set or groups (6 files): the mean is over the groups, without weights; 0 without groups") {
  bool m; Problem p = ranked(ctx, ctx.bound(3, 4), 1, false, &m); if (!m) return; int f = ctx.choose(6); Opts o{true, !ctx.flip(), !ctx.flip(), ora::DESC}; static const char* const T[6] = {"a\n", "b\nzz\n", "G a b\n", "G a\nH b\nK c\n", "zz\n", "G a c\nH zz\n"}; f_sel.set(T[f]);
  std::map<std::string, std::string> g; if (f == 0) g["a"] = "a"; if (f == 1) { g["b"] = "b"; g["zz"] = "zz"; } if (f == 2) { g["a"] = g["b"] = "G"; } if (f == 3) { g["a"] = "G"; g["b"] = "H"; g["c"] = "K"; } if (f == 4) g["zz"] = "zz"; if (f == 5) { g["a"] = g["c"] = "G"; g["zz"] = "H"; }
  p.groups = &g; curves(ctx, p, o, {5, 3}, 3, {f < 2 || f == 4 ? "--query_set" : "--query_groups", f_sel.path}); p.groups = nullptr;
}
MC_FAMILY(C25_tool_many, "24 generated problems of 1 to 160 hypotheses over up to 24 queries x 8 settings x 9 and 101 points") {
  int k = ctx.choose(24); Opts o = pick_opts(ctx); if (!ctx.mine()) return; Problem p; int n = 1 + k * 7;
  for (int i = 0; i < n; ++i) { int c = (i * 31 + k * 17) % 11; Obj x = spot("q" + std::to_string((i * 5 + k) % (k + 1)), i); if (c < 7) p.refs.push_back(x); if (c > 2) p.hyps.push_back(e2e::hyp(x, std::to_string((i * 7919 + k * 104729) % (o.collapse && k & 1 ? 13 : 1009)))); }
  curves(ctx, p, o, {9, 101});
}

MC_FAMILY(C25_tool_queries, "problems of every number of queries from 1 to 70 and around 100, 128, 255, 256, 257, 500 and 1000, 1 to 3 hypotheses and 0 to 2 missed references each, 4 patterns x interpolation and integral x 5, 17 and 33 points: the mean is over all the queries") {
  static std::vector<int> ns; if (ns.empty()) { for (int i = 1; i <= 70; ++i) ns.push_back(i); for (int i : {99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000}) ns.push_back(i); } int n = ns[ctx.choose((int)ns.size())], pat = ctx.choose(4), opt = ctx.choose(4); if (!ctx.mine()) return; if (!ctx.thorough() && (n + pat) % 4 != opt) return; Problem p; Opts o{true, (opt & 1) != 0, (opt & 2) != 0, ora::DESC};
  for (int q = 0, i = 0; q < n; ++q) { std::string Q = "q" + std::to_string(q * 7919 % n) + (pat & 1 ? "-" + std::to_string(q) : "."); int nh = pat == 0 ? 1 : 1 + q % 3, nm = pat == 0 ? 0 : (q * 5 / 3) % 3; for (int j = 0; j < nh; ++j, ++i) { Obj x = spot(Q, i); if (pat == 0 || (q * 31 + j * 17 + pat) % 5 < 3) p.refs.push_back(x); p.hyps.push_back(e2e::hyp(x, std::to_string(pat == 2 ? (q * 37 + j) % 9 : i * 7919 % 99991))); } for (int j = 0; j < nm; ++j, ++i) p.refs.push_back(spot(Q, i)); }
  curves(ctx, p, o, {5, 17, 33});
}
MC_FAMILY(C25_tool_huge, "3000 to 70001 (thorough: 131073) hypotheses over 1, 2 or 3 queries, distinct scores or ties of 5, 4 hit patterns x 5, 17 and 33 points") {
  static const int ns[] = {3000, 10001, 32769, 65537, 70001, 99991, 131073}; int n = ns[ctx.choose(ctx.bound(5, 7))], nq = 1 + ctx.choose(3), pat = ctx.choose(4), tie = ctx.choose(2), opt = ctx.choose(4); if (!ctx.mine()) return; if (!ctx.thorough() && (n + nq + pat + tie + opt) % 6) return; Problem p; Opts o{tie == 1 || pat < 2, (opt & 1) != 0, (opt & 2) != 0, ora::DESC};
  for (int i = 0; i < n; ++i) { bool hit = pat == 0 ? i % 2 == 0 : pat == 1 ? i >= n / 2 : pat == 2 ? i < n / 2 : i % 7 == 3; Obj x = spot("q" + std::to_string(i % nq), i); x.d = "d" + std::to_string(i); if (hit) p.refs.push_back(x); p.hyps.push_back(e2e::hyp(x, std::to_string(200000 - (tie ? i / 5 : i)))); }
  for (int i = 0; i < n / 4; ++i) { Obj x = spot("q" + std::to_string(i % nq), i); x.d = "m" + std::to_string(i); p.refs.push_back(x); } curves(ctx, p, o, {5, 17, 33});
}
// With everything else asked for as well.
static MemFile f_d;
MC_FAMILY(C25_cross, "24 generated problems x the dump, the intervals (3 sets), a query set or groups, the hypotheses on the standard input, in every combination and 4 orders of the options: the curves are those of the tool asked for one of them alone") {
  int k = ctx.choose(24), dump = ctx.choose(2), ci = ctx.choose(3), sel = ctx.choose(3), in = ctx.choose(2), ord = ctx.choose(4); if (!ctx.mine()) return; int so = ctx.choose(3); if (!ctx.thorough() && so != (k + dump + ci + in) % 3) return; Problem p; int n = 1 + k * 3;
  for (int i = 0; i < n; ++i) { int c = (i * 31 + k * 17) % 11; Obj x = spot("q" + std::to_string((i * 5 + k) % (k % 5 + 1)), i); if (c < 7) p.refs.push_back(x); if (c > 2) p.hyps.push_back(e2e::hyp(x, std::to_string((i * 7919 + k * 104729) % 1009))); }
  e2e::f_ref.set(e2e::refs_text(p.refs)); e2e::f_hyp.set(e2e::hyps_text(p.hyps)); f_sel.set(sel == 1 ? "q0\nq2\n" : "G q0 q1\nH q2 q3\n"); Args base = {"--rp_curve_samples", std::to_string(2 + k)}; if (sel) { base.push_back(sel == 1 ? "--query_set" : "--query_groups"); base.push_back(f_sel.path); } if (so) { base.push_back("--sort"); base.push_back(so == 1 ? "asc" : "none"); }
  std::string alone[2]; for (int w = 0; w < 2; ++w) { fg.set("x"); Args a = base; a.insert(a.end(), {w ? "--output_mrp" : "--output_grp", fg.path, e2e::f_ref.path, e2e::f_hyp.path}); Result r = e2e::run(a); CHECK(r.status == 0, "status %d: %s", r.status, r.err.c_str()); alone[w] = fg.get(); }
  fg.set("old"); fm.set("old"); f_d.set("old"); std::vector<Args> parts = {base, {"--output_grp", fg.path}, {"--output_mrp", fm.path}}; if (dump) parts.push_back({"--dump_matches", f_d.path}); if (ci) { parts.push_back({"--bootstrap_ci_map", "true", "--bootstrap_samples", "3"}); if (ci == 2) parts.push_back({"--bootstrap_ci_gap", "true", "--bootstrap_ci_gndcg", "true", "--bootstrap_ci_mndcg", "true"}); }
  if (ord & 1) std::reverse(parts.begin(), parts.end()); if (ord & 2) std::rotate(parts.begin(), parts.begin() + 1, parts.end()); Args a; for (auto& x : parts) a.insert(a.end(), x.begin(), x.end()); a.push_back(e2e::f_ref.path); if (!in) a.push_back(e2e::f_hyp.path); ctx.state(mc::mix(mc::hash_str(e2e::join(a)), k * 3 + so)); lseek(e2e::f_hyp.fd, 0, SEEK_SET);
  Result r = in ? e2e::run_fork(a, nullptr, e2e::f_hyp.fd) : e2e::run(a); ctx.compared(); ctx.say("%s", e2e::join(a).c_str()); CHECK(r.status == 0, "status %d: %s", r.status, r.err.c_str()); CHECK(fg.get() == alone[0], "the global curve becomes\n%sand is\n%swithout the rest (%s)", fg.get().c_str(), alone[0].c_str(), e2e::join(a).c_str()); CHECK(fm.get() == alone[1], "the mean curve becomes\n%sand is\n%swithout the rest (%s)", fm.get().c_str(), alone[1].c_str(), e2e::join(a).c_str());
}
