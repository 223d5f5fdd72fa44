// C23 (tools), C24: bootstrap intervals as the tools print them.
#include "e2e.h"

using e2e::MemFile; using e2e::Printed; using e2e::Result; using ora::Box; using ora::Hyp; using ora::Obj; using ora::Opts; using ora::Ranked;
typedef std::vector<std::string> Args;
static Obj spot(const std::string& q, int i) {
#ifndef SIMPLE_TOOL
  return Obj{q, "d", Box{10 * i, 0, 4, 4}};
#else
  return Obj{q, "d" + std::to_string(i), {}};
#endif
}
static const char* const kCi[4] = {"--bootstrap_ci_gap", "--bootstrap_ci_map", "--bootstrap_ci_gndcg", "--bootstrap_ci_mndcg"};
struct Group { std::vector<int> m; };                        // 0 hit, 1 false positive, 2 missed reference
struct Case { std::vector<Obj> refs; std::vector<Hyp> hyps; std::vector<Group> groups; std::vector<std::vector<float>> score; };
static Case make(const std::vector<Group>& gs) {
  Case c; c.groups = gs; int n = 0; std::vector<std::pair<float, Hyp>> hs;
  for (size_t g = 0; g < gs.size(); ++g) { c.score.emplace_back(); for (int k : gs[g].m) { ++n; float s = (float)((n * 7) % 16) / 16 + 0.25f; Obj o = spot("q" + std::to_string(g), n); if (k != 1) c.refs.push_back(o); if (k != 2) { char b[32]; snprintf(b, sizeof b, "%.6f", s); c.hyps.push_back(e2e::hyp(o, b)); } c.score.back().push_back(s); } }
  return c;
}
static void files(const Case& c) { e2e::f_ref.set(e2e::refs_text(c.refs)); e2e::f_hyp.set(e2e::hyps_text(c.hyps)); }
// The statistics of a resample: the group index and the match indices.
static double statistic(int which, const std::vector<std::pair<std::vector<Ranked>, long>>& gs, const Opts& o) {
  auto sorted = [](std::vector<Ranked> v) { std::stable_sort(v.begin(), v.end(), [](const Ranked& a, const Ranked& b) { return a.s > b.s; }); return v; };
  if (which == 0 || which == 2) { std::vector<Ranked> all; long miss = 0; for (auto& g : gs) { all.insert(all.end(), g.first.begin(), g.first.end()); miss += g.second; } all = sorted(all); return which ? ora::ndcg(all, miss, o.collapse) : ora::ap(all, miss, o); }
  double s = 0; for (auto& g : gs) s += which == 3 ? ora::ndcg(sorted(g.first), g.second, o.collapse) : ora::ap(sorted(g.first), g.second, o); return gs.empty() ? 0 : s / gs.size();
}
// All statistics that some resample has.
static void reachable(const Case& c, const Opts& o, std::set<double> out[4]) {
  typedef std::pair<std::vector<Ranked>, long> G; std::vector<G> one;
  for (size_t g = 0; g < c.groups.size(); ++g) { size_t n = c.groups[g].m.size(); std::vector<int> idx(n, 0); for (;;) { G x; x.second = 0; for (int i : idx) { int k = c.groups[g].m[i]; if (k == 2) x.second++; else x.first.push_back(Ranked{k == 0, c.score[g][i]}); } one.push_back(x); size_t p = 0; while (p < n && ++idx[p] == (int)n) idx[p++] = 0; if (p == n) break; } }
  size_t n = c.groups.size(); std::vector<size_t> idx(n, 0); for (;;) { std::vector<G> s; for (size_t i : idx) s.push_back(one[i]); for (int w = 0; w < 4; ++w) out[w].insert(statistic(w, s, o)); size_t p = 0; while (p < n && ++idx[p] == one.size()) idx[p++] = 0; if (p == n) break; }
}
static std::vector<Group> shape(mc::Ctx& ctx) {
  static const std::vector<std::vector<int>> S = {{1}, {2}, {1, 1}, {2, 1}, {1, 2}, {2, 2}, {3}, {1, 1, 1}}; const auto& s = S[ctx.choose((int)S.size())]; std::vector<Group> g; for (int n : s) { Group x; for (int i = 0; i < n; ++i) x.m.push_back(ctx.choose(3)); g.push_back(x); } return g;
}
static Opts pick_opts(mc::Ctx& ctx) { Opts o; o.collapse = !ctx.flip(); o.interp = !ctx.flip(); o.trap = !ctx.flip(); o.sort = ora::DESC; return o; }
static bool near(double a, double b) { return fabs(a - b) < 6e-6; }
static bool among(double x, const std::set<double>& s) { auto it = s.lower_bound(x - 6e-6); return it != s.end() && *it < x + 6e-6; }
static Printed go(mc::Ctx& ctx, Args a, std::string* out = nullptr) { a.push_back(e2e::f_ref.path); a.push_back(e2e::f_hyp.path); Result r = e2e::run(a); ctx.compared(); CHECK(r.status == 0, "status %d with %s: %s", r.status, e2e::join(a).c_str(), r.err.c_str()); Printed p = e2e::parse(r.out); CHECK(p.ok, "%s", p.why.c_str()); if (out) *out = r.out; ctx.say("%s\n%s", e2e::join(a).c_str(), r.out.c_str()); return p; }
static std::string show(const Case& c) { std::string s; for (auto& g : c.groups) { s += "("; for (int k : g.m) s += k == 0 ? "hit " : k == 1 ? "fp " : "miss "; s += ")"; } return s; }

MC_FAMILY(C23_tool_bounds, "8 shapes of up to 3 groups (at most 4 matches), every content (hit, false positive, miss), all collapse, interpolation, trapezoid settings: with alpha 0 and 3000 replicates the interval is exactly that of the smallest and the greatest statistic of any resample") {
  Case c = make(shape(ctx)); if (!ctx.mine()) return; Opts o = pick_opts(ctx); files(c); std::set<double> S[4]; reachable(c, o, S); Args a = e2e::opt_args(o); for (auto k : kCi) { a.push_back(k); a.push_back("true"); } a.insert(a.end(), {"--bootstrap_alpha", "0", "--bootstrap_samples", "3000"}); ctx.state(mc::hash_str(show(c), o.collapse + 2 * o.interp + 4 * o.trap)); ctx.say("%s", show(c).c_str());
  Printed p = go(ctx, a); for (int k = 0; k < 4; ++k) { CHECK(p.ci[k], "%s has no interval", e2e::kNames[k]); double lo = 2 * p.v[k] - *S[k].rbegin(), hi = 2 * p.v[k] - *S[k].begin(); ctx.outcome(mc::hash_str(std::to_string(lo) + " " + std::to_string(hi))); CHECK(near(p.lo[k], lo) && near(p.hi[k], hi), "%s = %g has the interval [%g, %g], must be [%g, %g] (%s, %s)", e2e::kNames[k], p.v[k], p.lo[k], p.hi[k], lo, hi, show(c).c_str(), e2e::opts_str(o).c_str()); }
}
MC_FAMILY(C23_tool_alpha, "the same shapes and contents, 12 values of alpha, 6 numbers of replicates, 3 seeds: the bounds belong to possible resamples, lower not above upper, nested in alpha, the point itself without replicates; one replicate gives a point") {
  Case c = make(shape(ctx)); if (!ctx.mine()) return; static const char* const A[12] = {"0", "0.01", "0.05", "0.1", "0.25", "0.3", "0.5", "0.6", "0.75", "0.9", "0.99", "1"}; static const char* const R[6] = {"0", "1", "2", "3", "20", "101"}; static const char* const SD[3] = {"", "1", "18446744073709551615"}; int r = ctx.choose(6), sd = ctx.choose(3); Opts o{true, true, true, ora::DESC}; if (r % 2) o = Opts{false, false, false, ora::DESC}; files(c); std::set<double> S[4]; reachable(c, o, S); ctx.state(mc::hash_str(show(c), r * 3 + sd)); Printed last; bool first = true; ctx.say("%s", show(c).c_str());
  for (auto al : A) { Args a = e2e::opt_args(o); for (auto k : kCi) { a.push_back(k); a.push_back("true"); } a.insert(a.end(), {"--bootstrap_alpha", al, "--bootstrap_samples", R[r]}); if (*SD[sd]) { a.push_back("--bootstrap_seed"); a.push_back(SD[sd]); } Printed p = go(ctx, a);
    for (int k = 0; k < 4; ++k) { CHECK(p.ci[k] && p.lo[k] <= p.hi[k] + 1e-12, "%s has the interval [%g, %g]", e2e::kNames[k], p.lo[k], p.hi[k]); if (r == 0) { CHECK(p.lo[k] == p.v[k] && p.hi[k] == p.v[k], "%s = %g without replicates has the interval [%g, %g]", e2e::kNames[k], p.v[k], p.lo[k], p.hi[k]); continue; } if (r == 1) CHECK(p.lo[k] == p.hi[k], "one replicate gives the interval [%g, %g]", p.lo[k], p.hi[k]);
      CHECK(among(2 * p.v[k] - p.lo[k], S[k]) && among(2 * p.v[k] - p.hi[k], S[k]), "%s = %g: no resample gives the bounds [%g, %g] (%s)", e2e::kNames[k], p.v[k], p.lo[k], p.hi[k], show(c).c_str()); if (!first) CHECK(p.lo[k] >= last.lo[k] - 1e-9 && p.hi[k] <= last.hi[k] + 1e-9, "alpha %s widens the interval of %s: [%g, %g], was [%g, %g]", al, e2e::kNames[k], p.lo[k], p.hi[k], last.lo[k], last.hi[k]); }
    last = p; first = false; }
}
MC_FAMILY(C23_tool_same, "the same shapes and contents: the same command twice, as another process, and with the intervals asked for one by one gives the same intervals, for 4 seeds") {
  Case c = make(shape(ctx)); if (!ctx.mine()) return; int sd = ctx.choose(4); files(c); static const char* const SD[4] = {"0", "1", "74565", "18446744073709551615"}; Args base = {"--bootstrap_samples", "25", "--bootstrap_alpha", "0.2", "--bootstrap_seed", SD[sd]}, a = base; for (auto k : kCi) a.push_back(k); ctx.state(mc::hash_str(show(c), sd)); a.push_back("true"); std::string o1, o2; Printed p = go(ctx, a, &o1); go(ctx, a, &o2); CHECK(o1 == o2, "the same command prints\n%sand then\n%s", o1.c_str(), o2.c_str());
  { Args f = a; f.push_back(e2e::f_ref.path); f.push_back(e2e::f_hyp.path); if (sd == 2) { Result r = e2e::run_fork(f); CHECK(r.status == 0 && r.out == o1, "the same command prints in another process\n%sand not\n%s", r.out.c_str(), o1.c_str()); } }
  for (int k = 0; k < 4; ++k) { Args b = base; b.push_back(kCi[k]); b.push_back("true"); Printed q = go(ctx, b); CHECK(q.ci[k] && q.lo[k] == p.lo[k] && q.hi[k] == p.hi[k], "%s asked for alone has the interval [%g, %g], with the others [%g, %g]", e2e::kNames[k], q.lo[k], q.hi[k], p.lo[k], p.hi[k]); }
}
// Query groups are the groups that are drawn.
MC_FAMILY(C23_tool_groups, "4 queries of one match each, every content, put into groups in 3 ways and selected in 2: with alpha 0 and 3000 replicates the interval is that of the extreme resamples of these groups") {
  static MemFile fg; int how = ctx.choose(5); std::vector<Group> q; for (int i = 0; i < 4; ++i) q.push_back(Group{{ctx.choose(3)}}); if (!ctx.mine()) return; Case c = make(q); files(c); static const char* const T[5] = {"A q0 q1\nB q2 q3\n", "A q0 q2\nB q1 q3\n", "A q0 q1 q2\n", "q0\nq2\n", "q3\nq1\n"}; static const std::vector<std::vector<int>> W[5] = {{{0, 1}, {2, 3}}, {{0, 2}, {1, 3}}, {{0, 1, 2}}, {{0}, {2}}, {{1}, {3}}}; fg.set(T[how]);
  Case e = c; e.groups.clear(); e.score.clear(); for (auto& w : W[how]) { Group g; std::vector<float> s; for (int i : w) { g.m.push_back(c.groups[i].m[0]); s.push_back(c.score[i][0]); } e.groups.push_back(g); e.score.push_back(s); } Opts o{true, true, true, ora::DESC}; std::set<double> S[4]; reachable(e, o, S); Args a = {how < 3 ? "--query_groups" : "--query_set", fg.path, "--bootstrap_alpha", "0", "--bootstrap_samples", "3000"}; for (auto k : kCi) { a.push_back(k); a.push_back("true"); } ctx.state(mc::hash_str(show(c), how)); ctx.say("%s%s", T[how], show(c).c_str());
  Printed p = go(ctx, a); for (int k = 0; k < 4; ++k) { double lo = 2 * p.v[k] - *S[k].rbegin(), hi = 2 * p.v[k] - *S[k].begin(); CHECK(near(p.lo[k], lo) && near(p.hi[k], hi), "%s = %g has the interval [%g, %g], must be [%g, %g]", e2e::kNames[k], p.v[k], p.lo[k], p.hi[k], lo, hi); }
}

// ---- C24 ----------------------------------------------------------------------
static MemFile f_dump, f_gc, f_mc, f_grp;
struct Run { Printed p; std::string d, g, m; };
static Run full(mc::Ctx& ctx, Args a) { f_dump.set(""); f_gc.set(""); f_mc.set(""); a.insert(a.begin(), {"--dump_matches", f_dump.path, "--output_grp", f_gc.path, "--output_mrp", f_mc.path, "--rp_curve_samples", "7"}); Run r; r.p = go(ctx, a); r.d = f_dump.get(); r.g = f_gc.get(); r.m = f_mc.get(); return r; }
// The value of the matches sorted again by decreasing score (in any order of equal ones): the known finding.
static bool resorted_value(const ora::Problem& p, const Opts& o, int which, double v) {
  ora::Grouped G; ora::evaluate(p, o, &G); typedef std::pair<std::vector<Ranked>, long long> L; std::vector<std::vector<Ranked>> lists; std::vector<long long> miss; if (which == 0 || which == 2) { lists.push_back(G.all); miss.push_back(G.missed); } else for (auto& g : G.g) { lists.push_back(g.second.first); miss.push_back(g.second.second); }
  // all orders of the ties, list by list
  std::vector<std::set<double>> val; for (size_t i = 0; i < lists.size(); ++i) { auto l = lists[i]; std::stable_sort(l.begin(), l.end(), [](const Ranked& a, const Ranked& b) { return a.s > b.s; }); std::set<double> s;
    std::function<void(size_t)> orders = [&](size_t b) { if (b == l.size() || o.collapse) { s.insert(which & 2 ? ora::ndcg(l, miss[i], o.collapse) : ora::ap(l, miss[i], o)); return; } size_t e = b; while (e < l.size() && l[e].s == l[b].s) ++e; auto by = [](const Ranked& x, const Ranked& y) { return x.hit < y.hit; }; std::sort(l.begin() + b, l.begin() + e, by); do orders(e); while (std::next_permutation(l.begin() + b, l.begin() + e, by)); };
    orders(0); val.push_back(s); }
  std::set<double> sum = {0}; for (auto& s : val) { std::set<double> n; for (double a : sum) for (double b : s) n.insert(a + b); sum.swap(n); } for (double x : sum) if (ora::close(v, lists.empty() || !(which & 1) ? x : x / lists.size())) return true; return lists.empty() && ora::close(v, 0);
}
static void compare(mc::Ctx& ctx, const ora::Problem& p, const Opts& o, int mask, const Args& boot, const Args& extra) {
  Args a = e2e::opt_args(o); a.insert(a.end(), extra.begin(), extra.end()); e2e::f_ref.set(e2e::refs_text(p.refs)); e2e::f_hyp.set(e2e::hyps_text(p.hyps)); if (ctx.describing()) ctx.say("--- references\n%s--- hypotheses\n%s", e2e::refs_text(p.refs).c_str(), e2e::hyps_text(p.hyps).c_str());
  Run plain = full(ctx, a); for (int k = 0; k < 4; ++k) if (mask >> k & 1) { a.push_back(kCi[k]); a.push_back("true"); } a.insert(a.end(), boot.begin(), boot.end()); Run r = full(ctx, a); ctx.state(mc::mix(e2e::problem_hash(p, o), mc::hash_str(e2e::join(boot) + (p.groups ? "g" : ""), mask)));
  bool ties = false; for (size_t i = 0; i < p.hyps.size(); ++i) for (size_t j = 0; j < i; ++j) ties |= p.hyps[i].s == p.hyps[j].s; const bool open = o.sort != ora::DESC || (!o.collapse && ties);
  for (int k = 0; k < 4; ++k) { CHECK(!plain.p.ci[k], "%s has an interval without asking", e2e::kNames[k]); CHECK(r.p.ci[k] == ((mask >> k & 1) != 0), "%s %s an interval, asked for: %d", e2e::kNames[k], r.p.ci[k] ? "has" : "does not have", mask >> k & 1); if (ora::close(plain.p.v[k], r.p.v[k])) continue;
    std::string msg = std::string(e2e::kNames[k]) + " = " + std::to_string(plain.p.v[k]) + " becomes " + std::to_string(r.p.v[k]) + " with " + e2e::join(a); CHECK(mask >> k & 1 && open && resorted_value(p, o, k, r.p.v[k]), "%s", msg.c_str()); ctx.known_or_fail(o.sort != ora::DESC ? "ci-sorts-again" : "ci-ties-sorted-again", msg); }
  CHECK(plain.d == r.d, "the dump changes with %s:\n%s---\n%s", e2e::join(a).c_str(), plain.d.c_str(), r.d.c_str()); CHECK(plain.g == r.g && plain.m == r.m, "the curves change with %s", e2e::join(a).c_str());
}
// Every list of up to n hypotheses and misses over two queries.
static ora::Problem lists(mc::Ctx& ctx, int n, bool ties, bool* mine) {
  ora::Problem p; p.acc = e2e::accept(); int len = ctx.choose(n + 1); *mine = true; static const char* const S[] = {"0.75", "0.5", "0.25"}; static const char* const Q[2] = {"a", "b"};
  for (int i = 0; i < len; ++i) { int k = ctx.choose(3), q = ctx.choose(2); Obj o = spot(Q[q], 10 + i); if (k != 1) p.refs.push_back(o); if (k != 2) { std::string s = ties ? S[ctx.choose(2)] : std::to_string(9 - (i * 5) % 7) + ".5"; p.hyps.push_back(e2e::hyp(o, s)); } if (i == 1 && !ctx.mine()) { *mine = false; return p; } } if (len < 2 && !ctx.mine()) *mine = false;
  return p;
}
MC_FAMILY(C24_lists, "every list of up to 4 hits, false positives and misses over 2 queries, distinct scores x collapse x sort: all intervals asked for") { bool m; ora::Problem p = lists(ctx, ctx.bound(4, 5), false, &m); if (!m) return; Opts o{!ctx.flip(), true, true, (ora::Sort)ctx.choose(3)}; compare(ctx, p, o, 15, {"--bootstrap_samples", "3"}, {}); }
MC_FAMILY(C24_ties, "every list of up to 3 (thorough: 4) hits, false positives and misses over 2 queries, 2 scores x all 24 settings: all intervals asked for") { bool m; ora::Problem p = lists(ctx, ctx.bound(3, 4), true, &m); if (!m) return; Opts o = pick_opts(ctx); o.sort = (ora::Sort)ctx.choose(3); compare(ctx, p, o, 15, {"--bootstrap_samples", "2"}, {}); }
MC_FAMILY(C24_subsets, "every list of up to 2 (thorough: 3) entries x all 16 subsets of the intervals x 4 numbers of replicates x 3 alphas x 2 seeds") {
  bool m; ora::Problem p = lists(ctx, ctx.bound(2, 3), false, &m); if (!m) return; int mask = ctx.choose(16); static const char* const R[4] = {"0", "1", "4", "30"}; static const char* const A[3] = {"0", "0.05", "1"}; static const char* const SD[2] = {"74565", "7"}; std::string r = R[ctx.choose(4)], a = A[ctx.choose(3)], s = SD[ctx.choose(2)]; compare(ctx, p, Opts{true, true, true, ora::DESC}, mask, {"--bootstrap_samples", r, "--bootstrap_alpha", a, "--bootstrap_seed", s}, {});
}
MC_FAMILY(C24_groups, "every list of up to 3 entries x 16 subsets of the intervals x query set or groups (4 files)") {
  bool m; ora::Problem p = lists(ctx, ctx.bound(3, 4), false, &m); if (!m) return; int mask = 1 + ctx.choose(15), f = ctx.choose(4); static const char* const T[4] = {"a\n", "b\nzz\n", "G a b\n", "G a\nH b\nK c\n"}; f_grp.set(T[f]); std::map<std::string, std::string> g; if (f == 0) g["a"] = "a"; if (f == 1) { g["b"] = "b"; g["zz"] = "zz"; } if (f == 2) { g["a"] = g["b"] = "G"; } if (f == 3) { g["a"] = "G"; g["b"] = "H"; g["c"] = "K"; } p.groups = &g; compare(ctx, p, Opts{true, !(f & 1), true, ora::DESC}, mask, {"--bootstrap_samples", "3"}, {f < 2 ? "--query_set" : "--query_groups", f_grp.path}); p.groups = nullptr;
}
MC_FAMILY(C24_big, "24 generated problems of 10 to 150 hypotheses over 7 queries x all 24 settings") {
  int k = ctx.choose(24); Opts o = pick_opts(ctx); o.sort = (ora::Sort)ctx.choose(3); if (!ctx.mine()) return; ora::Problem p; p.acc = e2e::accept(); int n = 10 + k * 6; bool ties = (k & 1) && o.collapse; for (int i = 0; i < n; ++i) { int c = (i * 31 + k * 17) % 11; Obj x = spot("q" + std::to_string((i * 5 + k) % 7), i); if (c < 7) p.refs.push_back(x); if (c > 2) p.hyps.push_back(e2e::hyp(x, std::to_string(((i * 7919 + k * 104729) % (ties ? 13 : 1009)) - 5) + ".25")); } compare(ctx, p, o, 15, {"--bootstrap_samples", "2"}, {});
}

MC_FAMILY(C24_huge, "2000 to 20011 (thorough: 70001) hypotheses over 1 to n queries, distinct scores, x 3 subsets of the intervals, 2 replicates") {
  static const int ns[] = {2000, 4097, 9999, 20011, 32769, 65537, 70001}; int n = ns[ctx.choose(ctx.bound(4, 7))], nq = ctx.choose(3), m = ctx.choose(3); if (!ctx.mine()) return; static const int Q[3] = {1, 3, 500}, K[3] = {15, 5, 10}; ora::Problem p; p.acc = e2e::accept();
  for (int i = 0; i < n; ++i) { Obj x = spot("q" + std::to_string(i % Q[nq]), i % 50); x.d = "d" + std::to_string(i / 50) + "." + std::to_string(i % 50); if (i % 3) p.refs.push_back(x); if (i % 7) p.hyps.push_back(e2e::hyp(x, std::to_string((i * 7919LL + 3) % n))); } compare(ctx, p, Opts{nq != 1, true, m != 1, ora::DESC}, K[m], {"--bootstrap_samples", "2"}, {});
}
