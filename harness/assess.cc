// C10..C14, C28: precision, recall, AP, NDCG, collapsing, grouping, through the
// functions of core/Assessment.h and core/Statistic.h.
#include "mc.h"

#include <cmath>
#include <deque>
#include <string>
#include <tuple>

#include "core/Assessment.h"
#include "core/Event.h"
#include "core/Match.h"
#include "core/MatchErrorCounts.h"
#include "core/ScoredEvent.h"
#include "core/Statistic.h"

using namespace kws::core;

typedef Event<std::string, int> Ref;
typedef ScoredEvent<Ref> Hyp;
typedef Match<Ref, Hyp> M;

// ---- reference model ------------------------------------------------------
struct Err { double fp, fn; long nh, nr; };
struct Cv { std::vector<double> p, r; };
static long refs_of(const std::vector<Err>& v) { long t = 0; for (auto& e : v) t += e.nr; return t; }
static Cv model_curve(const std::vector<Err>& v, bool interp) {
  Cv c; double fp = 0, fn = 0; long nh = 0, nr = 0; const long tr = refs_of(v);
  for (auto& e : v) {
    fp += e.fp; fn += e.fn; nh += e.nh; nr += e.nr;
    c.p.push_back(nh ? 1 - fp / nh : 1); c.r.push_back(tr ? (nr - fn) / tr : 1);
  }
  if (interp) for (size_t i = c.p.size(); i-- > 1;) c.p[i - 1] = std::max(c.p[i - 1], c.p[i]);
  return c;
}
static double model_ap(const Cv& c, bool trap) {
  double s = 0;
  for (size_t i = 0; i < c.p.size(); ++i)
    s += (c.r[i] - (i ? c.r[i - 1] : 0)) * (trap && i ? (c.p[i] + c.p[i - 1]) / 2 : c.p[i]);
  return s;
}
static double model_ndcg(const std::vector<Err>& v) {
  const long tr = refs_of(v); if (!tr) return 0;
  double dcg = 0, z = 0; long k = 0;
  for (auto& e : v) for (long i = 0; i < e.nh; ++i) { ++k; dcg += (std::exp2(1 - e.fp / e.nh) - 1) / std::log2(k + 1.0); }
  for (long i = 1; i <= tr; ++i) z += 1 / std::log2(i + 1.0);
  return dcg / z;
}
static bool eq(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
static bool eqv(const std::vector<double>& a, const std::vector<double>& b, double tol = 1e-9) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!eq(a[i], b[i], tol)) return false;
  return true;
}
static std::string vs(const std::vector<double>& v) { std::string s; char b[32]; for (double x : v) { snprintf(b, sizeof b, "%.9g ", x); s += b; if (s.size() > 400) { s += "..."; break; } } return "{" + s + "}"; }
static std::string es(const std::vector<Err>& v) { std::string s; char b[64]; for (auto& e : v) { snprintf(b, sizeof b, "(fp=%g fn=%g nh=%ld nr=%ld) ", e.fp, e.fn, e.nh, e.nr); s += b; if (s.size() > 2000) { s += "..."; break; } } return s; }

// ---- alphabets ------------------------------------------------------------
struct EL { float fp, fn; long nh, nr; };          // what NH and NR must be
static const std::vector<EL>& letters() {          // plain errors: hit, false positive, miss, complete error, fractional
  static const std::vector<EL> v = {{0, 0, 1, 1}, {1, 0, 1, 0}, {0, 1, 0, 1}, {1, 1, 1, 1}, {0.5f, 0.25f, 1, 1}, {0, 0.5f, 1, 1}, {0.75f, 0, 1, 1}, {0.25f, 1, 1, 1}, {0, 0.75f, 1, 1}, {0.25f, 0.75f, 1, 1}};
  return v;
}
static const std::vector<EL>& counts() {           // pooled errors
  static const std::vector<EL> v = {{0, 0, 1, 1}, {1, 0, 1, 0}, {0, 2, 0, 2}, {1, 0, 2, 1}, {2, 1, 3, 2}, {3, 0, 3, 0}, {0, 0, 2, 2}, {0.5f, 0.25f, 2, 2}, {0, 0, 0, 0}};
  return v;
}
template <class ME> static ME make(const EL& e);
template <> MatchError make<MatchError>(const EL& e) { return MatchError(e.fp, e.fn); }
template <> MatchErrorCounts make<MatchErrorCounts>(const EL& e) { return MatchErrorCounts(e.fp, e.fn, e.nh, e.nr); }
// Chooses a sequence of at most n letters.
template <class ME> static void sequence(mc::Ctx& ctx, const std::vector<EL>& al, int n, std::vector<ME>* v, std::vector<Err>* m, bool* mine, int k = -1) {
  if (k < 0) k = (int)al.size();
  uint64_t h = 1; *mine = true; bool called = false;
  for (int i = 0; i < n; ++i) {
    if (i == 2) { called = true; if (!ctx.mine()) { *mine = false; return; } }
    int c = ctx.choose(k + 1); if (c == k) break;
    const EL& e = al[c]; v->push_back(make<ME>(e)); m->push_back(Err{e.fp, e.fn, e.nh, e.nr}); h = mc::mix(h, c);
  }
  if (!called && !ctx.mine()) { *mine = false; return; }
  ctx.state(h);
  ctx.say("errors: %s", es(*m).c_str());
}
// Long lists by pattern.
static int long_size(mc::Ctx& ctx) {
  static const std::vector<int> q = {7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 257, 500, 1000, 1023, 1025, 2049};
  return q[ctx.choose((int)q.size())];
}
template <class ME> static void pattern(mc::Ctx& ctx, const std::vector<EL>& al, std::vector<ME>* v, std::vector<Err>* m) {
  int n = long_size(ctx), p = ctx.choose(8);
  for (int i = 0; i < n; ++i) {
    size_t c = p == 0 ? 0 : p == 1 ? 1 : p == 2 ? 2 : p == 3 ? i % 2 : p == 4 ? (i * 7 + i / 3) % 3 : p == 5 ? (size_t)i % al.size() : p == 6 ? (i < n / 2 ? 1 : 0) : ((i * i + 3) % 11) % al.size();
    const EL& e = al[c]; v->push_back(make<ME>(e)); m->push_back(Err{e.fp, e.fn, e.nh, e.nr});
  }
  ctx.state(n * 100 + p); ctx.say("n=%d pattern=%d errors: %s", n, p, es(*m).c_str());
}
// Runs: what happens in a long stretch and changes later.
template <class F> static void runs(mc::Ctx& ctx, F f) {
  static const int L[] = {1, 7, 40, 150, 1100}; std::vector<MatchError> v; std::vector<Err> m; int n = 1 + ctx.choose(4), at = 0; uint64_t h = n; std::string d;
  for (int k = 0; k < n; ++k) { int c = ctx.choose(4), l = L[ctx.choose(n == 4 ? ctx.bound(3, 4) : 5)]; if (k == 0 && !ctx.mine()) return; h = mc::mix(h, c * 5000 + l); d += " " + std::to_string(l) + "x" + "hfma"[c]; for (int i = 0; i < l; ++i, ++at) { const EL& e = letters()[c < 3 ? c : i % 2]; v.push_back(make<MatchError>(e)); m.push_back(Err{e.fp, e.fn, e.nh, e.nr}); } }
  ctx.state(h); ctx.say("runs:%s", d.c_str()); f(v, m);
}

// ---- C10 ------------------------------------------------------------------
template <class Real> static std::vector<double> dbl(const std::vector<Real>& v) { return std::vector<double>(v.begin(), v.end()); }
template <class Real, class ME> static void pr_check(mc::Ctx& ctx, const std::vector<ME>& v, const std::vector<Err>& m, double tol, bool monotone) {
  for (int ip = 0; ip < 2; ++ip) {
    std::vector<Real> p(3, 9), r(1, 9);          // the results of an earlier call
    ComputePrecisionAndRecall(v, ip == 1, &p, &r);
    Cv c = model_curve(m, ip == 1); ctx.compared();
    CHECK(p.size() == m.size() && r.size() == m.size(), "%zu precisions and %zu recalls for %zu errors", p.size(), r.size(), m.size());
    CHECK(eqv(dbl(p), c.p, tol), "precision%s is %s, must be %s", ip ? " (interpolated)" : "", vs(dbl(p)).c_str(), vs(c.p).c_str());
    CHECK(eqv(dbl(r), c.r, tol), "recall%s is %s, must be %s", ip ? " (interpolated precision)" : "", vs(dbl(r)).c_str(), vs(c.r).c_str());
    if (monotone) for (size_t i = 1; i < r.size(); ++i) CHECK(r[i] >= r[i - 1], "recall decreases at rank %zu: %s", i, vs(dbl(r)).c_str());
    if (!p.empty()) ctx.outcome(mc::mix((uint64_t)llround(p.back() * 1e6), (uint64_t)llround(r.back() * 1e6)));
  }
}
static bool simple_kinds(const std::vector<Err>& m) { for (auto& e : m) if (!((e.fp == 0 && e.fn == 0 && e.nh == 1) || (e.fp == 1 && e.fn == 0 && e.nh == 1 && e.nr == 0) || (e.fp == 0 && e.fn == 1 && e.nh == 0))) return false; return true; }

MC_FAMILY(C10_errors, "every sequence of <=6 (thorough 7) match errors over 10 kinds, plain and interpolated, double and float") {
  std::vector<MatchError> v; std::vector<Err> m; bool mine; sequence(ctx, letters(), ctx.bound(6, 7), &v, &m, &mine); if (!mine) return;
  pr_check<double>(ctx, v, m, 1e-9, simple_kinds(m)); EXOTIC(pr_check<float>(ctx, v, m, 2e-6, simple_kinds(m));)
}
MC_FAMILY(C10_counts, "every sequence of <=6 (thorough 7) pooled errors over 9 kinds") {
  std::vector<MatchErrorCounts> v; std::vector<Err> m; bool mine; sequence(ctx, counts(), ctx.bound(6, 7), &v, &m, &mine); if (!mine) return;
  pr_check<double>(ctx, v, m, 1e-9, false); EXOTIC(pr_check<float>(ctx, v, m, 2e-6, false);)
}
MC_FAMILY(C10_long, "lists of up to 2049 errors, 8 patterns, plain and pooled") {
  bool pooled = ctx.flip(); if (!ctx.mine()) return;
  if (pooled) { std::vector<MatchErrorCounts> v; std::vector<Err> m; pattern(ctx, counts(), &v, &m); pr_check<double>(ctx, v, m, 1e-9, false); }
  else { std::vector<MatchError> v; std::vector<Err> m; pattern(ctx, letters(), &v, &m); pr_check<double>(ctx, v, m, 1e-9, simple_kinds(m)); }
}
MC_FAMILY(C10_kinds, "every pair of errors with 11 x 11 rates each, next to 0, to 1 and to the halves: counted hypotheses and references, and the curve") {
  static const float g[] = {0, 1e-7f, 0.1f, 0.25f, std::nextafterf(0.5f, 0), 0.5f, std::nextafterf(0.5f, 1), 0.75f, 0.9f, std::nextafterf(1, 0), 1};
  std::vector<MatchError> v; std::vector<Err> m; uint64_t h = 3;
  for (int i = 0; i < 2; ++i) {
    int a = ctx.choose(11), b = ctx.choose(11); if (i == 0 && !ctx.mine()) return; h = mc::mix(h, a * 11 + b);
    if (i == 1 && a == 0 && b == 10 && m[0].fp == 0 && m[0].fn == 1) return;
    float fp = g[a], fn = g[b]; long nh = fp == 0 && fn == 1 ? 0 : 1, nr = fp == 1 && fn == 0 ? 0 : 1;
    v.push_back(MatchError(fp, fn)); m.push_back(Err{fp, fn, nh, nr});
    CHECK((long)v[i].NH() == nh && (long)v[i].NR() == nr, "NH=%zu NR=%zu for fp=%.9g fn=%.9g", v[i].NH(), v[i].NR(), fp, fn);
    MatchErrorCounts c(v[i]); CHECK((long)c.NH() == nh && (long)c.NR() == nr && c.FP() == fp && c.FN() == fn, "pooled: NH=%zu NR=%zu for fp=%.9g fn=%.9g", c.NH(), c.NR(), fp, fn);
  }
  ctx.state(h); ctx.say("errors: %s", es(m).c_str());
  pr_check<double>(ctx, v, m, 1e-6, false);
}
MC_FAMILY(C10_runs, "up to 4 runs of 1 to 1100 hits, false positives, misses or alternations: the curve at every rank") {
  runs(ctx, [&](const std::vector<MatchError>& v, const std::vector<Err>& m) { pr_check<double>(ctx, v, m, 1e-9, true); });
}
// Pools of many errors, as ties of many matches give them.
static bool pools(mc::Ctx& ctx, int n, std::vector<MatchErrorCounts>* v, std::vector<Err>* m, const std::vector<int>& z) {
  int k = (int)z.size(); uint64_t h = 13;
  for (int i = 0; i < n; ++i) {
    int a = ctx.choose(k), b = ctx.choose(k), c = ctx.choose(k); if (i == 0 && !ctx.mine()) return false; if (!a && !b && !c) break;          // a pool has something in it
    EL e{(float)z[b], (float)z[c], z[a] + z[b], z[a] + z[c]}; v->push_back(make<MatchErrorCounts>(e)); m->push_back(Err{e.fp, e.fn, e.nh, e.nr}); h = mc::mix(h, (a * k + b) * k + c);
  }
  ctx.state(h); ctx.say("errors: %s", es(*m).c_str()); return true;
}
static const std::vector<int> kFew = {0, 1, 2, 9}, kMany = {0, 1, 2, 3, 7, 8, 9, 16, 20, 100, 1000, 70000};
MC_FAMILY(C10_pools, "every sequence of <=3 pools with 4 x 4 x 4 numbers of hits, false positives and misses") {
  std::vector<MatchErrorCounts> v; std::vector<Err> m; if (!pools(ctx, 3, &v, &m, kFew)) return; pr_check<double>(ctx, v, m, 1e-9, true);
}
MC_FAMILY(C10_pools2, "every pair of pools with 12 x 12 x 12 numbers, up to 70000, of hits, false positives and misses") {
  std::vector<MatchErrorCounts> v; std::vector<Err> m; if (!pools(ctx, 2, &v, &m, kMany)) return; pr_check<double>(ctx, v, m, 1e-9, true);
}
MC_FAMILY(C10_huge, "lists with up to 200000 hits, false positives and misses, to the last rank") {
  static const int ns[] = {20000, 65537, 200000}; int n = ns[ctx.choose(3)], p = ctx.choose(3); if (!ctx.mine()) return;
  std::vector<MatchError> v; std::vector<Err> m;
  for (int i = 0; i < n; ++i) { const EL& e = letters()[p == 0 ? i % 2 : p == 1 ? (i * 7 + i / 5) % 3 : i < n / 2 ? 1 : 0]; v.push_back(make<MatchError>(e)); m.push_back(Err{e.fp, e.fn, e.nh, e.nr}); }
  for (int ip = 0; ip < 2; ++ip) { ctx.state((n + p) * 2 + ip); std::vector<double> pr, rc; ComputePrecisionAndRecall(v, ip == 1, &pr, &rc); Cv c = model_curve(m, ip == 1); ctx.compared();
  CHECK(eqv(pr, c.p), "precisions differ in a list of %d errors", n); CHECK(eqv(rc, c.r), "recalls differ in a list of %d errors", n); }
}

// ---- matches --------------------------------------------------------------
struct ML { int kind; float s; std::string q, rq; int id; };     // kind: 0 hit, 1 false positive, 2 miss, 3 fractional hit
static M match_of(const ML& l) {
  Ref r(l.rq, l.id);
  if (l.kind == 2) return M::MakeFalseNegative(r);
  Hyp h(l.q, l.id, l.s);
  if (l.kind == 1) return M::MakeFalsePositive(h);
  return l.kind == 0 ? M(r, h, MatchError(0, 0)) : M(r, h, MatchError(0.5f, 0.25f));
}
static Err err_of(int kind) { static const Err e[4] = {{0, 0, 1, 1}, {1, 0, 1, 0}, {0, 1, 0, 1}, {0.5, 0.25, 1, 1}}; return e[kind]; }
static std::vector<M> matches_of(const std::vector<ML>& v) { std::vector<M> m; for (auto& l : v) m.push_back(match_of(l)); return m; }
static std::string ms(const std::vector<ML>& v) { std::string s; char b[96]; for (auto& l : v) { snprintf(b, sizeof b, "%s[%s#%d]@%g ", l.kind == 0 ? "hit" : l.kind == 1 ? "fp" : l.kind == 2 ? "miss" : "half", (l.kind == 1 ? l.q : l.rq).c_str(), l.id, l.kind == 2 ? -INFINITY : l.s); s += b; if (s.size() > 3000) break; } return s; }
// Collapsed (or not) errors of the model.
static std::vector<Err> model_errors(const std::vector<ML>& v, bool collapse) {
  std::vector<Err> out;
  for (size_t i = 0; i < v.size(); ++i) {
    Err e = err_of(v[i].kind);
    bool same = collapse && i > 0 && (v[i].kind == 2) == (v[i - 1].kind == 2) && (v[i].kind == 2 || v[i].s == v[i - 1].s);
    if (same) { out.back().fp += e.fp; out.back().fn += e.fn; out.back().nh += e.nh; out.back().nr += e.nr; } else out.push_back(e);
  }
  return out;
}
// A list of matches: hits, false positives and fractional hits at up to `ns` scores in any order, misses anywhere.
static bool match_list(mc::Ctx& ctx, int n, int ns, std::vector<ML>* v, bool ordered, int nk = 3) {
  static const float sc[5] = {1.0f, 0.5f, 0.0f, -0.0f, -2.0f};
  int lo = 0; uint64_t h = 7; bool called = false;
  for (int i = 0; i < n; ++i) {
    if (i == 2) { called = true; if (!ctx.mine()) return false; }
    int c = ctx.choose(nk * ns + 2); if (c == nk * ns + 1) break;
    ML l{2, 0, "q", "q", i};
    if (c < nk * ns) { static const int kinds[3] = {0, 1, 3}; l.kind = kinds[c / ns]; int s = c % ns; if (ordered) { s = std::max(s, lo); lo = s; } l.s = sc[s]; }
    v->push_back(l); h = mc::mix(h, c);
  }
  if (!called && !ctx.mine()) return false;
  ctx.state(h); ctx.say("matches: %s", ms(*v).c_str());
  return true;
}
static const std::vector<M>& cst(const std::vector<M>& v) { return v; }

MC_FAMILY(C10_matches, "every list of <=5 (thorough 6) matches (hit, false positive, half hit at 4 scores, miss) x collapse x interpolation") {
  std::vector<ML> v; if (!match_list(ctx, ctx.bound(5, 6), 4, &v, false)) return;
  std::vector<M> m = matches_of(v);
  for (int c = 0; c < 2; ++c) for (int ip = 0; ip < 2; ++ip) {
    std::vector<double> p(2, 5), r(2, 5); ComputePrecisionAndRecall(cst(m), c == 1, ip == 1, &p, &r); ctx.compared();
    // the grouping of ties itself is C13: take it from the code
    std::vector<Err> e;
    if (c) { for (auto& x : CollapseMatches(m)) e.push_back(Err{x.FP(), x.FN(), (long)x.NH(), (long)x.NR()}); } else e = model_errors(v, false);
    Cv w = model_curve(e, ip == 1);
    CHECK(eqv(p, w.p) && eqv(r, w.r), "collapse=%d interpolate=%d: precision %s recall %s, must be %s %s", c, ip, vs(p).c_str(), vs(r).c_str(), vs(w.p).c_str(), vs(w.r).c_str());
  }
}

// ---- C11 ------------------------------------------------------------------
template <class ME> static void ap_check(mc::Ctx& ctx, const std::vector<ME>& v, const std::vector<Err>& m, bool agree) {
  for (int ip = 0; ip < 2; ++ip) {
    Cv c = model_curve(m, ip == 1);
    std::vector<float> pf(c.p.begin(), c.p.end()), rf(c.r.begin(), c.r.end());
    for (int tr = 0; tr < 2; ++tr) {
      double want = model_ap(c, tr == 1), got = ComputeAP(c.p, c.r, tr == 1); ctx.compared();
      CHECK(eq(got, want), "AP over the curve (interpolate=%d trapezoid=%d) is %.12g, must be %.12g", ip, tr, got, want);
      EXOTIC(float gf = ComputeAP(pf, rf, tr == 1);
      if (m.size() <= 6000) CHECK(eq(gf, want, 2e-6 * (1 + m.size())), "AP over the curve in single precision (interpolate=%d trapezoid=%d) is %.9g, must be %.9g", ip, tr, gf, want);)
      if (agree) {
        double ge = ComputeAP(v, c.p, tr == 1);
        CHECK(eq(ge, want), "AP over the errors (interpolate=%d trapezoid=%d) is %.12g, over the curve %.12g", ip, tr, ge, want);
        CHECK(got >= -1e-12 && got <= 1 + 1e-12, "AP = %.12g is not in [0, 1]", got);
      }
      ctx.outcome((uint64_t)llround(got * 1e9));
    }
  }
}
static std::vector<EL> first(const std::vector<EL>& v, int n) { return std::vector<EL>(v.begin(), v.begin() + n); }
MC_FAMILY(C11_errors, "every sequence of <=6 (thorough 7) match errors over 10 kinds: AP over the curve, interpolated or not, trapezoid or not") {
  std::vector<MatchError> v; std::vector<Err> m; bool mine; sequence(ctx, letters(), ctx.bound(6, 7), &v, &m, &mine); if (!mine) return;
  ap_check(ctx, v, m, simple_kinds(m));
}
MC_FAMILY(C11_hitlists, "every sequence of <=12 (thorough 13) hits, false positives and misses: both formulas agree and lie in [0, 1]") {
  std::vector<MatchError> v; std::vector<Err> m; bool mine; sequence(ctx, letters(), ctx.bound(12, 13), &v, &m, &mine, 3); if (!mine) return;
  ap_check(ctx, v, m, true);
}
MC_FAMILY(C11_counts, "every sequence of <=7 (thorough 8) pooled hits, false positives and misses (8 pools): both formulas agree") {
  static const std::vector<EL> al = {{0, 0, 1, 1}, {1, 0, 1, 0}, {0, 2, 0, 2}, {1, 0, 2, 1}, {2, 0, 3, 1}, {3, 0, 3, 0}, {0, 0, 2, 2}, {1, 0, 4, 3}};
  std::vector<MatchErrorCounts> v; std::vector<Err> m; bool mine; sequence(ctx, al, ctx.bound(7, 8), &v, &m, &mine); if (!mine) return;
  ap_check(ctx, v, m, true);
}
MC_FAMILY(C11_pools, "every sequence of <=3 pools with 4 x 4 x 4 numbers of hits, false positives and misses: both formulas agree") {
  std::vector<MatchErrorCounts> v; std::vector<Err> m; if (!pools(ctx, 3, &v, &m, kFew)) return; ap_check(ctx, v, m, true);
}
MC_FAMILY(C11_pools2, "every pair of pools with 12 x 12 x 12 numbers, up to 70000, of hits, false positives and misses") {
  std::vector<MatchErrorCounts> v; std::vector<Err> m; if (!pools(ctx, 2, &v, &m, kMany)) return; ap_check(ctx, v, m, true);
}
MC_FAMILY(C11_curves, "every recall-precision curve of <=5 points (thorough 6) with 4 precisions and 4 non-decreasing recalls") {
  Cv c; double lo = 0; static const double g[4] = {0, 0.25, 0.5, 1}; int n = ctx.bound(5, 6);
  for (int i = 0; i < n; ++i) { if (i == 2 && !ctx.mine()) return; int k = ctx.choose(17); if (k == 16) { if (i < 2 && !ctx.mine()) return; break; } lo = std::max(lo, g[k % 4]); c.p.push_back(g[k / 4]); c.r.push_back(lo); }
  uint64_t h = 3; for (size_t i = 0; i < c.p.size(); ++i) h = mc::mix(h, llround(c.p[i] * 8) * 10 + llround(c.r[i] * 8)); ctx.state(h);
  ctx.say("precision %s recall %s", vs(c.p).c_str(), vs(c.r).c_str());
  for (int tr = 0; tr < 2; ++tr) { double got = ComputeAP(c.p, c.r, tr == 1), want = model_ap(c, tr == 1); ctx.compared(); CHECK(eq(got, want), "AP (trapezoid=%d) is %.12g, must be %.12g", tr, got, want); }
}
MC_FAMILY(C11_long, "lists of up to 2049 errors, 8 patterns") {
  bool pooled = ctx.flip(); if (!ctx.mine()) return;
  static const std::vector<EL> al = {{0, 0, 1, 1}, {1, 0, 1, 0}, {0, 2, 0, 2}, {1, 0, 2, 1}, {2, 0, 3, 1}, {3, 0, 3, 0}, {0, 0, 2, 2}, {1, 0, 4, 3}};
  if (pooled) { std::vector<MatchErrorCounts> v; std::vector<Err> m; pattern(ctx, al, &v, &m); ap_check(ctx, v, m, true); }
  else { std::vector<MatchError> v; std::vector<Err> m; pattern(ctx, first(letters(), 3), &v, &m); ap_check(ctx, v, m, true); }
}
MC_FAMILY(C11_runs, "up to 4 runs of 1 to 1100 hits, false positives, misses or alternations") { runs(ctx, [&](const std::vector<MatchError>& v, const std::vector<Err>& m) { ap_check(ctx, v, m, true); }); }
MC_FAMILY(C11_huge, "20000 to 131073 errors") {
  static const int ns[] = {20000, 65535, 65536, 65537, 131073}; int n = ns[ctx.choose(5)], p = ctx.choose(4); if (!ctx.mine()) return; ctx.state(n * 5 + p); ctx.say("n=%d pattern %d", n, p);
  std::vector<MatchError> v; std::vector<Err> m; for (int i = 0; i < n; ++i) { const EL& e = letters()[p == 0 ? 0 : p == 1 ? i % 2 : p == 2 ? (i < n / 2 ? 0 : 2) : (i * 7 + i / 5) % 3]; v.push_back(make<MatchError>(e)); m.push_back(Err{e.fp, e.fn, e.nh, e.nr}); } ap_check(ctx, v, m, true);
}
// The functions over matches: the curve is taken from the code (it is C10), the area is judged here.
static double area(const std::vector<M>& m, bool c, bool ip, bool tr) { std::vector<double> p, r; ComputePrecisionAndRecall(m, c, ip, &p, &r); return model_ap(Cv{p, r}, tr); }
static bool ambiguous(const std::vector<ML>& v) {      // equal scores of different kinds
  for (auto& a : v) for (auto& b : v) if (a.kind != 2 && b.kind != 2 && a.s == b.s && a.kind != b.kind) return true;
  return false;
}
static std::vector<ML> sorted(std::vector<ML> v) { std::stable_sort(v.begin(), v.end(), [](const ML& a, const ML& b) { if (a.kind != 2 && b.kind != 2) return a.s > b.s; return a.kind != 2 && b.kind == 2; }); return v; }
// Splits a list in groups by a choice; returns the groups.
static std::vector<std::vector<ML>> split(mc::Ctx& ctx, const std::vector<ML>& v, int maxg) {
  std::vector<std::vector<ML>> g; for (auto& l : v) { int k = ctx.choose(std::min((int)g.size() + 1, maxg)); if (k == (int)g.size()) g.emplace_back(); g[k].push_back(l); }
  return g;
}
static std::vector<std::vector<M>> groups_of(const std::vector<std::vector<ML>>& g) { std::vector<std::vector<M>> r; for (auto& x : g) r.push_back(matches_of(x)); return r; }
template <class F> static void all8(F f) { for (int i = 0; i < 8; ++i) f((i & 1) != 0, (i & 2) != 0, (i & 4) != 0); }

MC_FAMILY(C11_matches, "every list of <=5 (thorough 6) matches in every partition in groups: global AP, over the list and over the groups, sorted or not, and the statistic objects") {
  std::vector<ML> v; if (!match_list(ctx, ctx.bound(5, 6), 2, &v, false)) return;
  std::vector<std::vector<ML>> g = split(ctx, v, 3); auto gm = groups_of(g); std::vector<M> m = matches_of(v);
  std::vector<ML> cat; for (auto& x : g) cat.insert(cat.end(), x.begin(), x.end());
  all8([&](bool c, bool ip, bool tr) {
    GlobalAP<M> st(c, ip, tr); ctx.compared();
    double want = area(m, c, ip, tr);
    CHECK(eq(ComputeGlobalAP<M>(m, c, ip, tr), want), "global AP of the list is %.12g, the area is %.12g (collapse=%d interpolate=%d trapezoid=%d)", ComputeGlobalAP<M>(m, c, ip, tr), want, c, ip, tr);
    CHECK(eq(st(m), want), "GlobalAP of the list is %.12g, the area is %.12g", st(m), want);
    for (int so = 0; so < 2; ++so) {
      if (so && !c && ambiguous(v)) continue;
      double w = area(matches_of(so ? sorted(cat) : cat), c, ip, tr);
      CHECK(eq(ComputeGlobalAP<M>(gm, c, ip, tr, so == 1), w), "global AP of the groups (sort=%d) is %.12g, of the merged list %.12g", so, ComputeGlobalAP<M>(gm, c, ip, tr, so == 1), w);
      CHECK(eq(st(gm, so == 1), w), "GlobalAP of the groups (sort=%d) is %.12g, of the merged list %.12g", so, st(gm, so == 1), w);
    }
  });
}

// ---- C12 ------------------------------------------------------------------
template <class ME> static void ndcg_check(mc::Ctx& ctx, const std::vector<ME>& v, const std::vector<Err>& m, bool bounded) {
  double got = ComputeNDCG<double>(v), want = model_ndcg(m); ctx.compared(); ctx.outcome((uint64_t)llround(got * 1e9));
  CHECK(eq(got, want, 5e-7), "NDCG is %.12g, must be %.12g", got, want);
  EXOTIC(float gf = ComputeNDCG<float>(v); if (m.size() <= 6000) CHECK(eq(gf, want, 1e-6 * (2 + m.size() + refs_of(m))), "NDCG in single precision is %.9g, must be %.9g", gf, want);)
  if (bounded) CHECK(got >= 0 && got <= 1 + 1e-6, "NDCG = %.12g is not in [0, 1]", got);
  // every reference found ahead of any false positive
  bool perfect = !m.empty() && refs_of(m) > 0; bool fpseen = false;
  for (auto& e : m) { if (e.fn > 0 || (e.nr > 0 && fpseen)) perfect = false; if (e.fp > 0) { fpseen = true; if (e.nr > 0) perfect = false; } }
  if (perfect && bounded) CHECK(eq(got, 1), "NDCG of a perfect ranking is %.12g", got);
}
MC_FAMILY(C12_errors, "every sequence of <=6 (thorough 7) match errors over 10 kinds") {
  std::vector<MatchError> v; std::vector<Err> m; bool mine; sequence(ctx, letters(), ctx.bound(6, 7), &v, &m, &mine); if (!mine) return;
  ndcg_check(ctx, v, m, true);
}
MC_FAMILY(C12_hitlists, "every sequence of <=13 (thorough 14) hits, false positives and misses") {
  std::vector<MatchError> v; std::vector<Err> m; bool mine; sequence(ctx, letters(), ctx.bound(13, 14), &v, &m, &mine, 3); if (!mine) return;
  ndcg_check(ctx, v, m, true);
}
MC_FAMILY(C12_counts, "every sequence of <=7 (thorough 8) pooled errors over 9 kinds") {
  std::vector<MatchErrorCounts> v; std::vector<Err> m; bool mine; sequence(ctx, counts(), ctx.bound(7, 8), &v, &m, &mine); if (!mine) return;
  ndcg_check(ctx, v, m, true);
}
MC_FAMILY(C12_pools, "every sequence of <=3 pools with 4 x 4 x 4 numbers of hits, false positives and misses") {
  std::vector<MatchErrorCounts> v; std::vector<Err> m; if (!pools(ctx, 3, &v, &m, kFew)) return; ndcg_check(ctx, v, m, true);
}
MC_FAMILY(C12_pools2, "every pair of pools with 9 x 9 x 9 numbers, up to 100, of hits, false positives and misses") {
  static const std::vector<int> z = {0, 1, 2, 3, 8, 9, 16, 33, 100}; std::vector<MatchErrorCounts> v; std::vector<Err> m; if (!pools(ctx, 2, &v, &m, z)) return; ndcg_check(ctx, v, m, true);
}
MC_FAMILY(C12_runs, "up to 4 runs of 1 to 1100 hits, false positives, misses or alternations") { runs(ctx, [&](const std::vector<MatchError>& v, const std::vector<Err>& m) { ndcg_check(ctx, v, m, true); }); }
MC_FAMILY(C12_huge, "20000 to 131073 hypotheses and references, plain and in one or two ties") {
  static const int ns[] = {20000, 32769, 65535, 65536, 65537, 70000, 131073}; int n = ns[ctx.choose(7)], p = ctx.choose(5); if (!ctx.mine()) return; ctx.state(n * 5 + p); ctx.say("n=%d pattern %d", n, p);
  if (p < 3) { std::vector<MatchError> v; std::vector<Err> m; for (int i = 0; i < n; ++i) { const EL& e = letters()[p == 0 ? 0 : p == 1 ? i % 2 : i < n / 2 ? 0 : 2]; v.push_back(make<MatchError>(e)); m.push_back(Err{e.fp, e.fn, e.nh, e.nr}); } ndcg_check(ctx, v, m, true); }
  else { std::vector<MatchErrorCounts> v; std::vector<Err> m; for (int i = 0; i < (p == 3 ? 1 : 2); ++i) { v.push_back(MatchErrorCounts(n / 2, 0, n, n - n / 2)); m.push_back(Err{(double)(n / 2), 0, n, n - n / 2}); } ndcg_check(ctx, v, m, true); }
}
MC_FAMILY(C12_long, "lists of up to 2049 errors, 8 patterns, plain and pooled") {
  bool pooled = ctx.flip(); if (!ctx.mine()) return;
  if (pooled) { std::vector<MatchErrorCounts> v; std::vector<Err> m; pattern(ctx, counts(), &v, &m); ndcg_check(ctx, v, m, true); }
  else { std::vector<MatchError> v; std::vector<Err> m; pattern(ctx, letters(), &v, &m); ndcg_check(ctx, v, m, true); }
}
// With the errors of the code (collapsing is C13).
static double gain(const std::vector<M>& m, bool c) {
  std::vector<Err> e;
  if (c) { for (auto& x : CollapseMatches(m)) e.push_back(Err{x.FP(), x.FN(), (long)x.NH(), (long)x.NR()}); }
  else for (auto& x : m) e.push_back(Err{x.GetError().FP(), x.GetError().FN(), (long)x.GetError().NH(), (long)x.GetError().NR()});
  return model_ndcg(e);
}
MC_FAMILY(C12_matches, "every list of <=5 (thorough 6) matches in every partition in groups: global NDCG, over the list and over the groups, sorted or not, and the statistic objects") {
  std::vector<ML> v; if (!match_list(ctx, ctx.bound(5, 6), 2, &v, false)) return;
  std::vector<std::vector<ML>> g = split(ctx, v, 3); auto gm = groups_of(g); std::vector<M> m = matches_of(v);
  std::vector<ML> cat; for (auto& x : g) cat.insert(cat.end(), x.begin(), x.end());
  for (int c = 0; c < 2; ++c) {
    GlobalNDCG<M> st(c == 1); ctx.compared();
    double want = gain(m, c == 1), got = ComputeGlobalNDCG(cst(m), c == 1);
    CHECK(eq(got, want, 5e-7), "global NDCG of the list is %.12g, must be %.12g (collapse=%d)", got, want, c);
    CHECK(eq(st(m), want, 5e-7), "GlobalNDCG of the list is %.12g, must be %.12g (collapse=%d)", st(m), want, c);
    CHECK(got >= 0 && got <= 1 + 1e-6, "NDCG = %.12g is not in [0, 1] (collapse=%d)", got, c);
    for (int so = 0; so < 2; ++so) {
      if (so && !c && ambiguous(v)) continue;
      double w = gain(matches_of(so ? sorted(cat) : cat), c == 1), x = ComputeGlobalNDCG(gm, c == 1, so == 1);
      CHECK(eq(x, w, 5e-7), "global NDCG of the groups (sort=%d collapse=%d) is %.12g, of the merged list %.12g", so, c, x, w);
      CHECK(eq(st(gm, so == 1), w, 5e-7), "GlobalNDCG of the groups (sort=%d collapse=%d) is %.12g, of the merged list %.12g", so, c, st(gm, so == 1), w);
    }
  }
}

// ---- C13 ------------------------------------------------------------------
static void collapse_check(mc::Ctx& ctx, const std::vector<ML>& v) {
  std::vector<M> m = matches_of(v), before = m;
  std::vector<MatchErrorCounts> got = CollapseMatches(m); std::vector<Err> want = model_errors(v, true); ctx.compared(); ctx.outcome(got.size());
  CHECK(got.size() == want.size(), "%zu entries after collapsing, must be %zu (%s)", got.size(), want.size(), es(want).c_str());
  for (size_t i = 0; i < got.size(); ++i)
    CHECK(got[i].FP() == want[i].fp && got[i].FN() == want[i].fn && (long)got[i].NH() == want[i].nh && (long)got[i].NR() == want[i].nr,
          "entry %zu is fp=%g fn=%g nh=%zu nr=%zu, must be fp=%g fn=%g nh=%ld nr=%ld", i, got[i].FP(), got[i].FN(), got[i].NH(), got[i].NR(), want[i].fp, want[i].fn, want[i].nh, want[i].nr);
  CHECK(m == before, "collapsing changed the matches");
}
MC_FAMILY(C13_pools, "every list of <=6 (thorough 7) matches: hit, false positive, half hit at 2 scores, miss, in any order") {
  std::vector<ML> v; if (!match_list(ctx, ctx.bound(7, 8), 2, &v, false)) return; collapse_check(ctx, v);
}
MC_FAMILY(C13_scores, "every list of <=6 (thorough 7) hits, false positives and misses at 5 scores, both zeros among them") {
  std::vector<ML> v; if (!match_list(ctx, ctx.bound(6, 7), 5, &v, false, 2)) return; collapse_check(ctx, v);
}
MC_FAMILY(C13_near, "pairs and triples of scores one unit in the last place apart, denormals, extremes, with misses between and after them: equal iff the numbers are equal") {
  static const std::vector<float> sc = {0.f, -0.f, 1e-45f, -1e-45f, 1.1754944e-38f, 0.1f, std::nextafterf(0.1f, 1), std::nextafterf(0.1f, 0), 1.f, std::nextafterf(1.f, 2), 1.0f - 6e-8f, 16777216.f, 16777218.f,
                                        3.4028235e38f, -3.4028235e38f, 3.4028233e38f, -1.f, -0.1f, 1e10f, std::nextafterf(1e10f, 0), 1e-10f, 2e-10f, 1.0000001e-3f, 1e-3f};
  int a = ctx.choose((int)sc.size()), b = ctx.choose((int)sc.size()); if (!ctx.mine()) return; int c = ctx.choose((int)sc.size()), k = ctx.choose(27);
  std::vector<ML> v; int i = 0, kk = k; for (int s : {a, b, c}) { v.push_back(ML{kk % 3, kk % 3 == 2 ? 0.f : sc[s], "q", "q", i}); ++i; kk /= 3; }
  ctx.state(((a * 100 + b) * 100 + c) * 27 + k); ctx.say("matches: %s", ms(v).c_str());
  collapse_check(ctx, v);
}
MC_FAMILY(C13_long, "runs of up to 5000 equal scores, hits, false positives and half hits mixed, and up to 5000 misses") {
  static const int ns[] = {0, 1, 2, 3, 10, 63, 64, 65, 100, 255, 256, 257, 1000, 5000}; int a = ns[ctx.choose(14)], b = ns[ctx.choose(14)]; if (!ctx.mine()) return; int c = ns[ctx.choose(14)], p = ctx.choose(4);
  std::vector<ML> v; for (int i = 0; i < a + b; ++i) v.push_back(ML{p == 0 ? 0 : p == 1 ? 1 : p == 2 ? i % 2 : (i % 3 == 2 ? 3 : i % 3), i < a ? 2.f : 1.f, "q", "q", i});
  for (int i = 0; i < c; ++i) v.push_back(ML{2, 0, "q", "q", i});
  ctx.state(((uint64_t)a * 10000 + b) * 100000 + c * 4 + p); ctx.say("%d + %d hypotheses, %d misses, pattern %d", a, b, c, p);
  collapse_check(ctx, v);
}
MC_FAMILY(C13_huge, "runs of 32767 to 131073 equal scores or misses, around the powers of two") {
  static const int ns[] = {32767, 32768, 65535, 65536, 65537, 70000, 131073}; int n = ns[ctx.choose(7)], where = ctx.choose(3), p = ctx.choose(3); if (!ctx.mine()) return;
  int a = where == 0 ? n : 3, b = where == 1 ? n : 2, c = where == 2 ? n : 2;
  std::vector<ML> v; for (int i = 0; i < a + b; ++i) v.push_back(ML{p == 0 ? 0 : p == 1 ? 1 : (i % 3 == 2 ? 3 : i % 3), i < a ? 2.f : 1.f, "q", "q", i});
  for (int i = 0; i < c; ++i) v.push_back(ML{2, 0, "q", "q", i});
  ctx.state(((uint64_t)a * 10000 + b) * 100000 + c * 4 + p); ctx.say("%d + %d hypotheses, %d misses, pattern %d", a, b, c, p);
  collapse_check(ctx, v);
}
static bool canon_less(const ML& a, const ML& b) { return std::make_tuple(a.kind, a.id) < std::make_tuple(b.kind, b.id); }
MC_FAMILY(C13_order, "every list of <=7 (thorough 8) ranked matches: the order inside a run of ties is hidden; without ties collapsing changes nothing") {
  std::vector<ML> v; if (!match_list(ctx, ctx.bound(7, 8), 2, &v, true)) return;
  std::stable_partition(v.begin(), v.end(), [](const ML& l) { return l.kind != 2; });
  std::vector<ML> w = v; bool ties = false; int miss = 0;
  for (size_t i = 0; i < w.size();) { size_t j = i + 1; while (j < w.size() && (w[j].kind == 2) == (w[i].kind == 2) && (w[i].kind == 2 || w[j].s == w[i].s)) ++j;
    if (w[i].kind != 2 && j > i + 1) ties = true; if (w[i].kind == 2) miss += (int)(j - i); std::sort(w.begin() + i, w.begin() + j, canon_less); i = j; }
  std::vector<M> a = matches_of(v), b = matches_of(w);
  for (int ip = 0; ip < 2; ++ip) {
    std::vector<double> p1, r1, p2, r2; ComputePrecisionAndRecall(cst(a), true, ip == 1, &p1, &r1); ComputePrecisionAndRecall(cst(b), true, ip == 1, &p2, &r2); ctx.compared();
    CHECK(eqv(p1, p2) && eqv(r1, r2), "the collapsed curve depends on the order of ties: %s %s and %s %s", vs(p1).c_str(), vs(r1).c_str(), vs(p2).c_str(), vs(r2).c_str());
    for (int tr = 0; tr < 2; ++tr) {
      double x = ComputeGlobalAP<M>(a, true, ip == 1, tr == 1), y = ComputeGlobalAP<M>(b, true, ip == 1, tr == 1);
      CHECK(eq(x, y), "the collapsed AP depends on the order of ties: %.12g and %.12g", x, y);
      if (!ties && miss < 2) { double z = ComputeGlobalAP<M>(a, false, ip == 1, tr == 1); CHECK(eq(x, z), "collapsing changes the AP of a list without ties: %.12g, %.12g", z, x); }
    }
  }
  double x = ComputeGlobalNDCG(cst(a), true), y = ComputeGlobalNDCG(cst(b), true); CHECK(eq(x, y), "the collapsed NDCG depends on the order of ties: %.12g and %.12g", x, y);
  if (!ties && miss < 2) { double z = ComputeGlobalNDCG(cst(a), false); CHECK(eq(x, z), "collapsing changes the NDCG of a list without ties: %.12g, %.12g", z, x); }
}
MC_FAMILY(C13_sums, "every triple of pooled counts: + and += add every field") {
  auto& C = counts(); auto& L = letters(); int i = ctx.choose((int)C.size()); if (!ctx.mine()) return; int j = ctx.choose((int)C.size()), k = ctx.choose((int)L.size());
  MatchErrorCounts a = make<MatchErrorCounts>(C[i]), b = make<MatchErrorCounts>(C[j]); MatchError e = make<MatchError>(L[k]); ctx.state((i * 100 + j) * 100 + k); ctx.compared();
  MatchErrorCounts s = a + b; s += e; const MatchErrorCounts up(e); MatchErrorCounts t = a; t += b; t += up;
  for (auto* x : {&s, &t}) CHECK(x->FP() == C[i].fp + C[j].fp + L[k].fp && x->FN() == C[i].fn + C[j].fn + L[k].fn && (long)x->NH() == C[i].nh + C[j].nh + L[k].nh && (long)x->NR() == C[i].nr + C[j].nr + L[k].nr, "the sum of counts is wrong");
  CHECK((long)a.NH() == C[i].nh && a.FP() == C[i].fp && (long)b.NR() == C[j].nr, "adding changed an operand");
  CHECK((long)e.NH() == L[k].nh && (long)e.NR() == L[k].nr, "NH=%zu NR=%zu for fp=%g fn=%g", e.NH(), e.NR(), e.FP(), e.FN());
}

// ---- C14 ------------------------------------------------------------------
template <class Map> static void grouping(mc::Ctx& ctx, int n, int nq) {
  static const std::vector<std::string> Q = {"a", "b", "c", "d"};
  Map q2g; std::map<std::string, std::string> gm; uint64_t h = 5;
  for (int i = 0; i < nq; ++i) { int c = ctx.choose(5); h = mc::mix(h, c); if (c == 4) continue; std::string g = c == 0 ? "G" : c == 1 ? "H" : c == 2 ? Q[0] : Q[i]; q2g[Q[i]] = g; gm[Q[i]] = g; }
  if (!ctx.mine()) return;
  std::vector<ML> v;
  for (int i = 0; i < n; ++i) {
    int c = ctx.choose(nq * 4 + 1); h = mc::mix(h, c); if (c == nq * 4) break;
    int k = c / nq; std::string q = Q[c % nq]; ML l{k == 3 ? 0 : k, 1.f - 0.125f * i, q, q, i};
    if (k == 3) l.q = Q[(c % nq + 1) % nq];          // a hypothesis of another query than its reference
    v.push_back(l);
  }
  ctx.state(h); if (ctx.describing()) { ctx.say("matches: %s", ms(v).c_str()); for (auto& x : gm) ctx.say("query %s in group %s", x.first.c_str(), x.second.c_str()); }
  std::map<std::string, std::vector<int>> want; for (auto& l : v) { const std::string& q = l.kind == 1 ? l.q : l.rq; want[gm.count(q) ? gm[q] : q].push_back(l.id); }
  std::vector<std::vector<M>> out(2, std::vector<M>(1)); std::vector<M> in = matches_of(v), keep = in;
  GroupMatchesByQueryGroup(in, q2g, &out); ctx.compared(); ctx.outcome(out.size());
  CHECK(in == keep, "grouping changed its input");
  std::multiset<std::vector<int>> a, b; for (auto& w : want) a.insert(w.second);
  for (auto& g : out) { std::vector<int> ids; for (auto& m : g) { int id = m.HasRef() ? m.GetRef().Location() : m.GetHyp().Location(); ids.push_back(id); CHECK(m == in[id], "a match changed"); } b.insert(ids); }
  if (a != b) { std::string s, t; for (auto& x : a) { s += "{"; for (int i : x) s += std::to_string(i) + " "; s += "} "; } for (auto& x : b) { t += "{"; for (int i : x) t += std::to_string(i) + " "; t += "} "; } CHECK(false, "the groups are %s, must be %s", t.c_str(), s.c_str()); }
}
MC_FAMILY(C14_groups, "every map of 3 queries to groups x every list of <=4 (thorough 5) matches (hit, false positive, miss, hit across queries), std::map") { grouping<std::map<std::string, std::string>>(ctx, ctx.bound(4, 5), 3); }
MC_FAMILY(C14_groups2, "every map of 2 queries to groups x every list of <=6 (thorough 7) matches, unordered_map") { grouping<std::unordered_map<std::string, std::string>>(ctx, ctx.bound(6, 7), 2); }
MC_FAMILY(C14_many, "up to 300 queries in up to 300 groups, and integer queries") {
  static const int ns[] = {1, 2, 7, 8, 9, 16, 17, 31, 33, 64, 100, 300}; int nq = ns[ctx.choose(12)], ng = ns[ctx.choose(12)]; if (!ctx.mine()) return; int reps = 1 + ctx.choose(3), listed = ctx.choose(3);
  typedef Event<int, int> IR; typedef ScoredEvent<IR> IH; typedef Match<IR, IH> IM;
  std::map<int, int> q2g; if (listed) for (int q = 0; q < nq; ++q) if (listed == 2 || q % 2) q2g[q] = 100000 + q % ng;
  std::vector<IM> in; std::map<int, std::vector<int>> want; int id = 0;
  for (int r = 0; r < reps; ++r) for (int q = 0; q < nq; ++q) { int k = (q + r) % 3, qq = (q * 7) % nq; in.push_back(k == 0 ? IM(IR(qq, id), IH(qq, id, 1.f), MatchError(0, 0)) : k == 1 ? IM::MakeFalsePositive(IH(qq, id, 1.f)) : IM::MakeFalseNegative(IR(qq, id)));
    want[q2g.count(qq) ? q2g[qq] : qq].push_back(id++); }
  ctx.state(((nq * 1000 + ng) * 3 + reps) * 3 + listed); ctx.say("%d queries, %d groups, %d rounds, listed %d", nq, ng, reps, listed);
  std::vector<std::vector<IM>> out; GroupMatchesByQueryGroup(in, q2g, &out); ctx.compared();
  std::multiset<std::vector<int>> a, b; for (auto& w : want) a.insert(w.second);
  for (auto& g : out) { std::vector<int> ids; for (auto& m : g) ids.push_back(m.HasRef() ? m.GetRef().Location() : m.GetHyp().Location()); b.insert(ids); }
  CHECK(a == b, "%zu groups, must be %zu, or other members", b.size(), a.size());
}
MC_FAMILY(C14_huge, "1000 to 131073 queries, each its own group or in up to 70000 groups") {
  static const int ns[] = {1000, 4095, 4096, 4097, 32769, 65535, 65536, 65537, 70000, 131073}; int nq = ns[ctx.choose(10)], how = ctx.choose(3); if (!ctx.mine()) return;
  typedef Event<int, int> IR; typedef ScoredEvent<IR> IH; typedef Match<IR, IH> IM;
  std::unordered_map<int, int> q2g; if (how) for (int q = 0; q < nq; ++q) q2g[q] = how == 1 ? 1000000 + q / 2 : 1000000 + q % 70000;
  std::vector<IM> in; std::map<int, std::vector<int>> want; int id = 0;
  for (int q = 0; q < nq; ++q) for (int k = 0; k < 2; ++k) { int qq = k ? nq - 1 - q : q; in.push_back(k ? IM::MakeFalseNegative(IR(qq, id)) : IM(IR(qq, id), IH(qq, id, 1.f), MatchError(0, 0))); want[how ? q2g[qq] : qq].push_back(id++); }
  ctx.state(nq * 3 + how); ctx.say("%d queries, %zu groups", nq, want.size());
  std::vector<std::vector<IM>> out; GroupMatchesByQueryGroup(in, q2g, &out); ctx.compared();
  CHECK(out.size() == want.size(), "%zu groups, must be %zu", out.size(), want.size());
  std::set<std::vector<int>> a, b; for (auto& w : want) a.insert(w.second);
  for (auto& g : out) { std::vector<int> ids; for (auto& m : g) ids.push_back(m.GetRef().Location()); b.insert(ids); }
  CHECK(a == b, "groups have other members");
  std::vector<std::vector<IM>> half; for (size_t i = 0; i < out.size(); ++i) { half.push_back({out[i][0]}); half.back().push_back(IM::MakeFalseNegative(IR(0, 0))); }
  double h = ComputeMeanAP(half, false, false, false, false), g = ComputeMeanNDCG(half, false, false); double wap = 0, wnd = 0; for (auto& x : half) { wap += x[0].HasHyp() ? 0.5 : 0; wnd += x[0].HasHyp() ? 1 / (1 + 1 / log2(3.)) : 0; }
  CHECK(eq(h, wap / half.size(), 1e-9), "the mean AP over %zu groups is %.12g, must be %.12g", half.size(), h, wap / half.size()); CHECK(eq(g, wnd / half.size(), 1e-9), "the mean NDCG over %zu groups is %.12g, must be %.12g", half.size(), g, wnd / half.size());
}
MC_FAMILY(C14_means, "every list of <=5 (thorough 6) matches in every partition in groups: means of AP and NDCG are the means over groups, sorted or not") {
  std::vector<ML> v; if (!match_list(ctx, ctx.bound(5, 6), 2, &v, false)) return;
  std::vector<std::vector<ML>> g = split(ctx, v, 4); auto gm = groups_of(g), keep = gm;
  all8([&](bool c, bool ip, bool tr) {
    MeanAP<M> sa(c, ip, tr); MeanNDCG<M> sn(c); ctx.compared();
    for (int so = 0; so < 2; ++so) {
      double a = 0, n = 0; bool amb = false;
      for (auto& x : g) { if (so && !c && ambiguous(x)) amb = true; std::vector<M> m = matches_of(so ? sorted(x) : x); a += ComputeGlobalAP<M>(m, c, ip, tr); n += ComputeGlobalNDCG(cst(m), c); }
      if (amb) continue;
      if (!g.empty()) { a /= g.size(); n /= g.size(); }
      CHECK(eq(ComputeMeanAP(gm, c, ip, tr, so == 1), a) && eq(sa(gm, so == 1), a), "mean AP (sort=%d) is %.12g and %.12g, the mean of the groups is %.12g", so, ComputeMeanAP(gm, c, ip, tr, so == 1), sa(gm, so == 1), a);
      CHECK(eq(ComputeMeanNDCG(gm, c, so == 1), n) && eq(sn(gm, so == 1), n), "mean NDCG (sort=%d) is %.12g and %.12g, the mean of the groups is %.12g", so, ComputeMeanNDCG(gm, c, so == 1), sn(gm, so == 1), n);
    }
  });
  CHECK(gm == keep, "computing the means changed the groups");
}

// ---- C28 ------------------------------------------------------------------
struct Rk { std::vector<int> kind, q; int miss[3]; };
static std::vector<ML> list_of(const Rk& r) {
  static const std::string Q[3] = {"a", "b", "c"}; std::vector<ML> v; int id = 0;
  for (size_t i = 0; i < r.kind.size(); ++i) v.push_back(ML{r.kind[i], 100.f - i, Q[r.q[i]], Q[r.q[i]], id++});
  for (int q = 0; q < 3; ++q) for (int i = 0; i < r.miss[q]; ++i) v.push_back(ML{2, 0, Q[q], Q[q], id++});
  return v;
}
struct V4 { double v[4]; };
static V4 four(const Rk& r, bool c, bool ip, bool tr) {
  std::vector<M> m = matches_of(list_of(r)); std::vector<std::vector<M>> g; GroupMatchesByQueryGroup(m, std::map<std::string, std::string>(), &g);
  return V4{{ComputeGlobalAP<M>(m, c, ip, tr), ComputeMeanAP(g, c, ip, tr, false), ComputeGlobalNDCG(cst(m), c), ComputeMeanNDCG(g, c, false)}};
}
static const char* const kV[4] = {"gAP", "mAP", "gNDCG", "mNDCG"};
static void laws(mc::Ctx& ctx, const Rk& r, bool c, bool ip, bool tr) {
  const size_t n = r.kind.size(); V4 base = four(r, c, ip, tr); ctx.compared();
  auto cmp = [&](const Rk& b, int dir, const char* what) {       // dir +1: b must not be lower; -1: not higher
    V4 x = four(b, c, ip, tr);
    for (int k = 0; k < 4; ++k) CHECK(dir * (x.v[k] - base.v[k]) >= -1e-9, "%s: %s goes from %.12g to %.12g (collapse=%d interpolate=%d trapezoid=%d); other list: %s", what, kV[k], base.v[k], x.v[k], c, ip, tr, ms(list_of(b)).c_str());
  };
  for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (r.kind[i] == 1 && r.kind[j] == 0 && r.q[i] == r.q[j]) { Rk b = r; std::swap(b.kind[i], b.kind[j]); cmp(b, 1, "a hit rises above a false positive"); }
  for (int q = 0; q < 3; ++q) { bool pres = r.miss[q] > 0; for (int x : r.q) pres |= x == q; if (!pres) continue; Rk b = r; b.kind.push_back(1); b.q.push_back(q); cmp(b, -1, "a false positive is appended at the end"); }
  for (size_t i = n; i-- > 0;) if (r.kind[i] == 1) { Rk b = r; b.kind.erase(b.kind.begin() + i); b.q.erase(b.q.begin() + i); cmp(b, 1, "the lowest false positive is removed"); break; }
  // best and worst
  bool hits = false, fp = false, top = true, miss = r.miss[0] + r.miss[1] + r.miss[2] > 0; bool has[3] = {}, pres[3] = {};
  for (size_t i = 0; i < n; ++i) { pres[r.q[i]] = true; if (r.kind[i] == 0) { hits = true; has[r.q[i]] = true; if (fp) top = false; } else fp = true; }
  for (int q = 0; q < 3; ++q) if (pres[q] && !has[q]) top = false;
  if (hits && top && !miss) for (int k = 0; k < 4; ++k) CHECK(eq(base.v[k], 1), "%s of a perfect ranking is %.12g", kV[k], base.v[k]);
  if (!hits) for (int k = 0; k < 4; ++k) CHECK(eq(base.v[k], 0), "%s of a ranking without hits is %.12g", kV[k], base.v[k]);
  ctx.outcome((uint64_t)llround(base.v[0] * 1e9));
}
static void small_laws(mc::Ctx& ctx, int maxn, int nq, int maxmiss) {
  Rk r; r.miss[0] = r.miss[1] = r.miss[2] = 0; uint64_t h = 11; for (int q = 0; q < nq; ++q) { r.miss[q] = ctx.choose(maxmiss + 1); h = mc::mix(h, r.miss[q]); }
  bool called = false;
  for (int i = 0; i < maxn; ++i) { if (i == 3) { called = true; if (!ctx.mine()) return; } int c = ctx.choose(2 * nq + 1); if (c == 2 * nq) break; r.kind.push_back(c % 2); r.q.push_back(c / 2); h = mc::mix(h, c); }
  if (!called && !ctx.mine()) return;
  ctx.state(h); ctx.say("list: %s", ms(list_of(r)).c_str());
  all8([&](bool c, bool ip, bool tr) { laws(ctx, r, c, ip, tr); });
}
MC_FAMILY(C28_one, "every ranking of <=10 (thorough 11) hits and false positives of one query, 0..3 missed, all settings: exchanges, appending, removing, extremes") { small_laws(ctx, ctx.bound(10, 11), 1, 3); }
MC_FAMILY(C28_two, "every ranking of <=6 (thorough 7) hits and false positives of two queries, 0..2 missed of each") { small_laws(ctx, ctx.bound(6, 7), 2, 2); }
MC_FAMILY(C28_three, "every ranking of <=5 (thorough 6) hits and false positives of three queries, 0..1 missed of each") { small_laws(ctx, ctx.bound(5, 6), 3, 1); }

// Long rankings: the laws at chosen positions.
static void cmp_laws(mc::Ctx& ctx, const Rk& r, bool c, bool ip, bool tr, const std::vector<std::pair<int, int>>& swaps) {
  V4 base = four(r, c, ip, tr); ctx.compared(); const size_t n = r.kind.size();
  auto cmp = [&](const Rk& b, int dir, const char* what, int i, int j) { V4 x = four(b, c, ip, tr); for (int k = 0; k < 4; ++k) CHECK(dir * (x.v[k] - base.v[k]) >= -1e-9, "%s (ranks %d, %d of %zu): %s goes from %.12g to %.12g (collapse=%d interpolate=%d trapezoid=%d)", what, i, j, n, kV[k], base.v[k], x.v[k], c, ip, tr); };
  for (auto& s : swaps) if (r.kind[s.first] == 1 && r.kind[s.second] == 0 && r.q[s.first] == r.q[s.second]) { Rk b = r; std::swap(b.kind[s.first], b.kind[s.second]); cmp(b, 1, "a hit rises above a false positive", s.first, s.second); }
  for (int q = 0; q < 3; ++q) { bool pres = r.miss[q] > 0; for (int x : r.q) pres |= x == q; if (!pres) continue; Rk b = r; b.kind.push_back(1); b.q.push_back(q); cmp(b, -1, "a false positive is appended at the end", (int)n, (int)n); }
  for (size_t i = n; i-- > 0;) if (r.kind[i] == 1) { Rk b = r; b.kind.erase(b.kind.begin() + i); b.q.erase(b.q.begin() + i); cmp(b, 1, "the lowest false positive is removed", (int)i, (int)i); break; }
  bool hits = false, fp = false, top = true; for (size_t i = 0; i < n; ++i) { if (r.kind[i] == 0) { hits = true; if (fp) top = false; } else fp = true; }
  if (hits && top && !(r.miss[0] + r.miss[1] + r.miss[2])) { bool has[3] = {}, pres[3] = {}; for (size_t i = 0; i < n; ++i) { pres[r.q[i]] = true; has[r.q[i]] |= r.kind[i] == 0; } bool all = true; for (int q = 0; q < 3; ++q) all &= !pres[q] || has[q]; if (all) for (int k = 0; k < 4; ++k) CHECK(eq(base.v[k], 1, 1e-6), "%s of a perfect ranking of %zu is %.12g", kV[k], n, base.v[k]); }
  if (!hits) for (int k = 0; k < 4; ++k) CHECK(eq(base.v[k], 0), "%s of a ranking without hits is %.12g", kV[k], base.v[k]);
  for (int k = 0; k < 4; ++k) CHECK(base.v[k] >= 0 && base.v[k] <= 1 + 1e-6, "%s = %.12g is not in [0, 1]", kV[k], base.v[k]);
}
MC_FAMILY(C28_huge, "rankings of 32769 to 70001 hypotheses: exchanges around the powers of two, appending, removing, extremes") {
  static const int ns[] = {32769, 65537, 70001}; int n = ns[ctx.choose(3)], pat = ctx.choose(3), at = ctx.choose(5); if (!ctx.mine()) return; Rk r; r.miss[0] = r.miss[1] = r.miss[2] = 0;
  for (int i = 0; i < n; ++i) { r.kind.push_back(pat == 0 ? 0 : pat == 1 ? (i % 2 ? 0 : 1) : 1); r.q.push_back(0); } static const int P[5] = {4096, 16384, 32768, 65534, 65536}; std::vector<std::pair<int, int>> sw; for (int d = 0; d < 2; ++d) if (P[at] + d < n - 1) { sw.push_back({P[at] + d, P[at] + d + 1}); sw.push_back({0, P[at] + 1}); }
  if (pat == 2) r.kind[n - 1] = r.kind[std::min(n - 1, P[at] + 1)] = 0;
  ctx.state((n * 3 + pat) * 5 + at); ctx.say("n=%d pattern %d at %d", n, pat, P[at]); cmp_laws(ctx, r, at % 2, true, true, sw);
}
MC_FAMILY(C28_long, "rankings of n hypotheses, n in 11..40 and around the powers of two up to 1025 (thorough 4097), 7 patterns x 1..3 queries: exchanges next to chosen ranks and between them, appending, removing, extremes") {
  std::vector<int> ns; for (int i = 11; i <= 40; ++i) ns.push_back(i); for (int p = 64; p <= ctx.bound(1024, 4096); p *= 2) for (int d = -1; d <= 2; ++d) ns.push_back(p + d);
  int n = ns[ctx.choose((int)ns.size())], pat = ctx.choose(7); if (!ctx.mine()) return; int nq = 1 + ctx.choose(3), set = ctx.choose(4);
  Rk r; r.miss[0] = r.miss[1] = r.miss[2] = 0; if (pat == 2 || pat == 5) r.miss[0] = 1 + n / 3;
  for (int i = 0; i < n; ++i) { r.kind.push_back(pat == 0 ? 0 : pat == 1 ? i >= n / 2 : pat == 2 ? i % 2 : pat == 3 ? i < n / 2 : pat == 4 ? 1 : pat == 5 ? i % 7 != 3 : i % 5 == 0); r.q.push_back(i * nq / n == 0 || pat == 2 ? (i / 2) % nq : i % nq); }
  std::vector<int> pos; for (int i : {0, 1, 2, n / 2, n - 2, n - 1}) pos.push_back(i); for (int p = 8; p < n; p *= 2) for (int d = -2; d <= 2; ++d) if (p + d < n) pos.push_back(p + d);
  std::sort(pos.begin(), pos.end()); pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
  std::vector<std::pair<int, int>> sw; for (size_t i = 0; i < pos.size(); ++i) { if (n <= 70) for (size_t j = i + 1; j < pos.size(); ++j) sw.push_back({pos[i], pos[j]}); else for (int d = 1; d <= 3; ++d) { if (pos[i] + d < n) sw.push_back({pos[i], pos[i] + d}); if (i + d < pos.size()) sw.push_back({pos[i], pos[i + d]}); } }
  ctx.state(((n * 7 + pat) * 3 + nq) * 4 + set); ctx.say("n=%d pattern %d queries %d", n, pat, nq);
  cmp_laws(ctx, r, set & 1, set & 2, (set & 1) ^ 1, sw);
}
