// C23: resampling and percentile intervals, through core/Bootstrapping.h.
//
// With SCRIPTED the random numbers are taken over: every draw becomes a choice
// of the explorer, so that ALL outcomes of a resample are visited.
#include "mc.h"

#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <tuple>
#include <random>
#include <string>

#ifdef SCRIPTED
namespace script {
static std::vector<int> path, arity; static size_t pos; static uint64_t draws;
static std::map<size_t, size_t> dev; static std::vector<size_t> seen_arity; static bool sparse = false;     // sparse: outcomes that differ from the first one in the draws of dev
inline size_t choose(size_t n) { ++draws; if (n <= 1) return 0; if (n > 1000) return n - 1; if (sparse) { size_t k = seen_arity.size(); seen_arity.push_back(n); auto it = dev.find(k); return it == dev.end() ? 0 : it->second % n; } if (pos == path.size()) { path.push_back(0); arity.push_back((int)n); } return path[pos++]; }
inline bool next() { while (!path.empty() && path.back() + 1 >= arity.back()) { path.pop_back(); arity.pop_back(); } if (path.empty()) return false; path.back()++; return true; }
}
namespace std {
struct mc_engine { typedef uint64_t result_type; mc_engine(uint64_t = 0) {} void seed(uint64_t = 0) {} static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return 59; } uint64_t operator()() { return script::choose(60); } void discard(unsigned long long) {} };
template <class T = int> struct mc_uniform { typedef T result_type; typedef mc_uniform param_type; T a_, b_; explicit mc_uniform(T a = 0, T b = std::numeric_limits<T>::max()) : a_(a), b_(b) {} template <class E> T operator()(E&) { return a_ + (T)script::choose((size_t)(b_ - a_) + 1); } template <class E> T operator()(E&, const param_type& p) { return p.a_ + (T)script::choose((size_t)(p.b_ - p.a_) + 1); } void reset() {} T a() const { return a_; } T b() const { return b_; } };
}
#define uniform_int_distribution mc_uniform
#define default_random_engine mc_engine
#define mt19937 mc_engine
#define mt19937_64 mc_engine
#define minstd_rand mc_engine
#define minstd_rand0 mc_engine
#endif

#include "core/Bootstrapping.h"
#include "core/Event.h"
#include "core/ScoredEvent.h"

using namespace kws::core;
typedef Event<std::string, int> Ref; typedef ScoredEvent<Ref> Hyp; typedef Match<Ref, Hyp> M; typedef std::vector<std::vector<M>> Groups;

// Match number i of group g, recognizable.
static M item(int g, int i) { int id = g * 100 + i; switch ((g + i) % 3) { case 0: return M(Ref("q" + std::to_string(g), id), Hyp(Ref("q" + std::to_string(g), id + 1000), 0.5f + i), MatchError(0, 0)); case 1: return M::MakeFalsePositive(Hyp(Ref("q" + std::to_string(g), id), 0.25f + id)); default: return M::MakeFalseNegative(Ref("q" + std::to_string(g), id)); } }
static Groups groups(const std::vector<int>& sizes) { Groups v; for (size_t g = 0; g < sizes.size(); ++g) { v.emplace_back(); for (int i = 0; i < sizes[g]; ++i) v.back().push_back(item((int)g, i)); } return v; }
static int number(const M& m) { return m.HasRef() ? m.GetRef().Location() : m.GetHyp().Location(); }
static std::vector<int> sizes_of(mc::Ctx& ctx, int maxg, int maxs) { std::vector<int> s; int n = ctx.choose(maxg + 1); for (int i = 0; i < n; ++i) s.push_back(ctx.choose(maxs + 1)); return s; }
static std::string sstr(const std::vector<int>& s) { std::string o = "("; for (int x : s) o += std::to_string(x) + " "; return o + ")"; }
// A resample as a text; fails on what cannot come from the data.
static std::string check_sample(mc::Ctx& ctx, const Groups& data, const Groups& s, std::vector<std::vector<int>>* seen = nullptr) {
  CHECK(s.size() == data.size(), "a resample of %zu groups has %zu", data.size(), s.size()); std::string out;
  for (auto& g : s) {
    int from = -1; if (!g.empty()) from = number(g[0]) / 100; else for (size_t k = 0; k < data.size() && from < 0; ++k) if (data[k].empty()) from = (int)k;
    CHECK(from >= 0 && from < (int)data.size(), "a group of a resample is empty or not from the data"); CHECK(g.size() == data[from].size(), "group %d has %zu matches and its resample %zu", from, data[from].size(), g.size());
    out += "/" + std::to_string(data[from].empty() ? -1 : from); if (seen) (*seen)[from].resize(data[from].size());
    for (auto& m : g) { int id = number(m), i = id % 100; CHECK(id / 100 == from, "a resampled group mixes groups %d and %d", from, id / 100); CHECK(i < (int)data[from].size() && m == data[from][i] && !(m != data[from][i]), "a resample has a match that is not in the data"); out += "," + std::to_string(i); if (seen) (*seen)[from][i]++; }
  }
  return out;
}
#ifdef SCRIPTED
MC_FAMILY(C23_draws, "every outcome of the random draws for every list of up to 3 (thorough: 4) groups of up to 3 matches (at most 60000 outcomes each): the set of resamples is exactly the set of draws with replacement") {
  std::vector<int> sz = sizes_of(ctx, ctx.bound(3, 4), ctx.bound(3, 4)); if (!ctx.mine()) return; ctx.say("groups %s", sstr(sz).c_str()); Groups data = groups(sz), copy = data;
  // what must come out
  std::set<std::string> want, got; want.insert(""); double n = 1; { double a = 0; for (int s : sz) a += std::pow(s, s); for (size_t i = 0; i < sz.size(); ++i) n *= a; } if (n > ctx.bound(60000, 1000000)) return;
  std::vector<std::string> one; for (size_t g = 0; g < sz.size(); ++g) { std::vector<std::string> v = {"/" + std::to_string(sz[g] ? (int)g : -1)}; for (int i = 0; i < sz[g]; ++i) { std::vector<std::string> w; for (auto& x : v) for (int k = 0; k < sz[g]; ++k) w.push_back(x + "," + std::to_string(k)); v.swap(w); } one.insert(one.end(), v.begin(), v.end()); }
  for (size_t i = 0; i < sz.size(); ++i) { std::set<std::string> w; for (auto& x : want) for (auto& y : one) w.insert(x + y); want.swap(w); }
  script::path.clear(); script::arity.clear(); uint64_t h = 0; for (int s : sz) h = mc::mix(h, s); bool any = false; uint64_t runs = 0;
  do { script::pos = 0; MatchesByQuerySampler<Ref, Hyp> sampler(1); Groups s; if (runs & 1) s = groups({2, 1, 1}); script::draws = 0; sampler(data, &s); any |= script::draws > 0; std::string t = check_sample(ctx, data, s); got.insert(t); ctx.compared(); ctx.state(mc::hash_str(t, h)); if (++runs > 3000000) return; } while (script::next());
  for (size_t g = 0; g < data.size(); ++g) for (size_t i = 0; i < data[g].size(); ++i) CHECK(data[g][i] == copy[g][i], "the data are modified");
  ctx.outcome(got.size()); if (!any && want.size() > 1) return;       // other random numbers: see the seeds
  for (auto& w : want) CHECK(got.count(w), "groups %s: the draw %s cannot come out (%zu of %zu can)", sstr(sz).c_str(), w.c_str(), got.size(), want.size());
}
MC_FAMILY(C23_draws_flat, "every outcome of the random draws from 0 to 6 (thorough: 7) matches: exactly the draws with replacement") {
  int n = ctx.choose(ctx.bound(7, 8)); if (!ctx.mine()) return; Groups g = groups({n}); std::vector<M> data = g[0]; std::set<std::string> got; script::path.clear(); script::arity.clear(); bool any = false; uint64_t runs = 0;
  do { script::pos = 0; MatchesSampler<Ref, Hyp> sampler(1); std::vector<M> s; if (runs & 1) s.assign(3, item(7, 7)); script::draws = 0; sampler(data, &s); any |= script::draws > 0; CHECK((int)s.size() == n, "a resample of %d matches has %zu", n, s.size()); std::string t; for (auto& m : s) { int i = number(m); CHECK(i >= 0 && i < n && m == data[i], "a resample has a match that is not in the data"); t += char('0' + i); } got.insert(t); ctx.compared(); ctx.state(mc::hash_str(t)); if (++runs > 3000000) return; } while (script::next());
  double want = std::pow(n, n); if (!any && want > 1) return; CHECK(got.size() == (size_t)want, "%zu of the %g draws of %d matches can come out", got.size(), want, n);
}
MC_FAMILY(C23_draws_twice, "every outcome of two resamples in a row from one sampler: the second does not depend on the first") {
  std::vector<int> sz = sizes_of(ctx, 2, 2); if (!ctx.mine()) return; Groups data = groups(sz); double a = 0, n = 1; for (int s : sz) a += std::pow(s, s); for (size_t i = 0; i < sz.size(); ++i) n *= a; std::set<std::string> got; script::path.clear(); script::arity.clear(); bool any = false; uint64_t runs = 0;
  do { script::pos = 0; MatchesByQuerySampler<Ref, Hyp> sampler(5); Groups s; script::draws = 0; sampler(data, &s); std::string t = check_sample(ctx, data, s); sampler(data, &s); t += "|" + check_sample(ctx, data, s); any |= script::draws > 0; got.insert(t); ctx.compared(); ctx.state(mc::hash_str(t)); if (++runs > 3000000) return; } while (script::next());
  size_t nz = 0; for (int s : sz) nz += s == 0; double one = n; if (nz > 1) return; if (!any && one > 1) return; CHECK(got.size() == (size_t)(one * one), "%zu pairs of resamples of %s can come out, must be %g", got.size(), sstr(sz).c_str(), one * one);
}
// Calls f for every outcome that differs from the first one in at most `bound` draws.
template <class F> static void sparse_runs(int bound, F f) {
  script::sparse = true; uint64_t runs = 0;
  std::function<void(int, size_t)> go = [&](int left, size_t from) {
    script::seen_arity.clear(); f(); if (++runs > 2000000) return;
    if (!left) return; std::vector<size_t> ar = script::seen_arity;
    for (size_t k = from; k < ar.size(); ++k) for (size_t v = 1; v < ar[k]; ++v) { script::dev[k] = v; go(left - 1, k + 1); script::dev.erase(k); }
  };
  script::dev.clear(); go(bound, 0); script::sparse = false; script::dev.clear();
}
MC_FAMILY(C23_draws_large, "1 to 12 groups of 1 to 12 matches (thorough: up to 20): every outcome of the draws that differs from the first one in at most two draws; every group can come out in every place, and every match in every place of its group") {
  int n = 1 + ctx.choose(ctx.bound(12, 20)), s = 1 + ctx.choose(ctx.bound(12, 20)); if (!ctx.mine()) return; if (n > 4 && s > 4 && (n > 7 || s > 7)) return;
  std::vector<int> sz; for (int i = 0; i < n; ++i) sz.push_back(s); Groups data = groups(sz); bool any = false; ctx.say("%d groups of %d matches", n, s);
  std::set<std::pair<int, int>> gp; std::set<std::tuple<int, int, int>> mp;
  sparse_runs(n == 1 ? 1 : 2, [&] { MatchesByQuerySampler<Ref, Hyp> sampler(1); Groups x; script::draws = 0; sampler(data, &x); any |= script::draws > 0; check_sample(ctx, data, x); ctx.compared(); uint64_t h = n * 100 + s;
    for (size_t p = 0; p < x.size(); ++p) { int g = number(x[p][0]) / 100; gp.insert({(int)p, g}); h = mc::mix(h, g); for (size_t i = 0; i < x[p].size(); ++i) { mp.insert(std::make_tuple(g, (int)i, number(x[p][i]) % 100)); h = mc::mix(h, number(x[p][i])); } } ctx.state(h); });
  if (!any && n * s > 1) return;
  for (int p = 0; p < n; ++p) for (int g = 0; g < n; ++g) CHECK(gp.count({p, g}), "%d groups: group %d cannot come out in place %d", n, g, p);
  for (int g = 0; g < n; ++g) for (int i = 0; i < s; ++i) for (int k = 0; k < s; ++k) CHECK(mp.count(std::make_tuple(g, i, k)), "groups of %d matches: match %d of group %d cannot come out in place %d", s, k, g, i);
}
MC_FAMILY(C23_draws_flat_large, "7 to 70 (thorough: 99) matches: every outcome that differs from the first one in one draw; every match can come out in every place") {
  int n = 7 + ctx.choose(ctx.bound(64, 93)); if (!ctx.mine()) return; std::vector<M> data = groups({n})[0]; bool any = false; std::set<std::pair<int, int>> mp;
  sparse_runs(1, [&] { MatchesSampler<Ref, Hyp> sampler(1); std::vector<M> x; script::draws = 0; sampler(data, &x); any |= script::draws > 0; CHECK((int)x.size() == n, "a resample of %d matches has %zu", n, x.size()); uint64_t h = n; for (int i = 0; i < n; ++i) { int k = number(x[i]); CHECK(k >= 0 && k < n && x[i] == data[k], "a resample has a match that is not in the data"); mp.insert({i, k}); h = mc::mix(h, k); } ctx.compared(); ctx.state(h); });
  if (!any) return;
  for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) CHECK(mp.count({i, k}), "%d matches: match %d cannot come out in place %d", n, k, i);
}
#else
static std::vector<double> alphas() { return {0, 0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 1 / 3.0, 0.4, 0.5, 0.6, 2 / 3.0, 0.7, 0.75, 0.8, 0.9, 0.95, 0.99, 1}; }
// The values the bounds may have; several when the position is an integer up to rounding.
static std::vector<double> at(std::vector<double> d, double x) { std::sort(d.begin(), d.end()); std::vector<double> v; long n = (long)d.size(); for (double e : {-1e-9, 0.0, 1e-9}) { long i = (long)std::floor(x * n * (1 + e) + e); v.push_back(d[std::max(0l, std::min(n - 1, i))]); } return v; }
static bool one_of(double x, const std::vector<double>& v) { for (double y : v) if (std::fabs(x - y) <= 1e-12 * (1 + std::fabs(y))) return true; return false; }
static void check_bounds(mc::Ctx& ctx, double obs, const std::vector<double>& stats, double alpha, double lo, double hi) {
  if (stats.empty()) { CHECK(lo == obs && hi == obs, "without replicates the interval is [%.9g, %.9g], must be the point %.9g", lo, hi, obs); return; }
  std::vector<double> d; for (double s : stats) d.push_back(s - obs); std::vector<double> l, u; for (double x : at(d, 1 - alpha / 2)) l.push_back(obs - x); for (double x : at(d, alpha / 2)) u.push_back(obs - x);
  CHECK(one_of(lo, l), "%zu replicates, alpha %g, observed %.9g: the lower bound is %.12g, must be %.12g", stats.size(), alpha, obs, lo, l[1]); CHECK(one_of(hi, u), "%zu replicates, alpha %g, observed %.9g: the upper bound is %.12g, must be %.12g", stats.size(), alpha, obs, hi, u[1]); CHECK(lo <= hi, "alpha %g: the lower bound %.12g is above the upper bound %.12g", alpha, lo, hi);
}
typedef std::vector<double> Data;
struct Scripted { const Data* values; const Data* original; size_t n = 0; bool wrong = false; void operator()(const Data& o, Data* s) { if (o != *original) wrong = true; s->clear(); s->push_back(n < values->size() ? (*values)[n] : 1e9); ++n; } };
static void percentile(mc::Ctx& ctx, double obs, const Data& values, double alpha) {
  Data orig = {obs}; Scripted sm; sm.values = &values; sm.original = &orig; double lo = -77, hi = -77; size_t calls = 0; double v = ComputePercentileBootstrapCI(orig, values.size(), alpha, [&](const Data& d) { ++calls; return d[0]; }, &sm, &lo, &hi);
  ctx.compared(); CHECK(v == obs, "the observed statistic is %.12g, must be %.12g", v, obs); CHECK(sm.n == values.size(), "%zu replicates are drawn, must be %zu", sm.n, values.size()); CHECK(!sm.wrong, "the sampler does not get the original data"); check_bounds(ctx, obs, values, alpha, lo, hi);
}
MC_FAMILY(C23_percentile, "every sequence of up to 6 (thorough: 7) replicates with 5 possible statistics, 3 observed statistics, 19 values of alpha") {
  static const double V[5] = {0, 0.25, 0.5, 0.75, 1}, O[3] = {0.5, 0, 0.3}; int n = ctx.choose(ctx.bound(7, 8)); Data v; for (int i = 0; i < n; ++i) { v.push_back(V[ctx.choose(5)]); if (i == 1 && !ctx.mine()) return; } if (n < 2 && !ctx.mine()) return; uint64_t h = n; for (double x : v) h = mc::mix(h, (uint64_t)(x * 4)); for (double o : O) for (double a : alphas()) { percentile(ctx, o, v, a); } ctx.state(h); ctx.say("%d replicates", n);
}
MC_FAMILY(C23_percentile_many, "1 to 400 (thorough: 3000) distinct replicates in 3 orders, 101 values of alpha") {
  int n = 1 + ctx.choose(ctx.bound(400, 3000)), ord = ctx.choose(3); if (!ctx.mine()) return; Data v; for (int i = 0; i < n; ++i) v.push_back((ord == 0 ? i : ord == 1 ? n - i : (int)((i * 7919LL) % n)) / 1024.0); ctx.state(n * 3 + ord); for (int a = 0; a <= 100; ++a) percentile(ctx, 0.25, v, a / 100.0);
}
MC_FAMILY(C23_percentile_edges, "1 to 300 (thorough: 1500) distinct replicates: alphas that put a position within 1e-6, 1e-5 or 1e-4 of each integer, from either side") {
  int n = 1 + ctx.choose(ctx.bound(300, 1500)); if (!ctx.mine()) return; Data v; for (int i = 0; i < n; ++i) v.push_back((int)((i * 7919LL) % n) / 1024.0); ctx.state(n);
  for (int k = 0; k <= n / 2; ++k) { if (n > 100 && k > 20 && k < n / 2 - 20 && k % 7) continue; for (double e : {-1e-4, -1e-5, -1e-6, 1e-6, 1e-5, 1e-4}) { double a = 2 * (k + e) / n; if (a < 0 || a > 1) continue; percentile(ctx, 0.25, v, a); } }
}
// ---- with the real random numbers -----------------------------------------
MC_FAMILY(C23_seeds, "every list of up to 3 groups of 1 to 4 matches: seeds 0 to 399 together draw every group and every match, from the data only; the same seed draws the same, whatever was drawn before") {
  int n = ctx.choose(4); std::vector<int> sz; for (int i = 0; i < n; ++i) sz.push_back(1 + ctx.choose(4)); if (!ctx.mine()) return; Groups data = groups(sz); std::vector<std::vector<int>> seen(n); std::set<std::string> all; uint64_t h = 0; for (int s : sz) h = mc::mix(h, s);
  for (int seed = 0; seed < 400; ++seed) { MatchesByQuerySampler<Ref, Hyp> a(seed), b(seed); Groups x, y, z; a(data, &x); { MatchesByQuerySampler<Ref, Hyp> c(seed + 1); c(data, &z); } b(data, &y); std::string t = check_sample(ctx, data, x, &seen), u = check_sample(ctx, data, y); CHECK(t == u, "seed %d draws %s, then %s", seed, t.c_str(), u.c_str()); a(data, &x); b(data, &y); CHECK(check_sample(ctx, data, x, &seen) == check_sample(ctx, data, y), "seed %d: the second resamples differ", seed); all.insert(t); ctx.compared(2); ctx.state(mc::hash_str(t, h)); }
  for (int g = 0; g < n; ++g) { CHECK((int)seen[g].size() == sz[g], "group %d of %d is never drawn", g, n); for (int i = 0; i < sz[g]; ++i) CHECK(seen[g][i] > 0, "match %d of %d of group %d is never drawn", i, sz[g], g); } double poss = 1, a = 0; for (int s : sz) a += std::pow(s, s); for (int i = 0; i < n; ++i) poss *= a; if (poss >= 4) CHECK(all.size() > 1, "all seeds draw the same: %s", all.begin()->c_str());
}
MC_FAMILY(C23_seeds_flat, "0 to 9 matches: seeds 0 to 399 together draw every match, from the data only; the same seed draws the same") {
  int n = ctx.choose(10); if (!ctx.mine()) return; std::vector<M> data = groups({n})[0]; std::set<int> seen; for (int seed = 0; seed < 400; ++seed) { MatchesSampler<Ref, Hyp> a(seed), b(seed); std::vector<M> x, y; a(data, &x); b(data, &y); CHECK((int)x.size() == n && (int)y.size() == n, "a resample of %d matches has %zu", n, x.size()); for (int i = 0; i < n; ++i) { int k = number(x[i]); CHECK(k >= 0 && k < n && x[i] == data[k], "a resample has a match that is not in the data"); CHECK(number(y[i]) == k, "seed %d draws differently the second time", seed); seen.insert(k); } ctx.compared(2); ctx.state(seed * 10 + n); } CHECK((int)seen.size() == n, "%zu of the %d matches are drawn", seen.size(), n);
}
MC_FAMILY(C23_seeds_large, "1 to 40 groups of 1 to 40 matches, and one group or groups of up to 99: 40 resamples of seeds 0 to 9 together draw every group and every match") {
  int n = 1 + ctx.choose(42), s = 1 + ctx.choose(42); if (n > 40) n = n == 41 ? 64 : 99; if (s > 40) s = s == 41 ? 64 : 99; if (!ctx.mine()) return; if (n * s > 900) return;
  std::vector<int> sz; for (int i = 0; i < n; ++i) sz.push_back(s); Groups data = groups(sz); std::vector<std::vector<int>> seen(n); ctx.state(n * 1000 + s); ctx.say("%d groups of %d matches", n, s);
  for (int seed = 0; seed < 10; ++seed) { MatchesByQuerySampler<Ref, Hyp> a(seed); for (int k = 0; k < 40; ++k) { Groups x; a(data, &x); check_sample(ctx, data, x, &seen); ctx.compared(); } }
  // even 1 of 400 draws of 99 leaves nothing out, except with a probability below 1e-150
  for (int g = 0; g < n; ++g) { CHECK((int)seen[g].size() == s, "group %d of %d is never drawn", g, n); for (int i = 0; i < s; ++i) CHECK(seen[g][i] > 0, "match %d of %d of group %d is never drawn", i, s, g); }
}
MC_FAMILY(C23_seeds_huge, "one group of n matches, n groups of one match, and n/2 of two, n from 256 to 131073, with 3 seeds, and n matches without groups: the matches beyond every power of two and of every sixteenth are drawn, from the data only, and groups are not torn apart") {
  static const int N[] = {256, 257, 300, 1000, 1024, 4096, 4097, 10000, 16384, 32767, 32768, 33500, 65535, 65536, 67000, 70000, 100000, 131073}; int n = N[ctx.choose(18)], how = ctx.choose(4); if (!ctx.mine()) return; ctx.say("%d matches, %s", n, how == 0 ? "one group" : how == 1 ? "groups of one" : how == 2 ? "groups of two" : "no groups");
  Groups data; auto mk = [](int i) { return i % 3 ? M::MakeFalsePositive(Hyp(Ref("q", i), 0.25f + i % 7)) : M::MakeFalseNegative(Ref("q", i)); }; int per = how == 1 ? 1 : how == 2 ? 2 : n; if (n % per) ++n; for (int i = 0; i < n; i += per) { data.emplace_back(); for (int k = 0; k < per; ++k) data.back().push_back(mk(i + k)); }
  std::vector<char> seen(n, 0);
  for (int seed = 0; seed < 3; ++seed) {
    Groups s; if (how == 3) { MatchesSampler<Ref, Hyp> a(seed); s.emplace_back(); a(data[0], &s[0]); } else { MatchesByQuerySampler<Ref, Hyp> a(seed); a(data, &s); } ctx.compared(); ctx.state(mc::mix(n * 4 + how, seed));
    CHECK(s.size() == data.size(), "a resample of %zu groups has %zu", data.size(), s.size());
    for (auto& g : s) { CHECK((int)g.size() == per, "the resample of a group of %d matches has %zu", per, g.size()); int from = number(g[0]) / per; for (auto& m : g) { int i = number(m); CHECK(i >= 0 && i < n && i / per == from && m == mk(i), "a resample has a match that is not in the data of its group"); seen[i] = 1; } }
  }
  // 3 n draws leave out a hundredth of the matches with a probability below 1e-3n/100
  auto some = [&](int a, int b) { if (b - a < std::max(60, n / 100)) return; bool any = false; for (int i = a; i < b; ++i) any |= seen[i]; CHECK(any, "none of the matches %d to %d of %d is drawn", a, b - 1, n); };
  for (int p = 128; p < n; p *= 2) { some(p, n); some(0, p); } for (int k = 0; k < 16; ++k) some((int)((long long)n * k / 16), (int)((long long)n * (k + 1) / 16));
  if (n > 1000) { std::set<int> odd; for (int r = 0; r < 2; ++r) { bool any = false; for (int i = r; i < n; i += 2) any |= seen[i]; CHECK(any, "only every second match is drawn"); } }
}
MC_FAMILY(C23_percentile_huge, "4096 to 131073 distinct replicates in 3 orders, 21 values of alpha") {
  static const int N[] = {4096, 10000, 32768, 32769, 65535, 65536, 65537, 70001, 100000, 131073}; int n = N[ctx.choose(ctx.bound(8, 10))], ord = ctx.choose(3); if (!ctx.mine()) return; Data v; for (int i = 0; i < n; ++i) v.push_back((ord == 0 ? i : ord == 1 ? n - i : (int)((i * 7919LL) % n)) / 1048576.0); ctx.state(n * 3 + ord); for (int a = 0; a <= 20; ++a) percentile(ctx, 0.25, v, a / 20.0);
}
static double stat(const Groups& g) { double s = 0; int i = 0; for (auto& v : g) { double t = 0; for (auto& m : v) t += m.HasRef() ? number(m) % 100 + 1 : -number(m) % 100 * 0.5; s += t * (1 + 0.125 * i++); } return s; }
MC_FAMILY(C23_interval, "every list of up to 3 groups of up to 3 matches x 7 numbers of replicates x 12 values of alpha x 8 seeds: the interval is the one of the resamples that were evaluated, and the same every time") {
  std::vector<int> sz = sizes_of(ctx, 3, 3); int r = ctx.choose(7); if (!ctx.mine()) return; static const size_t R[7] = {0, 1, 2, 3, 10, 39, 200}; static const double A[12] = {0, 0.01, 0.05, 0.1, 0.25, 1 / 3.0, 0.5, 0.6, 0.75, 0.9, 0.99, 1}; static const size_t SEED[8] = {0, 1, 2, 0x12345, 0x12346, 4294967295u, 4294967296u, 18446744073709551615u};
  Groups data = groups(sz); uint64_t h = r; for (int s : sz) h = mc::mix(h, s); double obs = stat(data);
  for (double al : A) for (size_t seed : SEED) {
    std::vector<double> rec; std::string seq, seq2; auto st = [&](const Groups& g) { seq += check_sample(ctx, data, g) + "|"; double v = stat(g); rec.push_back(v); return v; };
    double lo = -77, hi = -77, lo2 = -77, hi2 = -77; double v = ComputePercentileBootstrapCI(data, R[r], al, seed, st, &lo, &hi); ctx.compared(); CHECK(std::fabs(v - obs) < 1e-12, "the observed statistic is %.12g, must be %.12g", v, obs);
    CHECK(rec.size() == R[r] + 1, "%zu statistics are computed, must be the observed one and %zu replicates", rec.size(), R[r]); size_t k = 0; while (k < rec.size() && rec[k] != obs) ++k; CHECK(k < rec.size(), "the statistic of the data is not computed"); rec.erase(rec.begin() + k); check_bounds(ctx, obs, rec, al, lo, hi);
    { std::string keep = seq; seq.clear(); double x, y; ComputePercentileBootstrapCI(data, 3, 0.5, seed + 1, st, &x, &y); seq.clear(); ComputePercentileBootstrapCI(data, R[r], al, seed, st, &lo2, &hi2); CHECK(seq == keep && lo == lo2 && hi == hi2, "the same data, seed, alpha and number of replicates give [%.9g, %.9g] and then [%.9g, %.9g]", lo, hi, lo2, hi2); }
    ctx.state(mc::mix(mc::mix(h, seed), (uint64_t)(al * 1000)));
  }
}
MC_FAMILY(C23_seeds_differ, "lists of 2 to 4 groups of 4 to 6 matches: among seeds 0 to 49 the resamples are not all the same, and replicates of one run differ") {
  int n = 2 + ctx.choose(3); std::vector<int> sz; for (int i = 0; i < n; ++i) sz.push_back(4 + ctx.choose(3)); if (!ctx.mine()) return; Groups data = groups(sz); std::set<std::string> all; uint64_t h = 9; for (int s : sz) h = mc::mix(h, s); ctx.state(h);
  for (int seed = 0; seed < 50; ++seed) { std::set<std::string> one; double lo, hi; ComputePercentileBootstrapCI(data, 20, 0.1, seed, [&](const Groups& g) { one.insert(check_sample(ctx, data, g)); return stat(g); }, &lo, &hi); ctx.compared(); CHECK(one.size() > 10, "seed %d: 20 replicates are only %zu different ones", seed, one.size()); all.insert(one.begin(), one.end()); } CHECK(all.size() > 500, "1000 replicates of 50 seeds are only %zu different ones", all.size());
}
#endif
