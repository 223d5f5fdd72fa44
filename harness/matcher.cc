// C03, C04: the matcher itself, through its public interface.
#include "mc.h"
#include "oracle.h"

#include "core/DocumentBoundingBox.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
#include "matcher/SimpleMatcher.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"

using namespace kws::core;
using kws::matcher::SimpleMatcher;
using kws::scorer::Scorer;

typedef ShapedEvent<std::string, DocumentBoundingBox<uint32_t>> BRef;
typedef ScoredEvent<BRef> BHyp;
typedef Event<int32_t, int32_t> IRef;
typedef ScoredEvent<IRef> IHyp;

// A scorer given by a table: whether a reference is acceptable for a hypothesis
// does not follow from the geometry, only from the sizes of both.
struct TableScorer : public Scorer<BRef, BHyp> {
  bool ok[4][4];
  MatchError operator()(const BRef& r, const BHyp& h) override {
    return ok[r.Location().h - 10][(int)h.Score() % 4] ? MatchError{0.f, 0.f} : MatchError{1.f, 1.f};
  }
};
// Accepts fractionally.
struct SumScorer : public Scorer<BRef, BHyp> {
  MatchError operator()(const BRef& r, const BHyp& h) override {
    float f = ((r.Location().x + h.Location().x) % 3) / 2.0f;       // 0, 0.5, 1
    return MatchError{f, f};
  }
};

static std::string str(const BRef& r) { std::ostringstream o; o << r.Query() << " " << r.Location().document << " " << r.Location().x << " " << r.Location().y << " " << r.Location().w << " " << r.Location().h; return o.str(); }
static std::string str(const IRef& r) { return std::to_string(r.Query()) + " " + std::to_string(r.Location()); }
template <class H> static std::string hstr(const H& h) { return str(h) + " @" + std::to_string(h.Score()); }

static uint64_t overlap(const BRef& r, const BHyp& h) {
  if (r.Query() != h.Query() || r.Location().document != h.Location().document) return 0;
  auto b = [](const DocumentBoundingBox<uint32_t>& x) { return ora::Box{x.x, x.y, x.w, x.h}; };
  return ora::inter(b(r.Location()), b(h.Location()));
}
static uint64_t overlap(const IRef& r, const IHyp& h) { return r.Query() == h.Query() && r.Location() == h.Location(); }

// Keys that tell the distinct events apart.
template <class R> static std::string key(const R& r) { return str(r); }

// Demands the accounting (C03) or the greedy choice (C04) of one result.
template <class R, class H>
static void judge(mc::Ctx& ctx, const std::vector<R>& refs, const std::vector<H>& hyps, SimpleMatcher<R, H>& m,
                  const typename SimpleMatcher<R, H>::Result& res, Scorer<R, H>& sc, bool greedy) {
  auto acceptable = [&](const R& r, const H& h) { return overlap(r, h) > 0 && sc(r, h).FP() < 1.0f; };
  std::set<std::string> all; std::map<std::string, R> byname;
  for (auto& r : refs) { all.insert(key(r)); byname.insert({key(r), r}); }
  std::map<std::string, int> refseen; std::map<std::string, int> hypout, hypin;
  for (auto& h : hyps) hypin[hstr(h)]++;
  uint64_t oc = 0;
  for (auto& x : res) {
    bool hr = x.HasRef(), hh = x.HasHyp();
    oc = mc::mix(oc, hr * 2 + hh);
    CHECK(hr || hh, "a match with neither a reference nor a hypothesis");
    if (hr) { CHECK(all.count(key(x.GetRef())), "reference %s was never given", str(x.GetRef()).c_str()); refseen[key(x.GetRef())]++; }
    if (hh) { hypout[hstr(x.GetHyp())]++; CHECK(hypin.count(hstr(x.GetHyp())), "hypothesis %s was never given", hstr(x.GetHyp()).c_str()); }
    if (hr && hh) {
      CHECK(acceptable(x.GetRef(), x.GetHyp()), "hit between %s and %s, which the scorer does not accept", str(x.GetRef()).c_str(), hstr(x.GetHyp()).c_str());
      CHECK(x.GetError() == sc(x.GetRef(), x.GetHyp()), "the error of a hit is not the one of the scorer");
    } else if (hr) CHECK(x.GetError().FP() == 0.f && x.GetError().FN() == 1.f && x.GetError().NH() == 0 && x.GetError().NR() == 1, "wrong counts in a missed reference");
    else CHECK(x.GetError().FP() == 1.f && x.GetError().FN() == 0.f && x.GetError().NH() == 1 && x.GetError().NR() == 0, "wrong counts in a false positive");
  }
  ctx.outcome(oc);
  for (auto& k : all) CHECK(refseen[k] == 1, "reference %s appears %d times in the result", k.c_str(), refseen[k]);
  for (auto& k : hypout) CHECK(k.second <= hypin[k.first], "hypothesis %s given %d times appears %d times", k.first.c_str(), hypin[k.first], k.second);

  // Follow the ranking, with the choices that were made.
  std::map<std::string, bool> taken; size_t pos = 0; std::map<std::string, int> repeated_need;
  std::set<std::pair<std::string, std::string>> rep_allowed;
  for (auto& h : hyps) {
    std::vector<const R*> cand; uint64_t best = 0; bool any = false;
    for (auto& kv : byname) if (acceptable(kv.second, h)) {
      any = true;
      if (!taken[kv.first]) { cand.push_back(&kv.second); best = std::max(best, overlap(kv.second, h)); }
      else rep_allowed.insert({kv.first, hstr(h)});
    }
    if (any && cand.empty()) { repeated_need[hstr(h)]++; continue; }       // ignored
    CHECK(pos < res.size() && res[pos].HasHyp() && hstr(res[pos].GetHyp()) == hstr(h),
              "hypothesis %s (%s) is not in its place in the result", hstr(h).c_str(), any ? "acceptable for a free reference" : "a false positive");
    const auto& x = res[pos++];
    if (!any) { CHECK(!x.HasRef(), "hypothesis %s has no acceptable reference and got one", hstr(h).c_str()); continue; }
    CHECK(x.HasRef(), "hypothesis %s is a false positive although a free reference is acceptable", hstr(h).c_str());
    std::string k = key(x.GetRef());
    CHECK(!taken[k], "reference %s was taken twice", k.c_str());
    if (greedy) CHECK(overlap(x.GetRef(), h) == best, "hypothesis %s took a reference with overlap %llu, a free one has %llu", hstr(h).c_str(),
                          (unsigned long long)overlap(x.GetRef(), h), (unsigned long long)best);
    taken[k] = true;
  }
  for (; pos < res.size(); ++pos) CHECK(!res[pos].HasHyp(), "unexpected hypothesis %s at the end of the result", hstr(res[pos].GetHyp()).c_str());
  if (!greedy) {
    std::map<std::string, int> rep;
    for (auto& x : m.GetRepeatedMatches()) {
      CHECK(x.HasRef() && x.HasHyp(), "a repeated match lacks a side");
      CHECK(rep_allowed.count({key(x.GetRef()), hstr(x.GetHyp())}), "repeated match of %s with %s, which was not taken earlier", hstr(x.GetHyp()).c_str(), str(x.GetRef()).c_str());
      rep[hstr(x.GetHyp())]++;
    }
    for (auto& n : repeated_need) CHECK(rep[n.first] >= n.second, "ignored hypothesis %s is not among the repeated matches", n.first.c_str());
  }
}

template <class R, class H>
static void describe(mc::Ctx& ctx, const std::vector<R>& refs, const std::vector<H>& hyps) {
  if (!ctx.describing()) return;
  for (auto& r : refs) ctx.say("ref %s", str(r).c_str());
  for (auto& h : hyps) ctx.say("hyp %s", hstr(h).c_str());
}
template <class R, class H>
static uint64_t hash(const std::vector<R>& refs, const std::vector<H>& hyps, int salt) {
  uint64_t s = salt; for (auto& r : refs) s = mc::hash_str(str(r), s); s = mc::mix(s, 9); for (auto& h : hyps) s = mc::hash_str(hstr(h), s); return s;
}

static BRef box(const std::string& q, const std::string& d, int x, int y, int w, int h) { return BRef(q, DocumentBoundingBox<uint32_t>(d, x, y, w, h)); }
static const std::vector<BRef>& pool() {
  static const std::vector<BRef> p = {box("q", "d", 0, 0, 4, 2), box("q", "d", 1, 0, 4, 2), box("q", "d", 3, 0, 4, 2), box("q", "d", 0, 0, 2, 2), box("q", "d", 2, 1, 2, 2),
                                      box("q", "e", 0, 0, 4, 2), box("r", "d", 0, 0, 4, 2), box("q", "d", 0, 0, 8, 4)};
  return p;
}

static void geometric_on(mc::Ctx& ctx, bool greedy, const std::vector<BRef>& P, int maxr, int maxh) {
  std::vector<BRef> refs; std::vector<BHyp> hyps;
  // sequences: duplicates and every order
  for (int i = 0; i < maxr; ++i) { int c = ctx.choose((int)P.size() + 1); if (c == 0) break; refs.push_back(P[c - 1]); }
  int which = ctx.choose(5);
  if (!ctx.mine()) return;
  for (int i = 0; i < maxh; ++i) { int c = ctx.choose((int)P.size() + 1); if (c == 0) break; hyps.push_back(BHyp(P[c - 1], 1.0f - 0.25f * i)); }
  kws::scorer::IntersectionOverHypothesisAreaScorer<BRef, BHyp> a(0.5), b(0.125); kws::scorer::IntersectionOverUnionAreaScorer<BRef, BHyp> c(0.5);
  kws::scorer::SoftIntersectionOverHypothesisAreaScorer<BRef, BHyp> d; SumScorer e;
  Scorer<BRef, BHyp>* sc[5] = {&a, &b, &c, &d, &e};
  describe(ctx, refs, hyps); ctx.say("scorer %d", which);
  ctx.state(hash(refs, hyps, which));
  SimpleMatcher<BRef, BHyp> m(sc[which]);
  auto res = m.Match(refs, hyps); ctx.compared();
  judge(ctx, refs, hyps, m, res, *sc[which], greedy);
}
static void geometric(mc::Ctx& ctx, bool greedy) { geometric_on(ctx, greedy, pool(), ctx.bound(3, 4), 3); }
// The same at other places of the plane and in other sizes; areas below 2^24.
static void scaled(mc::Ctx& ctx, bool greedy) {
  static const long long tr[][4] = {{3, 1000, 0, 0}, {129, 1, 65535, 3}, {1, 257, 2147483647LL - 4, 2147483647LL}, {90, 93, 16777215, 16777216}, {257, 255, 1, 70000}, {700, 700, 4294967295LL - 5600, 4294967295LL - 2800}, {1, 1, 4294967295LL - 8, 4294967295LL - 4}, {500000, 1, 0, 65533}, {1, 500000, 9, 0}};
  const auto& t = tr[ctx.choose(9)]; std::vector<BRef> P;
  for (auto& r : pool()) { auto l = r.Location(); P.push_back(BRef(r.Query(), DocumentBoundingBox<uint32_t>(l.document, l.x * t[0] + t[2], l.y * t[1] + t[3], l.w * t[0], l.h * t[1]))); }
  geometric_on(ctx, greedy, P, ctx.bound(2, 3), 2);
}
// Large boxes that differ by one row or column: overlaps that differ by little.
static void close_by(mc::Ctx& ctx, bool greedy) {
  static const std::vector<BRef> P = {box("q", "d", 10, 10, 4000, 4000), box("q", "d", 10, 10, 4000, 3999), box("q", "d", 10, 10, 3999, 4000), box("q", "d", 11, 10, 4000, 4000), box("q", "d", 10, 11, 3999, 3999), box("q", "d", 2010, 10, 4000, 4000), box("q", "d", 2009, 10, 4000, 4000), box("q", "d", 10, 10, 4001, 3999), box("q", "d", 10, 10, 4095, 4096)};
  geometric_on(ctx, greedy, P, ctx.bound(2, 3), 2);
}
MC_FAMILY(C03_geometry, "every sequence of <=3 (thorough 4) references and <=3 hypotheses over 8 boxes (2 queries, 2 documents), 5 scorers: accounting") { geometric(ctx, false); }
MC_FAMILY(C04_geometry, "the same inputs: order of the choices, largest free overlap") { geometric(ctx, true); }

MC_FAMILY(C03_scaled, "every sequence of <=2 (thorough 3) references and <=2 hypotheses over the 8 boxes at 9 places and sizes up to the end of the range, 5 scorers: accounting") { scaled(ctx, false); }
MC_FAMILY(C04_scaled, "the same inputs: choice") { scaled(ctx, true); }
MC_FAMILY(C03_close, "every sequence of <=2 (thorough 3) references and <=2 hypotheses over 9 boxes of 16 million pixels that differ by a row or column, 5 scorers: accounting") { close_by(ctx, false); }
MC_FAMILY(C04_close, "the same inputs: choice") { close_by(ctx, true); }

MC_FAMILY(C03_same, "every sequence of <=2 references over 3 boxes and of <=7 (thorough 8) hypotheses of 3 different ones, equal ones any number of times: accounting") {
  std::vector<BRef> refs; std::vector<BHyp> hyps; for (int i = 0; i < 2; ++i) { int c = ctx.choose(4); if (c == 3) break; refs.push_back(pool()[c]); } int n = ctx.choose(ctx.bound(8, 9)); if (!ctx.mine()) return;
  for (int i = 0; i < n; ++i) { int c = ctx.choose(3); hyps.push_back(BHyp(pool()[c / 2], c == 1 ? 0.5f : 1.0f)); }
  kws::scorer::IntersectionOverHypothesisAreaScorer<BRef, BHyp> sc(0.5); describe(ctx, refs, hyps); ctx.state(hash(refs, hyps, 3)); SimpleMatcher<BRef, BHyp> m(&sc); auto res = m.Match(refs, hyps); ctx.compared(); judge(ctx, refs, hyps, m, res, sc, false);
}
static void table(mc::Ctx& ctx, bool greedy) {
  TableScorer sc; int nr = 1 + ctx.choose(3), nh = 1 + ctx.choose(3); memset(sc.ok, 0, sizeof sc.ok);
  for (int r = 0; r < nr; ++r) for (int h = 0; h < nh; ++h) { sc.ok[r][h] = ctx.flip(); if (r == 1 && h == 0 && !ctx.mine()) return; }
  if (nr == 1 && !ctx.mine()) return;
  std::vector<BRef> refs; std::vector<BHyp> hyps;
  for (int r = 0; r < nr; ++r) { int x = ctx.choose(3); refs.push_back(box("q", "d", 4 * x, 0, 12, 10 + r)); }   // overlap decided by x
  for (int h = 0; h < nh; ++h) { int x = ctx.choose(2); hyps.push_back(BHyp(box("q", "d", 8 * x, 0, 12, 40), (float)h)); }
  describe(ctx, refs, hyps);
  if (ctx.describing()) for (int r = 0; r < nr; ++r) for (int h = 0; h < nh; ++h) ctx.say("accept ref %d hyp %d: %d", r, h, sc.ok[r][h]);
  uint64_t t = 0; for (int r = 0; r < 3; ++r) for (int h = 0; h < 3; ++h) t = t * 2 + sc.ok[r][h];
  ctx.state(hash(refs, hyps, (int)t));
  SimpleMatcher<BRef, BHyp> m(&sc);
  auto res = m.Match(refs, hyps); ctx.compared();
  judge(ctx, refs, hyps, m, res, sc, greedy);
}
MC_FAMILY(C03_relations, "every acceptance relation between <=3 references and <=3 hypotheses, every relative overlap: accounting") { table(ctx, false); }
MC_FAMILY(C04_relations, "every acceptance relation between <=3 references and <=3 hypotheses, every relative overlap: choice") { table(ctx, true); }

static void plain(mc::Ctx& ctx, bool greedy) {
  std::vector<IRef> refs; std::vector<IHyp> hyps;
  for (int i = 0; i < 4; ++i) { int c = ctx.choose(5); if (c == 0) break; refs.push_back(IRef((c - 1) / 2, (c - 1) % 2)); }
  if (!ctx.mine()) return;
  for (int i = 0; i < ctx.bound(4, 5); ++i) { int c = ctx.choose(6); if (c == 0) break; if (c == 5) hyps.push_back(IHyp(7, 1, 1.0f)); else hyps.push_back(IHyp((c - 1) / 2, (c - 1) % 2, 4.0f - i)); }
  kws::scorer::TrivialScorer<IRef, IHyp> sc; SimpleMatcher<IRef, IHyp> m(&sc);
  describe(ctx, refs, hyps); ctx.state(hash(refs, hyps, 0));
  auto res = m.Match(refs, hyps); ctx.compared();
  judge(ctx, refs, hyps, m, res, sc, greedy);
}
MC_FAMILY(C03_plain, "every sequence of <=4 references and <=4 (thorough 5) hypotheses without shapes over 4 objects: accounting") { plain(ctx, false); }
MC_FAMILY(C04_plain, "the same inputs: order") { plain(ctx, true); }

// Reuse of one matcher.
typedef std::pair<std::vector<BRef>, std::vector<BHyp>> Prob;
static std::vector<Prob> problems() {
  const auto& P = pool(); std::vector<Prob> v;
  auto H = [&](int i, float s) { return BHyp(P[i], s); };
  v.push_back({{}, {}}); v.push_back({{P[0]}, {}}); v.push_back({{}, {H(0, 1)}}); v.push_back({{P[0]}, {H(0, 1)}});
  v.push_back({{P[1]}, {H(0, 1), H(1, .5)}}); v.push_back({{P[0], P[1]}, {H(0, 1), H(0, .5), H(0, .25)}});
  v.push_back({{P[5], P[6]}, {H(5, 1), H(6, .5), H(0, .25)}}); v.push_back({{P[0], P[5]}, {H(6, 1)}});
  v.push_back({{P[7]}, {H(0, 1), H(1, .5), H(2, .25)}}); v.push_back({{P[2], P[3], P[4]}, {H(7, 1), H(4, .5)}});
  v.push_back({{P[0], P[0], P[0]}, {H(0, 1)}});
  return v;
}
template <class Res> static std::string show(const Res& r) {
  std::string s;
  for (auto& x : r) { if (x.HasHyp()) s += "H " + hstr(x.GetHyp()); if (x.HasRef()) s += " R " + str(x.GetRef()); s += " " + std::to_string(x.GetError().FP()) + "\n"; }
  return s;
}
MC_FAMILY(C03_reuse, "every sequence of 3 (thorough 4) calls on one matcher over 11 problems, in lists of their own or in one list that is changed in place: each result equals that of a new matcher") {
  static const std::vector<Prob> pr = problems();
  kws::scorer::IntersectionOverHypothesisAreaScorer<BRef, BHyp> sc(0.5); SimpleMatcher<BRef, BHyp> m(&sc);
  int n = ctx.bound(3, 4); std::vector<int> c; for (int i = 0; i < n; ++i) { c.push_back(ctx.choose((int)pr.size())); if (i == 0 && !ctx.mine()) return; }
  bool custom = ctx.flip(), inplace = ctx.flip(); uint64_t st = custom + 2 * inplace; std::vector<BRef> rl; std::vector<BHyp> hl; rl.reserve(8); hl.reserve(8);
  SimpleMatcher<BRef, BHyp> m2(&sc, new EventSet<BRef>()); SimpleMatcher<BRef, BHyp>& mm = custom ? m2 : m;
  for (int i : c) {
    st = mc::mix(st, i); ctx.state(st);
    rl = pr[i].first; hl = pr[i].second; auto got = inplace ? mm.Match(rl, hl) : mm.Match(pr[i].first, pr[i].second); SimpleMatcher<BRef, BHyp> f(&sc); auto want = f.Match(pr[i].first, pr[i].second);
    ctx.compared(); ctx.say("problem %d", i);
    CHECK(show(got) == show(want), "problem %d on a used matcher gives\n%sa new one gives\n%s", i, show(got).c_str(), show(want).c_str());
    CHECK(show(mm.GetRepeatedMatches()) == show(f.GetRepeatedMatches()), "problem %d on a used matcher: other repeated matches", i);
    judge(ctx, pr[i].first, pr[i].second, mm, got, sc, false);
  }
}
// Many references and hypotheses at once.
static void many(mc::Ctx& ctx, bool greedy) {
  static const int ns[] = {5, 8, 16, 17, 33, 64, 100, 300}; int n = ns[ctx.choose(8)]; int stepi = ctx.choose(5), w = ctx.choose(4); if (!ctx.mine()) return;
  int ord = ctx.choose(4), hs = ctx.choose(4), which = ctx.choose(3);
  std::vector<BRef> refs; std::vector<BHyp> hyps;
  for (int i = 0; i < n; ++i) { int j = ord % 2 ? n - 1 - i : (i * 7) % n; refs.push_back(box("q" + std::to_string(j % (1 + ord)), "d" + std::to_string(j % 2), 1 + j * stepi, j % 3, 3 + 2 * w, 4)); }
  for (int i = 0; i < n + n / 2; ++i) { int j = (i * 11 + hs) % n; hyps.push_back(BHyp(box("q" + std::to_string(j % (1 + ord)), "d" + std::to_string(j % 2), 1 + j * stepi + hs, j % 3, 3 + 2 * w, 4), 1.0f / (i + 1))); }
  kws::scorer::IntersectionOverHypothesisAreaScorer<BRef, BHyp> a(0.5); kws::scorer::IntersectionOverUnionAreaScorer<BRef, BHyp> c(0.3); kws::scorer::SoftIntersectionOverHypothesisAreaScorer<BRef, BHyp> d;
  Scorer<BRef, BHyp>* sc[3] = {&a, &c, &d};
  describe(ctx, refs, hyps); ctx.state(hash(refs, hyps, which));
  SimpleMatcher<BRef, BHyp> m(sc[which]); auto res = m.Match(refs, hyps); ctx.compared();
  judge(ctx, refs, hyps, m, res, *sc[which], greedy);
}
MC_FAMILY(C03_many, "grids of 5..300 overlapping references and 1.5 times as many hypotheses, 5 spacings x 4 sizes x 4 orders x 4 offsets x 3 scorers: accounting") { many(ctx, false); }
MC_FAMILY(C04_many, "the same grids: choice") { many(ctx, true); }
// Crowds: many references acceptable for one hypothesis, taken one after another.
static void crowd(mc::Ctx& ctx, bool greedy) {
  std::vector<int> ns; for (int i = 1; i <= ctx.bound(40, 70); ++i) ns.push_back(i); for (int i : {64, 65, 128, 129, 200, 257}) ns.push_back(i);
  int n = ns[ctx.choose((int)ns.size())], ord = ctx.choose(3); if (!ctx.mine()) return; int eq = ctx.choose(5), extra = ctx.choose(3), which = ctx.choose(2);
  std::vector<BRef> refs; std::vector<BHyp> hyps;
  for (int k = 0; k < n; ++k) { int i = ord == 0 ? k : ord == 1 ? n - 1 - k : (int)((k * 7919LL) % n); int g = eq == 0 ? i : eq == 1 ? i / 2 : i % 3; if (eq > 2) { /* from a sliver to all of it */ refs.push_back(eq == 3 ? box("q", "d", 10, 10, 1 + i * 2, 400) : box("q", "d", 10 + (i % 2) * 300, 10, 1 + i, 1 + i)); continue; } refs.push_back(box("q", "d", 10, 10, 600 + g, 400 + (eq ? i : 0))); }
  // all the same place, or each one a little smaller
  for (int k = 0; k < n + extra; ++k) hyps.push_back(BHyp(box("q", "d", 10, 10 + (extra == 1 ? k % 4 : 0), 590 + (extra == 2 ? 400 : 0) - (n % 2 ? k : 0), 400), 1000.0f - k));
  kws::scorer::IntersectionOverHypothesisAreaScorer<BRef, BHyp> a(0.5); kws::scorer::SoftIntersectionOverHypothesisAreaScorer<BRef, BHyp> d; Scorer<BRef, BHyp>* sc[2] = {&a, &d};
  describe(ctx, refs, hyps); ctx.state(hash(refs, hyps, which));
  SimpleMatcher<BRef, BHyp> m(sc[which]); auto res = m.Match(refs, hyps); ctx.compared();
  judge(ctx, refs, hyps, m, res, *sc[which], greedy);
}
MC_FAMILY(C03_crowd, "n references around one place, n in 1..40 (thorough 1..70) and up to 257, in 3 orders, with overlaps that are equal, near or from a sliver to all of it, and n..n+2 hypotheses taking them one after another, 2 scorers: accounting") { crowd(ctx, false); }
MC_FAMILY(C04_crowd, "the same crowds: choice") { crowd(ctx, true); }
