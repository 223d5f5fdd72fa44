// C06, C07: areas of boxes and decisions of the scorers.
#include "mc.h"
#include "oracle.h"

#include "core/DocumentBoundingBox.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"

using namespace kws::core;
using ora::Box;

// Areas by counting, the most naive way: the cells of both boxes.
static long long cells(const Box& a, const Box& b) {
  long long n = 0;
  for (long long x = a.x; x < a.x + a.w; ++x) for (long long y = a.y; y < a.y + a.h; ++y)
    if (x >= b.x && x < b.x + b.w && y >= b.y && y < b.y + b.h) ++n;
  return n;
}
template <class T> static T times(long long v, double s) { return s == 1 ? (T)v : (T)(v * s); }   // exact when s is 1
template <class T> static BoundingBox<T> bb(const Box& b, double s = 1) { return BoundingBox<T>(times<T>(b.x, s), times<T>(b.y, s), times<T>(b.w, s), times<T>(b.h, s)); }
template <class T> static DocumentBoundingBox<T> db(const std::string& d, const Box& b, double s = 1) { return DocumentBoundingBox<T>(d, times<T>(b.x, s), times<T>(b.y, s), times<T>(b.w, s), times<T>(b.h, s)); }

// one execution checks one pair for one type
template <class T> static void areas(mc::Ctx& ctx, const Box& a, const Box& b, long long want, double s, const char* ty) {
  auto A = bb<T>(a, s), C = bb<T>(b, s); T wi = times<T>(want, s * s), wa = times<T>(a.w * a.h, s * s), wb = times<T>(b.w * b.h, s * s), wu = times<T>(a.w * a.h + b.w * b.h - want, s * s);
  ctx.compared();
  CHECK(A.Area() == wa && C.Area() == wb, "%s: wrong area", ty);
  CHECK(A.IntersectionArea(C) == wi && C.IntersectionArea(A) == wi, "%s: intersection of (%lld %lld %lld %lld) and (%lld %lld %lld %lld) is %.17g / %.17g instead of %.17g (scale %g)", ty,
        a.x, a.y, a.w, a.h, b.x, b.y, b.w, b.h, (double)A.IntersectionArea(C), (double)C.IntersectionArea(A), (double)wi, s);
  CHECK(A.UnionArea(C) == wu && C.UnionArea(A) == wu, "%s: union is %.17g instead of %.17g", ty, (double)A.UnionArea(C), (double)wu);
  CHECK(IntersectionArea(A, C) == wi && UnionArea(A, C) == wu, "%s: the free functions differ", ty);
  auto D = db<T>("d", a, s), E = db<T>("d", b, s), F = db<T>("e", b, s);
  CHECK(D.IntersectionArea(E) == wi && D.UnionArea(E) == wu && D.Area() == wa, "%s: document box: wrong area", ty);
  CHECK(IntersectionArea(D, E) == wi && UnionArea(D, E) == wu, "%s: document box: the free functions differ", ty);
  CHECK(D.IntersectionArea(F) == 0 && F.IntersectionArea(D) == 0 && IntersectionArea(D, F) == 0, "%s: boxes of different documents intersect", ty);
  CHECK(D.UnionArea(F) == (T)(wa + wb) && UnionArea(D, F) == (T)(wa + wb), "%s: union of boxes of different documents", ty);
  ShapedEvent<int, DocumentBoundingBox<T>> e1(1, D), e2(1, E), e3(2, F); ScoredEvent<ShapedEvent<int, DocumentBoundingBox<T>>> h(2, E, 0.5f);
  CHECK(e1.Area() == wa && h.Area() == wb, "%s: area of an event", ty);
  CHECK(IntersectionArea(e1, e2) == wi && IntersectionArea(e1, h) == wi && UnionArea(e1, h) == wu && IntersectionArea(e1, e3) == 0, "%s: areas of events", ty);
}
static Box pick(mc::Ctx& ctx, int n) { Box b; b.x = ctx.choose(n); b.y = ctx.choose(n); b.w = ctx.choose(n); b.h = ctx.choose(n); return b; }
static void say(mc::Ctx& ctx, const Box& a, const Box& b) { ctx.say("(%lld %lld %lld %lld) (%lld %lld %lld %lld)", a.x, a.y, a.w, a.h, b.x, b.y, b.w, b.h); }
static uint64_t hash(const Box& a, const Box& b, uint64_t s) { for (long long v : {a.x, a.y, a.w, a.h, b.x, b.y, b.w, b.h}) s = mc::mix(s, v); return s; }

MC_FAMILY(C06_all, "every pair of boxes with x,y,w,h in 0..4 (thorough 0..5), for 7 coordinate types, against the count of common cells") {
  int n = ctx.bound(5, 6); Box a = pick(ctx, n); if (!ctx.mine()) return; Box b = pick(ctx, n);
  long long w = cells(a, b); ctx.state(hash(a, b, 0)); ctx.outcome(w); say(ctx, a, b);
  CHECK(w == ora::inter(a, b), "reference models disagree");
  areas<int>(ctx, a, b, w, 1, "int"); areas<uint32_t>(ctx, a, b, w, 1, "uint32");
  EXOTIC(areas<int64_t>(ctx, a, b, w, 1, "int64"); areas<uint64_t>(ctx, a, b, w, 1, "uint64"); areas<float>(ctx, a, b, w, 0.5, "float"); areas<double>(ctx, a, b, w, 0.25, "double"); areas<uint16_t>(ctx, a, b, w, 1, "uint16");)
}
// One axis with long edges, the other one simple: all the relative positions, at
// all the ends of the range.
MC_FAMILY(C06_axis, "every relative position of two segments with coordinates in 0..8, times 4 thicknesses, at 22 places of the 32 and 64 bit ranges and negative coordinates: its ends, and where the precision of floating point numbers halves or a neighbour is nearer") {
  int x1 = ctx.choose(9), w1 = ctx.choose(9), x2 = ctx.choose(9); if (!ctx.mine()) return; int w2 = ctx.choose(9);
  int t = ctx.choose(4), axis = ctx.choose(2);
  static const long long off[] = {0, 100, 65520, 2147483647LL - 20, 2147483648LL - 5, 4294967295LL - 17, -1000, -8,
    32768 - 5, 65536 - 5, 16777216LL - 5, 16777216LL + 3, 33554432LL - 5, 33554434LL, 2147483648LL - 69, 2147483648LL + 123, 4294967296LL - 133, 1LL << 50, (1LL << 53) - 7, (1LL << 53) + 3, (1LL << 62) - 5, (1LL << 62) + 507};
  long long o = off[ctx.choose(22)], o2 = ctx.flip() ? o : 7;
  static const int th[4][2] = {{1, 1}, {3, 1}, {0, 2}, {5000, 5000}};
  Box a{x1 + o, o2, w1, th[t][0]}, b{x2 + o, o2, w2, th[t][1]};
  if (axis) { std::swap(a.x, a.y); std::swap(a.w, a.h); std::swap(b.x, b.y); std::swap(b.w, b.h); }
  long long w = ora::inter(a, b); ctx.state(hash(a, b, 1)); ctx.outcome(w); say(ctx, a, b);
  // edges must fit the type
  auto top = [](const Box& z) { return std::max(z.x + z.w, z.y + z.h); };
  long long m = std::max(top(a), top(b));
  if (o >= 0 && m <= 4294967295LL) areas<uint32_t>(ctx, a, b, w, 1, "uint32");
  if (m <= 2147483647LL) areas<int32_t>(ctx, a, b, w, 1, "int32");
  EXOTIC(areas<int64_t>(ctx, a, b, w, 1, "int64"); if (o >= 0) areas<uint64_t>(ctx, a, b, w, 1, "uint64"); if (m <= (1LL << 53)) areas<double>(ctx, a, b, w, 1, "double"); if (m <= (1 << 24)) areas<float>(ctx, a, b, w, 1, "float"); if (m <= 65535 && o >= 0 && t < 3) areas<uint16_t>(ctx, a, b, w, 1, "uint16");)
}
MC_FAMILY(C06_large, "pairs of boxes with edges from 6 lengths up to 65537 at 6 positions up to the end of the range: areas up to 2^32-1") {
  static const long long ln[] = {0, 1, 1000, 4097, 65535, 65537}, ps[] = {0, 1, 999, 4096, 65534, 4294967295LL - 65537};
  Box a, b; a.x = ps[ctx.choose(6)]; a.w = ln[ctx.choose(6)]; b.x = ps[ctx.choose(6)]; if (!ctx.mine()) return; b.w = ln[ctx.choose(6)];
  a.h = ln[ctx.choose(6)]; b.h = ln[ctx.choose(6)]; a.y = ps[ctx.choose(ctx.bound(3, 6))]; b.y = ps[ctx.choose(ctx.bound(3, 6))];
  if (a.w * a.h > 4294967295LL || b.w * b.h > 4294967295LL) return;
  long long i = ora::inter(a, b); ctx.state(hash(a, b, 2)); ctx.outcome(i); say(ctx, a, b);
  if (a.w * a.h + b.w * b.h - i <= 4294967295LL) areas<uint32_t>(ctx, a, b, i, 1, "uint32");
  EXOTIC(areas<int64_t>(ctx, a, b, i, 1, "int64"); areas<double>(ctx, a, b, i, 1, "double");)
}
MC_FAMILY(C06_docs, "every pair of 10 document names: equal or not, areas accordingly") {
  static const std::vector<std::string> nm = {"", "a", "A", "a ", "aa", "b", std::string(15, 'x'), std::string(16, 'x'), std::string(15, 'x') + "y", std::string("a\0", 2)};
  int i = ctx.choose(10), j = ctx.choose(10); if (!ctx.mine()) return; ctx.state(i * 10 + j); ctx.compared();
  DocumentBoundingBox<uint32_t> a(nm[i], 0, 0, 3, 3), b(nm[j], 1, 1, 3, 3);
  CHECK(a.IntersectionArea(b) == (i == j ? 4u : 0u), "intersection of documents %d and %d", i, j); CHECK(a.UnionArea(b) == (i == j ? 14u : 18u), "union of documents %d and %d", i, j);
}

// ---- scorers -------------------------------------------------------------
typedef ShapedEvent<std::string, DocumentBoundingBox<uint32_t>> R;
typedef ScoredEvent<R> H;
static R ref(const char* q, const char* d, const Box& b) { return R(q, db<uint32_t>(d, b)); }
static H hyp(const char* q, const char* d, const Box& b) { return H(q, db<uint32_t>(d, b), 0.5f); }
// thresholds as fractions num/den, exact in the comparisons below
static const int kTh[][2] = {{1, 2}, {1, 4}, {3, 4}, {1, 1}, {1, 8}, {7, 8}, {3, 8}, {0, 1}, {1, 1024}, {3, 2}};
static const int kNumTh = 10;

static void decide(mc::Ctx& ctx, const R& r, const H& h, long long i, long long ha, long long ra, bool sameq, bool samed, int k) {
  float t = (float)kTh[k][0] / kTh[k][1]; long long num = kTh[k][0], den = kTh[k][1];
  if (!samed) i = 0;
  long long u = ha + ra - i; ctx.compared(2);
  bool w1 = sameq && ha > 0 && i * den >= num * ha, w2 = sameq && ha > 0 && i * den >= num * u;
  kws::scorer::IntersectionOverHypothesisAreaScorer<R, H> s1(t); kws::scorer::IntersectionOverUnionAreaScorer<R, H> s2(t);
  MatchError e1 = s1(r, h), e2 = s2(r, h);
  CHECK(e1.FP() == (w1 ? 0.f : 1.f) && e1.FN() == (w1 ? 0.f : 1.f), "over hypothesis, threshold %lld/%lld: intersection %lld of %lld gives fp=%g fn=%g", num, den, i, ha, e1.FP(), e1.FN());
  CHECK(e2.FP() == (w2 ? 0.f : 1.f) && e2.FN() == (w2 ? 0.f : 1.f), "over union, threshold %lld/%lld: intersection %lld of union %lld (hypothesis %lld) gives fp=%g fn=%g", num, den, i, u, ha, e2.FP(), e2.FN());
  CHECK(s1.Threshold() == t && s2.Threshold() == t, "Threshold() is not the one given");
  ctx.outcome(w1 * 2 + w2);
}
static void soft(mc::Ctx& ctx, const R& r, const H& h, long long i, long long ha, long long ra, bool sameq, bool samed) {
  kws::scorer::SoftIntersectionOverHypothesisAreaScorer<R, H> s; ctx.compared(2);
  MatchError e = s(r, h); if (!samed) i = 0;
  double fp = sameq && ha > 0 ? 1.0 - (double)i / ha : 1.0, fn = sameq && ra > 0 ? 1.0 - (double)i / ra : 1.0;
  CHECK(fabs(e.FP() - fp) <= 2e-7 && fabs(e.FN() - fn) <= 2e-7 && e.FP() >= 0 && e.FN() >= 0 && e.FP() <= 1 && e.FN() <= 1, "soft: fp=%.9g fn=%.9g instead of %.9g, %.9g", e.FP(), e.FN(), fp, fn);
  CHECK((e.FP() == 0) == (fp == 0) && (e.FP() == 1) == (fp == 1) && (e.FN() == 0) == (fn == 0) && (e.FN() == 1) == (fn == 1), "soft: fp=%.9g fn=%.9g is not exact at the ends (%.9g, %.9g)", e.FP(), e.FN(), fp, fn);
  EXOTIC(kws::scorer::TrivialScorer<R, H> t; MatchError f = t(r, h); bool eq = sameq && r.Location() == h.Location();
  CHECK(f.FP() == (eq ? 0.f : 1.f) && f.FN() == (eq ? 0.f : 1.f), "trivial: wrong decision");)
}
static void pair(mc::Ctx& ctx, Box a, Box b, long long s, long long ox, long long oy, bool allth) {
  for (Box* z : {&a, &b}) { z->x = z->x * s + ox; z->y = z->y * s + oy; z->w *= s; z->h *= s; }
  long long i = ora::inter(a, b), ha = b.w * b.h, ra = a.w * a.h; if (ha + ra >= (1 << 24)) return;
  say(ctx, a, b); ctx.state(hash(a, b, 5));
  for (int q = 0; q < 2; ++q) for (int d = 0; d < 2; ++d) {
    R r = ref("q", "d", a); H h = hyp(q ? "r" : "q", d ? "e" : "d", b);
    for (int k = 0; k < (allth ? kNumTh : 1); ++k) decide(ctx, r, h, i, ha, ra, !q, !d, k);
    soft(ctx, r, h, i, ha, ra, !q, !d);
  }
}
MC_FAMILY(C07_small, "every reference with x,y,w,h in 0..4 (thorough 0..5) against every such hypothesis, equal or different query and document, 10 thresholds (0 and beyond 1 too) and 4 scorers") {
  int n = ctx.bound(5, 6); Box a = pick(ctx, n); if (!ctx.mine()) return; Box b = pick(ctx, n); pair(ctx, a, b, 1, 0, 0, true);
}
MC_FAMILY(C07_moved, "boxes of the tiniest pairs moved and enlarged: 12 places, 5 sizes") {
  Box a{2, 2, 1 + ctx.choose(3), 1 + ctx.choose(3)}; Box b; b.x = ctx.choose(5); b.y = ctx.choose(5); if (!ctx.mine()) return; b.w = ctx.choose(4); b.h = ctx.choose(4);
  static const long long off[][2] = {{0, 0}, {65536, 3}, {2147483640LL, 2147483640LL}, {4294960000LL, 4294960000LL}, {0, 4294960000LL}, {4294960000LL, 0}, {16777215, 16777213}, {16777217, 0}, {0, 16777219}, {2147483645LL, 65533}, {32766, 2147483579LL}, {2147483771LL, 4294960000LL}}; static const long long sc[] = {1, 3, 10, 100, 900};
  int o = ctx.choose(12); pair(ctx, a, b, sc[ctx.choose(5)], off[o][0], off[o][1], true);
}
MC_FAMILY(C07_edge, "hypotheses of sampled sizes up to 2^24 pixels, covered exactly up to one unit around each threshold") {
  static const int ws[] = {1, 2, 3, 7, 8, 9, 16, 40, 63, 64, 100, 128, 255, 256, 1000, 1024, 2047, 4000, 4095};
  int w = ws[ctx.choose(19)], h = ws[ctx.choose(19)], k = ctx.choose(kNumTh); if (!ctx.mine()) return;
  int d = ctx.choose(5) - 2, axis = ctx.choose(2); long long len = axis ? h : w, oth = axis ? w : h; long long cov = len * kTh[k][0] / kTh[k][1] + d;
  if (cov < 0 || cov > len || (long long)w * h * 2 >= (1 << 24)) return;
  Box b{1000, 1000, w, h}, a = b; if (axis) a.h = cov; else a.w = cov; (void)oth;
  long long i = ora::inter(a, b); say(ctx, a, b); ctx.state(hash(a, b, k));
  decide(ctx, ref("q", "d", a), hyp("q", "d", b), i, (long long)w * h, a.w * a.h, true, true, k); soft(ctx, ref("q", "d", a), hyp("q", "d", b), i, (long long)w * h, a.w * a.h, true, true);
}
MC_FAMILY(C07_thin, "hypotheses of up to 8388607 x 1, 2 or 3 pixels against references up to 3 units longer or shorter at each end, in 2 directions at 3 places: nearly all and all covered, 10 thresholds, 4 scorers") {
  static const int ls[] = {4, 5, 10, 100, 1000, 4095, 4096, 16384, 65535, 65536, 65537, 99999, 100000, 100001, 131071, 262145, 500000, 999999, 1000001, 2000003, 4194303, 5592405, 8000000, 8388607};
  long long l = ls[ctx.choose(24)]; int t = 1 + ctx.choose(3), axis = ctx.choose(2); if (!ctx.mine()) return; int a = ctx.choose(7) - 3, c = ctx.choose(7) - 3, more = ctx.choose(3) - 1, at = ctx.choose(3);
  if (l * t >= (1 << 23) || t + more <= 0 || l + a + c < 0) return; static const long long off[] = {5, 70000, 4286000000LL};
  Box b{off[at], off[at], l, t}, r{off[at] - a, off[at], l + a + c, t + more}; if (axis) for (Box* z : {&b, &r}) { std::swap(z->x, z->y); std::swap(z->w, z->h); }
  if (r.w * r.h + b.w * b.h >= (1 << 24)) return; long long i = ora::inter(r, b); say(ctx, r, b); ctx.state(hash(r, b, 9));
  for (int k = 0; k < kNumTh; ++k) decide(ctx, ref("q", "d", r), hyp("q", "d", b), i, b.w * b.h, r.w * r.h, true, true, k); soft(ctx, ref("q", "d", r), hyp("q", "d", b), i, b.w * b.h, r.w * r.h, true, true);
  for (int k = 0; k < kNumTh; ++k) decide(ctx, ref("q", "d", b), hyp("q", "d", r), i, r.w * r.h, b.w * b.h, true, true, k); soft(ctx, ref("q", "d", b), hyp("q", "d", r), i, r.w * r.h, b.w * b.h, true, true);
}
MC_FAMILY(C07_huge, "boxes of up to 65535 x 65535 pixels that cover one another wholly or to a fraction, at the origin and at the far end, 10 thresholds, 4 scorers: exact when all is covered, elsewhere up to the rounding of single precision") {
  static const long long ls[] = {4095, 4096, 10000, 23171, 32767, 32768, 35000, 46340, 46341, 50000, 60000, 65535}; static const int part[][2] = {{1, 1}, {0, 1}, {1, 2}, {1, 4}, {3, 4}, {1, 8}, {7, 8}, {3, 8}, {1, 3}, {2, 3}, {99, 100}, {1, 100}, {49, 100}, {51, 100}};
  long long w = ls[ctx.choose(12)], h = ls[ctx.choose(12)]; if (!ctx.mine()) return; int p = ctx.choose(14), axis = ctx.choose(2), end = ctx.choose(2), swap = ctx.choose(3); long long at = end ? 4294967295LL - 65535 : 0;
  Box b{at, at, w, h}, a = b; (axis ? a.h : a.w) = (axis ? h : w) * part[p][0] / part[p][1]; if (swap == 2) { (axis ? a.y : a.x) += (axis ? b.h - a.h : b.w - a.w) / 2; } if (swap == 1) std::swap(a, b);
  long long i = ora::inter(a, b), ha = b.w * b.h, ra = a.w * a.h, u = ha + ra - i; say(ctx, a, b); ctx.state(hash(a, b, swap)); R r = ref("q", "d", a); H y = hyp("q", "d", b);
  for (int k = 0; k < kNumTh; ++k) { auto far = [&](long long den) { double d = fabs((double)i * kTh[k][1] - (double)den * kTh[k][0]); return i == den || i == 0 || d > 1e-6 * (double)den * kTh[k][1]; }; if (far(ha) && far(u)) decide(ctx, r, y, i, ha, ra, true, true, k); }
  kws::scorer::SoftIntersectionOverHypothesisAreaScorer<R, H> s; MatchError e = s(r, y); double fp = ha > 0 ? 1.0 - (double)i / ha : 1.0, fn = ra > 0 ? 1.0 - (double)i / ra : 1.0; ctx.compared();
  CHECK(fabs(e.FP() - fp) <= 1e-6 && fabs(e.FN() - fn) <= 1e-6 && e.FP() >= 0 && e.FN() >= 0, "soft: fp=%.9g fn=%.9g instead of %.9g, %.9g", e.FP(), e.FN(), fp, fn);
}
// Coordinates that are no whole numbers: areas below one.
template <class T> static void fractional(mc::Ctx& ctx) {
  typedef ShapedEvent<std::string, DocumentBoundingBox<T>> FR; typedef ScoredEvent<FR> FH; static const double sc[] = {0.5, 0.375, 0.25, 0.0625, 1 / 1024.0, 1 / 1048576.0};
  Box a = pick(ctx, 4); if (!ctx.mine()) return; Box b = pick(ctx, 4); int c = ctx.choose(6); double u = sc[c]; long long i = ora::inter(a, b), ha = b.w * b.h, ra = a.w * a.h, un = ha + ra - i; say(ctx, a, b); ctx.state(hash(a, b, 40 + c));
  auto at = [&](const Box& z) { return FR("q", DocumentBoundingBox<T>("d", (T)(z.x * u), (T)(z.y * u), (T)(z.w * u), (T)(z.h * u))); }; FR r = at(a); FH h(at(b), 0.5f);
  for (int k = 0; k < kNumTh; ++k) {
    float t = (float)kTh[k][0] / kTh[k][1]; bool w1 = ha > 0 && i * kTh[k][1] >= kTh[k][0] * ha, w2 = ha > 0 && i * kTh[k][1] >= kTh[k][0] * un; ctx.compared(2); ctx.outcome(w1 * 2 + w2);
    kws::scorer::IntersectionOverHypothesisAreaScorer<FR, FH> s1(t); kws::scorer::IntersectionOverUnionAreaScorer<FR, FH> s2(t); MatchError e1 = s1(r, h), e2 = s2(r, h);
    CHECK(e1.FP() == (w1 ? 0.f : 1.f) && e1.FN() == e1.FP(), "unit %g, over hypothesis, threshold %g: intersection %lld of %lld gives fp=%g fn=%g", u, t, i, ha, e1.FP(), e1.FN());
    CHECK(e2.FP() == (w2 ? 0.f : 1.f) && e2.FN() == e2.FP(), "unit %g, over union, threshold %g: intersection %lld of %lld gives fp=%g fn=%g", u, t, i, un, e2.FP(), e2.FN());
  }
  kws::scorer::SoftIntersectionOverHypothesisAreaScorer<FR, FH> s; MatchError e = s(r, h); double fp = ha > 0 ? 1.0 - (double)i / ha : 1.0, fn = ra > 0 ? 1.0 - (double)i / ra : 1.0; ctx.compared();
  CHECK(fabs(e.FP() - fp) <= 2e-7 && fabs(e.FN() - fn) <= 2e-7, "unit %g, soft: fp=%.9g fn=%.9g instead of %.9g, %.9g", u, e.FP(), e.FN(), fp, fn);
}
EXOTIC(MC_FAMILY(C07_fractional, "every pair of boxes with x,y,w,h in 0..3 units of 0.5, 0.375, 0.25, 0.0625, 2^-10 and 2^-20 in double precision, 10 thresholds, 3 scorers") { fractional<double>(ctx); })
EXOTIC(MC_FAMILY(C07_fractional_flt, "the same in single precision") { fractional<float>(ctx); })
MC_FAMILY(C07_trivial, "trivial scorer over all pairs of 4 queries x 4 locations of two types") {
  int a = ctx.choose(4), b = ctx.choose(4), c = ctx.choose(4), d = ctx.choose(4); if (!ctx.mine()) return;
  static const int v[] = {0, 1, -1, 2147483647}; static const std::string s[] = {"", "a", "b", std::string(30, 'a')};
  ctx.state(((a * 4 + b) * 4 + c) * 4 + d); ctx.compared(2);
  typedef Event<int, int> E; typedef ScoredEvent<E> S; typedef Event<std::string, std::string> F; typedef ScoredEvent<F> T; bool eq = a == c && b == d;
  kws::scorer::TrivialScorer<E, S> x; kws::scorer::TrivialScorer<F, T> y; E e(v[a], v[b]); S h(v[c], v[d], .5f); F f(s[a], s[b]); T g(s[c], s[d], -1.f);
  CHECK(x(e, h).FP() == (eq ? 0.f : 1.f) && x(e, h).FN() == (eq ? 0.f : 1.f) && y(f, g).FP() == (eq ? 0.f : 1.f) && y(f, g).FN() == (eq ? 0.f : 1.f), "trivial scorer");
}
MC_FAMILY(C07_trivial_numbers, "trivial scorer on events of numbers (32 and 64 bits) whose queries differ by 0 to 3 and whose locations differ by every number up to 2^20 (thorough: 2^22) and around the powers of two, in either direction, and swapped: a hit exactly if both are equal") {
  const int step = 4096, nb = ctx.thorough() ? 1024 : 256; int dq = ctx.choose(4), b = ctx.choose(nb + 1); if (!ctx.mine()) return; static const uint64_t base[] = {0, 5, 70000, 4194304}; int k = ctx.choose(4);
  typedef Event<uint32_t, uint32_t> E; typedef ScoredEvent<E> S; typedef Event<int64_t, int64_t> F; typedef ScoredEvent<F> T; kws::scorer::TrivialScorer<E, S> x; kws::scorer::TrivialScorer<F, T> y; ctx.state((dq * 2048 + b) * 4 + k); ctx.compared(step);
  auto one = [&](uint64_t q, uint64_t l, uint64_t q2, uint64_t l2) {
    bool eq = q == q2 && l == l2; MatchError e = y(F(q, l), T(F(q2, l2), .5f)); CHECK(e.FP() == (eq ? 0.f : 1.f) && e.FN() == (eq ? 0.f : 1.f), "64 bits: (%llu, %llu) and (%llu, %llu): fp=%g", (unsigned long long)q, (unsigned long long)l, (unsigned long long)q2, (unsigned long long)l2, e.FP());
    if ((q | l | q2 | l2) >> 32) return; MatchError f = x(E(q, l), S(E(q2, l2), .5f)); CHECK(f.FP() == (eq ? 0.f : 1.f) && f.FN() == (eq ? 0.f : 1.f), "32 bits: (%llu, %llu) and (%llu, %llu): fp=%g", (unsigned long long)q, (unsigned long long)l, (unsigned long long)q2, (unsigned long long)l2, f.FP());
  };
  auto all = [&](uint64_t d) { uint64_t q = base[k], l = base[(k + 1) % 4]; one(q, l + d, q + dq, l); one(q, l, q + dq, l + d); one(q, d, d, q); one(q, q, d, d); one(d, d + dq, d + dq, d); };
  if (b < nb) for (int i = 0; i < step; ++i) all((uint64_t)b * step + i); else for (int p = 20; p < 63; ++p) for (int d = -3; d <= 3; ++d) all((1ull << p) + d);
}
