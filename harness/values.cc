// C08: orders; C09: matches as values.
#include "mc.h"

#include <cmath>
#include <limits>
#include <memory>
#include <tuple>

#include "core/DocumentBoundingBox.h"
#include "core/Event.h"
#include "core/Match.h"
#include "core/MatchErrorCounts.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"

using namespace kws::core;

// The six operators against the order of the keys.
template <class V, class K> static void six(mc::Ctx& ctx, const V& a, const V& b, const K& ka, const K& kb, const char* what) {
  bool lt = ka < kb, eq = ka == kb; ctx.compared(); ctx.outcome(lt * 2 + eq);
  CHECK((a < b) == lt, "%s: < is %d, must be %d", what, a < b, lt);
  CHECK((a > b) == (!lt && !eq), "%s: > is %d, must be %d", what, a > b, !lt && !eq);
  CHECK((a == b) == eq, "%s: == is %d, must be %d", what, a == b, eq);
  CHECK((a != b) == !eq, "%s: != is %d, must be %d", what, a != b, !eq);
  CHECK((a <= b) == (lt || eq), "%s: <= is %d, must be %d", what, a <= b, lt || eq);
  CHECK((a >= b) == !lt, "%s: >= is %d, must be %d", what, a >= b, !lt);
}
template <class T> static const std::vector<T>& nums();
template <> const std::vector<int>& nums<int>() { static const std::vector<int> v = {0, 1, 2, -1, 2147483647, (int)-2147483648LL}; return v; }
template <> const std::vector<uint32_t>& nums<uint32_t>() { static const std::vector<uint32_t> v = {0, 1, 2, 2147483648u, 4294967295u, 10}; return v; }
template <> const std::vector<int64_t>& nums<int64_t>() { static const std::vector<int64_t> v = {0, 1, -1, 4294967296LL, 4294967297LL, INT64_MIN}; return v; }
template <> const std::vector<uint64_t>& nums<uint64_t>() { static const std::vector<uint64_t> v = {0, 1, 2, 9007199254740993ULL, 9007199254740992ULL, UINT64_MAX}; return v; }
template <> const std::vector<double>& nums<double>() { static const std::vector<double> v = {0, 0.25, -1, 0.5, 1e300, 1.0000000000000002}; return v; }

template <> const std::vector<float>& nums<float>() { static const std::vector<float> v = {0, 0.5f, -1, 0.25f, 3e38f, 1.0000001f}; return v; }
template <> const std::vector<int16_t>& nums<int16_t>() { static const std::vector<int16_t> v = {0, 1, -32768, 32767, -1, 256}; return v; }
template <> const std::vector<uint8_t>& nums<uint8_t>() { static const std::vector<uint8_t> v = {0, 1, 255, 128, 127, 2}; return v; }

template <class T> static void box_order(mc::Ctx& ctx, const char* ty) {
  auto& N = nums<T>(); int n = ctx.bound(5, 6); T f[8]; uint64_t h = 1;
  for (int i = 0; i < 8; ++i) { int c = ctx.choose(n); f[i] = N[c]; h = mc::mix(h, c); if (i == 3 && !ctx.mine()) return; }
  ctx.state(h);
  BoundingBox<T> a(f[0], f[1], f[2], f[3]), b(f[4], f[5], f[6], f[7]);
  auto ka = std::make_tuple(f[0], f[1], f[2], f[3]), kb = std::make_tuple(f[4], f[5], f[6], f[7]);
  if (ctx.describing()) { std::ostringstream o; o << a << " | " << b; ctx.say("%s %s", ty, o.str().c_str()); }
  six(ctx, a, b, ka, kb, ty);
}
MC_FAMILY(C08_box_u32, "all pairs of boxes with 5 (thorough 6) values per field, 32 bit unsigned") { box_order<uint32_t>(ctx, "box<uint32>"); }
MC_FAMILY(C08_box_int, "all pairs of boxes with 5 (thorough 6) values per field, 32 bit signed") { box_order<int>(ctx, "box<int>"); }
MC_FAMILY(C08_box_i64, "all pairs of boxes with 5 (thorough 6) values per field, 64 bit signed") { box_order<int64_t>(ctx, "box<int64>"); }
MC_FAMILY(C08_box_u64, "all pairs of boxes with 5 (thorough 6) values per field, 64 bit unsigned") { box_order<uint64_t>(ctx, "box<uint64>"); }
EXOTIC(MC_FAMILY(C08_box_dbl, "all pairs of boxes with 5 (thorough 6) values per field, double") { box_order<double>(ctx, "box<double>"); })
EXOTIC(MC_FAMILY(C08_box_flt, "all pairs of boxes with 5 (thorough 6) values per field, float") { box_order<float>(ctx, "box<float>"); })
EXOTIC(MC_FAMILY(C08_box_i16, "all pairs of boxes with 5 (thorough 6) values per field, 16 bit signed") { box_order<int16_t>(ctx, "box<int16>"); })
EXOTIC(MC_FAMILY(C08_box_u8, "all pairs of boxes with 5 (thorough 6) values per field, 8 bit unsigned") { box_order<uint8_t>(ctx, "box<uint8>"); })

static const std::vector<std::string>& words() {
  static const std::vector<std::string> v = {"", "a", "b", "A", "aa", "ab", "a ", "10", "9", std::string(15, 'a'), std::string(16, 'a'), std::string(15, 'a') + "b", "\xc3\xa9", "z", std::string("a\0", 2), std::string("a\0b", 3)};
  return v;
}
MC_FAMILY(C08_docbox, "all pairs of document boxes over 16 documents and 3 values per field") {
  auto& W = words(); int d1 = ctx.choose(16), d2 = ctx.choose(16); if (!ctx.mine()) return;
  static const uint32_t N[3] = {0, 1, 4294967295u}; uint32_t f[8]; uint64_t h = d1 * 16 + d2;
  for (int i = 0; i < 8; ++i) { int c = ctx.choose(i % 4 < 2 || ctx.thorough() ? 3 : 2); f[i] = N[c]; h = mc::mix(h, c); }
  ctx.state(h);
  typedef DocumentBoundingBox<uint32_t> D; D a(W[d1], f[0], f[1], f[2], f[3]), b(W[d2], f[4], f[5], f[6], f[7]);
  auto ka = std::make_tuple(W[d1], f[0], f[1], f[2], f[3]), kb = std::make_tuple(W[d2], f[4], f[5], f[6], f[7]);
  six(ctx, a, b, ka, kb, "document box");
}
template <class Q, class L> static void event_order(mc::Ctx& ctx, const std::vector<Q>& qs, const std::vector<L>& ls) {
  int a = ctx.choose((int)qs.size()), b = ctx.choose((int)qs.size()); if (!ctx.mine()) return; int c = ctx.choose((int)ls.size()), d = ctx.choose((int)ls.size());
  ctx.state(mc::mix(a * 100 + b, c * 100 + d)); ctx.say("queries %d %d, locations %d %d", a, b, c, d);
  Event<Q, L> x(qs[a], ls[c]), y(qs[b], ls[d]); auto kx = std::make_pair(qs[a], ls[c]), ky = std::make_pair(qs[b], ls[d]);
  six(ctx, x, y, kx, ky, "event");
  static const float S[] = {0.f, -0.f, 1.f, -1.f, 0.5f, 0.50000006f, 1e-45f, 3.4e38f, -3.4e38f, INFINITY, -INFINITY};
  int s = ctx.choose(11), t = ctx.choose(11); typedef ScoredEvent<Event<Q, L>> SE; SE u(qs[a], ls[c], S[s]), v(y, S[t]);
  ctx.state(mc::mix(mc::mix(a * 100 + b, c * 100 + d), 1000 + s * 11 + t)); ctx.say("scores %g %g", S[s], S[t]);
  six(ctx, u, v, std::make_pair(S[s], kx), std::make_pair(S[t], ky), "scored event");
  CHECK(u.Score() == S[s] && v.Score() == S[t] && u.Query() == qs[a] && u.Location() == ls[c], "parts of a scored event");
  // as the tools sort them
  CHECK(std::greater<SE>()(u, v) == (std::make_pair(S[t], ky) < std::make_pair(S[s], kx)), "scored event: std::greater"); CHECK(std::less<SE>()(u, v) == (std::make_pair(S[s], kx) < std::make_pair(S[t], ky)), "scored event: std::less");
}
MC_FAMILY(C08_event_int, "all pairs of events and scored events over 6 x 6 integers and 11 scores") { event_order<int, int>(ctx, nums<int>(), nums<int>()); }
MC_FAMILY(C08_event_str, "all pairs of events and scored events over 16 queries x 5 locations and 11 scores") { event_order<std::string, std::string>(ctx, words(), {"", "a", "b", "aa", "z"}); }
MC_FAMILY(C08_event_box, "all pairs of shaped scored events over 4 queries, 12 boxes and 11 scores") {
  static const std::vector<std::string> Q = {"q", "r", "", "qq"}; static const float S[] = {0.f, -0.f, 1.f, -1.f, 0.5f, 0.50000006f, 1e-45f, 3.4e38f, -3.4e38f, INFINITY, -INFINITY};
  typedef std::tuple<std::string, uint32_t, uint32_t, uint32_t, uint32_t> K;
  static const std::vector<K> B = {K("d", 0, 0, 1, 1), K("d", 1, 0, 1, 1), K("d", 0, 1, 1, 1), K("d", 0, 0, 2, 1), K("d", 0, 0, 1, 2), K("c", 9, 9, 9, 9), K("dd", 0, 0, 0, 0), K("d", 4294967295u, 0, 1, 1), K("", 5, 5, 5, 5), K("d", 0, 0, 1, 0), K("d", 1, 2, 3, 4), K("d", 4, 3, 2, 1)};
  int a = ctx.choose(4), b = ctx.choose(4), c = ctx.choose(12), d = ctx.choose(12); if (!ctx.mine()) return; int s = ctx.choose(11), t = ctx.choose(11);
  typedef ShapedEvent<std::string, DocumentBoundingBox<uint32_t>> E; auto mk = [](const std::string& q, const K& k) { return E(q, DocumentBoundingBox<uint32_t>(std::get<0>(k), std::get<1>(k), std::get<2>(k), std::get<3>(k), std::get<4>(k))); };
  E x = mk(Q[a], B[c]), y = mk(Q[b], B[d]); ScoredEvent<E> u(x, S[s]), v(y, S[t]); auto kx = std::make_pair(Q[a], B[c]), ky = std::make_pair(Q[b], B[d]);
  ctx.state(mc::mix(a * 4 + b, mc::mix(c * 12 + d, s * 11 + t)));
  six(ctx, x, y, kx, ky, "shaped event"); six(ctx, u, v, std::make_pair(S[s], kx), std::make_pair(S[t], ky), "scored shaped event");
}
// Values that are close to one another, of every magnitude, in any two of the fields.
template <class T> static void near_order(mc::Ctx& ctx) {
  const int bits = std::numeric_limits<T>::digits; int f = ctx.choose(4), g = ctx.choose(4), p = ctx.choose(2 * bits); if (!ctx.mine()) return; int i = ctx.choose(7), j = ctx.choose(7), o = ctx.choose(3); bool neg = p >= bits; if (neg && !std::is_signed<T>::value) return; p %= bits;
  auto val = [&](int d) { T v = (T)((uint64_t)1 << p); if (p == bits - 1 && d > 0) v = std::numeric_limits<T>::max() - 3; uint64_t u = neg ? (uint64_t)0 - (uint64_t)v + d : (uint64_t)v + d; return (T)u; };
  T x[4] = {7, 7, 7, 7}, y[4] = {7, 7, 7, 7}; if (f != g) { x[g] = o == 0 ? 7 : o == 1 ? 8 : 6; } x[f] = val(i - 3); y[f] = val(j - 3); ctx.state(mc::mix((f * 4 + g) * 200 + p * 2 + neg, (i * 7 + j) * 3 + o));
  if (ctx.describing()) { std::ostringstream s; s << x[0] << ' ' << x[1] << ' ' << x[2] << ' ' << x[3] << " | " << y[0] << ' ' << y[1] << ' ' << y[2] << ' ' << y[3]; ctx.say("%s", s.str().c_str()); }
  BoundingBox<T> a(x[0], x[1], x[2], x[3]), b(y[0], y[1], y[2], y[3]); auto ka = std::make_tuple(x[0], x[1], x[2], x[3]), kb = std::make_tuple(y[0], y[1], y[2], y[3]); six(ctx, a, b, ka, kb, "box");
  DocumentBoundingBox<T> c("d", x[0], x[1], x[2], x[3]), d("d", y[0], y[1], y[2], y[3]); six(ctx, c, d, ka, kb, "document box"); Event<T, T> e(x[0], x[1]), h(y[0], y[1]); auto ke = std::make_pair(x[0], x[1]), kh = std::make_pair(y[0], y[1]); six(ctx, e, h, ke, kh, "event");
  typedef ScoredEvent<Event<T, T>> S; six(ctx, S(e, .5f), S(h, .5f), ke, kh, "scored event");
}
MC_FAMILY(C08_near, "boxes, document boxes, events and scored events of numbers of 32 and 64 bits, signed or not: all pairs of values up to 3 around each power of two, in each field, with another field equal or one more or less") {
  switch (ctx.choose(4)) { case 0: near_order<uint32_t>(ctx); break; case 1: near_order<int>(ctx); break; case 2: near_order<int64_t>(ctx); break; default: near_order<uint64_t>(ctx); }
}
MC_FAMILY(C08_far, "events and boxes of numbers that differ by 1 to 3 in one field and by every number up to 2^19 (thorough: 2^22) in another, in either direction, or exchanged") {
  const int step = 2048, nb = ctx.thorough() ? 2048 : 256; int dq = 1 + ctx.choose(3), b = ctx.choose(nb), k = ctx.choose(3); if (!ctx.mine()) return; static const uint32_t base[] = {0, 1000, 100000}; uint32_t q = base[k], l = base[(k + 1) % 3]; typedef Event<uint32_t, uint32_t> E; typedef BoundingBox<uint32_t> B; ctx.state((b * 4 + dq) * 3 + k);
  for (int i = 0; i < step; ++i) { uint32_t d = b * step + i; auto one = [&](uint32_t q1, uint32_t l1, uint32_t q2, uint32_t l2) { auto x = std::make_pair(q1, l1), y = std::make_pair(q2, l2); six(ctx, E(q1, l1), E(q2, l2), x, y, "event"); six(ctx, B(q1, l1, 4, 4), B(q2, l2, 4, 4), x, y, "box"); six(ctx, B(1, q1, 4, l1), B(1, q2, 4, l2), x, y, "box, y and h"); };
    one(q, l + d, q + dq, l); one(q, l, q + dq, l + d); one(q, d, d, q); one(d, d + dq, d + dq, d); }
}
// Sorting depends on the laws.
MC_FAMILY(C08_sort, "every sequence of <=6 scored events over 8 letters is sorted by std::sort, std::set and std::map as by the keys") {
  typedef ScoredEvent<Event<int, int>> S; typedef std::tuple<float, int, int> K; std::vector<S> v; std::vector<K> k; uint64_t h = 7;
  for (int i = 0; i < 6; ++i) { int c = ctx.choose(9); if (!c) break; --c; v.push_back(S(c / 2 % 2, c % 2, c / 4 ? 0.5f : -0.f)); k.push_back(K(c / 4 ? 0.5f : 0.f, c / 2 % 2, c % 2)); h = mc::mix(h, c); if (i == 1 && !ctx.mine()) return; }
  if (v.size() < 2 && !ctx.mine()) return;
  ctx.state(h); ctx.compared(); std::set<S> ss(v.begin(), v.end()); std::set<K> sk(k.begin(), k.end());
  std::sort(v.begin(), v.end(), std::greater<S>()); std::sort(k.begin(), k.end(), std::greater<K>());
  for (size_t i = 0; i < v.size(); ++i) CHECK(K(v[i].Score(), v[i].Query(), v[i].Location()) == k[i], "position %zu of the sorted events", i);
  CHECK(ss.size() == sk.size(), "set of %zu events instead of %zu", ss.size(), sk.size()); auto it = sk.begin(); for (auto& e : ss) { CHECK(K(e.Score(), e.Query(), e.Location()) == *it, "order of the set"); ++it; }
}

// ---- C09 -----------------------------------------------------------------
// Events that count themselves and notice the use of a dead object.
static long live_objects = 0;
static Event<std::string, int> as_event(int v, Event<std::string, int>*) { return Event<std::string, int>(v / 2 ? "q" : "p", v); }
static ScoredEvent<Event<std::string, int>> as_event(int v, ScoredEvent<Event<std::string, int>>*) { return ScoredEvent<Event<std::string, int>>(v / 2 ? "q" : "p", v, v * 0.25f); }
template <class E> struct Counted : public E {
  int v; unsigned canary; int* own;
  explicit Counted(int x) : E(as_event(x, (E*)nullptr)), v(x), canary(0xC0FFEE), own(new int(x)) { ++live_objects; }
  Counted(const Counted& o) : E(o), v(o.v), canary(0xC0FFEE), own(new int(*o.own)) { o.alive(); ++live_objects; }
  Counted& operator=(const Counted& o) { alive(); o.alive(); E::operator=(o); v = o.v; *own = *o.own; return *this; }
  virtual ~Counted() { alive(); canary = 0xDEAD; delete own; --live_objects; }
  void alive() const { if (canary != 0xC0FFEE || *own != v || this->Location() != v) throw mc::Violation{"a released event was used"}; }
};
typedef Counted<Event<std::string, int>> CR; typedef Counted<ScoredEvent<Event<std::string, int>>> CH; typedef Match<CR, CH> M;

struct Model { int ref = -1, hyp = -1; float fp = 0, fn = 0; bool known = true; };
static const float kErr[4][2] = {{0.f, 0.f}, {0.25f, 0.75f}, {1.f, 0.f}, {0.f, 1.f}};
static bool eq(const Model& a, const Model& b) { return a.ref == b.ref && a.hyp == b.hyp && a.fp == b.fp && a.fn == b.fn; }

static void compare(mc::Ctx& ctx, const std::vector<M>& s, const std::vector<Model>& m) {
  ctx.compared();
  for (size_t i = 0; i < s.size(); ++i) {
    if (!m[i].known) continue;
    CHECK(s[i].HasRef() == (m[i].ref >= 0), "match %zu: HasRef() is %d", i, s[i].HasRef()); CHECK(s[i].HasHyp() == (m[i].hyp >= 0), "match %zu: HasHyp() is %d", i, s[i].HasHyp());
    if (m[i].ref >= 0) { s[i].GetRef().alive(); CHECK(s[i].GetRef().v == m[i].ref, "match %zu holds reference %d instead of %d", i, s[i].GetRef().v, m[i].ref); }
    if (m[i].hyp >= 0) { s[i].GetHyp().alive(); CHECK(s[i].GetHyp().v == m[i].hyp, "match %zu holds hypothesis %d instead of %d", i, s[i].GetHyp().v, m[i].hyp); }
    CHECK(s[i].GetError().FP() == m[i].fp && s[i].GetError().FN() == m[i].fn, "match %zu: error (%g, %g) instead of (%g, %g)", i, s[i].GetError().FP(), s[i].GetError().FN(), m[i].fp, m[i].fn);
    for (size_t j = 0; j < s.size(); ++j) if (m[j].known) { CHECK((s[i] == s[j]) == eq(m[i], m[j]), "matches %zu == %zu is %d", i, j, s[i] == s[j]); CHECK((s[i] != s[j]) == !eq(m[i], m[j]), "matches %zu != %zu is %d", i, j, s[i] != s[j]);
      if (i != j && m[i].ref >= 0 && m[j].ref >= 0) CHECK(&s[i].GetRef() != &s[j].GetRef(), "matches %zu and %zu share their reference", i, j); if (i != j && m[i].hyp >= 0 && m[j].hyp >= 0) CHECK(&s[i].GetHyp() != &s[j].GetHyp(), "matches %zu and %zu share their hypothesis", i, j); }
  }
}
static void value_ops(mc::Ctx& ctx, int slots, int depth, int vals, bool parts = false) {
  long before = live_objects; uint64_t hist = slots;
  {
    std::vector<M> s(slots); std::vector<Model> m(slots);
    int n = 1 + ctx.choose(depth);
    for (int step = 0; step < n; ++step) {
      int i = ctx.choose(slots); int per = 2 * slots + 3 * vals + 6 + (parts ? 3 * slots : 0); int op = ctx.choose(per);
      if (step == 0 && !ctx.mine()) return;
      hist = mc::mix(hist, i * 100 + op); ctx.state(hist);
      if (op < slots) { if (!m[op].known) return; s[i] = s[op]; m[i] = m[op]; ctx.say("m%d = m%d", i, op); }
      else if (op < 2 * slots) { int j = op - slots; if (!m[j].known) return; s[i] = std::move(s[j]); m[i] = m[j]; if (i != j) m[j].known = false; ctx.say("m%d = move(m%d)", i, j); }
      else {
        op -= 2 * slots;
        if (op < vals) { if (!m[i].known) return; s[i].SetRef(CR(op)); m[i].ref = op; ctx.say("m%d.SetRef(%d)", i, op); }
        else if (op < 2 * vals) { if (!m[i].known) return; s[i].SetHyp(CH(op - vals)); m[i].hyp = op - vals; ctx.say("m%d.SetHyp(%d)", i, op - vals); }
        else if (op < 3 * vals) { int e = op - 2 * vals; if (!m[i].known) return; s[i].SetError(MatchError(kErr[e][0], kErr[e][1])); m[i].fp = kErr[e][0]; m[i].fn = kErr[e][1]; ctx.say("m%d.SetError(#%d)", i, e); }
        else if (op >= 3 * vals + 6) {                 // a part of a match, this one or another, as the new part
          op -= 3 * vals + 6; int j = op / 3, what = op % 3; if (!m[i].known || !m[j].known) return; if ((what == 0 && m[j].ref < 0) || (what == 1 && m[j].hyp < 0)) return;
          if (what == 0) { s[i].SetRef(s[j].GetRef()); m[i].ref = m[j].ref; } else if (what == 1) { s[i].SetHyp(s[j].GetHyp()); m[i].hyp = m[j].hyp; } else { s[i].SetError(s[j].GetError()); m[i].fp = m[j].fp; m[i].fn = m[j].fn; }
          ctx.say("m%d takes the %s of m%d", i, what == 0 ? "reference" : what == 1 ? "hypothesis" : "error", j);
        }
        else switch (op - 3 * vals) {
          case 0: s[i] = M::MakeFalsePositive(CH(7)); m[i] = Model(); m[i].hyp = 7; m[i].fp = 1; ctx.say("m%d = MakeFalsePositive(7)", i); break;
          case 1: s[i] = M::MakeFalseNegative(CR(8)); m[i] = Model(); m[i].ref = 8; m[i].fn = 1; ctx.say("m%d = MakeFalseNegative(8)", i); break;
          case 2: s[i] = M(CR(1), CH(2), MatchError(0.5f, 0.25f)); m[i] = Model(); m[i].ref = 1; m[i].hyp = 2; m[i].fp = 0.5f; m[i].fn = 0.25f; ctx.say("m%d = Match(1, 2, ...)", i); break;
          case 3: s[i] = M(); m[i] = Model(); ctx.say("m%d = Match()", i); break;
          case 4: { for (auto& x : m) if (!x.known) return; std::vector<M> c(s); std::vector<M> d; d = c; d.insert(d.begin(), c.back()); d.erase(d.begin()); std::rotate(d.begin(), d.begin() + 1, d.end()); std::rotate(m.begin(), m.begin() + 1, m.end()); s = d; ctx.say("copy, insert, erase, rotate"); break; }
          case 5: { if (!m[i].known) return; M c(s[i]); c.SetHyp(CH(99)); c.SetRef(CR(99)); c.SetError(MatchError(0.125f, 0.125f)); M e(0.5f, 0.5f); e = c; M f(e); CHECK(f == c && !(f != c) && f.GetHyp().v == 99 && f.GetRef().v == 99, "copy of a copy"); ctx.say("copy of m%d changed", i); break; }
        }
      }
    }
    compare(ctx, s, m); uint64_t oc = 0; for (auto& x : m) oc = mc::mix(oc, (x.ref >= 0) * 4 + (x.hyp >= 0) * 2 + x.known); ctx.outcome(oc);
  }
  CHECK(live_objects == before, "%ld events are still alive after all the matches ended", live_objects - before);
}
MC_FAMILY(C09_ops, "every sequence of <=4 (thorough 6) operations (copy/move assignment between all pairs, setters, factories, containers) over 2 matches") { value_ops(ctx, 2, ctx.bound(4, 6), 2); }
MC_FAMILY(C09_ops_vals, "every sequence of <=4 (thorough 5) operations over 2 matches, with 4 events") { value_ops(ctx, 2, ctx.bound(4, 5), 4); }
MC_FAMILY(C09_parts, "every sequence of <=4 (thorough 5) such operations, and of setting a part of a match to a part of itself or of the other, over 2 matches") { value_ops(ctx, 2, ctx.bound(4, 5), 2, true); }
MC_FAMILY(C09_ops3, "every sequence of <=3 (thorough 4) operations over 3 matches") { value_ops(ctx, 3, ctx.bound(3, 4), 2); }

static const float kF[] = {0.f, 0.5f, 1.f, 2.f, -0.f};
MC_FAMILY(C09_errors, "equality of all pairs of errors and error counts over 5 values x 3 x 3 counts; sums") {
  int a = ctx.choose(5), b = ctx.choose(5), c = ctx.choose(5), d = ctx.choose(5); if (!ctx.mine()) return; int n1 = ctx.choose(3), r1 = ctx.choose(3), n2 = ctx.choose(3), r2 = ctx.choose(3);
  MatchError x(kF[a], kF[b]), y(kF[c], kF[d]); bool e = kF[a] == kF[c] && kF[b] == kF[d]; ctx.state(mc::mix(((a * 5 + b) * 5 + c) * 5 + d, ((n1 * 3 + r1) * 3 + n2) * 3 + r2)); ctx.compared();
  CHECK((x == y) == e && (x != y) == !e, "comparison of errors");
  MatchErrorCounts u(kF[a], kF[b], n1, r1), v(kF[c], kF[d], n2, r2); bool f = e && n1 == n2 && r1 == r2; CHECK((u == v) == f && (u != v) == !f, "comparison of error counts");
  MatchErrorCounts w = u + v; CHECK(w.FP() == kF[a] + kF[c] && w.FN() == kF[b] + kF[d] && w.NH() == size_t(n1 + n2) && w.NR() == size_t(r1 + r2), "sum of error counts");
  u += v; CHECK(u == w, "+= differs from +"); MatchErrorCounts z(x); CHECK(z.FP() == x.FP() && z.FN() == x.FN() && z.NH() == x.NH() && z.NR() == x.NR(), "counts of one error"); z += y;
  CHECK(z.NH() == x.NH() + y.NH() && z.NR() == x.NR() + y.NR(), "counts of two errors");
}
