// C05: both event sets against a plain set, over all sequences of operations.
#include "mc.h"
#include "oracle.h"

#include <array>
#include <memory>

#include "core/DocumentBoundingBox.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/EventSet.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"

using namespace kws::core;

typedef ShapedEvent<std::string, DocumentBoundingBox<uint32_t>> B;
typedef ShapedEvent<int, DocumentBoundingBox<int>> BI;
typedef ScoredEvent<B> BS;
typedef Event<int, std::string> P;

template <class Q> struct Names;
template <> struct Names<std::string> { static std::string q(int i) { return i ? "r" : "q"; } };
template <> struct Names<int> { static int q(int i) { return i ? -3 : 4; } };

// Letters: 2 queries x 2 documents x 3 boxes (the last ones only for one pair).
struct Letter { int q, d; ora::Box b; };
static const std::vector<Letter> kLetters = {
    {0, 0, {0, 0, 4, 4}}, {0, 0, {2, 0, 4, 4}}, {0, 0, {4, 0, 4, 4}}, {0, 1, {0, 0, 4, 4}}, {1, 0, {0, 0, 4, 4}}, {0, 0, {0, 0, 4, 5}}};
template <class E> static E make(const Letter& l) {
  typedef typename E::LType::Type T;
  return E(Names<typename E::QType>::q(l.q), DocumentBoundingBox<T>(l.d ? "e" : "d", (T)l.b.x, (T)l.b.y, (T)l.b.w, (T)l.b.h));
}
static const std::vector<Letter> kProbes = {
    {0, 0, {0, 0, 4, 4}}, {0, 0, {3, 3, 9, 1}}, {0, 0, {8, 0, 2, 2}}, {0, 0, {1, 1, 0, 2}}, {0, 0, {0, 0, 99, 99}}, {0, 1, {3, 3, 2, 2}}, {1, 0, {0, 0, 3, 9}}, {1, 1, {0, 0, 4, 4}}, {0, 0, {3, 0, 2, 4}}};

static std::string str(const Letter& l) { char b[64]; snprintf(b, sizeof b, "q%d d%d %lld,%lld %lldx%lld", l.q, l.d, l.b.x, l.b.y, l.b.w, l.b.h); return b; }

template <class E> static void compare(mc::Ctx& ctx, const EventSet<E>& s, const std::vector<char>& in, const std::vector<Letter>& L) {
  size_t n = 0; for (char c : in) n += c;
  CHECK(s.Size() == n, "Size() is %zu, the set holds %zu events", s.Size(), n);
  for (int twice = 0; twice < 2; ++twice)
    for (auto& pr : kProbes) {
      auto r = s.FindOverlapping(make<E>(pr)); ctx.compared();
      std::vector<char> got(L.size(), 0); long long last = -1;
      for (auto& e : r) {
        int k = -1; for (size_t i = 0; i < L.size(); ++i) if (e == make<E>(L[i])) k = (int)i;
        CHECK(k >= 0 && in[k], "search of %s returns an event that is not held", str(pr).c_str());
        CHECK(!got[k], "search of %s returns %s twice", str(pr).c_str(), str(L[k]).c_str());
        got[k] = 1; long long a = ora::inter(L[k].b, pr.b);
        CHECK(last < 0 || a <= last, "search of %s: intersection %lld after %lld", str(pr).c_str(), a, last);
        last = a;
      }
      for (size_t i = 0; i < L.size(); ++i) {
        bool want = in[i] && L[i].q == pr.q && L[i].d == pr.d && ora::inter(L[i].b, pr.b) > 0;
        CHECK(!!got[i] == want, "search of %s %s %s", str(pr).c_str(), want ? "misses" : "wrongly returns", str(L[i]).c_str());
      }
    }
}
static uint64_t bits(const std::vector<char>& v, uint64_t h) { for (char c : v) h = h * 2 + c; return mc::mix(1, h); }

template <class E> static void operations(mc::Ctx& ctx, int depth, int nl, bool watched = false) {
  std::vector<Letter> L(kLetters.begin(), kLetters.begin() + nl);
  EventSet<E> s; std::vector<char> in(nl, 0); bool watch = watched && ctx.flip();
  int n = 1 + ctx.choose(depth); uint64_t hist = 1 + watch;
  for (int i = 0; i < n; ++i) {
    int op = ctx.choose(2 * nl + 1);
    if (i == 1 && !ctx.mine()) return;
    if (op < nl) { s.Insert(make<E>(L[op])); in[op] = 1; ctx.say("Insert %s", str(L[op]).c_str()); }
    else if (op < 2 * nl) { s.Remove(make<E>(L[op - nl])); in[op - nl] = 0; ctx.say("Remove %s", str(L[op - nl]).c_str()); }
    else { s.Clear(); in.assign(nl, 0); ctx.say("Clear"); }
    // histories, not only contents: the state of a wrong implementation differs
    hist = mc::mix(hist, op); ctx.state(hist);
    if (watch) compare<E>(ctx, s, in, L);       // searches between the operations
  }
  if (n == 1 && !ctx.mine()) return;
  ctx.outcome(bits(in, 0));
  compare<E>(ctx, s, in, L);
}
MC_FAMILY(box_ops, "every sequence of <=6 (thorough 7) operations (Insert/Remove of 6 boxes, Clear), then size and 9 searches twice") { operations<B>(ctx, ctx.bound(6, 7), 6); }
MC_FAMILY(box_ops_long, "every sequence of <=7 (thorough 8) operations over 3 boxes") { operations<B>(ctx, ctx.bound(7, 8), 3); }
MC_FAMILY(box_ops_int, "every sequence of <=4 (thorough 5) operations over 6 boxes with integer queries and coordinates") { operations<BI>(ctx, ctx.bound(4, 5), 6); }

MC_FAMILY(box_watched, "every sequence of <=4 (thorough 5) operations over 6 boxes, the size and every search taken after each operation") { operations<B>(ctx, ctx.bound(4, 5), 6, true); }
MC_FAMILY(box_watched_long, "every sequence of <=5 (thorough 7) operations over 3 boxes, the size and every search taken after each operation") { operations<B>(ctx, ctx.bound(5, 7), 3, true); }
// Searches as operations: whatever is remembered from one search may only be
// used while it is right.
MC_FAMILY(box_search_op, "every sequence of <=6 (thorough 7) operations Insert/Remove of 2 overlapping boxes, Clear, and searches of 2 boxes, each search compared") {
  static const std::vector<Letter> L(kLetters.begin(), kLetters.begin() + 2); EventSet<B> s; std::vector<char> in(2, 0); uint64_t hist = 5; int n = ctx.bound(6, 7);
  for (int i = 0; i < n; ++i) {
    int op = ctx.choose(8); if (i == 1 && !ctx.mine()) return; if (op == 7) break;
    if (op < 2) { s.Insert(make<B>(L[op])); in[op] = 1; ctx.say("Insert %s", str(L[op]).c_str()); }
    else if (op < 4) { s.Remove(make<B>(L[op - 2])); in[op - 2] = 0; ctx.say("Remove %s", str(L[op - 2]).c_str()); }
    else if (op == 4) { s.Clear(); in.assign(2, 0); ctx.say("Clear"); }
    else {
      const Letter& pr = kProbes[op - 5]; ctx.say("search %s", str(pr).c_str()); auto r = s.FindOverlapping(make<B>(pr)); ctx.compared();
      std::vector<std::pair<long long, int>> want; for (int k = 0; k < 2; ++k) if (in[k] && ora::inter(L[k].b, pr.b) > 0) want.push_back({-ora::inter(L[k].b, pr.b), k}); std::sort(want.begin(), want.end());
      CHECK(r.size() == want.size(), "search of %s returns %zu events instead of %zu", str(pr).c_str(), (size_t)r.size(), want.size()); size_t w = 0;
      for (auto& e : r) { CHECK(e == make<B>(L[want[w].second]), "search of %s: wrong event at position %zu", str(pr).c_str(), w); ++w; }
      CHECK(s.Size() == (size_t)(in[0] + in[1]), "Size() is %zu after a search", s.Size());
    }
    hist = mc::mix(hist, op); ctx.state(hist);
  }
}
MC_FAMILY(box_range, "every sequence of <=5 boxes (with repetitions) given as a range, in zeroed and dirty memory, then <=2 operations") {
  std::vector<B> v; std::vector<char> in(6, 0);
  for (int i = 0; i < 5; ++i) { int c = ctx.choose(7); if (c == 0) break; v.push_back(make<B>(kLetters[c - 1])); in[c - 1] = 1; ctx.say("range: %s", str(kLetters[c - 1]).c_str()); }
  if (!ctx.mine()) return;
  int dirty = ctx.choose(2) ? 0xff : 0; int op = ctx.choose(13);
  typename std::aligned_storage<sizeof(EventSet<B>), alignof(EventSet<B>)>::type mem; memset(&mem, dirty, sizeof mem);
  EventSet<B>* s = new (&mem) EventSet<B>(v.begin(), v.end());
  std::unique_ptr<EventSet<B>, void (*)(EventSet<B>*)> g(s, [](EventSet<B>* p) { p->~EventSet<B>(); });
  ctx.state(mc::mix(bits(in, v.size()), op * 2 + (dirty != 0)));
  if (op < 6) { s->Insert(make<B>(kLetters[op])); in[op] = 1; } else if (op < 12) { s->Remove(make<B>(kLetters[op - 6])); in[op - 6] = 0; }
  compare<B>(ctx, *s, in, kLetters);
}

// Searches in other places and sizes, up to the ends of the coordinate type.
template <class E> static void places(mc::Ctx& ctx, const std::vector<std::array<long long, 4>>& tr) {
  static const std::vector<ora::Box> base = {{0, 0, 2, 2}, {1, 0, 2, 2}, {0, 0, 4, 2}, {2, 0, 2, 2}, {0, 1, 2, 2}, {1, 1, 2, 2}, {0, 0, 1, 1}, {5, 5, 2, 2}}, near = {{10, 10, 4000, 4000}, {10, 10, 4000, 3999}, {10, 10, 3999, 4000}, {11, 10, 4000, 4000}, {10, 11, 3999, 3999}, {2010, 10, 4000, 4000}, {2009, 10, 4000, 4000}, {10, 10, 4095, 4096}};
  int t = ctx.choose((int)tr.size() + 1); std::vector<Letter> L;
  for (int i = 0; i < 8; ++i) { ora::Box b = base[i]; if (t == (int)tr.size()) b = near[i]; else { auto& f = tr[t]; b = ora::Box{b.x * f[0] + f[2], b.y * f[1] + f[3], b.w * f[0], b.h * f[1]}; } L.push_back(Letter{0, 0, b}); }
  int mask = 1 + ctx.choose(255); if (!ctx.mine()) return; int probe = ctx.choose(8), dir = ctx.choose(2);
  EventSet<E> s; for (int k = 0; k < 8; ++k) { int i = dir ? 7 - k : k; if (mask >> i & 1) { s.Insert(make<E>(L[i])); ctx.say("Insert %s", str(L[i]).c_str()); } }
  ctx.state(mc::mix(mc::mix(t, mask), probe * 2 + dir)); ctx.say("search %s", str(L[probe]).c_str());
  auto r = s.FindOverlapping(make<E>(L[probe])); ctx.compared(); long long last = -1; int got = 0;
  for (auto& e : r) { int k = -1; for (int i = 0; i < 8; ++i) if (e == make<E>(L[i])) k = i; CHECK(k >= 0 && (mask >> k & 1) && !(got >> k & 1), "a search returns an event that is not held, or twice"); got |= 1 << k; long long a = ora::inter(L[k].b, L[probe].b); CHECK(last < 0 || a <= last, "intersection %lld after %lld", a, last); last = a; }
  for (int i = 0; i < 8; ++i) CHECK(!!(got >> i & 1) == ((mask >> i & 1) && ora::inter(L[i].b, L[probe].b) > 0), "search of %s: %s %s", str(L[probe]).c_str(), got >> i & 1 ? "wrongly returns" : "misses", str(L[i]).c_str());
  CHECK(s.Size() == (size_t)__builtin_popcount(mask), "Size() is %zu, the set holds %d events", s.Size(), __builtin_popcount(mask));
}
MC_FAMILY(box_places, "every subset of 8 boxes at 8 places and sizes up to 2^32, and of 8 boxes of 16 million pixels that differ by a row or column; searched for each of them") { places<B>(ctx, {{{3, 1000, 0, 0}}, {{129, 1, 65535, 3}}, {{1, 257, 2147483647LL - 2, 2147483647LL}}, {{180, 190, 16777215, 16777216}}, {{1400, 1400, 4294967295LL - 9800, 4294967295LL - 9800}}, {{1, 1, 4294967295LL - 7, 4294967295LL - 7}}, {{500000, 1, 0, 65533}}, {{1, 500000, 9, 0}}}); }
MC_FAMILY(box_places_int, "the same with signed coordinates, negative ones too") { places<BI>(ctx, {{{1, 1, -3, -1}}, {{257, 255, -700, 4}}, {{90, 400, -2147483647LL, -2147483647LL}}, {{3, 3, 2147483600LL, 2147483600LL}}}); }

// Fractional coordinates: areas that differ by less than one, far below one, and far above.
template <class T> static void fractions(mc::Ctx& ctx) {
  typedef ShapedEvent<std::string, DocumentBoundingBox<T>> E; static const ora::Box base[] = {{0, 0, 2, 2}, {1, 0, 2, 2}, {0, 0, 4, 2}, {2, 0, 2, 2}, {0, 1, 2, 3}, {1, 1, 3, 2}, {-1, -1, 2, 2}, {0, 0, 8, 8}};
  static const double sc[] = {0.5, 0.25, 0.125, 1 / 64.0, 1 / 1024.0, 1 / 1048576.0, 3, 1048576.0}; int c = ctx.choose(8), mask = 1 + ctx.choose(255); if (!ctx.mine()) return; int probe = ctx.choose(8), dir = ctx.choose(2);
  auto mk = [&](int i) { auto& b = base[i]; return E("q", DocumentBoundingBox<T>("d", (T)(b.x * sc[c]), (T)(b.y * sc[c]), (T)(b.w * sc[c]), (T)(b.h * sc[c]))); };
  EventSet<E> s; for (int k = 0; k < 8; ++k) { int i = dir ? 7 - k : k; if (mask >> i & 1) s.Insert(mk(i)); } ctx.state(mc::mix(mc::mix(c, mask), probe * 2 + dir)); ctx.say("scale %g, boxes %d, search of %d", sc[c], mask, probe);
  for (int round = 0; round < 2; ++round) {
    int got = 0; long long last = -1; ctx.compared(); for (auto& e : s.FindOverlapping(mk(probe))) { int k = -1; for (int i = 0; i < 8; ++i) if (e == mk(i)) k = i; CHECK(k >= 0 && (mask >> k & 1) && !(got >> k & 1), "a search returns an event that is not held, or twice"); got |= 1 << k; long long a = ora::inter(base[k], base[probe]); CHECK(last < 0 || a <= last, "scale %g: intersection %lld after %lld", sc[c], a, last); last = a; }
    for (int i = 0; i < 8; ++i) CHECK(!!(got >> i & 1) == ((mask >> i & 1) && ora::inter(base[i], base[probe]) > 0), "scale %g: a search %s box %d", sc[c], got >> i & 1 ? "wrongly returns" : "misses", i);
    CHECK(s.Size() == (size_t)__builtin_popcount(mask), "Size() is %zu, the set holds %d events", s.Size(), __builtin_popcount(mask)); if (round == 0) { int r = probe ^ 1; s.Remove(mk(r)); mask &= ~(1 << r); }
  }
}
EXOTIC(MC_FAMILY(box_fractions, "every subset of 8 boxes with double coordinates at 8 scales from 2^-20 to 2^20, searched for each, before and after a removal") { fractions<double>(ctx); })
EXOTIC(MC_FAMILY(box_fractions_flt, "the same with float coordinates") { fractions<float>(ctx); })

// Many events: positions on a grid, removal patterns.
MC_FAMILY(box_many, "n events, n in 1..70 and 100..1000, over 1..3 queries and documents, 4 removal patterns, searches over the whole grid") {
  static std::vector<int> ns; if (ns.empty()) { for (int i = 1; i <= 70; ++i) ns.push_back(i); for (int i : {100, 128, 129, 255, 256, 257, 512, 1000}) ns.push_back(i); }
  int n = ns[ctx.choose((int)ns.size())], qs = 1 + ctx.choose(3); if (!ctx.mine()) return;
  int ds = 1 + ctx.choose(3), rem = ctx.choose(4), ord = ctx.choose(3);
  auto ev = [&](int i) { return B("q" + std::to_string(i % qs), DocumentBoundingBox<uint32_t>("d" + std::to_string((i / qs) % ds), 3 * (i % 11), 2 * ((i / 11) % 10), 4 + i / 110, 3)); };
  EventSet<B> s; std::vector<char> in(n, 0);
  for (int k = 0; k < n; ++k) { int i = ord == 0 ? k : ord == 1 ? n - 1 - k : (int)((k * 7919LL) % n); if (!in[i]) { s.Insert(ev(i)); in[i] = 1; } }
  for (int i = 0; i < n; ++i) if (!in[i]) { s.Insert(ev(i)); in[i] = 1; }
  if (rem == 3) { s.Clear(); in.assign(n, 0); for (int i = 0; i < n; i += 2) { s.Insert(ev(i)); in[i] = 1; } }
  else if (rem) for (int i = 0; i < n; i += rem + 1) { s.Remove(ev(i)); in[i] = 0; s.Remove(ev(i)); }
  size_t c = 0; for (char x : in) c += x;
  CHECK(s.Size() == c, "Size() is %zu, the set holds %zu events", s.Size(), c);
  ctx.state(mc::mix(mc::mix(n, qs * 4 + ds), rem * 4 + ord));
  for (int q = 0; q < qs; ++q) for (int d = 0; d < ds; ++d) for (int x = 0; x < 36; x += 5) {
    ora::Box pb{x, x / 2, 6, 7};
    auto r = s.FindOverlapping(B("q" + std::to_string(q), DocumentBoundingBox<uint32_t>("d" + std::to_string(d), x, x / 2, 6, 7))); ctx.compared();
    size_t want = 0; for (int i = 0; i < n; ++i) if (in[i] && i % qs == q && (i / qs) % ds == d && ora::inter(ora::Box{3 * (i % 11), 2 * ((i / 11) % 10), 4 + i / 110, 3}, pb) > 0) ++want;
    CHECK(r.size() == want, "a search returns %zu events instead of %zu (n=%d)", r.size(), want, n);
    long long last = -1; std::set<std::string> seen;
    for (auto& e : r) {
      auto& l = e.Location(); long long a = ora::inter(ora::Box{l.x, l.y, l.w, l.h}, pb);
      CHECK(e.Query() == "q" + std::to_string(q) && l.document == "d" + std::to_string(d) && a > 0, "a search returns an event of elsewhere");
      CHECK(last < 0 || a <= last, "intersection %lld after %lld", a, last); last = a;
      std::ostringstream o; o << e; CHECK(seen.insert(o.str()).second, "a search returns %s twice", o.str().c_str());
    }
  }
}
// Many events overlapping one place: the order of a long result.
MC_FAMILY(box_crowd, "n events around one place, n in 1..48 and up to 1000 (thorough: 1..130), with areas in increasing, decreasing or mixed order, with and without equal ones; the whole order of the result, before and after removing every second") {
  std::vector<int> ns; for (int i = 1; i <= ctx.bound(48, 130); ++i) ns.push_back(i); for (int i : {64, 65, 100, 128, 129, 255, 256, 257, 1000}) ns.push_back(i);
  int n = ns[ctx.choose((int)ns.size())], ord = ctx.choose(3); if (!ctx.mine()) return; int eq = ctx.choose(3), where = ctx.choose(3);
  auto bx = [&](int i) { int k = eq == 0 ? i : eq == 1 ? i / 2 : i % 5; return ora::Box{where == 0 ? 10 : 1000 - k, where == 1 ? 1000 - i : 10, 10 + k + (where == 2 ? i : 0), 10 + (where == 1 ? i : 0)}; };
  auto ev = [&](int i) { auto b = bx(i); return B("q", DocumentBoundingBox<uint32_t>("d", b.x, b.y, b.w, b.h)); };
  std::map<std::string, ora::Box> held; auto key = [](const B& b) { std::ostringstream o; o << b; return o.str(); };
  EventSet<B> s; for (int k = 0; k < n; ++k) { int i = ord == 0 ? k : ord == 1 ? n - 1 - k : (int)((k * 7919LL) % n); s.Insert(ev(i)); held[key(ev(i))] = bx(i); }
  for (int i = 0; i < n; ++i) { s.Insert(ev(i)); held[key(ev(i))] = bx(i); }
  for (int round = 0; round < 3; ++round) {
    ctx.state(mc::mix(mc::mix(n, ord * 9 + eq * 3 + where), round));
    if (round) for (int i = round - 1; i < n; i += 2 + round) { s.Remove(ev(i)); held.erase(key(ev(i))); }
    CHECK(s.Size() == held.size(), "Size() is %zu instead of %zu", s.Size(), held.size());
    for (const ora::Box& pb : {ora::Box{0, 0, 3000, 3000}, ora::Box{10, 10, 15, 990}, ora::Box{900, 9, 101, 5}}) {
      std::vector<long long> want; for (auto& h : held) if (ora::inter(h.second, pb) > 0) want.push_back(ora::inter(h.second, pb)); std::sort(want.rbegin(), want.rend());
      auto r = s.FindOverlapping(B("q", DocumentBoundingBox<uint32_t>("d", pb.x, pb.y, pb.w, pb.h))); ctx.compared();
      CHECK(r.size() == want.size(), "a search among %zu events returns %zu instead of %zu", held.size(), (size_t)r.size(), want.size());
      size_t i = 0; std::set<std::string> seen;
      for (auto& e : r) { auto it = held.find(key(e)); CHECK(it != held.end() && seen.insert(key(e)).second, "a search returns an event that is not held, or twice"); long long a = ora::inter(it->second, pb); CHECK(a == want[i], "position %zu of a search: intersection %lld instead of %lld", i, a, want[i]); ++i; }
    }
  }
}
// Boxes across every power-of-two line, narrow and wide ones together, many events.
static B bx(const ora::Box& b, const std::string& q = "q", const std::string& d = "d") { return B(q, DocumentBoundingBox<uint32_t>(d, (uint32_t)b.x, (uint32_t)b.y, (uint32_t)b.w, (uint32_t)b.h)); }
static void finds(mc::Ctx& ctx, const EventSet<B>& s, const std::vector<ora::Box>& held, const ora::Box& pr) {
  std::vector<long long> want, got; for (auto& h : held) if (ora::inter(h, pr) > 0) want.push_back(ora::inter(h, pr)); std::sort(want.rbegin(), want.rend()); std::set<std::array<long long, 4>> left, all; for (auto& h : held) all.insert({{h.x, h.y, h.w, h.h}}); ctx.compared();
  for (auto& e : s.FindOverlapping(bx(pr))) { auto& l = e.Location(); std::array<long long, 4> k{{l.x, l.y, l.w, l.h}}; CHECK(all.count(k) && left.insert(k).second, "a search returns an event that is not held, or twice"); got.push_back(ora::inter(ora::Box{l.x, l.y, l.w, l.h}, pr)); }
  CHECK(got == want, "a search of %lld,%lld %lldx%lld returns %zu of %zu events, or not by decreasing intersection", pr.x, pr.y, pr.w, pr.h, got.size(), want.size());
}
MC_FAMILY(box_lines, "3 boxes (across, just before and just after the line) at every power of two from 4 to 2^31 and the multiples by 3 and 5, in each direction, against 36 searched boxes that end, begin and lie within 3 units of the line; all subsets of the 3") {
  int k = 2 + ctx.choose(30), m = ctx.choose(3), axis = ctx.choose(2); long long c = (1LL << k) * (m == 0 ? 1 : 2 * m + 1); if (!ctx.mine()) return; if (c > 4294967200LL) return; int mask = 1 + ctx.choose(7), len = 1 + ctx.choose(3), other = ctx.choose(3);
  auto at = [&](long long a, long long b) { long long o[] = {0, 7, 65530}; return axis ? ora::Box{o[other], a, 9, b - a} : ora::Box{a, o[other], b - a, 9}; };
  std::vector<ora::Box> all = {at(c - len, c + len), at(c - len, c), at(c, c + len)}, held; EventSet<B> s; for (int i = 0; i < 3; ++i) if (mask >> i & 1) { s.Insert(bx(all[i])); held.push_back(all[i]); }
  ctx.state(mc::mix(c * 2 + axis, mask * 9 + len * 3 + other)); ctx.say("line %lld, boxes %d of length %d", c, mask, len);
  for (int a = -3; a <= 3; ++a) for (int b = a + 1; b <= 4; ++b) finds(ctx, s, held, at(c + a, c + b));
  for (int i = 0; i < 3; ++i) if (mask >> i & 1) { s.Remove(bx(all[i])); held.erase(held.begin()); finds(ctx, s, held, at(c - 2, c + 2)); }
}
MC_FAMILY(box_widths, "5 boxes of widths from 1 to 2^31 in every order of insertion and every order of 2 removals, in each direction; searched at the ends and the middle of each and of all") {
  static const long long W[][5] = {{1, 256, 65536, 16777216, 2147483648LL}, {3, 4, 5, 6, 4000000000LL}, {1, 1, 1000, 1000, 1000000}, {2147483648LL, 2147483647LL, 2147483649LL, 1, 2}}; static const long long X[][5] = {{4000000000LL, 70000, 5, 3, 0}, {0, 100, 200, 300, 7}, {0, 999, 0, 500, 0}, {0, 1, 2, 2147483647LL, 4294967000LL}};
  int w = ctx.choose(4); std::vector<int> ord; { std::vector<int> left = {0, 1, 2, 3, 4}; while (!left.empty()) { int i = ctx.choose((int)left.size()); ord.push_back(left[i]); left.erase(left.begin() + i); } } if (!ctx.mine()) return; int r1 = ctx.choose(5), r2 = ctx.choose(5), axis = ctx.choose(2);
  auto of = [&](long long x, long long n) { return axis ? ora::Box{7, x, 1, n} : ora::Box{x, 7, n, 1}; }; EventSet<B> s; std::vector<ora::Box> held; for (int i : ord) { s.Insert(bx(of(X[w][i], W[w][i]))); held.push_back(of(X[w][i], W[w][i])); }
  ctx.state(mc::mix(mc::mix(w * 2 + axis, r1 * 5 + r2), ord[0] * 625 + ord[1] * 125 + ord[2] * 25 + ord[3] * 5)); ctx.say("widths %d, removing %d and %d", w, r1, r2);
  for (int round = 0; round < 3; ++round) {
    if (round) { auto b = of(X[w][round == 1 ? r1 : r2], W[w][round == 1 ? r1 : r2]); s.Remove(bx(b)); for (size_t i = 0; i < held.size(); ++i) if (held[i].x == b.x && held[i].y == b.y && held[i].w == b.w && held[i].h == b.h) { held.erase(held.begin() + i); break; } }
    CHECK(s.Size() == held.size(), "Size() is %zu instead of %zu", s.Size(), held.size());
    for (int i = 0; i < 5; ++i) for (long long x : {X[w][i], X[w][i] + W[w][i] - 1, X[w][i] + W[w][i] / 2}) finds(ctx, s, held, of(x, 1)); finds(ctx, s, held, of(0, 4294967295LL));
  }
}
MC_FAMILY(box_huge, "4096 to 70001 (thorough: 300000) events in one place, over as many documents, as many queries or 16 of each, a third removed: the size and 200 searches") {
  static const int ns[] = {4096, 32768, 65535, 65537, 70001, 131073, 300000}; int n = ns[ctx.choose(ctx.bound(5, 7))], how = ctx.choose(4), rem = ctx.choose(3); if (!ctx.mine()) return;
  auto name = [&](int i, std::string* q, std::string* d) { *q = "q" + std::to_string(how == 1 ? i : how == 3 ? i % 16 : 0); *d = "d" + std::to_string(how == 2 ? i : how == 3 ? i / 16 % 16 : 0); }; auto box = [&](int i) { return ora::Box{10LL * i, 5, 11, 3}; };
  EventSet<B> s; std::string q, d; auto one = [&](int i) { name(i, &q, &d); return bx(box(i), q, d); }; for (int k = 0; k < n; ++k) s.Insert(one((int)(k * 7919LL % n))); for (int k = 0; k < n; k += 5) s.Insert(one(k)); size_t left = n; std::vector<char> in(n, 1); if (rem) for (int i = rem - 1; i < n; i += 3) { s.Remove(one(i)); in[i] = 0; --left; }
  ctx.state(mc::mix(n, how * 3 + rem)); ctx.say("n=%d how=%d removed %d", n, how, rem); CHECK(s.Size() == left, "Size() is %zu instead of %zu", s.Size(), left);
  for (int t = 0; t < 200; ++t) { int i = t < 50 ? t : t < 100 ? n - 1 - (t - 50) : (int)(t * 104729LL % n); name(i, &q, &d); std::string q2, d2; size_t want = 0; for (int j = std::max(0, i - 1); j <= std::min(n - 1, i + 1); ++j) { name(j, &q2, &d2); if (in[j] && q2 == q && d2 == d && ora::inter(box(j), box(i)) > 0) ++want; } auto r = s.FindOverlapping(one(i)); ctx.compared(); CHECK(r.size() == want, "search of event %d returns %zu events instead of %zu", i, (size_t)r.size(), want); if (in[i]) CHECK(!r.empty() && r.front() == one(i), "search of event %d does not return it first", i); if (t % 4 == 0) { s.Remove(one(i)); left -= in[i]; in[i] = 0; CHECK(s.Size() == left, "Size() is %zu instead of %zu", s.Size(), left); } }
}
// A copy is a set of its own.
MC_FAMILY(box_copies, "every sequence of <=3 operations over 6 boxes, a copy (constructed, or assigned over another set), then every 2 operations on the copy or on the original: both are searched") {
  EventSet<B> s, t; std::vector<char> in(6, 0), jn(6, 0); auto op = [&](EventSet<B>* x, std::vector<char>* v, int o) { if (o < 6) { x->Insert(make<B>(kLetters[o])); (*v)[o] = 1; ctx.say("Insert %s", str(kLetters[o]).c_str()); } else if (o < 12) { x->Remove(make<B>(kLetters[o - 6])); (*v)[o - 6] = 0; ctx.say("Remove %s", str(kLetters[o - 6]).c_str()); } else { x->Clear(); v->assign(6, 0); ctx.say("Clear"); } };
  int n = ctx.choose(ctx.bound(3, 4)); uint64_t h = n; for (int i = 0; i < n; ++i) { int o = ctx.choose(13); if (i == 0 && !ctx.mine()) return; op(&s, &in, o); h = mc::mix(h, o); } if (n == 0 && !ctx.mine()) return; int how = ctx.choose(2); if (how) { t.Insert(make<B>(kLetters[2])); t = s; } std::unique_ptr<EventSet<B>> c(how ? nullptr : new EventSet<B>(s)); EventSet<B>& k = how ? t : *c; jn = in;
  for (int i = 0; i < 2; ++i) { int who = ctx.choose(2), o = ctx.choose(13); ctx.say(who ? "on the copy:" : "on the original:"); if (who) op(&k, &jn, o); else op(&s, &in, o); h = mc::mix(h, who * 13 + o); } ctx.state(mc::mix(h, how)); compare<B>(ctx, s, in, kLetters); compare<B>(ctx, k, jn, kLetters);
}
// Names of queries and documents.
MC_FAMILY(box_names, "every pair of 14 names as query and document of the held and the searched event") {
  static const std::vector<std::string> nm = {"", "a", "aa", "a ", "A", "b", "ab", "ba", std::string(15, 'x'), std::string(16, 'x'), std::string(200, 'x'), std::string("a\0b", 3), std::string("a\0c", 3), "\xff"};
  int a = ctx.choose(14), b = ctx.choose(14); if (!ctx.mine()) return;
  int c = ctx.choose(14), d = ctx.choose(14);
  EventSet<B> s; B e(nm[a], DocumentBoundingBox<uint32_t>(nm[b], 1, 1, 2, 2)), f(nm[c], DocumentBoundingBox<uint32_t>(nm[d], 1, 1, 2, 2)); s.Insert(e);
  ctx.state(((a * 14 + b) * 14 + c) * 14 + d); ctx.say("%s/%s against %s/%s", nm[a].c_str(), nm[b].c_str(), nm[c].c_str(), nm[d].c_str());
  bool eq = a == c && b == d; ctx.compared();
  CHECK((s.FindOverlapping(f).size() == 1) == eq, "search by name: wrong result");
  s.Remove(f); CHECK(s.Size() == (eq ? 0u : 1u), "removal by name: wrong result");
  s.Insert(f); CHECK(s.Size() == (eq ? 1u : 2u), "insertion by name: wrong result");
}

// The set of events without shape.
static P pm(int i) { static const char* l[] = {"x", "y", ""}; return P(i / 3, l[i % 3]); }
MC_FAMILY(plain_ops, "every sequence of <=4 (thorough 5) operations on the set of events without shape over 6 events, searched at the end or after every operation") {
  EventSet<P> s; std::set<int> in; int n = 1 + ctx.choose(ctx.bound(4, 5)); bool watch = ctx.flip(); uint64_t hist = 3 + watch;
  auto look = [&] {
    for (int t = 0; t < 2; ++t) {
      CHECK(s.Size() == in.size(), "Size() is %zu instead of %zu", s.Size(), in.size());
      for (int i = 0; i < 6; ++i) { auto r = s.FindOverlapping(pm(i)); ctx.compared(); CHECK(r.size() == in.count(i), "search of event %d returns %zu events", i, r.size()); if (!r.empty()) CHECK(r.front() == pm(i), "search of event %d returns another", i); }
    }
  };
  for (int i = 0; i < n; ++i) {
    int op = ctx.choose(13); if (i == 1 && !ctx.mine()) return;
    if (op < 6) { s.Insert(pm(op)); in.insert(op); ctx.say("Insert %d", op); } else if (op < 12) { s.Remove(pm(op - 6)); in.erase(op - 6); ctx.say("Remove %d", op - 6); } else { s.Clear(); in.clear(); ctx.say("Clear"); }
    hist = mc::mix(hist, op); ctx.state(hist); if (watch) look();
  }
  if (n == 1 && !ctx.mine()) return;
  uint64_t oc = 0; for (int x : in) oc |= 1 << x; ctx.outcome(oc);
  look();
}
MC_FAMILY(plain_range, "every sequence of <=5 events without shape given as a range") {
  std::vector<P> v; std::set<int> in; for (int i = 0; i < 5; ++i) { int c = ctx.choose(7); if (!c) break; v.push_back(pm(c - 1)); in.insert(c - 1); }
  if (!ctx.mine()) return;
  EventSet<P> s(v.begin(), v.end()); uint64_t h = v.size(); for (int x : in) h = mc::mix(h, x); ctx.state(h); ctx.compared();
  CHECK(s.Size() == in.size(), "Size() is %zu instead of %zu", s.Size(), in.size());
  for (int i = 0; i < 6; ++i) CHECK(s.FindOverlapping(pm(i)).size() == in.count(i), "search of event %d", i);
}
