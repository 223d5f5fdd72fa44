// C22: names are numbered injectively, densely and stably.
#include "mc.h"

#include <map>
#include <memory>
#include <stdexcept>

#include "core/Event.h"
#include "core/ScoredEvent.h"
#include "mapper/IdentityMapper.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "mapper/StringToIntMapper.h"

using kws::core::Event; using kws::core::ScoredEvent;
using kws::mapper::IdentityMapper; using kws::mapper::ScoredEventMapper; using kws::mapper::StringEventToIntMapper; using kws::mapper::StringToIntMapper;
typedef std::vector<std::string> Names;

// The numbering that must come out.
struct Model {
  std::map<std::string, uint64_t> m; uint64_t max;
  explicit Model(uint64_t mx) : max(mx) {}
  bool get(const std::string& n, uint64_t* v) { auto it = m.find(n); if (it != m.end()) { *v = it->second; return true; } if (!m.empty() && m.size() - 1 >= max) return false; *v = m.size(); m.emplace(n, *v); return true; }
};
static std::string quote(const std::string& s) { std::string o = "'"; for (unsigned char c : s.substr(0, 40)) { char b[8]; if (c < 32 || c > 126) snprintf(b, sizeof b, "\\x%02x", c); else snprintf(b, sizeof b, "%c", c); o += b; } return o + (s.size() > 40 ? "...'" : "'"); }
template <class Mapper> static void look(mc::Ctx& ctx, Mapper& m, Model& model, const std::string& n, const std::string& who) {
  uint64_t want = 0; bool ok = model.get(n, &want), got = true; unsigned long long v = 0;
  try { v = (unsigned long long)m(n); } catch (const std::exception&) { got = false; }
  ctx.compared(); if (ctx.describing()) ctx.say("%s(%s) = %s", who.c_str(), quote(n).c_str(), got ? std::to_string(v).c_str() : "exception");
  CHECK(got == ok, "%s: the name %s %s (%zu names known)", who.c_str(), quote(n).c_str(), got ? "is numbered though all numbers are used up" : "is refused", model.m.size());
  if (ok) CHECK(v == want, "%s: the name %s gets the number %llu, must be %llu", who.c_str(), quote(n).c_str(), v, (unsigned long long)want);
}
template <class Int> static uint64_t top() { return (uint64_t)std::numeric_limits<Int>::max(); }
template <class Int, class M> static void sequence(mc::Ctx& ctx, const Names& names, const std::vector<int>& ops) {
  StringToIntMapper<Int, M> m; Model model(top<Int>()); uint64_t h = sizeof(Int) + 16 * std::is_signed<Int>::value; for (int o : ops) { look(ctx, m, model, names[o], "mapper"); h = mc::mix(h, o); ctx.state(mc::mix(h, names.size())); }
  std::set<unsigned long long> used; for (auto& kv : model.m) { unsigned long long v = m(kv.first); CHECK(used.insert(v).second, "two names have the number %llu", v); CHECK(v == kv.second, "the name %s changes its number to %llu, was %llu", quote(kv.first).c_str(), v, (unsigned long long)kv.second); CHECK(v < model.m.size(), "the numbers are not dense: %llu of %zu", v, model.m.size()); }
  ctx.outcome(model.m.size());
}
template <class Int> static void either(mc::Ctx& ctx, bool ordered, const Names& names, const std::vector<int>& ops) { EXOTIC(if (ordered) sequence<Int, std::map<std::string, Int>>(ctx, names, ops); else) sequence<Int, std::unordered_map<std::string, Int>>(ctx, names, ops); }
static void by_type(mc::Ctx& ctx, int t, bool ordered, const Names& n, const std::vector<int>& o) {
  switch (t) { case 0: either<int8_t>(ctx, ordered, n, o); break; case 1: either<uint8_t>(ctx, ordered, n, o); break; case 2: either<int16_t>(ctx, ordered, n, o); break; case 3: either<uint16_t>(ctx, ordered, n, o); break; case 4: either<int32_t>(ctx, ordered, n, o); break; case 5: either<uint32_t>(ctx, ordered, n, o); break; case 6: either<int64_t>(ctx, ordered, n, o); break; default: either<uint64_t>(ctx, ordered, n, o); }
}
MC_FAMILY(C22_sequences, "every sequence of 6 (thorough: 7) lookups of 7 names (related spellings), 8 integer types, two containers") {
  static const Names N = {"", "a", "A", "aa", "a ", " a", "b"}; std::vector<int> o; int n = ctx.bound(6, 7); int t = ctx.choose(8); bool ord = ctx.flip(); for (int i = 0; i < n; ++i) { o.push_back(ctx.choose(7)); if (i == 1 && !ctx.mine()) return; } by_type(ctx, t, ord, N, o);
}
MC_FAMILY(C22_names, "every name of up to 5 (thorough: 6) of 5 bytes (among them NUL and 0xff), in pairs with each of its neighbours") {
  static const char C[5] = {'a', 'b', '\0', '\xff', ' '}; std::string s; int n = ctx.choose(ctx.bound(6, 7)); for (int i = 0; i < n; ++i) { s += C[ctx.choose(5)]; if (i == 1 && !ctx.mine()) return; } if (n < 2 && !ctx.mine()) return;
  Names N = {s, s + '\0', s + 'a', s.empty() ? "x" : s.substr(1), s.empty() ? "y" : s.substr(0, n - 1), std::string(s.rbegin(), s.rend()), s + s}; std::vector<int> o = {0, 1, 0, 2, 3, 4, 5, 6, 3, 0, 6, 5, 4, 2, 1}; by_type(ctx, 7, false, N, o); by_type(ctx, 0, true, N, o);
}
MC_FAMILY(C22_long_names, "pairs of names of 1 to 70000 characters (around the powers of two) that differ in the first, the middle or the last character, in the length, or in case") {
  static std::vector<int> ns; if (ns.empty()) for (int k = 3; k <= 16; ++k) for (int d = -1; d <= 1; ++d) ns.push_back((1 << k) + d); int n = ns[ctx.choose((int)ns.size())], t = ctx.choose(8); if (!ctx.mine()) return; bool ord = ctx.flip(); int fill = ctx.choose(3);
  std::string s(n, 'x'); if (fill) for (int i = 0; i < n; ++i) s[i] = fill == 1 ? 'a' + i % 26 : (char)(i * 7 + 1); std::string a = s, b = s, c = s, d = s; a[0] ^= 1; b[n / 2] ^= 1; c[n - 1] ^= 1; d[n - 1] ^= 32;
  Names N = {s, a, b, c, d, s + "x", s.substr(0, n - 1)}; std::vector<int> o = {0, 1, 2, 3, 4, 5, 6, 0, 6, 5, 4, 3, 2, 1}; by_type(ctx, t, ord, N, o);
}
MC_FAMILY(C22_partition, "every way to reuse names in a history of up to 10 (thorough: 11) lookups (set partitions)") {
  Names N; std::vector<int> o; int used = 0, n = 1 + ctx.choose(ctx.bound(10, 11)); for (int i = 0; i < n; ++i) { int k = ctx.choose(used + 1); if (k == used) { ++used; N.push_back("name" + std::to_string(i)); } o.push_back(k); if (i == 4 && !ctx.mine()) return; } if (n < 5 && !ctx.mine()) return; by_type(ctx, 4, false, N, o);
}
// Exhaustion: fill up to a number of names, then every sequence of lookups of known and new names.
template <class Int, class M> static void exhaust(mc::Ctx& ctx, uint64_t fill, const std::vector<int>& ops) {
  StringToIntMapper<Int, M> m; Model model(top<Int>()); for (uint64_t i = 0; i < fill; ++i) look(ctx, m, model, "f" + std::to_string(i), "mapper");
  uint64_t h = fill * 16 + sizeof(Int); for (int o : ops) { look(ctx, m, model, o == 0 ? "f0" : o == 1 ? "f" + std::to_string(fill / 2) : o == 2 ? "f" + std::to_string(fill - 1) : "new" + std::to_string(o), "mapper"); h = mc::mix(h, o); ctx.state(h); }
  for (auto& kv : model.m) { uint64_t v = (uint64_t)m(kv.first); CHECK(v == kv.second, "after the exhaustion the name %s has the number %llu, must be %llu", kv.first.c_str(), (unsigned long long)v, (unsigned long long)kv.second); }
}
template <class Int> static void exhaust_case(mc::Ctx& ctx, int before, int depth) {
  uint64_t fill = top<Int>() + 1 - (ctx.choose(before + 2) - 1 + 0); bool ord = ctx.flip(); std::vector<int> o; for (int i = 0; i < depth; ++i) { o.push_back(ctx.choose(7)); if (i == 1 && !ctx.mine()) return; }
  if (fill > top<Int>() + 1) fill = top<Int>() + 1; EXOTIC(if (ord) exhaust<Int, std::map<std::string, Int>>(ctx, fill, o); else) exhaust<Int, std::unordered_map<std::string, Int>>(ctx, fill, o);
}
MC_FAMILY(C22_exhaust8, "8 bit types filled up to 0..3 free numbers, then every sequence of 5 (thorough: 6) lookups of 3 known and 4 new names") { if (ctx.flip()) exhaust_case<int8_t>(ctx, 3, ctx.bound(5, 6)); else exhaust_case<uint8_t>(ctx, 3, ctx.bound(5, 6)); }
MC_FAMILY(C22_exhaust16, "16 bit types filled up to 0..2 free numbers, then every sequence of 2 (thorough: 3) lookups of 3 known and 4 new names") { if (ctx.flip()) exhaust_case<int16_t>(ctx, 2, ctx.bound(2, 3)); else exhaust_case<uint16_t>(ctx, 2, ctx.bound(2, 3)); }
MC_FAMILY(C22_many, "wider types: 2^17 names in order, backwards, and again") {
  int t = ctx.choose(4), pat = ctx.choose(3); if (!ctx.mine()) return; auto run = [&](auto z) { typedef decltype(z) Int; StringToIntMapper<Int> m; Model model(top<Int>()); const int n = 1 << 17; for (int i = 0; i < n; ++i) { look(ctx, m, model, std::to_string(pat == 1 ? n - i : i), "mapper"); if (pat == 2 && i % 3 == 0) look(ctx, m, model, std::to_string(i / 2), "mapper"); } for (int i = n - 1; i >= 0; --i) look(ctx, m, model, std::to_string(pat == 1 ? n - i : i), "mapper"); ctx.state(t * 4 + pat); };
  switch (t) { case 0: run(int32_t()); break; case 1: run(uint32_t()); break; case 2: run(int64_t()); break; default: run(uint64_t()); }
}
// Several mappers on one numbering, made and dropped at any time.
MC_FAMILY(C22_shared, "every sequence of 5 (thorough: 6) operations: lookup of 3 names through 4 mappers (owner, copy, built on the same table, assigned), making copies of copies, assigning, dropping") {
  typedef StringToIntMapper<int32_t> SM; std::unique_ptr<SM::Impl> impl; bool own = ctx.flip(); SM::Impl* raw = new SM::Impl; if (!own) impl.reset(raw); SM base(raw, own); std::vector<std::unique_ptr<SM>> m; m.emplace_back(nullptr); m.emplace_back(new SM(base)); m.emplace_back(new SM(raw)); m.emplace_back(new SM); *m.back() = base; Model model(top<int32_t>());
  int n = ctx.bound(5, 6); uint64_t h = own; static const char* const N[3] = {"x", "y", "z"};
  for (int i = 0; i < n; ++i) {
    int o = ctx.choose(12 + 6); h = mc::mix(h, o); if (i == 1 && !ctx.mine()) return;
    if (o < 12) { int k = o / 3; SM* w = k == 0 ? &base : m[k].get(); if (!w) continue; look(ctx, *w, model, N[o % 3], "mapper " + std::to_string(k)); }
    else if (o == 12) { if (m[2]) m[1].reset(new SM(*m[2])); } else if (o == 13) { if (m[1] && m[3]) *m[3] = *m[1]; } else if (o == 14) m[1].reset(); else if (o == 15) { SM t(base); SM u(t); look(ctx, u, model, "w", "copy of a copy"); } else if (o == 16) { base = base; if (m[2]) base = *m[2]; } else { m[3].reset(new SM); look(ctx, *m[3], *std::unique_ptr<Model>(new Model(1000)), "fresh", "a new mapper"); *m[3] = base; }
    ctx.state(h);
  }
  for (auto& kv : model.m) CHECK((uint64_t)base(kv.first) == kv.second, "the name %s has the number %d, must be %llu", kv.first.c_str(), base(kv.first), (unsigned long long)kv.second);
}
// Two numberings: a mapper assigned from another leaves its own and joins the other's.
template <class SM> static void two_tables(mc::Ctx& ctx, int n) {
  typename SM::Impl t0, t1; std::vector<std::unique_ptr<SM>> m; m.emplace_back(new SM(&t0)); m.emplace_back(new SM(&t1)); m.emplace_back(new SM(*m[0])); m.emplace_back(new SM); int table[4] = {0, 1, 0, 2}; std::vector<Model> model(3, Model(top<int32_t>())); uint64_t h = n; static const char* const N[2] = {"x", "y"};
  for (int i = 0; i < n; ++i) {
    int o = ctx.choose(8 + 16); h = mc::mix(h, o); if (i == 1 && !ctx.mine()) return;
    if (o < 8) { int k = o / 2; if (table[k] >= 0) look(ctx, *m[k], model[table[k]], N[o % 2], "mapper " + std::to_string(k)); }
    else { int a = (o - 8) / 4, b = (o - 8) % 4; if (table[b] < 0) continue; if (ctx.describing()) ctx.say("mapper %d = mapper %d", a, b); bool gone = a == 3 && table[3] == 2 && table[b] != 2; *m[a] = *m[b]; table[a] = table[b]; if (gone) for (int& t : table) if (t == 2) t = -1; }
    ctx.state(h);
  }
  for (int k = 0; k < 4; ++k) if (table[k] >= 0) for (const char* x : N) look(ctx, *m[k], model[table[k]], x, "at the end: mapper " + std::to_string(k));
}
MC_FAMILY(C22_two, "every sequence of 5 (thorough: 6) operations on four mappers of three numberings, two of which they do not own: lookups of 2 names, assignments between all of them, to themselves too; two containers") {
  bool ord = ctx.flip(); EXOTIC(if (ord) two_tables<StringToIntMapper<int32_t, std::map<std::string, int32_t>>>(ctx, ctx.bound(4, 5)); else) two_tables<StringToIntMapper<int32_t>>(ctx, ctx.bound(5, 6));
}
// ---- events --------------------------------------------------------------
typedef Event<std::string, std::string> SE;
// The order in which query and location of one event are numbered is left open.
struct Both { std::vector<Model> open; };
template <class Int> static void event(mc::Ctx& ctx, Both& b, bool thrown, const std::string& q, const std::string& l, uint64_t gq, uint64_t gl, const std::string& who) {
  std::vector<Model> keep; for (auto& m : b.open) for (int order = 0; order < 2; ++order) { Model n = m; uint64_t wq = 0, wl = 0; bool okq, okl = true; if (order == 0) { okq = n.get(q, &wq); if (okq) okl = n.get(l, &wl); } else { okl = n.get(l, &wl); okq = true; if (okl) okq = n.get(q, &wq); }
    if (thrown ? (!okq || !okl) : (okq && okl && wq == gq && wl == gl)) { bool dup = false; for (auto& k : keep) dup |= k.m == n.m; if (!dup) keep.push_back(n); } if (q == l) break; }
  ctx.compared(); if (ctx.describing()) ctx.say("%s(%s, %s) = %llu %llu%s", who.c_str(), quote(q).c_str(), quote(l).c_str(), (unsigned long long)gq, (unsigned long long)gl, thrown ? " (exception)" : "");
  CHECK(!keep.empty(), "%s: the event (%s, %s) %s (%llu, %llu): not a dense numbering in order of first use", who.c_str(), quote(q).c_str(), quote(l).c_str(), thrown ? "is refused, not" : "becomes", (unsigned long long)gq, (unsigned long long)gl); b.open = keep;
}
template <class Int, class EM> static void map_event(mc::Ctx& ctx, EM& em, Both& b, const std::string& q, const std::string& l, const std::string& who) {
  bool thrown = false; uint64_t gq = 0, gl = 0; try { Event<Int, Int> e = em(SE(q, l)); gq = e.Query(); gl = e.Location(); } catch (const std::exception&) { thrown = true; } event<Int>(ctx, b, thrown, q, l, gq, gl, who);
}
template <class Int, class EM> static void map_scored(mc::Ctx& ctx, EM& em, Both& b, const std::string& q, const std::string& l, float s, const std::string& who) {
  bool thrown = false; uint64_t gq = 0, gl = 0; float gs = s; try { ScoredEvent<Event<Int, Int>> e = em(ScoredEvent<SE>(SE(q, l), s)); gq = e.Query(); gl = e.Location(); gs = e.Score(); } catch (const std::exception&) { thrown = true; } event<Int>(ctx, b, thrown, q, l, gq, gl, who);
  CHECK(memcmp(&gs, &s, sizeof s) == 0, "%s: the score %a becomes %a", who.c_str(), s, gs);
}
MC_FAMILY(C22_events, "every sequence of 4 (thorough: 5) events of 3 queries x 4 locations (names in common) through one event mapper, plain or scored") {
  typedef uint32_t Int; static const char* const Q[3] = {"a", "b", ""}; static const char* const L[4] = {"a", "x", "", "y"}; static const float S[4] = {0.5f, -1e30f, -0.0f, 3e38f}; bool scored = ctx.flip(); StringEventToIntMapper<Int> em; ScoredEventMapper<StringEventToIntMapper<Int>> sm(&em); Both b; b.open.emplace_back(top<Int>()); int n = ctx.bound(4, 5); uint64_t h = scored;
  for (int i = 0; i < n; ++i) { int k = ctx.choose(12); h = mc::mix(h, k); if (i == 1 && !ctx.mine()) return; if (scored) map_scored<Int>(ctx, sm, b, Q[k / 4], L[k % 4], S[(k + i) % 4], "scored event mapper"); else map_event<Int>(ctx, em, b, Q[k / 4], L[k % 4], "event mapper"); ctx.state(h); }
  StringToIntMapper<Int>& names = *em.GetMapper(); for (auto& kv : b.open[0].m) { bool any = false; for (auto& m : b.open) any |= names(kv.first) == m.m[kv.first]; CHECK(any, "the name mapper gives %s the number %u", quote(kv.first).c_str(), names(kv.first)); }
}
MC_FAMILY(C22_events_shared, "every sequence of 4 (thorough: 5) operations through a name mapper and four event mappers built on it or copied, plain and scored, sharing the numbering") {
  typedef uint16_t Int; StringToIntMapper<Int> names; StringToIntMapper<Int> copy(names); StringEventToIntMapper<Int> e1(&names), e2(e1), e3(&copy), e4(&names, false); ScoredEventMapper<StringEventToIntMapper<Int>> s1(&e2), s2(&e3); Both b; b.open.emplace_back(top<Int>()); int n = ctx.bound(4, 5); uint64_t h = 3; static const char* const N[3] = {"a", "b", "c"};
  for (int i = 0; i < n; ++i) { int w = ctx.choose(7), q = ctx.choose(3), l = w ? ctx.choose(3) : q; h = mc::mix(h, w * 9 + q * 3 + l); if (i == 0 && !ctx.mine()) return; switch (w) { case 0: { uint64_t v = names(N[q]); event<Int>(ctx, b, false, N[q], N[q], v, v, "name mapper"); break; } case 1: map_event<Int>(ctx, e1, b, N[q], N[l], "first"); break; case 2: map_event<Int>(ctx, e2, b, N[q], N[l], "copy"); break; case 3: map_event<Int>(ctx, e3, b, N[q], N[l], "third"); break; case 4: map_event<Int>(ctx, e4, b, N[q], N[l], "fourth"); break; case 5: map_scored<Int>(ctx, s1, b, N[q], N[l], i + 0.5f, "scored copy"); break; default: map_scored<Int>(ctx, s2, b, N[q], N[l], -i, "scored third"); } ctx.state(h); }
}
// Assigned event mappers share the numbering, as copied ones do.
MC_FAMILY(C22_events_two, "every sequence of 4 (thorough: 5) operations on three event mappers of two numberings, plain and scored: events of 2 queries x 2 locations, assignments between all of them") {
  typedef int32_t Int; typedef StringEventToIntMapper<Int> EM; StringToIntMapper<Int> n0, n1; EM e[3] = {EM(&n0), EM(&n1), EM(&n0)}; ScoredEventMapper<EM> s0(&e[0]), s2(&e[2]); int table[3] = {0, 1, 0}; Both b[2]; for (auto& x : b) x.open.emplace_back(top<Int>()); uint64_t h = 5; static const char* const N[2] = {"x", "y"};
  for (int i = 0, n = ctx.bound(4, 5); i < n; ++i) { int o = ctx.choose(20 + 9); h = mc::mix(h, o); if (i == 1 && !ctx.mine()) return; if (o < 20) { int w = o / 4; const char *q = N[o & 1], *l = N[(o >> 1) & 1]; if (w < 3) map_event<Int>(ctx, e[w], b[table[w]], q, l, "event mapper " + std::to_string(w)); else map_scored<Int>(ctx, w == 3 ? s0 : s2, b[table[w == 3 ? 0 : 2]], q, l, 0.5f * i, "scored mapper"); } else { int a = (o - 20) / 3, c = (o - 20) % 3; if (ctx.describing()) ctx.say("event mapper %d = event mapper %d", a, c); e[a] = e[c]; table[a] = table[c]; } ctx.state(h); }
}
MC_FAMILY(C22_events_exhaust, "event mappers of 8 bit types with 0..3 free numbers: every sequence of 3 events of known and new names") {
  bool uns = ctx.flip(); int room = ctx.choose(4); std::vector<int> o; for (int i = 0; i < 3; ++i) { o.push_back(ctx.choose(16)); if (i == 0 && !ctx.mine()) return; }
  auto run = [&](auto z) { typedef decltype(z) Int; StringEventToIntMapper<Int> em; ScoredEventMapper<StringEventToIntMapper<Int>> sm(&em); Both b; b.open.emplace_back(top<Int>()); uint64_t h = uns * 8 + room; const uint64_t fill = top<Int>() + 1 - room; for (uint64_t i = 0; i < fill; ++i) map_event<Int>(ctx, em, b, "f" + std::to_string(i), "f" + std::to_string(i), "event mapper");
    auto nm = [&](int k) { return k == 0 ? std::string("f3") : "n" + std::to_string(k); }; for (int x : o) { h = mc::mix(h, x); ctx.state(h); if (x % 3) map_event<Int>(ctx, em, b, nm(x / 4), nm(x % 4), "event mapper"); else map_scored<Int>(ctx, sm, b, nm(x / 4), nm(x % 4), 1.5f, "scored event mapper"); } };
  if (uns) run(uint8_t()); else run(int8_t());
}
MC_FAMILY(C22_identity, "the identity mapper on every text of up to 4 of 6 characters and on numbers") {
  static const char C[6] = {'a', ' ', '\0', '\n', '0', '\xff'}; int n = ctx.choose(5); std::string s; for (int i = 0; i < n; ++i) s += C[ctx.choose(6)]; if (!ctx.mine()) return; IdentityMapper<std::string> m; IdentityMapper<int64_t> im; ctx.state(mc::hash_str(s)); ctx.compared(2); CHECK(m(s) == s, "the identity mapper changes %s", quote(s).c_str()); int64_t v = (int64_t)mc::hash_str(s); CHECK(im(v) == v, "the identity mapper changes a number");
}
