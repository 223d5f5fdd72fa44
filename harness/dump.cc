// C26: the dump of the matches is the complete record of the evaluation.
// C03, C04: the accounting and the greedy choice of the tools, seen in the dump.
#include "e2e.h"
#include "matcher/SimpleMatcher.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/TrivialScorer.h"

using ora::Box; using ora::Hyp; using ora::Obj; using ora::Opts; using ora::Problem; using e2e::MemFile; using e2e::Printed; using e2e::Result;
typedef std::vector<std::string> Args;

static const char kSep[] = "#### REPEATED MATCHES ####";
static MemFile f_dump, f_sel;

// ---- the text of a match -------------------------------------------------------
static std::string score(float s) { std::ostringstream o; o << s; return o.str(); }
#ifdef SIMPLE_TOOL
// This tool writes the numbers of the names, given in the order in which they
// are read; whether the query or the object of an event comes first is open.
static std::map<std::string, int> numbers;
static void number_names(const Problem& p, bool query_first) {
  numbers.clear(); auto give = [](const std::string& s) { int n = (int)numbers.size(); numbers.insert({s, n}); }; auto one = [&](const Obj& o) { give(query_first ? o.q : o.d); give(query_first ? o.d : o.q); };
  for (auto& r : p.refs) one(r); for (auto& h : p.hyps) one(h.o);
}
static std::string text(const Obj& o) { return std::to_string(numbers[o.q]) + " " + std::to_string(numbers[o.d]); }
#else
static void number_names(const Problem&, bool) {}
static std::string text(const Obj& o) { return e2e::text(o); }
#endif
static std::string hyp_part(const Hyp& h) { return "Hyp=" + text(h.o) + " " + score(h.s) + ", "; }
static std::string ref_part(const Obj& r) { return "Ref=" + text(r) + ", "; }
static std::string err_part(int fp, int fn, int nh, int nr) { return "Error=MatchError[fp=" + std::to_string(fp) + ", fn=" + std::to_string(fn) + ", nh=" + std::to_string(nh) + ", nr=" + std::to_string(nr) + "]"; }
static std::string hit_line(const Obj& r, const Hyp& h) { return "Match[" + hyp_part(h) + ref_part(r) + err_part(0, 0, 1, 1) + "]"; }
static std::string fp_line(const Hyp& h) { return "Match[" + hyp_part(h) + err_part(1, 0, 1, 0) + "]"; }
static std::string miss_line(const Obj& r) { return "Match[" + ref_part(r) + err_part(0, 1, 0, 1) + "]"; }

struct Line { int hyp, ref; };                       // index of a distinct hypothesis / reference, -1: none
struct Dump { std::vector<Line> lines, repeated; };
struct Known {                                         // everything a line can say
  std::vector<Obj> refs; std::vector<Hyp> hyps; std::vector<int> count; std::map<std::string, Line> lines;
};
static Known known_as(const Problem& p, bool query_first) {
  number_names(p, query_first);
  Known k; std::vector<Obj> r; for (auto& x : p.refs) if (!p.groups || p.groups->count(x.q)) r.push_back(x); k.refs = ora::distinct(r);
  std::map<std::string, int> at; for (auto& h : p.hyps) { if (p.groups && !p.groups->count(h.o.q)) continue; auto i = at.insert({hyp_part(h), (int)k.hyps.size()}); if (i.second) { k.hyps.push_back(h); k.count.push_back(0); } k.count[i.first->second]++; }
  for (size_t i = 0; i < k.refs.size(); ++i) k.lines[miss_line(k.refs[i])] = Line{-1, (int)i};
  for (size_t j = 0; j < k.hyps.size(); ++j) { k.lines[fp_line(k.hyps[j])] = Line{(int)j, -1}; for (size_t i = 0; i < k.refs.size(); ++i) if (k.refs[i].q == k.hyps[j].o.q) k.lines[hit_line(k.refs[i], k.hyps[j])] = Line{(int)j, (int)i}; }
  return k;
}
static bool fits(const Known& k, const std::string& text) { std::stringstream ss(text); std::string l; while (std::getline(ss, l)) { if (l.compare(0, 3, "## ") == 0) l = l.substr(3); if (l != kSep && !k.lines.count(l)) return false; } return true; }
static Dump read_dump(mc::Ctx& ctx, const Known& k, const std::string& text) {
  Dump d; bool after = false; size_t b = 0; CHECK(!text.empty() && text.back() == '\n', "the dump does not end with a complete line");
  while (b < text.size()) {
    size_t e = text.find('\n', b); std::string l = text.substr(b, e - b); b = e + 1;
    if (!after && l == kSep) { after = true; continue; }
    if (after) { CHECK(l.compare(0, 3, "## ") == 0, "a line after the separator is not marked: %s", l.c_str()); l = l.substr(3); }
    auto it = k.lines.find(l); CHECK(it != k.lines.end(), "%s is no record of the input", l.c_str());
    if (after) { CHECK(it->second.hyp >= 0 && it->second.ref >= 0, "a repeated match lacks a side: %s", l.c_str()); d.repeated.push_back(it->second); } else d.lines.push_back(it->second);
  }
  CHECK(after, "the dump has no separator line"); return d;
}
// Runs the tool with a dump.
static Dump run(mc::Ctx& ctx, const Problem& p, const Opts& o, const Args& extra, Known* k, Printed* pr, bool plain) {
  e2e::f_ref.set(e2e::refs_text(p.refs)); e2e::f_hyp.set(e2e::hyps_text(p.hyps)); Args a = e2e::opt_args(o); a.insert(a.end(), extra.begin(), extra.end()); Args b = a; b.push_back(e2e::f_ref.path); b.push_back(e2e::f_hyp.path);
  if (ctx.describing()) ctx.say("--- references\n%s--- hypotheses\n%s--- %s", e2e::refs_text(p.refs).substr(0, 3000).c_str(), e2e::hyps_text(p.hyps).substr(0, 3000).c_str(), e2e::join(a).c_str());
  f_dump.set("stale content that is replaced\n"); Args c = a; c.push_back("--dump_matches"); c.push_back(f_dump.path); c.push_back(e2e::f_ref.path); c.push_back(e2e::f_hyp.path);
  Result r = e2e::run(c); ctx.compared(); std::string t = f_dump.get(); ctx.say("%s--- dump\n%s", r.out.c_str(), t.substr(0, 5000).c_str()); ctx.outcome(mc::hash_str(t)); CHECK(r.status == 0, "status %d: %s", r.status, r.err.c_str());
  if (plain) { Result q = e2e::run(b); CHECK(q.status == 0 && q.out == r.out, "asking for the dump changes what is printed:\n%s---\n%s", q.out.c_str(), r.out.c_str()); }
  *pr = e2e::parse(r.out); ctx.state(mc::mix(e2e::problem_hash(p, o), mc::hash_str(e2e::join(extra)))); *k = known_as(p, false);
#ifdef SIMPLE_TOOL
  if (!fits(*k, t)) { *k = known_as(p, true); if (!fits(*k, t)) *k = known_as(p, false); }
#endif
  return read_dump(ctx, *k, t);
}
// C26: what the record says is complete, in order, and gives the printed values.
static void record(mc::Ctx& ctx, Problem& p, const Opts& o, const Args& extra = {}) {
  p.acc = e2e::accept(); Known k; Printed pr; Dump d = run(ctx, p, o, extra, &k, &pr, true); CHECK(pr.ok, "%s", pr.why.c_str());
  std::vector<int> seen(k.refs.size(), 0), out(k.hyps.size(), 0), rep(k.hyps.size(), 0); bool missed = false; float last = 0; bool first = true; std::vector<int> seq;
  for (auto& l : d.lines) {
    if (l.ref >= 0) seen[l.ref]++; if (l.hyp < 0) { missed = true; continue; }
    CHECK(!missed, "hypothesis %s comes after a missed reference", hyp_part(k.hyps[l.hyp]).c_str()); out[l.hyp]++; float s = k.hyps[l.hyp].s; if (!first && o.sort != ora::NONE) CHECK(o.sort == ora::DESC ? s <= last : s >= last, "score %g comes after %g", s, last); first = false; last = s; seq.push_back(l.hyp);
  }
  for (auto& l : d.repeated) { rep[l.hyp]++; CHECK(k.refs[l.ref].q == k.hyps[l.hyp].o.q, "a repeated match joins two queries"); }
  for (size_t i = 0; i < seen.size(); ++i) CHECK(seen[i] == 1, "reference %s is in %d lines", ref_part(k.refs[i]).c_str(), seen[i]);
  for (size_t j = 0; j < out.size(); ++j) { CHECK(out[j] <= k.count[j], "hypothesis %s, given %d times, is in %d lines", hyp_part(k.hyps[j]).c_str(), k.count[j], out[j]); CHECK(out[j] + rep[j] >= k.count[j], "hypothesis %s, given %d times, is in %d lines and %d after the separator", hyp_part(k.hyps[j]).c_str(), k.count[j], out[j], rep[j]); }
  if (o.sort == ora::NONE) { size_t at = 0; for (auto& h : p.hyps) { if (p.groups && !p.groups->count(h.o.q)) continue; if (at < seq.size() && hyp_part(k.hyps[seq[at]]) == hyp_part(h)) ++at; } CHECK(at == seq.size(), "the hypotheses are not in the order of the file"); }
  // the values again, from the record alone
  ora::Grouped G; auto gname = [&](const std::string& q) { if (p.groups) { auto it = p.groups->find(q); if (it != p.groups->end()) return "g:" + it->second; } return "q:" + q; };
  for (auto& l : d.lines) { if (l.hyp < 0) { ++G.missed; G.g[gname(k.refs[l.ref].q)].second++; continue; } ora::Ranked x{l.ref >= 0, k.hyps[l.hyp].s}; G.all.push_back(x); G.g[gname(k.hyps[l.hyp].o.q)].first.push_back(x); }
  ora::Values w = ora::values(G, o), got{pr.v[0], pr.v[1], pr.v[2], pr.v[3]}; CHECK(ora::same(w, got), "the record gives gAP=%g mAP=%g gNDCG=%g mNDCG=%g, printed are %g %g %g %g (%s)", w.gap, w.map, w.gndcg, w.mndcg, got.gap, got.map, got.gndcg, got.mndcg, e2e::opts_str(o).c_str());
}
// C03 / C04: distinct scores; the ranking is followed, with the choices that were made.
static void follow(mc::Ctx& ctx, Problem& p, const Opts& o, bool greedy, const Args& extra = {}) {
  p.acc = e2e::accept(); Known k; Printed pr; Dump d = run(ctx, p, o, extra, &k, &pr, false);
  std::vector<int> seen(k.refs.size(), 0), order; for (auto& l : d.lines) if (l.ref >= 0) seen[l.ref]++; if (!greedy) for (size_t i = 0; i < seen.size(); ++i) CHECK(seen[i] == 1, "reference %s is in %d lines", ref_part(k.refs[i]).c_str(), seen[i]);
  for (size_t j = 0; j < k.hyps.size(); ++j) order.push_back((int)j); if (o.sort != ora::NONE) std::sort(order.begin(), order.end(), [&](int a, int b) { return o.sort == ora::DESC ? k.hyps[a].s > k.hyps[b].s : k.hyps[a].s < k.hyps[b].s; });
  std::vector<char> taken(k.refs.size(), 0); size_t pos = 0; std::set<int> ignored;
  for (int j : order) {
    bool any = false, open = false; long long best = 0; for (size_t i = 0; i < k.refs.size(); ++i) { long long a = 0; if (!p.acc(k.refs[i], k.hyps[j].o, &a)) continue; any = true; if (!taken[i]) { open = true; best = std::max(best, a); } }
    if (any && !open) { ignored.insert(j); continue; }
    CHECK(pos < d.lines.size() && d.lines[pos].hyp == j, "hypothesis %s is not in its place", hyp_part(k.hyps[j]).c_str()); int r = d.lines[pos++].ref;
    if (!any) { CHECK(r < 0, "hypothesis %s is a hit of %s", hyp_part(k.hyps[j]).c_str(), ref_part(k.refs[r]).c_str()); continue; }
    CHECK(r >= 0, "hypothesis %s is a false positive although a free reference is acceptable", hyp_part(k.hyps[j]).c_str()); long long a = 0; CHECK(p.acc(k.refs[r], k.hyps[j].o, &a), "hypothesis %s is a hit of %s, which is not acceptable", hyp_part(k.hyps[j]).c_str(), ref_part(k.refs[r]).c_str()); CHECK(!taken[r], "reference %s is taken twice", ref_part(k.refs[r]).c_str()); if (greedy) CHECK(a == best, "hypothesis %s takes a reference with overlap %lld, a free one has %lld", hyp_part(k.hyps[j]).c_str(), a, best); taken[r] = 1;
  }
  for (; pos < d.lines.size(); ++pos) CHECK(d.lines[pos].hyp < 0, "hypothesis %s should be ignored", hyp_part(k.hyps[d.lines[pos].hyp]).c_str());
  if (!greedy) { std::set<int> rep; for (auto& l : d.repeated) rep.insert(l.hyp); for (int j : ignored) CHECK(rep.count(j), "ignored hypothesis %s is not after the separator", hyp_part(k.hyps[j]).c_str()); }
}

// The repeated matches are those of the matcher, one line each.
#ifndef SIMPLE_TOOL
typedef kws::core::ShapedEvent<std::string, kws::core::DocumentBoundingBox<uint32_t>> NRef;
static NRef native(const Obj& o) { return NRef(o.q, kws::core::DocumentBoundingBox<uint32_t>(o.d, o.b.x, o.b.y, o.b.w, o.b.h)); }
typedef kws::scorer::IntersectionOverHypothesisAreaScorer<NRef, kws::core::ScoredEvent<NRef>> NScorer;
static NScorer& native_scorer() { static NScorer s(0.5); return s; }
#else
typedef kws::core::Event<int32_t, int32_t> NRef;
static std::map<std::string, int> native_names;
static NRef native(const Obj& o) { auto n = [](const std::string& s) { return native_names.insert({s, (int)native_names.size()}).first->second; }; int q = n(o.q), d = n(o.d); return NRef(q, d); }
typedef kws::scorer::TrivialScorer<NRef, kws::core::ScoredEvent<NRef>> NScorer;
static NScorer& native_scorer() { static NScorer s; return s; }
#endif
typedef kws::core::ScoredEvent<NRef> NHyp;
static void pairs(mc::Ctx& ctx, Problem& p, const Opts& o) {
  p.acc = e2e::accept(); Known k; Printed pr; Dump d = run(ctx, p, o, {}, &k, &pr, false);
  std::vector<int> order; for (size_t j = 0; j < k.hyps.size(); ++j) order.push_back((int)j); if (o.sort != ora::NONE) std::sort(order.begin(), order.end(), [&](int a, int b) { return o.sort == ora::DESC ? k.hyps[a].s > k.hyps[b].s : k.hyps[a].s < k.hyps[b].s; });
  std::vector<NRef> refs; std::vector<NHyp> hyps; for (auto& r : k.refs) refs.push_back(native(r)); for (int j : order) hyps.push_back(NHyp(native(k.hyps[j].o), k.hyps[j].s));
  kws::matcher::SimpleMatcher<NRef, NHyp> m(&native_scorer()); auto all = m.Match(refs, hyps); std::multiset<std::pair<int, int>> want, got; for (auto& x : d.repeated) got.insert({x.hyp, x.ref});
  for (auto& x : m.GetRepeatedMatches()) { int r = -1, h = -1; for (size_t i = 0; i < refs.size(); ++i) if (refs[i] == x.GetRef()) r = (int)i; for (size_t j = 0; j < hyps.size(); ++j) if (hyps[j] == x.GetHyp()) h = order[j]; want.insert({h, r}); }
  for (auto& x : want) CHECK(got.count(x) == want.count(x), "the repeated match of %s with %s is reported %zu times by the matcher and in %zu lines", hyp_part(k.hyps[x.first]).c_str(), ref_part(k.refs[x.second]).c_str(), want.count(x), got.count(x));
  CHECK(got.size() == want.size(), "%zu lines after the separator for %zu repeated matches", got.size(), want.size());
}

// ---- what is explored ------------------------------------------------------------
#ifndef SIMPLE_TOOL
static const std::vector<Box> kPool = {{0, 0, 2, 2}, {1, 0, 2, 2}, {0, 0, 4, 2}, {2, 0, 2, 2}, {0, 1, 2, 2}, {1, 1, 2, 2}, {0, 0, 1, 1}, {5, 5, 2, 2}};
static Obj place(int i) { return Obj{i == 7 ? "p" : "q", "d", kPool[i]}; }
static Obj spot(const std::string& q, int i) { return Obj{q, "d" + std::to_string(i % 3), Box{10 * i, 0, 4, 4}}; }
#else
static Obj place(int i) { return Obj{i % 2 ? "q" : "p", std::string(1, "abcd"[i / 2]), {}}; }
static Obj spot(const std::string& q, int i) { return Obj{q, "d" + std::to_string(i), {}}; }
#endif
static std::vector<int> subset(mc::Ctx& ctx, int k, int n) { std::vector<int> v; int lo = 0; while ((int)v.size() < n && lo < k) { int c = ctx.choose(k - lo + 1); if (c == k - lo) break; v.push_back(lo + c); lo += c + 1; } return v; }
static Opts pick_opts(mc::Ctx& ctx) { Opts o; o.collapse = !ctx.flip(); o.interp = !ctx.flip(); o.trap = !ctx.flip(); o.sort = (ora::Sort)ctx.choose(3); return o; }
static bool small(mc::Ctx& ctx, Problem& p, int nr, int nh, bool ties) {
  for (int i : subset(ctx, 8, nr)) p.refs.push_back(place(i)); if (!ctx.mine()) return false; static const int S[] = {4, 9, 2, 6, 1, 7};
  for (int i = 0; i < nh; ++i) { int c = ctx.choose(9); if (c == 8) break; p.hyps.push_back(e2e::hyp(place(c), ties ? (ctx.flip() ? "0.5" : "-2") : std::to_string(S[i]))); } return true;
}
MC_FAMILY(C26_small, "all sets of <=3 references x all sequences of <=3 hypotheses over 8 (overlapping) places, distinct scores, x sort x collapse") { Problem p; if (!small(ctx, p, ctx.bound(3, 4), ctx.bound(3, 4), false)) return; Opts o{!ctx.flip(), true, true, (ora::Sort)ctx.choose(3)}; record(ctx, p, o); }
MC_FAMILY(C26_ties, "all sets of <=2 (thorough: 3) references x all sequences of <=2 (thorough: 3) hypotheses over 8 places, 2 scores, all 24 settings") { Problem p; if (!small(ctx, p, ctx.bound(2, 3), ctx.bound(2, 3), true)) return; record(ctx, p, pick_opts(ctx)); }
MC_FAMILY(C26_pairs, "all sets of <=4 references x all sequences of <=3 (thorough: 4) hypotheses over 8 (overlapping) places, distinct scores x sort: the lines after the separator are the repeated matches of the matcher") { Problem p; if (!small(ctx, p, 4, ctx.bound(3, 4), false)) return; pairs(ctx, p, Opts{true, true, true, (ora::Sort)ctx.choose(3)}); }
MC_FAMILY(C26_same, "all sets of <=2 references x all sequences of <=6 (thorough: 7) hypothesis lines, of 4 different ones (2 places, 2 scores), x 3 sorts x collapse: every line that is repeated, ever so often, is accounted for") {
  Problem p; for (int i : subset(ctx, 3, 2)) p.refs.push_back(place(i)); int n = ctx.choose(ctx.bound(7, 8)); if (!ctx.mine()) return; for (int i = 0; i < n; ++i) { int c = ctx.choose(4); p.hyps.push_back(e2e::hyp(place(c / 2), c % 2 ? "0.5" : "2")); } Opts o{!ctx.flip(), true, true, (ora::Sort)ctx.choose(3)}; record(ctx, p, o);
}
MC_FAMILY(C26_groups, "all sets of <=3 references x all sequences of <=2 hypotheses over 2 queries x 3 places x 6 query set or groups files x collapse") {
  Problem p; auto pl = [](int i) { return spot(i & 1 ? "a" : "b", i / 2); }; for (int i : subset(ctx, 6, 3)) p.refs.push_back(pl(i)); if (!ctx.mine()) return; for (int i = 0; i < ctx.bound(2, 3); ++i) { int c = ctx.choose(7); if (c == 6) break; p.hyps.push_back(e2e::hyp(pl(c), std::to_string(5 - i))); }
  int f = ctx.choose(6); static const char* const T[6] = {"a\n", "b\nzz\n", "G a b\n", "G a\nH b\n", "zz\n", "G b\nH zz\n"}; f_sel.set(T[f]); std::map<std::string, std::string> g; if (f == 0) g["a"] = "a"; if (f == 1) { g["b"] = "b"; g["zz"] = "zz"; } if (f == 2) g["a"] = g["b"] = "G"; if (f == 3) { g["a"] = "G"; g["b"] = "H"; } if (f == 4) g["zz"] = "zz"; if (f == 5) { g["b"] = "G"; g["zz"] = "H"; }
  p.groups = &g; record(ctx, p, Opts{!ctx.flip(), true, true, ora::DESC}, {f < 2 || f == 4 ? "--query_set" : "--query_groups", f_sel.path}); p.groups = nullptr;
}
MC_FAMILY(C26_texts, "every pair of 16 names, and 26 scores, as they are written in the record") {
  static const char* const N[] = {"a", "A", "1", "01", "-1", "a,", "Ref=", "Hyp=a,", "]", "x#", "caf\xc3\xa9", "%s", "\"", "a#", "[", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};
  static const char* const S[] = {"0", "1", "-1", "0.5", "-0.25", "0.1", "0.333333", "1e10", "1e-10", "-1e10", "123456", "1234567", "123456.7", "0.00001", "0.0001", "16777216", "3e38", "1e-38", "100000", "1000000", "-0.000123456", "2.5", "1e5", "1e6", "99999.95", "0.999999"};
  int a = ctx.choose(16), b = ctx.choose(16); if (!ctx.mine()) return; int s = ctx.choose(26), how = ctx.choose(3); Problem p; Obj r = spot(N[a], 1), h = r; r.d = h.d = N[b]; if (how == 1) h.q += "x"; p.refs.push_back(r); p.hyps.push_back(e2e::hyp(h, S[s])); if (how == 2) { p.hyps.push_back(p.hyps[0]); p.hyps.push_back(e2e::hyp(spot("z", 5), "7e20")); } record(ctx, p, Opts{true, true, true, ora::DESC});
}
#ifndef SIMPLE_TOOL
MC_FAMILY(C26_boxes, "coordinates up to the end of their range, hit, false positive, miss and repetition") {
  static const long long C[] = {0, 1, 9, 10, 99, 65535, 65536, 2147483647, 2147483648LL, 4294967290LL}, W[] = {1, 2, 5, 100, 4000}; int x = ctx.choose(10), y = ctx.choose(10); if (!ctx.mine()) return; int w = ctx.choose(5), h = ctx.choose(5), how = ctx.choose(4); Box b{C[x], C[y], W[w], W[h]}; if (b.x + b.w > 4294967295LL || b.y + b.h > 4294967295LL || b.w * b.h >= 1 << 24) return;
  Problem p; Obj o{"q", "d", b}; if (how != 1) p.refs.push_back(o); if (how != 2) p.hyps.push_back(e2e::hyp(o, "0.5")); if (how == 3) p.hyps.push_back(e2e::hyp(o, "0.25")); record(ctx, p, Opts{true, true, true, ora::DESC});
}
#endif
static void big(mc::Ctx& ctx, Problem& p, int k, bool distinct) {
  int n = 5 + k * 6; for (int i = 0; i < n; ++i) { int c = (i * 31 + k * 17) % 11; Obj x = spot("q" + std::to_string((i * 5 + k) % 7), i % (n - n / 4)); if (c < 7) p.refs.push_back(x); if (c > 2) p.hyps.push_back(e2e::hyp(x, std::to_string((i * 7919 + k * 104729) % (distinct || !(k & 1) ? 1009 : 13)))); }
}
MC_FAMILY(C26_big, "32 generated problems of 5 to 190 events over 7 queries x 24 settings") { int k = ctx.choose(32); Opts o = pick_opts(ctx); if (!ctx.mine()) return; Problem p; big(ctx, p, k, false); record(ctx, p, o); }

MC_FAMILY(C26_pairs_many, "up to 200 hypotheses of up to 40 places near one another, taken many times, 48 patterns x 3 sorts: one line per repeated match") {
  int k = ctx.choose(48); ora::Sort s = (ora::Sort)ctx.choose(3); if (!ctx.mine()) return; Problem p; int n = 4 + k * 4, w = 2 + k % 39;
  for (int i = 0; i < w; ++i) { Obj x = place(0); x.d = "d" + std::to_string(i % 3);
#ifndef SIMPLE_TOOL
    x.b = Box{3 * (i / 3), (i * 5) % 4, 10, 10};
#else
    x.q = "q" + std::to_string(i / 3);
#endif
    if (i % 5 != 3) p.refs.push_back(x); for (int j = i; j < n; j += w) { Hyp h = e2e::hyp(x, std::to_string((j * 7919 + k * 104729) % 1009));
#ifndef SIMPLE_TOOL
      h.o.b.x += j % 4;
#endif
      p.hyps.push_back(h); } }
  pairs(ctx, p, Opts{true, true, true, s});
}
MC_FAMILY(C26_huge, "1000 to 70001 (thorough: 131073) hypotheses, 4 patterns of hits, false positives and repetitions, as many missed references as a quarter, 1, 3 or n queries, in rank order, against it or mixed: the whole text of the dump") {
  static const int ns[] = {1000, 9999, 32768, 65535, 65537, 70001, 99991, 131073}; int n = ns[ctx.choose(ctx.bound(6, 8))], pat = ctx.choose(4), nq = ctx.choose(3), line = ctx.choose(3); if (!ctx.mine()) return; if (!ctx.thorough() && (n + pat + nq + line) % 5) return;
  Problem p; p.acc = e2e::accept(); std::vector<int> kind; auto at = [&](int i) { Obj o = spot(nq == 0 ? "q" : "q" + std::to_string(nq == 1 ? i % 3 : i), i); o.d = "d" + std::to_string(o.b.w ? i / 50 : i); return o; };
  for (int i = 0; i < n; ++i) { int k = pat == 0 ? 0 : pat == 1 ? i % 2 : pat == 2 ? (i % 5 == 4 ? 2 : i % 3 == 1) : i < n / 2 ? 1 : 0; kind.push_back(k); Obj o = at(k == 2 ? i - 4 : i); if (k == 0) p.refs.push_back(o); p.hyps.push_back(e2e::hyp(o, std::to_string(n - i))); }     // 2: the place of the one 4 before it
  for (int i = 0; i < n; ++i) if (kind[i] == 2 && kind[i - 4] != 0) kind[i] = 1;
  for (int i = 0; i < n / 4; ++i) p.refs.push_back(at(n + i)); std::vector<Hyp> ranked = p.hyps;
  if (line == 1) { std::reverse(p.hyps.begin(), p.hyps.end()); std::reverse(p.refs.begin(), p.refs.end()); } if (line == 2) for (int i = 0; i < n; ++i) p.hyps[i] = ranked[(i * 7919LL + 5) % n];
  e2e::f_ref.set(e2e::refs_text(p.refs)); e2e::f_hyp.set(e2e::hyps_text(p.hyps)); f_dump.set("stale"); Opts o{true, true, true, ora::DESC}; ctx.state(mc::mix(n * 4 + pat, nq * 3 + line)); ctx.say("n=%d pattern %d queries %d order %d", n, pat, nq, line);
  Result r = e2e::run({"--dump_matches", f_dump.path, e2e::f_ref.path, e2e::f_hyp.path}); ctx.compared(); CHECK(r.status == 0, "status %d: %s", r.status, r.err.c_str()); Result q = e2e::run({e2e::f_ref.path, e2e::f_hyp.path}); CHECK(q.status == 0 && q.out == r.out, "asking for the dump changes what is printed:\n%s---\n%s", q.out.c_str(), r.out.c_str());
  std::vector<std::string> ls; { std::stringstream ss(f_dump.get()); std::string l; while (std::getline(ss, l)) ls.push_back(l); } std::string why, all;
  for (int qf = 0; qf < 2; ++qf) {
    number_names(p, qf); std::vector<std::string> w; std::set<std::string> miss, rep; for (int i = 0; i < n; ++i) { const Hyp& h = ranked[i]; if (kind[i] == 0) w.push_back(hit_line(h.o, h)); else if (kind[i] == 1) w.push_back(fp_line(h)); else rep.insert("## " + hit_line(h.o, h)); } for (int i = 0; i < n / 4; ++i) miss.insert(miss_line(at(n + i)));
    why.clear(); size_t i = 0; for (; i < w.size() && why.empty(); ++i) if (i >= ls.size() || ls[i] != w[i]) why = "line " + std::to_string(i + 1) + " is " + (i < ls.size() ? ls[i] : "missing") + ", must be " + w[i];
    std::set<std::string> gm, gr; for (size_t j = 0; j < miss.size() && why.empty(); ++j, ++i) { if (i >= ls.size() || !miss.count(ls[i])) why = "line " + std::to_string(i + 1) + " is " + (i < ls.size() ? ls[i] : "missing") + ", must be a missed reference"; else if (!gm.insert(ls[i]).second) why = ls[i] + " is there twice"; }
    if (why.empty() && (i >= ls.size() || ls[i] != kSep)) why = "line " + std::to_string(i + 1) + " is not the separator"; ++i; for (; i < ls.size() && why.empty(); ++i) if (!rep.count(ls[i]) || !gr.insert(ls[i]).second) why = ls[i] + " after the separator"; if (why.empty() && gr != rep) why = std::to_string(gr.size()) + " repetitions after the separator, must be " + std::to_string(rep.size());
    if (why.empty()) break; all += why + (qf ? " (queries numbered first)\n" : "\n");
#ifndef SIMPLE_TOOL
    break;
#endif
  }
  CHECK(why.empty(), "%s", all.c_str());
}
// With everything else asked for as well.
static MemFile f_x1, f_x2;
MC_FAMILY(C26_cross, "24 generated problems x the curves (none, one, both), the intervals (3 sets), a query set or groups, the hypotheses on the standard input, in every combination and 4 orders of the options: the dump and the values are those of the tool asked for the dump alone") {
  int k = ctx.choose(24), cu = ctx.choose(4), ci = ctx.choose(3), sel = ctx.choose(3), in = ctx.choose(2), ord = ctx.choose(4); if (!ctx.mine()) return; int so = ctx.choose(3), met = ctx.choose(8); if (!ctx.thorough() && (so != (k + cu + ci + in) % 3 || met != (k * 3 + cu + ord + ci) % 8)) return; Problem p; int n = 1 + k * 3;
  for (int i = 0; i < n; ++i) { int c = (i * 31 + k * 17) % 11; Obj x = spot("q" + std::to_string((i * 5 + k) % (k % 5 + 1)), i); if (c < 7) p.refs.push_back(x); if (c > 2) p.hyps.push_back(e2e::hyp(x, std::to_string((i * 7919 + k * 104729) % 1009))); if (c == 6) p.hyps.push_back(e2e::hyp(x, "-" + std::to_string(i))); }
  e2e::f_ref.set(e2e::refs_text(p.refs)); e2e::f_hyp.set(e2e::hyps_text(p.hyps)); f_sel.set(sel == 1 ? "q0\nq2\n" : "G q0 q1\nH q2 q3\n"); Args base; if (sel) { base.push_back(sel == 1 ? "--query_set" : "--query_groups"); base.push_back(f_sel.path); } if (so) { base.push_back("--sort"); base.push_back(so == 1 ? "asc" : "none"); } static const char* const M[] = {"--collapse_matches", "--interpolated_precision", "--trapezoid_integral"}; for (int i = 0; i < 3; ++i) if (met >> i & 1) { base.push_back(M[i]); base.push_back("false"); }
  f_dump.set("x"); Args a = base; a.insert(a.end(), {"--dump_matches", f_dump.path, e2e::f_ref.path, e2e::f_hyp.path}); Result alone = e2e::run(a); CHECK(alone.status == 0, "status %d: %s", alone.status, alone.err.c_str()); std::string want = f_dump.get();
  f_dump.set("old"); f_x1.set("old"); f_x2.set("old"); std::vector<Args> parts = {base, {"--dump_matches", f_dump.path}}; if (cu & 1) parts.push_back({"--output_grp", f_x1.path}); if (cu & 2) parts.push_back({"--output_mrp", f_x2.path}); if (cu) parts.push_back({"--rp_curve_samples", "7"}); if (ci) { parts.push_back({"--bootstrap_ci_gap", "true", "--bootstrap_samples", "3"}); if (ci == 2) parts.push_back({"--bootstrap_ci_map", "true", "--bootstrap_ci_gndcg", "true", "--bootstrap_ci_mndcg", "true"}); }
  if (ord & 1) std::reverse(parts.begin(), parts.end()); if (ord & 2) std::rotate(parts.begin(), parts.begin() + 1, parts.end()); a.clear(); for (auto& x : parts) a.insert(a.end(), x.begin(), x.end()); a.push_back(e2e::f_ref.path); if (!in) a.push_back(e2e::f_hyp.path); ctx.state(mc::mix(mc::hash_str(e2e::join(a)), k * 24 + so * 8 + met)); ctx.say("%s", e2e::join(a).c_str()); lseek(e2e::f_hyp.fd, 0, SEEK_SET);
  Result r = in ? e2e::run_fork(a, nullptr, e2e::f_hyp.fd) : e2e::run(a); ctx.compared(); CHECK(r.status == 0, "status %d: %s", r.status, r.err.c_str()); std::string got = f_dump.get(); CHECK(got == want, "the dump becomes\n%sand is\n%swithout the rest (%s)", got.c_str(), want.c_str(), e2e::join(a).c_str()); if (!ci) CHECK(r.out == alone.out, "the values become\n%sand are\n%swithout the rest (%s)", r.out.c_str(), alone.out.c_str(), e2e::join(a).c_str());
}
MC_FAMILY(C03_tool, "all sets of <=3 references x all sequences of <=3 (thorough: 4) hypotheses over 8 places, distinct scores, 3 sorts") { Problem p; if (!small(ctx, p, ctx.bound(3, 4), ctx.bound(3, 4), false)) return; follow(ctx, p, Opts{true, true, true, (ora::Sort)ctx.choose(3)}, false); }
MC_FAMILY(C03_tool_big, "32 generated problems of 5 to 190 events over 7 queries x 3 sorts") { int k = ctx.choose(32); ora::Sort s = (ora::Sort)ctx.choose(3); if (!ctx.mine()) return; Problem p; big(ctx, p, k, true); follow(ctx, p, Opts{true, true, true, s}, false); }
MC_FAMILY(C03_tool_dups, "references listed 1 to 3 times, hypotheses of the same place 0 to 4 times with different scores") { Problem p; int a = 1 + ctx.choose(3), b = ctx.choose(3), c = ctx.choose(5), d = ctx.choose(3), s = ctx.choose(3); if (!ctx.mine()) return; for (int i = 0; i < a; ++i) p.refs.push_back(spot("q", 1)); for (int i = 0; i < b; ++i) p.refs.push_back(spot("q", 2)); for (int i = 0; i < c; ++i) p.hyps.push_back(e2e::hyp(spot("q", 1), std::to_string(10 + (i * 3) % 5))); for (int i = 0; i < d; ++i) p.hyps.push_back(e2e::hyp(spot("q", 2), std::to_string(11 + i) + ".5")); p.hyps.push_back(e2e::hyp(spot("q", 3), "12.25")); follow(ctx, p, Opts{true, true, true, (ora::Sort)s}, false); }
#ifndef SIMPLE_TOOL
MC_FAMILY(C04_tool, "all sets of <=3 references x all sequences of <=3 (thorough: 4) hypotheses over 8 overlapping places, distinct scores, 3 sorts") { Problem p; if (!small(ctx, p, ctx.bound(3, 4), ctx.bound(3, 4), false)) return; follow(ctx, p, Opts{true, true, true, (ora::Sort)ctx.choose(3)}, true); }
// The same in other places and sizes, also among large boxes that differ by little.
static void scaled(mc::Ctx& ctx, bool greedy) {
  static const long long tr[][4] = {{3, 1000, 0, 0}, {129, 1, 65535, 3}, {1, 257, 2147483647LL - 2, 2147483647LL}, {180, 190, 16777215, 16777216}, {1400, 1400, 4294967295LL - 9800, 4294967295LL - 9800}, {1, 1, 4294967295LL - 7, 4294967295LL - 7}, {500000, 1, 0, 65533}, {1, 500000, 9, 0}};
  static const std::vector<Box> near = {{10, 10, 4000, 4000}, {10, 10, 4000, 3999}, {10, 10, 3999, 4000}, {11, 10, 4000, 4000}, {10, 11, 3999, 3999}, {2010, 10, 4000, 4000}, {2009, 10, 4000, 4000}, {10, 10, 4095, 4096}};
  int t = ctx.choose(9); std::vector<Obj> P; for (int i = 0; i < 8; ++i) { Obj o = place(i); if (t == 8) o.b = near[i]; else o.b = Box{o.b.x * tr[t][0] + tr[t][2], o.b.y * tr[t][1] + tr[t][3], o.b.w * tr[t][0], o.b.h * tr[t][1]}; P.push_back(o); }
  Problem p; for (int i : subset(ctx, 8, ctx.bound(2, 3))) p.refs.push_back(P[i]); if (!ctx.mine()) return; int n = ctx.bound(2, 3); for (int i = 0; i < n; ++i) { int c = ctx.choose(9); if (c == 8) break; p.hyps.push_back(e2e::hyp(P[c], std::to_string(5 - i))); }
  follow(ctx, p, Opts{true, true, true, ora::DESC}, greedy);
}
MC_FAMILY(C03_tool_scaled, "all sets of <=2 (thorough: 3) references x all sequences of <=2 (thorough: 3) hypotheses over 8 boxes at 8 places and sizes up to the end of the range, and over 8 boxes of 16 million pixels that differ by a row or column") { scaled(ctx, false); }
MC_FAMILY(C04_tool_scaled, "the same inputs: choice") { scaled(ctx, true); }
MC_FAMILY(C04_tool_chain, "3 to 5 references in a row overlapping one another and every sequence of 3 (thorough: 4) hypotheses in the row x sort") {
  int step = 1 + ctx.choose(3), nr = 3 + ctx.choose(3), a = ctx.choose(8), b = ctx.choose(8); if (!ctx.mine()) return; int c = ctx.choose(8), w = 2 + ctx.choose(3), s = ctx.choose(3), e = ctx.thorough() ? ctx.choose(9) : 8; Problem p; for (int i = 0; i < nr; ++i) p.refs.push_back(Obj{"q", "d", Box{i * step, 0, 4, 2}}); int xs[4] = {a, b, c, e}; for (int i = 0; i < (e < 8 ? 4 : 3); ++i) p.hyps.push_back(e2e::hyp(Obj{"q", "d", Box{xs[i], 0, w, 2}}, std::to_string(9 - i))); follow(ctx, p, Opts{true, true, true, (ora::Sort)s}, true);
}
#else
MC_FAMILY(C04_tool, "all sets of <=3 references x all sequences of <=3 hypotheses over 8 places, distinct scores, 3 sorts") { Problem p; if (!small(ctx, p, 3, 3, false)) return; follow(ctx, p, Opts{true, true, true, (ora::Sort)ctx.choose(3)}, true); }
#endif

#ifndef SIMPLE_TOOL
// C07: the overlap decision of the tool, over every small box and many places and sizes.
static void decide(mc::Ctx& ctx, const Box& ref, int lim, const std::vector<std::pair<long long, long long>>& off, const std::vector<int>& scale) {
  int x = ctx.choose(lim), y = ctx.choose(lim); if (!ctx.mine()) return; int w = ctx.choose(lim), h = ctx.choose(lim); auto of = off[ctx.choose((int)off.size())]; long long s = scale[ctx.choose((int)scale.size())];
  Problem p; p.refs = {Obj{"q", "d", Box{ref.x * s + of.first, ref.y * s + of.second, ref.w * s, ref.h * s}}}; p.hyps = {e2e::hyp(Obj{"q", "d", Box{x * s + of.first, y * s + of.second, w * s, h * s}}, "0.5")}; follow(ctx, p, Opts{true, true, true, ora::DESC}, false);
}
MC_FAMILY(C07_tool_small, "every hypothesis box with x, y, w, h in 0..5 (thorough: 0..7) against one reference, at 6 offsets up to the end of the coordinate range and 2 sizes") { decide(ctx, Box{2, 2, 3, 3}, ctx.bound(6, 8), {{0, 0}, {1000, 3}, {65530, 65530}, {2147483640LL, 2147483645LL}, {4294964000LL, 1}, {1, 4294964000LL}}, {1, 300}); }
MC_FAMILY(C07_tool_thin, "the same against thin and empty references") { static const Box refs[] = {{2, 2, 1, 4}, {2, 2, 4, 1}, {0, 0, 1, 1}, {2, 2, 0, 3}, {2, 2, 3, 0}, {0, 0, 6, 6}}; decide(ctx, refs[ctx.choose(6)], 6, {{0, 0}, {7, 70000}}, {1}); }
MC_FAMILY(C07_tool_half, "hypotheses of 361 sizes covered two units to none around the half, on 4 sides") {
  static const int ws[] = {1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 64, 99, 100, 101, 255, 256, 1000, 2047, 4093}; int w = ws[ctx.choose(19)], h = ws[ctx.choose(19)]; if (!ctx.mine()) return; int axis = ctx.choose(2), d = ctx.choose(5) - 2, side = ctx.choose(2); if ((long long)w * h >= (1 << 24)) return; int len = axis ? h : w, cov = len / 2 + d; if (cov < 0 || cov > len) return;
  Box hb{5000, 5000, w, h}, rb = hb; if (axis) { rb.h = 5000; rb.y = side ? hb.y + cov - 5000 : hb.y + h - cov; } else { rb.w = 5000; rb.x = side ? hb.x + cov - 5000 : hb.x + w - cov; } Problem p; p.refs = {Obj{"q", "d", rb}}; p.hyps = {e2e::hyp(Obj{"q", "d", hb}, "0.5")}; follow(ctx, p, Opts{true, true, true, ora::DESC}, false);
}
#else
MC_FAMILY(C07_tool, "every reference and hypothesis over 3 queries x 3 objects: a hit exactly if both are equal") { int a = ctx.choose(9), b = ctx.choose(9); if (!ctx.mine()) return; Problem p; p.refs = {Obj{std::string(1, "abc"[a / 3]), std::string(1, "abc"[a % 3]), {}}}; p.hyps = {e2e::hyp(Obj{std::string(1, "abc"[b / 3]), std::string(1, "abc"[b % 3]), {}}, "0.5")}; follow(ctx, p, Opts{true, true, true, ora::DESC}, false); }
#endif
