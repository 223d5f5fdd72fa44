// C14 (tool), C15, C16, C28 (tool): relations between runs of the real tool.
// No value is computed here: the tool is compared with itself.
#include "e2e.h"

using ora::Box; using ora::Obj; using ora::Hyp; using ora::Opts; using ora::Problem;
using e2e::MemFile; using e2e::Printed;

static MemFile f_q;
typedef std::vector<std::string> Args;

static Opts def() { return Opts{true, true, true, ora::DESC}; }
#ifndef SIMPLE_TOOL
static Obj obj(const std::string& q, int d, int place) { return Obj{q, d ? "doc" + std::to_string(d) : "doc", Box{3 * place, 2, 6, 4}}; }   // neighbours overlap by half
static Obj spot(const std::string& q, int place) { return Obj{q, "d", Box{10 * place, 0, 4, 4}}; }
#else
static Obj obj(const std::string& q, int d, int place) { return Obj{q, "o" + std::to_string(d * 10 + place), {}}; }
static Obj spot(const std::string& q, int place) { return Obj{q, "d" + std::to_string(place), {}}; }
#endif

struct Texts { std::string r, h; };
static Texts texts(const std::vector<Obj>& r, const std::vector<Hyp>& h) { return Texts{e2e::refs_text(r), e2e::hyps_text(h)}; }

// Runs the tool; ends the execution when it does not give the four values.
static Printed go(mc::Ctx& ctx, const Texts& t, const Args& extra) {
  e2e::f_ref.set(t.r); e2e::f_hyp.set(t.h);
  Args a = extra; a.push_back(e2e::f_ref.path); a.push_back(e2e::f_hyp.path);
  e2e::Result r = e2e::run(a); ctx.compared();
  if (ctx.describing()) ctx.say("--- references\n%s--- hypotheses\n%s--- options: %s\n--- printed\n%s", t.r.substr(0, 2000).c_str(), t.h.substr(0, 2000).c_str(), e2e::join(extra).c_str(), r.out.c_str());
  CHECK(r.status == 0, "the tool ended with status %d: %s", r.status, r.err.substr(0, 300).c_str());
  Printed p = e2e::parse(r.out); CHECK(p.ok, "%s", p.why.c_str());
  return p;
}
static bool near(double a, double b) { return fabs(a - b) <= 1.2e-5 * std::max(fabs(a), fabs(b)) + 2e-6; }
static void same(mc::Ctx& ctx, const Printed& a, const Printed& b, const char* what, int from = 0, int step = 1) {
  for (int k = from; k < 4; k += step) CHECK(near(a.v[k], b.v[k]), "%s: %s is %.6g and %.6g", what, e2e::kNames[k], a.v[k], b.v[k]);
}
static uint64_t th(const Texts& t, uint64_t h = 1) { return mc::hash_str(t.h, mc::hash_str(t.r, h)); }
static const std::string kQ[4] = {"a", "b", "c", "dd"};
static std::vector<int> multiset(mc::Ctx& ctx, int k, int n, bool strict = false) {
  std::vector<int> v; int lo = 0;
  while ((int)v.size() < n) { int room = k - lo; if (room <= 0) break; int c = ctx.choose(room + 1); if (c == 0) break; v.push_back(lo + c - 1); lo = lo + c - 1 + (strict ? 1 : 0); }
  return v;
}
static std::vector<Obj> only(const std::vector<Obj>& v, const std::set<std::string>& q) { std::vector<Obj> r; for (auto& o : v) if (q.count(o.q)) r.push_back(o); return r; }
static std::vector<Hyp> only(const std::vector<Hyp>& v, const std::set<std::string>& q) { std::vector<Hyp> r; for (auto& h : v) if (q.count(h.o.q)) r.push_back(h); return r; }
static std::set<std::string> present(const std::vector<Obj>& r, const std::vector<Hyp>& h) { std::set<std::string> s; for (auto& o : r) s.insert(o.q); for (auto& x : h) s.insert(x.o.q); return s; }

// A data set over 3 queries: chosen among all small ones.
static void data(mc::Ctx& ctx, int nr, int nh, std::vector<Obj>* r, std::vector<Hyp>* h, bool* mine) {
  for (int i : multiset(ctx, 6, nr, true)) r->push_back(obj(kQ[i / 2], 0, i % 2));
  *mine = ctx.mine(); if (!*mine) return;
  for (int i : multiset(ctx, 12, nh)) h->push_back(e2e::hyp(obj(kQ[i / 4], 0, i / 2 % 2), i % 2 ? "0.75" : "0.5"));
}
// A fixed family of larger ones: 4 queries, hits, false positives, repetitions, misses.
static void big(int seed, std::vector<Obj>* r, std::vector<Hyp>* h) {
  for (int k = 0; k < 4; ++k) for (int i = 0; i < 6; ++i) {
    int z = (seed * 7 + k * 5 + i * 3 + (i * k * seed) % 4) % 6; Obj o = spot(kQ[k], i);
    char b[32]; snprintf(b, sizeof b, "%.2f", ((seed * 13 + k * 17 + i * 29) % 23) / 8.0);
    if (z < 3) r->push_back(o);
    if (z == 0 || z == 1 || z == 3) h->push_back(e2e::hyp(o, b));
    if (z == 1) h->push_back(e2e::hyp(o, "0.3"));          // a repetition
    if (z == 4) h->push_back(e2e::hyp(spot(kQ[k], 40 + i), b));
  }
}
static Args opts(int i) { Opts o{!(i & 1), !(i & 2), !(i & 4), ora::DESC}; return e2e::opt_args(o); }

// ---- C14: means over queries ----------------------------------------------
static void means(mc::Ctx& ctx, const std::vector<Obj>& r, const std::vector<Hyp>& h, int op) {
  Texts t = texts(r, h); ctx.state(th(t, op)); Printed all = go(ctx, t, opts(op));
  double a = 0, n = 0; std::set<std::string> qs = present(r, h);
  for (auto& q : qs) { Printed p = go(ctx, texts(only(r, {q}), only(h, {q})), opts(op)); a += p.v[0]; n += p.v[2];
    CHECK(near(p.v[0], p.v[1]) && near(p.v[2], p.v[3]), "with the single query %s the mean values (%.6g, %.6g) are not the global ones (%.6g, %.6g)", q.c_str(), p.v[1], p.v[3], p.v[0], p.v[2]); }
  if (!qs.empty()) { a /= qs.size(); n /= qs.size(); }
  CHECK(near(all.v[1], a), "mAP is %.6g, the mean of the queries evaluated alone is %.6g", all.v[1], a);
  CHECK(near(all.v[3], n), "mNDCG is %.6g, the mean of the queries evaluated alone is %.6g", all.v[3], n);
  ctx.outcome(mc::hash_str(std::to_string(a) + std::to_string(n)));
}
MC_FAMILY(C14_tool, "every data set of <=3 references and <=3 (thorough 4) hypotheses over 3 queries, collapsed: mAP and mNDCG are the means of the values of each query evaluated alone") {
  std::vector<Obj> r; std::vector<Hyp> h; bool m; data(ctx, 3, ctx.bound(3, 4), &r, &h, &m); if (!m) return; means(ctx, r, h, 0);
}
MC_FAMILY(C14_tool_big, "48 larger data sets of 4 queries, collapsed, interpolation and trapezoid on and off") {
  int s = ctx.choose(48); if (!ctx.mine()) return; int op = ctx.choose(4) * 2; std::vector<Obj> r; std::vector<Hyp> h; big(s, &r, &h); means(ctx, r, h, op);
}

// ---- C15: query sets and groups -------------------------------------------
static std::string layout(const std::vector<std::string>& w, int how) {
  std::string s;
  for (size_t i = 0; i < w.size(); ++i) {
    if (how == 0) s += w[i] + "\n";
    else if (how == 1) s += w[i] + (i + 1 < w.size() ? " " : "");
    else if (how == 2) s += "\t " + w[i] + " \r\n\n";
    else s += w[i] + (i + 1 < w.size() ? "\n" : "");
  }
  return s;
}
static void setcheck(mc::Ctx& ctx, const std::vector<Obj>& r, const std::vector<Hyp>& h, const std::set<std::string>& sel, const std::string& file, int op) {
  f_q.set(file); Texts t = texts(r, h); ctx.state(th(t, mc::hash_str(file, op))); Args a = opts(op); a.push_back("--query_set"); a.push_back(f_q.path);
  ctx.say("--- query set\n%s", file.c_str());
  Printed x = go(ctx, t, a), y = go(ctx, texts(only(r, sel), only(h, sel)), opts(op));
  same(ctx, x, y, "with the query set, and without it on the selected events"); ctx.outcome(mc::hash_str(std::to_string(x.v[0] + 3 * x.v[1])));
}
MC_FAMILY(C15_set, "every data set of <=3 references and <=2 (thorough 3) hypotheses over 3 queries x every subset of 4 names x 4 layouts of the file") {
  std::vector<Obj> r; std::vector<Hyp> h; bool m; data(ctx, 3, ctx.bound(2, 3), &r, &h, &m); if (!m) return;
  int sub = ctx.choose(16); std::vector<std::string> w; std::set<std::string> sel; for (int i = 0; i < 4; ++i) if (sub >> i & 1) { w.push_back(kQ[i]); sel.insert(kQ[i]); }
  setcheck(ctx, r, h, sel, layout(w, ctx.choose(4)), 0);
}
MC_FAMILY(C15_set_big, "48 larger data sets x every subset of 4 names in both orders, repeated, with unused and similar names x option settings") {
  int s = ctx.choose(48); if (!ctx.mine()) return; int sub = ctx.choose(16), extra = ctx.choose(4), rev = ctx.choose(2), op = ctx.choose(4) * 2;
  std::vector<Obj> r; std::vector<Hyp> h; big(s, &r, &h); std::vector<std::string> w; std::set<std::string> sel;
  for (int i = 0; i < 4; ++i) if (sub >> i & 1) { w.push_back(kQ[i]); sel.insert(kQ[i]); }
  if (rev) std::reverse(w.begin(), w.end());
  if (extra & 1) { auto c = w; w.insert(w.end(), c.begin(), c.end()); }
  if (extra & 2) { w.insert(w.begin(), "aa"); w.push_back("A"); w.push_back("zzz"); w.push_back("#"); w.push_back("d"); }
  setcheck(ctx, r, h, sel, layout(w, (s + sub) % 4), op);
}
MC_FAMILY(C15_words, "every sequence of <=4 (thorough 5) of 5 names as the query set, in 4 layouts, over 6 data sets") {
  static const std::vector<std::string> N = {"a", "b", "c", "dd", "zz"}; int s = ctx.choose(6), n = ctx.choose(ctx.bound(5, 6)); std::vector<std::string> w; std::set<std::string> sel;
  for (int i = 0; i < n; ++i) { int k = ctx.choose(5); if (i == 1 && !ctx.mine()) return; w.push_back(N[k]); sel.insert(N[k]); } if (n < 2 && !ctx.mine()) return;
  std::vector<Obj> r; std::vector<Hyp> h; big(s * 7 + 2, &r, &h); setcheck(ctx, r, h, sel, layout(w, (s + n) % 4), 0);
}
MC_FAMILY(C15_many, "up to 2000 unlisted queries with hits, false positives and misses; up to 2000 listed names that are not used") {
  static const int ns[] = {0, 1, 2, 15, 16, 17, 100, 500, 2000}; int n = ns[ctx.choose(9)], u = ns[ctx.choose(9)]; if (!ctx.mine()) return; int where = ctx.choose(3);
  std::vector<Obj> r, r2; std::vector<Hyp> h, h2; big(5, &r, &h);
  for (int i = 0; i < n; ++i) { std::string q = "u" + std::to_string(i * 37 % 1009) + (i % 2 ? "" : "x"); if (i % 3 != 1) r2.push_back(spot(q, i)); if (i % 3 != 2) h2.push_back(e2e::hyp(spot(q, i), std::to_string(i % 11 - 3))); }
  if (where == 0) { r.insert(r.begin(), r2.begin(), r2.end()); h.insert(h.begin(), h2.begin(), h2.end()); } else { r.insert(r.end(), r2.begin(), r2.end()); h.insert(where == 1 ? h.end() : h.begin() + h.size() / 2, h2.begin(), h2.end()); }
  std::vector<std::string> w = {"a", "c"}; for (int i = 0; i < u; ++i) w.insert(i % 2 ? w.begin() : w.end(), "unused" + std::to_string(i));
  setcheck(ctx, r, h, {"a", "c"}, layout(w, where), 0);
}
// Groups.
typedef std::vector<std::vector<std::string>> Lines;
static std::string group_text(const Lines& l, int how) {
  std::string s; for (size_t i = 0; i < l.size(); ++i) { for (size_t j = 0; j < l[i].size(); ++j) { if (j) s += how == 1 ? "\t  " : " "; else if (how == 1) s += " "; s += l[i][j]; }
    if (how == 1) s += " \r"; if (how != 2 || i + 1 < l.size()) s += "\n"; } return s;
}
static void groupcheck(mc::Ctx& ctx, const std::vector<Obj>& r, const std::vector<Hyp>& h, const Lines& l, int how, int op, int set) {
  std::map<std::string, std::string> q2g; for (auto& x : l) for (size_t i = 1; i < x.size(); ++i) q2g[x[i]] = x[0];
  std::string file = group_text(l, how); f_q.set(file); Texts t = texts(r, h); ctx.state(th(t, mc::hash_str(file, op * 4 + set)));
  ctx.say("--- query groups\n%s", file.c_str());
  Args a = opts(op); static MemFile f_s;
  if (set) { f_s.set(set == 1 ? "a\n" : set == 2 ? "nothing\n" : ""); a.push_back("--query_set"); a.push_back(f_s.path); }
  a.push_back("--query_groups"); a.push_back(f_q.path);
  if (set > 1) std::rotate(a.begin(), a.end() - 2, a.end());
  Printed x = go(ctx, t, a);
  std::map<std::string, std::set<std::string>> g; std::set<std::string> sel; std::set<std::string> pres = present(r, h);
  for (auto& k : q2g) if (pres.count(k.first)) { g[k.second].insert(k.first); sel.insert(k.first); }
  Printed y = go(ctx, texts(only(r, sel), only(h, sel)), opts(op));
  same(ctx, x, y, "with the groups, and without them on the selected events", 0, 2);
  double ma = 0, mn = 0; for (auto& k : g) { Printed p = go(ctx, texts(only(r, k.second), only(h, k.second)), opts(op)); ma += p.v[0]; mn += p.v[2]; }
  if (!g.empty()) { ma /= g.size(); mn /= g.size(); }
  CHECK(near(x.v[1], ma), "mAP is %.6g, the mean of the groups evaluated alone is %.6g", x.v[1], ma);
  CHECK(near(x.v[3], mn), "mNDCG is %.6g, the mean of the groups evaluated alone is %.6g", x.v[3], mn);
  ctx.outcome(mc::hash_str(std::to_string(ma + 3 * mn)));
}
MC_FAMILY(C15_groups, "every data set of <=2 references and <=2 hypotheses (thorough 3+2) over 3 queries x every map of the queries to 3 groups or none (a group named like a query)") {
  std::vector<Obj> r; std::vector<Hyp> h; bool m; data(ctx, ctx.bound(2, 3), 2, &r, &h, &m); if (!m) return;
  static const std::string G[3] = {"G", "b", "H"}; Lines l;
  for (int i = 0; i < 3; ++i) { int c = ctx.choose(4); if (c < 3) l.push_back({G[c], kQ[i]}); }
  groupcheck(ctx, r, h, l, 0, 0, 0);
}
MC_FAMILY(C15_groups_big, "48 larger data sets x 16 group files (overlapping, repeated, unused, several words per line, named like queries) x 3 layouts x superseded query sets") {
  static const std::vector<Lines> F = {{{"G", "a", "b"}, {"H", "c", "dd"}}, {{"G", "a", "b", "c", "dd"}}, {{"G", "a"}, {"G", "b"}, {"H", "c"}}, {{"a", "b"}, {"b", "a"}}, {{"a", "a"}, {"c", "c", "dd"}},
      {{"G", "a", "b"}, {"H", "b", "c"}}, {{"H", "b", "c"}, {"G", "a", "b"}}, {{"G", "a", "a", "a"}, {"G", "a"}}, {{"G", "nobody"}, {"H", "a"}}, {{"G", "nobody"}}, {{"G", "a"}, {"H", "a"}, {"I", "a"}}, {},
      {{"dd", "c"}, {"c", "b"}, {"b", "a"}, {"a", "dd"}}, {{"G", "aa", "A", "d"}, {"H", "dd", "c"}}, {{"1", "c", "a"}, {"2", "b"}, {"1", "dd"}}, {{"G", "c"}, {"G", "a"}, {"G", "b"}}};
  int s = ctx.choose(48); if (!ctx.mine()) return; int f = ctx.choose(16), how = ctx.choose(3), set = ctx.choose(4), op = ctx.choose(2) * 6;
  std::vector<Obj> r; std::vector<Hyp> h; big(s, &r, &h); groupcheck(ctx, r, h, F[f], how, op, set);
}
MC_FAMILY(C15_groups_many, "up to 300 queries in up to 40 groups") {
  static const int ns[] = {1, 2, 5, 16, 17, 64, 100, 300}; int nq = ns[ctx.choose(8)]; int ng = 1 + ctx.choose(40); if (!ctx.mine()) return;
  std::vector<Obj> r; std::vector<Hyp> h; Lines l; std::map<int, std::vector<std::string>> by;
  for (int i = 0; i < nq; ++i) { std::string q = "q" + std::to_string(i); by[i * 7 % ng].push_back(q); for (int j = 0; j < 3; ++j) { int z = (i * 5 + j * 3 + i * j) % 4; if (z < 2) r.push_back(spot(q, j)); if (z != 1) h.push_back(e2e::hyp(spot(q, j), std::to_string((i * 31 + j * 17) % 97))); } }
  for (auto& b : by) { std::vector<std::string> x = {"g" + std::to_string(b.first)}; x.insert(x.end(), b.second.begin(), b.second.end()); l.push_back(x); }
  if (nq > 17) { // fewer runs: only a few groups are kept
    l.resize(std::min<size_t>(l.size(), 12)); }
  groupcheck(ctx, r, h, l, 0, 0, 0);
}
// Four different names close to an odd one.
static std::vector<std::string> siblings(const std::string& n) {
  std::vector<std::string> v = {n}; std::string low = n, up = n; for (char& c : low) c = tolower((unsigned char)c); for (char& c : up) c = toupper((unsigned char)c);
  auto add = [&](const std::string& s) { if (v.size() < 4 && !s.empty() && s[0] != '#' && std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); };
  add(n.substr(1)); add(n.substr(0, n.size() - 1)); if (n.size() > 2) add(n.substr(2)); add(low); add(up); add(n + n[0]); add(n + "x"); add("y" + n); add("z" + n + "z"); return v;
}
static void renamed(std::vector<Obj>* r, std::vector<Hyp>* h, const std::vector<std::string>& v) {
  for (auto& o : *r) for (int i = 0; i < 4; ++i) if (o.q == kQ[i]) { o.q = v[i]; break; } for (auto& x : *h) for (int i = 0; i < 4; ++i) if (x.o.q == kQ[i]) { x.o.q = v[i]; break; }
}
MC_FAMILY(C15_names, "some 2000 odd names (every byte, marks, quotes, signs, words of other formats) and three names close to each, as queries and as groups: every query set of one, two or three of them, group files in 8 forms") {
  static const auto& N = e2e::odd_names(); const std::string& n = N[ctx.choose((int)N.size())]; if (!ctx.mine()) return; int form = ctx.choose(15); std::vector<std::string> v = siblings(n), g;
  std::vector<Obj> r; std::vector<Hyp> h; big(5, &r, &h); renamed(&r, &h, v);
  switch (form) { case 0: g = {v[0]}; break; case 1: g = {v[1]}; break; case 2: g = {v[0], v[1]}; break; case 3: g = {v[1], v[0]}; break; case 4: g = {v[2], v[0]}; break; case 5: g = {v[0], v[2], v[3]}; break; case 6: g = {v[3], v[1]}; break; default: break; }
  if (form < 7) { setcheck(ctx, r, h, std::set<std::string>(g.begin(), g.end()), layout(g, (form + n.size()) % 4), 0); return; }
  Lines l; switch (form) { case 7: l = {{"G", v[0]}, {"H", v[1], v[2]}}; break; case 8: l = {{v[0], v[0], v[2]}, {v[1], v[1]}}; break; case 9: l = {{v[0], v[1]}, {v[1], v[0]}, {v[2], v[3]}}; break; case 10: l = {{"G", v[1], v[0]}, {"G", v[3]}}; break; case 11: l = {{v[3], v[0]}, {v[0], v[2]}, {v[1], v[1]}}; break; case 12: l = {{v[0], v[1]}, {v[2], v[3]}, {v[1], v[0]}}; break; case 13: l = {{v[0], v[1]}, {v[3], v[0]}, {v[1], v[2]}}; break; default: l = {{v[2], v[3], v[0]}}; }
  groupcheck(ctx, r, h, l, n.size() % 3, 0, 0);
}
MC_FAMILY(C15_unused, "some 2000 odd names and marks that begin comments elsewhere, which no event has, as unused query before, between and after the others of a group, as the name of a group, and in a query set: as without them") {
  static std::vector<std::string> N; if (N.empty()) { N = {"#", "##", "#a", "#b", "#!", "a#", "//", "--", ";", "!", "%", "*", "...", "G", "H"}; for (auto& n : e2e::odd_names()) N.push_back(n); }
  const std::string& n = N[ctx.choose((int)N.size())]; if (!ctx.mine()) return; int form = ctx.choose(7); for (const std::string& q : kQ) if (n == q) return;
  std::vector<Obj> r; std::vector<Hyp> h; big(5 + form, &r, &h); Lines l;
  switch (form) { case 0: l = {{"X", n, "a", "b"}, {"Y", "c"}}; break; case 1: l = {{"X", "a", n, "b"}, {"Y", "c"}}; break; case 2: l = {{"X", "a", "b", n}, {"Y", "c"}}; break; case 3: l = {{n, "a", "b"}, {"Y", "c"}}; break; case 4: l = {{"Y", "c"}, {n, "a", n, "b", n}}; break; case 5: setcheck(ctx, r, h, {"a", "c", n}, "a\n" + n + "\nc\n", 0); return; default: setcheck(ctx, r, h, {"a", "c", n}, n + " a " + n + " c\n", 0); return; }
  groupcheck(ctx, r, h, l, 0, 0, 0);
}
MC_FAMILY(C15_long, "query sets and groups written in one line, or one name, of 100 to 140000 characters, around the powers of two") {
  static std::vector<int> ns; if (ns.empty()) { for (int k = 7; k <= 17; ++k) for (int d : {-1, 0, 1, 9}) ns.push_back((1 << k) + d); ns.push_back(140000); } int n = ns[ctx.choose((int)ns.size())], what = ctx.choose(4); if (!ctx.mine()) return;
  std::vector<Obj> r; std::vector<Hyp> h; std::vector<std::string> names; std::set<std::string> sel;
  if (what < 2) { size_t len = 1; for (int i = 0; len < (size_t)n; ++i) { names.push_back("q" + std::to_string(i * 7)); len += names.back().size() + 1; } } else { names.push_back(std::string(n, 'x') + "1"); names.push_back("small"); }
  for (auto& q : names) sel.insert(q); int k = 0; const size_t N = names.size();
  std::vector<std::string> some; for (size_t i = 0; i < N; ++i) if (i < 3 || i + 3 > N || i % (N / 5 + 1) == 0) some.push_back(names[i]); if (what >= 2) some.push_back(std::string(n, 'x') + "2"); some.push_back("other");
  for (auto& q : some) { r.push_back(spot(q, 0)); r.push_back(spot(q, 1)); h.push_back(e2e::hyp(spot(q, 0), std::to_string(100 - k))); h.push_back(e2e::hyp(spot(q, 2), std::to_string(100.5 - 2 * k))); ++k; }
  if (what % 2 == 0) { std::string f; for (auto& q : names) f += q + " "; f_q.set(f + "\n"); setcheck(ctx, r, h, sel, f + "\n", 0); }
  else { Lines l(1, std::vector<std::string>(1, "G")); l[0].insert(l[0].end(), names.begin(), names.end()); groupcheck(ctx, r, h, l, 0, 0, 0); }
}
MC_FAMILY(C15_refused, "group files with a short line at each position, files that do not exist and directories: an error without results") {
  int what = ctx.choose(4), pos = ctx.choose(4), sh = ctx.choose(4), crlf = ctx.choose(2); if (!ctx.mine()) return;
  std::vector<Obj> r; std::vector<Hyp> h; big(3, &r, &h); Texts t = texts(r, h); Args a; std::string file;
  static const char* sl[4] = {"", "a", "   ", "\tgroup "};
  if (what == 0) { for (int i = 0; i < 4; ++i) { file += i == pos ? std::string(sl[sh]) : "G" + std::to_string(i) + " " + kQ[i]; file += crlf ? " \r\n" : "\n"; } f_q.set(file); a = {"--query_groups", f_q.path}; }
  else { static const char* bad[4] = {"/nonexistent/file", "/proc/self/fd", "/dev/null/x", "./"}; a = {what == 1 ? "--query_groups" : "--query_set", bad[pos]};
    if (what == 3) { f_q.set("G a\n"); a = {"--query_set", f_q.path, "--query_groups", bad[pos]}; } }
  e2e::f_ref.set(t.r); e2e::f_hyp.set(t.h); a.push_back(e2e::f_ref.path); a.push_back(e2e::f_hyp.path);
  ctx.state(mc::hash_str(e2e::join(a) + file)); ctx.say("%s\n%s", e2e::join(a).c_str(), file.c_str());
  e2e::Result x = e2e::run(a); ctx.compared();
  CHECK(x.status != 0 && x.out.empty(), "the tool accepted it (status %d): %s", x.status, x.out.c_str());
  CHECK(x.status > 0, "the tool died: %s", x.err.c_str());
  CHECK(!x.err.empty(), "no diagnostic");
}

// ---- C16: presentation ----------------------------------------------------
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::stringstream ss(s); std::string l; while (std::getline(ss, l)) v.push_back(l); return v; }
static std::string unlines(const std::vector<std::string>& v) { std::string s; for (auto& l : v) s += l + "\n"; return s; }
static void perm(mc::Ctx& ctx, std::vector<std::string>* v) { for (size_t i = 0; i + 1 < v->size(); ++i) { int j = ctx.choose((int)(v->size() - i)); std::rotate(v->begin() + i, v->begin() + i + j, v->begin() + i + j + 1); } }
// Overlapping boxes of one or two queries, equal scores among them: order matters inside.
static void dense(mc::Ctx& ctx, int nr, int nh, std::vector<Obj>* r, std::vector<Hyp>* h, bool* mine) {
  std::vector<Obj> P; for (int q = 0; q < 2; ++q) for (int i = 0; i < 3; ++i) P.push_back(obj(kQ[q], q ? i : 0, i));
  for (int i : multiset(ctx, 6, nr, true)) r->push_back(P[i]);
  *mine = ctx.mine(); if (!*mine) return;
  for (int i : multiset(ctx, 12, nh)) h->push_back(e2e::hyp(P[i / 2], i % 2 ? "0.75" : "-0.5"));
}
MC_FAMILY(C16_lines, "every data set of <=3 references and <=3 hypotheses (overlapping, tied) x every order of the lines of both files, sort asc and desc") {
  std::vector<Obj> r; std::vector<Hyp> h; bool m; dense(ctx, 3, 3, &r, &h, &m); if (!m) return;
  Texts t = texts(r, h), u; std::vector<std::string> a = lines(t.r), b = lines(t.h); perm(ctx, &a); perm(ctx, &b); u.r = unlines(a); u.h = unlines(b);
  Args o; if ((r.size() + h.size()) % 2) o = {"--sort", "asc"};
  ctx.state(th(u)); same(ctx, go(ctx, t, o), go(ctx, u, o), "with the lines in another order");
}
MC_FAMILY(C16_lines4, "data sets of 4 tied and untied hypotheses in every order, 2..4 overlapping references in every order") {
  int base = ctx.choose(81), nr = 2 + ctx.choose(2); if (!ctx.mine()) return; std::vector<Obj> r; std::vector<Hyp> h;
  for (int i = 0; i < nr; ++i) r.push_back(obj("a", 0, i)); int c = base;
  for (int i = 0; i < 4; ++i) { h.push_back(e2e::hyp(obj(i == 3 ? "b" : "a", 0, c % 3), i % 2 ? "0.5" : "0.25")); c /= 3; }
  Texts t = texts(r, h), u; std::vector<std::string> a = lines(t.r), b = lines(t.h); perm(ctx, &a); perm(ctx, &b); u.r = unlines(a); u.h = unlines(b);
  ctx.state(th(u)); same(ctx, go(ctx, t, {}), go(ctx, u, {}), "with the lines in another order");
}
MC_FAMILY(C16_order_big, "48 larger data sets in 24 orders x 8 option settings without equal scores") {
  int s = ctx.choose(48); if (!ctx.mine()) return; int k = ctx.choose(24), op = ctx.choose(8); std::vector<Obj> r; std::vector<Hyp> h; big(s, &r, &h);
  if (op & 1) for (size_t i = 0; i < h.size(); ++i) h[i] = e2e::hyp(h[i].o, h[i].text + std::to_string(100 + i));
  Texts t = texts(r, h), u; std::vector<std::string> a = lines(t.r), b = lines(t.h);
  auto shuf = [&](std::vector<std::string>& v, int key) { std::vector<std::pair<uint64_t, std::string>> x; for (size_t i = 0; i < v.size(); ++i) x.push_back({mc::mix(key * 1000003ull, i), v[i]}); std::sort(x.begin(), x.end()); for (size_t i = 0; i < v.size(); ++i) v[i] = x[i].second; };
  shuf(a, k); shuf(b, k + 77); u.r = unlines(a); u.h = unlines(b); ctx.state(th(u, op)); same(ctx, go(ctx, t, opts(op)), go(ctx, u, opts(op)), "with the lines in another order");
}
// One formatting change at every line of every file.
static std::string decorate(const std::vector<std::string>& v, size_t at, int how) {
  std::string s;
  for (size_t i = 0; i <= v.size(); ++i) {
    if (i == at || at == 999) {
      switch (how) { case 0: s += "# a comment q d 1 2 3 4 0.5\n"; break; case 1: s += "\n"; break; case 2: s += "  \t \n"; break; case 3: s += "   #\n"; break; case 4: s += "\r\n"; break; case 5: s += "#\n##\n\n"; break; case 6: s += "\t# x\r\n"; break; case 7: s += "#" + std::string(5000, 'x') + "\n"; break; case 14: s += std::string(5000, ' ') + "\n"; break; case 15: s += "#comment without space\n"; break; }
    }
    if (i == v.size()) break;
    std::string l = v[i];
    if (i == at || at == 999) {
      std::string o; 
      switch (how) { case 8: l = "  " + l; break; case 9: l += " \t "; break; case 10: l += "\r"; break; case 11: for (char c : l) o += c == ' ' ? std::string("\t") : std::string(1, c); l = o; break; case 12: for (char c : l) o += c == ' ' ? std::string("  \t  ") : std::string(1, c); l = "\t" + o + " \r"; break; }
    }
    s += l;
    if (!(how == 13 && i + 1 == v.size())) s += "\n";
  }
  return s;
}
MC_FAMILY(C16_layout, "16 data sets x 16 kinds of comments, blanks and line ends x every line (and all of them) of either or both files") {
  int s = ctx.choose(16), how = ctx.choose(16); if (!ctx.mine()) return; std::vector<Obj> r; std::vector<Hyp> h; big(s, &r, &h);
  r.resize(std::min<size_t>(r.size(), 6)); h.resize(std::min<size_t>(h.size(), 6)); if (r.size() > 2 && s % 2) r.resize(1);
  Texts t = texts(r, h); std::vector<std::string> a = lines(t.r), b = lines(t.h); int which = ctx.choose(3); size_t n = std::max(a.size(), b.size()) + 1; int at = ctx.choose((int)n + 1); if (at == (int)n) at = 999;
  Texts u = t; if (which != 1) u.r = decorate(a, at, how); if (which != 0) u.h = decorate(b, at, how);
  ctx.state(th(u)); Args o; if (s % 4 == 3) o = {"--sort", "none"};
  same(ctx, go(ctx, t, o), go(ctx, u, o), "with another layout");
}
MC_FAMILY(C16_notation, "24 data sets whose numbers are written in 12 equivalent decimal notations, each line in turn and all") {
  int s = ctx.choose(24), how = ctx.choose(12); if (!ctx.mine()) return; std::vector<Obj> r; std::vector<Hyp> h; big(s, &r, &h);
  auto score = [&](const std::string& l, int how) -> std::string { double v = atof(l.c_str()); char b[64];
    switch (how) { case 0: snprintf(b, sizeof b, "%.6f", v); break; case 1: snprintf(b, sizeof b, "%.9e", v); break; case 2: snprintf(b, sizeof b, "%.9E", v); break; case 3: snprintf(b, sizeof b, "%+.3f", v); break; case 4: snprintf(b, sizeof b, "000%.3f", v); break;
      case 5: snprintf(b, sizeof b, "%.3f00000000000000000000", v); break; case 6: snprintf(b, sizeof b, "%.0fe-3", v * 1000); break; case 7: snprintf(b, sizeof b, "%.8fe3", v / 1000); break; case 8: snprintf(b, sizeof b, "%.8fE+0003", v / 1000); break; case 9: snprintf(b, sizeof b, "%.3fe0", v); break;
      case 10: { snprintf(b, sizeof b, "%.3f", v); return b[0] == '0' ? std::string(b + 1) : std::string(b); } default: snprintf(b, sizeof b, "%g%s", v, v == floor(v) ? "." : ""); }
    return b; };
  Texts t = texts(r, h), u = t; int at = ctx.choose((int)h.size() + 1); std::vector<Hyp> g = h; for (size_t i = 0; i < g.size(); ++i) if (at == (int)i || at == (int)h.size()) { g[i].text = score(h[i].text, how); }
  u.h = e2e::hyps_text(g);
#ifndef SIMPLE_TOOL
  if (how % 3 == 0) { u.r.clear(); for (auto& o : r) u.r += o.q + " " + o.d + " 0" + std::to_string(o.b.x) + " +" + std::to_string(o.b.y) + " 00" + std::to_string(o.b.w) + " +0" + std::to_string(o.b.h) + "\n"; }
#endif
  ctx.state(th(u)); same(ctx, go(ctx, t, {}), go(ctx, u, {}), "with the numbers in another notation");
}
MC_FAMILY(C16_monotone, "every data set of <=3 references and <=3 hypotheses (overlapping, tied) and 48 larger ones: 20 (thorough: 46) strictly increasing functions of the score, over all the magnitudes of single precision") {
  bool small = ctx.flip(); std::vector<Obj> r; std::vector<Hyp> h; bool m = true;
  if (small) { dense(ctx, 2, 3, &r, &h, &m); if (!m) return; } else { int s = ctx.choose(48); if (!ctx.mine()) return; big(s, &r, &h); }
  int f = ctx.choose(ctx.bound(20, 46)); std::vector<Hyp> g = h;
  if (f >= 8) {                                                // 10^k times the score; beyond, 10^k is added
    static const int K[38] = {-37, -30, -20, -12, -9, -6, -4, 2, 6, 12, 25, 34, -35, -33, -28, -25, -23, -18, -16, -15, -14, -13, -11, -10, -8, -7, -5, -3, -2, 3, 4, 8, 9, 15, 20, 30, 36, 37}; int k = K[f - 8]; char b[64]; bool add = k > 1 && k < 6; double F = pow(10, k);
    for (auto& x : g) { double v = atof(x.text.c_str()); snprintf(b, sizeof b, "%.9g", add ? v + F : v * F); x.text = b; float w = strtof(b, nullptr); if (w != 0 && (fabsf(w) < 1.2e-38f || fabsf(w) > 3.4e38f)) return; }
    for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < i; ++j) { float a = strtof(h[i].text.c_str(), nullptr), c = strtof(h[j].text.c_str(), nullptr), d = strtof(g[i].text.c_str(), nullptr), e = strtof(g[j].text.c_str(), nullptr); if ((a < c) != (d < e) || (a > c) != (d > e)) return; }
  } else for (auto& x : g) { double v = atof(x.text.c_str()), w = f == 0 ? v * 1e6 : f == 1 ? v + 1000 : f == 2 ? v - 1000 : f == 3 ? exp(v) : f == 4 ? v * v * v + v : f == 5 ? v * 1e-6 : f == 6 ? atan(v) : v * 3e37; char b[64]; snprintf(b, sizeof b, "%.9g", w); x.text = b; }
  Texts t = texts(r, h), u = texts(r, g); ctx.state(th(u)); Args o; if (f % 2) o = {"--sort", "asc"};
  same(ctx, go(ctx, t, o), go(ctx, u, o), "with increasing scores");
}
static std::string rename(const std::string& s, int how) {
  switch (how) { case 0: return s + "x"; case 1: return "prefix_" + s; case 2: { std::string o; for (char c : s) o += (char)(c >= 'a' && c <= 'z' ? 'z' - (c - 'a') : c); return o; } case 3: return std::string(300, 'n') + s; case 4: return std::to_string(mc::hash_str(s)); case 5: return "\xc3\xa9" + s; case 6: { std::string o(s.rbegin(), s.rend()); return o + "#"; } default: { std::string o; for (char c : s) { o += c; o += c; } return o; } }
}
MC_FAMILY(C16_rename, "every data set of <=2 references and <=3 hypotheses and 48 larger ones: 8 injective renamings of the queries, the places, or both") {
  bool small = ctx.flip(); std::vector<Obj> r; std::vector<Hyp> h; bool m = true;
  if (small) { dense(ctx, 2, 3, &r, &h, &m); if (!m) return; } else { int s = ctx.choose(48); if (!ctx.mine()) return; big(s, &r, &h); }
  int how = ctx.choose(8), what = ctx.choose(3); std::vector<Obj> r2 = r; std::vector<Hyp> h2 = h;
  for (auto& o : r2) { if (what != 1) o.q = rename(o.q, how); if (what != 0) o.d = rename(o.d, how); }
  for (auto& x : h2) { if (what != 1) x.o.q = rename(x.o.q, how); if (what != 0) x.o.d = rename(x.o.d, how); }
  Texts t = texts(r, h), u = texts(r2, h2); ctx.state(th(u)); same(ctx, go(ctx, t, {}), go(ctx, u, {}), "with other names");
}
MC_FAMILY(C16_names, "some 2000 odd names (every byte, marks, quotes, signs, words of other formats) and three names close to each, for the queries, the places, or both: the same results as with plain names") {
  static const auto& N = e2e::odd_names(); const std::string& n = N[ctx.choose((int)N.size())]; if (!ctx.mine()) return; int what = ctx.choose(3); std::vector<std::string> v = siblings(n); std::vector<Obj> r; std::vector<Hyp> h; big(7, &r, &h);
#ifndef SIMPLE_TOOL
  for (auto& o : r) o.d = kQ[o.b.x / 10 % 4]; for (auto& x : h) x.o.d = kQ[x.o.b.x / 10 % 4];
#endif
  std::vector<Obj> r2 = r; std::vector<Hyp> h2 = h; if (what != 1) renamed(&r2, &h2, v);
#ifndef SIMPLE_TOOL
  auto place = [&](const std::string& d) { for (int i = 0; i < 4; ++i) if (d == kQ[i]) return v[i]; return d; };
#else
  auto place = [&](const std::string& d) { int k = atoi(d.c_str() + 1); return k < 4 ? v[k] : v[k % 4] + "." + std::to_string(k); };
#endif
  if (what != 0) { for (auto& o : r2) o.d = place(o.d); for (auto& x : h2) x.o.d = place(x.o.d); }
  Texts t = texts(r, h), u = texts(r2, h2); ctx.state(th(u)); same(ctx, go(ctx, t, {}), go(ctx, u, {}), "with other names");
}
#ifndef SIMPLE_TOOL
MC_FAMILY(C16_shift, "every data set of <=2 references and <=3 hypotheses (overlapping) and 48 larger ones: 10 translations of the boxes of a document, or of all") {
  bool small = ctx.flip(); std::vector<Obj> r; std::vector<Hyp> h; bool m = true;
  if (small) { dense(ctx, 2, 3, &r, &h, &m); if (!m) return; } else { int s = ctx.choose(48); if (!ctx.mine()) return; big(s, &r, &h); }
  static const long long D[10][2] = {{1, 0}, {0, 1}, {1000, 1000}, {65536, 3}, {7, 65535}, {2147483648LL - 200, 0}, {2147483648LL, 2147483648LL}, {4294966000LL, 4294966000LL}, {16777216, 16777217}, {123456789, 987654321}};
  int k = ctx.choose(10); bool one = ctx.flip(); std::vector<Obj> r2 = r; std::vector<Hyp> h2 = h;
  auto mv = [&](Obj& o) { if (one && o.d != "doc" && o.d != "d") return; o.b.x += D[k][0]; o.b.y += D[k][1]; };
  for (auto& o : r2) mv(o); for (auto& x : h2) mv(x.o);
  Texts t = texts(r, h), u = texts(r2, h2); ctx.state(th(u)); same(ctx, go(ctx, t, {}), go(ctx, u, {}), "with the boxes moved");
}
#endif

// ---- C28: better rankings, through the tool -------------------------------
struct Rk { std::vector<int> kind, q; int miss; };
static Texts list_of(const Rk& k) {
  std::vector<Obj> r; std::vector<Hyp> h; int id = 0;
  for (size_t i = 0; i < k.kind.size(); ++i) { Obj o = spot(kQ[k.q[i]], id++); if (k.kind[i] == 0) r.push_back(o); h.push_back(e2e::hyp(o, std::to_string(50 - (int)i))); }
  for (int i = 0; i < k.miss; ++i) r.push_back(spot(kQ[0], 80 + i));
  return texts(r, h);
}
static void laws(mc::Ctx& ctx, const Rk& r, int op) {
  Texts t = list_of(r); ctx.state(th(t, op)); Printed base = go(ctx, t, opts(op)); const size_t n = r.kind.size();
  auto cmp = [&](const Rk& b, int dir, const char* what) { Printed x = go(ctx, list_of(b), opts(op)); for (int k = 0; k < 4; ++k) CHECK(dir * (x.v[k] - base.v[k]) >= -3e-6, "%s: %s goes from %.6g to %.6g", what, e2e::kNames[k], base.v[k], x.v[k]); };
  for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (r.kind[i] == 1 && r.kind[j] == 0 && r.q[i] == r.q[j]) { Rk b = r; std::swap(b.kind[i], b.kind[j]); cmp(b, 1, "a hit rises above a false positive"); }
  for (int q = 0; q < 2; ++q) { bool pres = q == 0 && r.miss; for (int x : r.q) pres |= x == q; if (!pres) continue; Rk b = r; b.kind.push_back(1); b.q.push_back(q); cmp(b, -1, "a false positive is appended at the end"); }
  for (size_t i = n; i-- > 0;) if (r.kind[i] == 1) { Rk b = r; b.kind.erase(b.kind.begin() + i); b.q.erase(b.q.begin() + i); cmp(b, 1, "the lowest false positive is removed"); break; }
  bool hits = false, fp = false, top = !r.miss, has[2] = {}, pres[2] = {};
  for (size_t i = 0; i < n; ++i) { pres[r.q[i]] = true; if (r.kind[i] == 0) { hits = true; has[r.q[i]] = true; if (fp) top = false; } else fp = true; }
  for (int q = 0; q < 2; ++q) if (pres[q] && !has[q]) top = false;
  for (int k = 0; k < 4; ++k) { if (hits && top) CHECK(near(base.v[k], 1), "%s of a perfect ranking is %.6g", e2e::kNames[k], base.v[k]); if (!hits) CHECK(near(base.v[k], 0), "%s of a ranking without hits is %.6g", e2e::kNames[k], base.v[k]); }
  ctx.outcome(mc::hash_str(std::to_string(base.v[0])));
}
MC_FAMILY(C28_tool, "every ranking of <=5 (thorough 6) hits and false positives of two queries, 0..2 missed, 8 option settings, through the tool") {
  Rk r; r.miss = ctx.choose(3); int n = ctx.bound(5, 6); bool called = false;
  for (int i = 0; i < n; ++i) { if (i == 3) { called = true; if (!ctx.mine()) return; } int c = ctx.choose(5); if (c == 4) break; r.kind.push_back(c % 2); r.q.push_back(c / 2); }
  if (!called && !ctx.mine()) return;
  laws(ctx, r, ctx.choose(8));
}
