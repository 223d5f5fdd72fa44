// C01 / C02: the values the tools print are the ones of the definitions.
#include "e2e.h"

using ora::Box; using ora::Obj; using ora::Hyp; using ora::Opts; using ora::Problem; using ora::Sort;

static Opts pick_opts(mc::Ctx& ctx, int nsort = 3) {
  Opts o; o.collapse = !ctx.flip(); o.interp = !ctx.flip(); o.trap = !ctx.flip(); o.sort = (Sort)ctx.choose(nsort);
  return o;
}
static void go(mc::Ctx& ctx, Problem& p, const Opts& o) {
  p.acc = e2e::accept();
  ctx.state(e2e::problem_hash(p, o));
  e2e::check_values(ctx, p, o);
}
// A multiset of up to n elements of 0..k-1 (non decreasing sequence).
static std::vector<int> multiset(mc::Ctx& ctx, int k, int n, bool strict = false) {
  std::vector<int> v; int lo = 0;
  while ((int)v.size() < n) {
    int room = k - lo; if (room <= 0) break;
    int c = ctx.choose(room + 1); if (c == 0) break;
    v.push_back(lo + c - 1); lo = lo + c - 1 + (strict ? 1 : 0);
  }
  return v;
}

#ifndef SIMPLE_TOOL
static const std::vector<Box> kPool = {{0, 0, 2, 2}, {1, 0, 2, 2}, {0, 0, 4, 2}, {2, 0, 2, 2}, {0, 1, 2, 2}, {1, 1, 2, 2}, {0, 0, 1, 1}, {5, 5, 2, 2}};
static Obj place(int i) { return Obj{"q", "d", kPool[i]}; }
static Obj spot(int i) { return Obj{"q", "d", Box{10 * i, 0, 4, 4}}; }     // disjoint places
#else
static Obj place(int i) { return Obj{i % 2 ? "q" : "p", std::string(1, "abcd"[i / 2]), {}}; }
static Obj spot(int i) { return Obj{"q", "d" + std::to_string(i), {}}; }
#endif

// M: every set of references and every list of hypotheses over overlapping places.
static void micro(mc::Ctx& ctx, int maxref, int maxhyp, bool opts) {
  Problem p; Opts o{true, true, true, ora::DESC};
  for (int i : multiset(ctx, 8, maxref, true)) p.refs.push_back(place(i));
  if (!ctx.mine()) return;
  static const char* sc[2] = {"0.5", "0.25"};
  for (int i : multiset(ctx, 16, maxhyp)) p.hyps.push_back(e2e::hyp(place(i / 2), sc[i % 2]));
  if (opts) o = pick_opts(ctx); else { o.collapse = !ctx.flip(); o.sort = ctx.flip() ? ora::ASC : ora::DESC; }
  go(ctx, p, o);
}
MC_FAMILY(M_few, "all sets of <=2 references x all multisets of <=2 hypotheses (16 place/score letters) x all 24 option settings") { micro(ctx, 2, 2, true); }
MC_FAMILY(M_more, "all sets of <=3 references (thorough 4) x all multisets of <=3 hypotheses (thorough 4) x collapse x sort") { micro(ctx, ctx.bound(3, 4), ctx.bound(3, 4), false); }
// Every sequence of places in rank order, all scores different.
MC_FAMILY(M_seq, "all sets of <=3 references x all sequences of <=3 (thorough 4) hypotheses with decreasing scores over 8 places") {
  Problem p; for (int i : multiset(ctx, 8, ctx.bound(3, 4), true)) p.refs.push_back(place(i));
  if (!ctx.mine()) return;
  int n = ctx.bound(3, 4); std::vector<Hyp> h;
  for (int i = 0; i < n; ++i) { int c = ctx.choose(9); if (c == 8) break; h.push_back(e2e::hyp(place(c), std::to_string(9 - i))); }
  p.hyps = h; if (ctx.flip()) std::reverse(p.hyps.begin(), p.hyps.end());
  go(ctx, p, Opts{true, true, true, ora::DESC});
}
// Two queries, two places (documents) and overlapping objects in each.
MC_FAMILY(M_mixed, "all sets of <=3 references x all multisets of <=2 (thorough 3) hypotheses over 2 queries x 2 documents x 3 overlapping boxes, 2 scores") {
  std::vector<Obj> pl;
  for (const char* q : {"a", "b"}) for (const char* d : {"a", "c"}) for (int i = 0; i < 3; ++i) { Obj o{q, d, Box{2 * i, 1, 6, 3}};
#ifdef SIMPLE_TOOL
    o.d += std::to_string(i); if (i == 2) o.d = d; o.b = Box{};
#endif
    pl.push_back(o); }
  Problem p; for (int i : multiset(ctx, 12, 3, true)) p.refs.push_back(pl[i]);
  if (!ctx.mine()) return;
  for (int i : multiset(ctx, 24, ctx.bound(2, 3))) p.hyps.push_back(e2e::hyp(pl[i / 2], i % 2 ? "-1.5" : "1.5"));
  Opts o{true, true, true, ora::DESC}; o.collapse = !ctx.flip();
  go(ctx, p, o);
}
MC_FAMILY_THOROUGH(M_opts, "all sets of <=4 references x all multisets of <=3 hypotheses x all 24 option settings") { micro(ctx, 4, 3, true); }

// R: every ranked list of hits, false positives and repetitions, ties and misses.
static void ranked(mc::Ctx& ctx, int maxn, bool alpha3) {
  Problem p; int n = ctx.choose(maxn + 1); int nref = 0, cur = 0;
  for (int i = 0; i < n; ++i) {
    int kind = ctx.choose(nref > 0 && alpha3 ? 3 : 2);    // 0 hit, 1 false positive, 2 repetition
    bool tie = i > 0 ? ctx.flip() : false;
    if (i == 2 && !ctx.mine()) return;
    if (!tie) ++cur;
    Obj o = kind == 0 ? spot(50 - nref) : kind == 1 ? spot(100 - i) : spot(50 - nref + 1);
    if (kind == 0) { p.refs.push_back(o); ++nref; }
    char b[32]; snprintf(b, sizeof b, "%.3f", 1.0 - 0.125 * cur);
    p.hyps.push_back(e2e::hyp(o, b));
  }
  if (n < 3 && !ctx.mine()) return;
  int miss = ctx.choose(4);
  for (int i = 0; i < miss; ++i) p.refs.push_back(spot(200 + i));
  Opts o = pick_opts(ctx);
  if (ctx.flip()) std::reverse(p.hyps.begin(), p.hyps.end());
  go(ctx, p, o);
}
MC_FAMILY(R_ranks, "every list of <=5 (thorough 6) ranked hypotheses (hit/false positive/repetition, tied or not), 0..3 missed, all 24 option settings, both line orders") { ranked(ctx, ctx.bound(5, 6), true); }
MC_FAMILY(R_long, "every list of <=6 (thorough 8) ranked hits and false positives, tied or not") { ranked(ctx, ctx.bound(6, 8), false); }

// Q: several queries.
MC_FAMILY(Q_queries, "<=3 references and <=3 hypotheses over 3 queries x 2 places, 2 scores, all option settings without sort") {
  Problem p; std::vector<Obj> pl;
  for (const char* q : {"a", "b", "c"}) for (int i = 0; i < 2; ++i) { Obj o = spot(i); o.q = q; pl.push_back(o); }
  for (int i : multiset(ctx, 6, ctx.bound(3, 4), true)) p.refs.push_back(pl[i]);
  if (!ctx.mine()) return;
  for (int i : multiset(ctx, 12, ctx.bound(3, 4))) p.hyps.push_back(e2e::hyp(pl[i / 2], i % 2 ? "2" : "1"));
  Opts o; o.collapse = !ctx.flip(); o.interp = o.trap = !ctx.flip(); o.sort = ora::DESC;
  go(ctx, p, o);
}
MC_FAMILY(Q_many, "1..24 queries, each with its own pattern of <=2 hits, <=2 false positives and <=1 missed, in both line orders") {
  int nq = 1 + ctx.choose(24); int seed = ctx.choose(12); if (!ctx.mine()) return;
  Problem p;
  for (int k = 0; k < nq; ++k) {
    int c = (k * 5 + seed) % 12; int hits = c % 3, fps = (c / 3) % 2 + (k % 5 == 0), miss = (c / 6) % 2;
    std::string q = "q" + std::to_string((k * 7) % 31);
    for (int i = 0; i < hits; ++i) { Obj o = spot(i); o.q = q; p.refs.push_back(o); p.hyps.push_back(e2e::hyp(o, std::to_string((k * 3 + i * 5) % 17))); }
    for (int i = 0; i < fps; ++i) { Obj o = spot(20 + i); o.q = q; p.hyps.push_back(e2e::hyp(o, std::to_string((k * 11 + i * 2) % 17))); }
    for (int i = 0; i < miss; ++i) { Obj o = spot(40 + i); o.q = q; p.refs.push_back(o); }
  }
  if (ctx.flip()) { std::reverse(p.refs.begin(), p.refs.end()); std::reverse(p.hyps.begin(), p.hyps.end()); }
  Opts o = pick_opts(ctx);
  if (!o.collapse) for (size_t i = 0; i < p.hyps.size(); ++i) p.hyps[i] = e2e::hyp(p.hyps[i].o, p.hyps[i].text + "." + std::to_string(100 + i));  // no ties
  go(ctx, p, o);
}

// Names: equality of names and nothing else decides.
static std::vector<std::string> names() {
  std::vector<std::string> v = {"a", "A", "b", "aa", "ab", "a1", "1", "01", "1.0", "001", "-1", "+1", "0", "00", "1e0", "x#", "a_b", "a-b", "a:b", "a|b",
      "\"a\"", "'", "\\n", "%s", "caf\xc3\xa9", "cafe\xcc\x81", "\xc3\xa9", "\xff", "a,", "a;b", "null", "true", "4294967296", "2147483648", "NaN",
      "a\x01", "~", "/", ".", "..", "a/b", "query", "Query", "#", "#1", "#a", "##", "#q"};
  for (int n : {7, 8, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024}) {
    v.push_back(std::string(n, 'x')); v.push_back(std::string(n - 1, 'x') + "y"); v.push_back("y" + std::string(n - 1, 'x'));
  }
  return v;
}
MC_FAMILY(T_names, "every ordered pair of 100+ tricky names, as query, as place, and both; the hypothesis hits iff they are equal") {
  static const std::vector<std::string> nm = names();
  int a = ctx.choose((int)nm.size()); if (!ctx.mine()) return;
  int b = ctx.choose((int)nm.size()), mode = ctx.choose(3);
  if (mode != 1 && (nm[a][0] == '#' || nm[b][0] == '#')) return;     // begins a comment line
  Problem p; Obj r = spot(1), h = spot(1), k = spot(2);
  r.q = mode == 1 ? "q" : nm[a]; h.q = mode == 1 ? "q" : nm[b];
  r.d = mode == 0 ? "d" : nm[a]; h.d = mode == 0 ? "d" : nm[b];
  if (mode == 2) { r.d = nm[b]; h.q = nm[a]; h.d = nm[b]; if (a != b) std::swap(h.q, h.d); }
  p.refs = {r, k}; p.hyps = {e2e::hyp(h, "0.5"), e2e::hyp(k, "0.25")};
  if (ctx.flip()) std::reverse(p.refs.begin(), p.refs.end());
  go(ctx, p, Opts{true, true, true, ora::DESC});
}

// S: scores as written decide the order, as single precision numbers.
static const std::vector<std::string> kScores = {"0", "-0", "1", "-1", "0.5", ".5", "5e-1", "0.50", "+0.5", "1e-3", "1E-3", "-1e-3", "0.001", "3.4e38", "-3.4e38",
    "1e-38", "1e-45", "16777216", "16777217", "16777218", "0.1", "0.10000001", "0.1000000001", "100000000000000000000", "-7", "7", "007", "10", "9", "2", "-10", "-9",
    "0.3333333333333333", "0.33333334", "1.", "123456.789", "123456.7890001"};
MC_FAMILY(S_pairs, "every ordered triple of 37 score literals x collapse x 3 sorts; hit/false positive/hit") {
  int a = ctx.choose((int)kScores.size()), b = ctx.choose((int)kScores.size()); if (!ctx.mine()) return;
  int c = ctx.choose((int)kScores.size());
  Problem p; p.refs = {spot(1), spot(2), spot(4)};
  p.hyps = {e2e::hyp(spot(1), kScores[a]), e2e::hyp(spot(3), kScores[b]), e2e::hyp(spot(2), kScores[c])};
  Opts o{true, false, false, ora::DESC}; o.collapse = !ctx.flip(); o.sort = (Sort)ctx.choose(3);
  go(ctx, p, o);
}

MC_FAMILY(S_scales, "scores next to each other in single precision, or 1, 3, 1000 and 10^6 steps apart, at every power of ten from 1e-37 to 1e38 and of two, positive and negative: hits below and above a false positive, 3 sorts") {
  static const int st[] = {1, 2, 3, 10, 1000, 1000000}; int e = ctx.choose(76 + 60), d = st[ctx.choose(6)]; if (!ctx.mine()) return; bool neg = ctx.flip(), low = ctx.flip(); int so = ctx.choose(3);
  float x = e < 76 ? (float)pow(10, e - 37) : (float)ldexp(1, (e - 76) * 4 - 118); if (x > 3e38f) return; int32_t bits; memcpy(&bits, &x, 4); bits += d; float y; memcpy(&y, &bits, 4); if (!(y < 3.4e38f)) return; if (neg) { x = -x; y = -y; std::swap(x, y); }
  char a[64], b[64]; snprintf(a, sizeof a, "%.9g", x); snprintf(b, sizeof b, "%.9g", y); Problem p; p.refs = {spot(1), spot(2)}; p.hyps = {e2e::hyp(spot(3), low ? a : b), e2e::hyp(spot(1), low ? b : a)}; Opts o{true, false, false, ora::DESC}; o.sort = (Sort)so; go(ctx, p, o);
}

#ifndef SIMPLE_TOOL
// B: the overlap decision, over every small box and many places and sizes.
static void boxes(mc::Ctx& ctx, const Box& ref, int lim, const std::vector<std::pair<long long, long long>>& off, const std::vector<int>& scale) {
  int x = ctx.choose(lim), y = ctx.choose(lim); if (!ctx.mine()) return;
  int w = ctx.choose(lim), h = ctx.choose(lim);
  auto of = off[ctx.choose((int)off.size())]; long long s = scale[ctx.choose((int)scale.size())];
  Problem p; Obj r{"q", "d", Box{ref.x * s + of.first, ref.y * s + of.second, ref.w * s, ref.h * s}};
  Obj hy{"q", "d", Box{x * s + of.first, y * s + of.second, w * s, h * s}};
  p.refs = {r}; p.hyps = {e2e::hyp(hy, "0.5")};
  go(ctx, p, Opts{true, true, true, ora::DESC});
}
MC_FAMILY(B_small, "every hypothesis box with x,y,w,h in 0..6 against one reference, at 6 offsets up to the end of the coordinate range and 2 sizes") {
  boxes(ctx, Box{2, 2, 3, 3}, ctx.bound(6, 8), {{0, 0}, {1000, 3}, {65530, 65530}, {2147483640LL, 2147483645LL}, {4294964000LL, 1}, {1, 4294964000LL}}, {1, 300});
}
MC_FAMILY(B_thin, "the same against thin and empty references") {
  static const Box refs[] = {{2, 2, 1, 4}, {2, 2, 4, 1}, {0, 0, 1, 1}, {2, 2, 0, 3}, {2, 2, 3, 0}, {0, 0, 6, 6}};
  boxes(ctx, refs[ctx.choose(6)], 6, {{0, 0}, {7, 70000}}, {1});
}
MC_FAMILY(B_half, "hypotheses of every area up to the limit of the sampled widths, covered one unit below, at and above the half") {
  static const int ws[] = {1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 64, 99, 100, 101, 255, 256, 1000, 2047, 4093};
  int w = ws[ctx.choose(19)], h = ws[ctx.choose(19)]; if (!ctx.mine()) return;
  int axis = ctx.choose(2), d = ctx.choose(5) - 2, side = ctx.choose(2);
  if ((long long)w * h >= (1 << 24)) return;
  int len = axis ? h : w; int cov = len / 2 + d; if (cov < 0 || cov > len) return;
  Box hb{5000, 5000, w, h}, rb = hb;
  if (axis) { rb.h = 5000; rb.y = side ? hb.y + cov - 5000 : hb.y + h - cov; } else { rb.w = 5000; rb.x = side ? hb.x + cov - 5000 : hb.x + w - cov; }
  Problem p; p.refs = {Obj{"q", "d", rb}}; p.hyps = {e2e::hyp(Obj{"q", "d", hb}, "0.5")};
  go(ctx, p, Opts{true, true, true, ora::DESC});
}
// The micro problems in other places and sizes.
MC_FAMILY(B_scaled, "all sets of <=2 (thorough 3) references x all sequences of <=2 (thorough 3) hypotheses over 8 boxes at 8 places and sizes up to the end of the range, and over 8 boxes of 16 million pixels that differ by a row or column") {
  static const long long tr[][4] = {{3, 1000, 0, 0}, {129, 1, 65535, 3}, {1, 257, 2147483647LL - 2, 2147483647LL}, {180, 190, 16777215, 16777216}, {1400, 1400, 4294967295LL - 9800, 4294967295LL - 9800}, {1, 1, 4294967295LL - 7, 4294967295LL - 7}, {500000, 1, 0, 65533}, {1, 500000, 9, 0}};
  static const std::vector<Box> near = {{10, 10, 4000, 4000}, {10, 10, 4000, 3999}, {10, 10, 3999, 4000}, {11, 10, 4000, 4000}, {10, 11, 3999, 3999}, {2010, 10, 4000, 4000}, {2009, 10, 4000, 4000}, {10, 10, 4095, 4096}};
  int t = ctx.choose(9); std::vector<Obj> P; for (int i = 0; i < 8; ++i) { Obj o = place(i); if (t == 8) o.b = near[i]; else o.b = Box{o.b.x * tr[t][0] + tr[t][2], o.b.y * tr[t][1] + tr[t][3], o.b.w * tr[t][0], o.b.h * tr[t][1]}; P.push_back(o); }
  Problem p; for (int i : multiset(ctx, 8, ctx.bound(2, 3), true)) p.refs.push_back(P[i]); if (!ctx.mine()) return;
  int n = ctx.bound(2, 3); for (int i = 0; i < n; ++i) { int c = ctx.choose(9); if (c == 8) break; p.hyps.push_back(e2e::hyp(P[c], std::to_string(5 - i))); }
  go(ctx, p, Opts{true, true, true, ora::DESC});
}
// Chains of overlapping references: who takes whom.
MC_FAMILY(B_chain, "3..4 references in a row overlapping one another and every sequence of 3 hypotheses in the row, in rank order") {
  int step = 1 + ctx.choose(3), nr = 3 + ctx.choose(2), a = ctx.choose(7), b = ctx.choose(7); if (!ctx.mine()) return;
  int c = ctx.choose(7), w = 2 + ctx.choose(3);
  Problem p; for (int i = 0; i < nr; ++i) p.refs.push_back(Obj{"q", "d", Box{i * step, 0, 4, 2}});
  int xs[3] = {a, b, c}; for (int i = 0; i < 3; ++i) p.hyps.push_back(e2e::hyp(Obj{"q", "d", Box{xs[i], 0, w, 2}}, std::to_string(3 - i)));
  Opts o{true, false, false, ora::DESC}; o.sort = ctx.flip() ? ora::ASC : ora::DESC;
  go(ctx, p, o);
}
#endif

// N: sizes.
MC_FAMILY(N_sizes, "lists of n hypotheses, n in 1..40 and around powers of two up to 4096: 6 hit patterns x 4 tie patterns x 1/3/n queries x options x line orders") {
  std::vector<int> ns; for (int i = 1; i <= 40; ++i) ns.push_back(i);
  for (int i : {63, 64, 65, 100, 127, 128, 129, 255, 256, 257}) ns.push_back(i);
  if (ctx.thorough()) for (int i : {511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097}) ns.push_back(i); else { ns.push_back(1000); ns.push_back(1025); }
  int n = ns[ctx.choose((int)ns.size())], pat = ctx.choose(6), tie = ctx.choose(4);
  if (!ctx.mine()) return;
  int nq = ctx.choose(3), line = ctx.choose(2); Opts o; o.collapse = !ctx.flip(); o.interp = o.trap = !ctx.flip(); o.sort = (Sort)ctx.choose(2);
  Problem p;
  for (int i = 0; i < n; ++i) {
    bool hit = pat == 0 ? true : pat == 1 ? false : pat == 2 ? i % 2 == 0 : pat == 3 ? i % 3 == 1 : pat == 4 ? i >= n / 2 : i == n - 1;
    Obj ob = spot(i); if (nq == 1) ob.q = "q" + std::to_string(i % 3); else if (nq == 2) ob.q = "q" + std::to_string(i);
    if (hit) p.refs.push_back(ob);
    // ties only between equals, where the order cannot matter
    int rank = tie == 0 ? i : tie == 1 ? i / 2 : tie == 2 ? i / 7 : 0;
    if (!o.collapse && tie) rank = i;
    p.hyps.push_back(e2e::hyp(ob, std::to_string(5000 - rank)));
  }
  for (int i = 0; i < n / 5; ++i) { Obj ob = spot(20000 + i); if (nq) ob.q = "q" + std::to_string(i % 3); p.refs.push_back(ob); }
  if (line) { std::reverse(p.hyps.begin(), p.hyps.end()); std::reverse(p.refs.begin(), p.refs.end()); }
  go(ctx, p, o);
}

// Beyond the limits of small counters.
MC_FAMILY(N_huge, "lists of n hypotheses, n in 10001, 32769, 50001, 65537, 70001 (thorough: 131073, 200001 too): 4 hit patterns x distinct scores, ties in sevens or all tied x 1/3/n queries, in rank order or not") {
  static const int ns[] = {10001, 32769, 50001, 65537, 70001, 131073, 200001}; int n = ns[ctx.choose(ctx.bound(5, 7))], pat = ctx.choose(4); int nq = ctx.choose(3), line = ctx.choose(3); if (!ctx.mine()) return;
  if (!ctx.thorough() && (n + pat + nq + line) % 3) return;
  Opts o{line != 1, pat % 2 == 0, pat % 2 == 0, (Sort)((pat / 2 + line) % 2)}; Problem p; int tie = o.collapse ? (pat + nq) % 3 : 0;
  for (int i = 0; i < n; ++i) {
    bool hit = pat == 0 ? true : pat == 1 ? i % 3 == 1 : pat == 2 ? i >= n - n / 4 : i % 2 == 0 || i > 65000;
    Obj ob = spot(i); if (ob.d == "d") { ob.d = "d" + std::to_string(i / 20); ob.b.x = 10 * (i % 20); } if (nq == 1) ob.q = "q" + std::to_string(i % 3); else if (nq == 2) ob.q = "q" + std::to_string(i);
    if (hit) p.refs.push_back(ob);
    int rank = tie == 0 ? i : tie == 1 ? i / 7 : 0; p.hyps.push_back(e2e::hyp(ob, std::to_string(300000 - rank)));
  }
  for (int i = 0; i < n / 5; ++i) { Obj ob = spot(i); ob.d = "m" + std::to_string(i); if (nq) ob.q = "q" + std::to_string(i % 3); p.refs.push_back(ob); }
  if (line == 1) { std::reverse(p.hyps.begin(), p.hyps.end()); std::reverse(p.refs.begin(), p.refs.end()); }
  if (line == 2) { std::vector<Hyp> h; for (int i = 0; i < n; ++i) h.push_back(p.hyps[(i * 7919LL + 5) % n]); p.hyps = h; }
  go(ctx, p, o);
}

// Duplicates: repeated lines in either file.
MC_FAMILY(D_dups, "references listed 1..3 times, hypotheses listed 1..3 times with equal or different scores") {
  Problem p; int a = 1 + ctx.choose(3), b = ctx.choose(3); if (!ctx.mine()) return;
  int c = ctx.choose(4), d = ctx.choose(3); bool same = ctx.flip(); int miss = ctx.choose(3);
  for (int i = 0; i < a; ++i) p.refs.push_back(spot(1));
  for (int i = 0; i < b; ++i) p.refs.push_back(spot(2));
  for (int i = 0; i < miss; ++i) p.refs.push_back(spot(9));
  for (int i = 0; i < c; ++i) p.hyps.push_back(e2e::hyp(spot(1), same ? "0.5" : "0." + std::to_string(5 + i)));
  for (int i = 0; i < d; ++i) p.hyps.push_back(e2e::hyp(spot(3), same ? "0.5" : "0." + std::to_string(7 - 3 * i)));
  p.hyps.push_back(e2e::hyp(spot(2), "0.6"));
  go(ctx, p, pick_opts(ctx));
}
