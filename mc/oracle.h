// Reference model of the evaluation, written independently of the code under
// test (no header of the repository is included here).
#ifndef VERIF_ORACLE_H_
#define VERIF_ORACLE_H_

#include <math.h>
#include <stdint.h>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>

namespace ora {

struct Box { long long x, y, w, h; };
inline bool operator==(const Box& a, const Box& b) { return a.x == b.x && a.y == b.y && a.w == b.w && a.h == b.h; }
inline bool operator<(const Box& a, const Box& b) {
  return std::tie(a.x, a.y, a.w, a.h) < std::tie(b.x, b.y, b.w, b.h);
}
inline long long overlap1(long long a, long long al, long long b, long long bl) {
  long long lo = a > b ? a : b, hi = a + al < b + bl ? a + al : b + bl;
  return hi > lo ? hi - lo : 0;
}
inline long long inter(const Box& a, const Box& b) {
  return overlap1(a.x, a.w, b.x, b.w) * overlap1(a.y, a.h, b.y, b.h);
}

// An object: the query, the place (document, or the object id for the simple
// tool) and, for the ICDAR tool, the box.
struct Obj { std::string q, d; Box b; };
inline bool operator==(const Obj& a, const Obj& b) { return a.q == b.q && a.d == b.d && a.b == b.b; }
inline bool operator<(const Obj& a, const Obj& b) { return std::tie(a.q, a.d, a.b) < std::tie(b.q, b.d, b.b); }
struct Hyp { Obj o; float s; std::string text; };   // text: the score as written

enum Sort { DESC = 0, ASC = 1, NONE = 2 };
struct Opts { bool collapse, interp, trap; Sort sort; };

// What became of a hypothesis.
enum Fate { HIT, FP, REPEAT };
struct Entry { int hyp; Fate fate; int ref; };          // in rank order, all hyps
struct Matching { std::vector<Entry> entries; std::vector<int> missed; };

// A decision procedure: is `ref` acceptable for `hyp`, with which overlap?
typedef std::function<bool(const Obj&, const Obj&, long long* area)> Accept;

inline bool accept_icdar(const Obj& r, const Obj& h, long long* area) {
  if (r.q != h.q || r.d != h.d) return false;
  long long a = h.b.w * h.b.h, i = inter(r.b, h.b);
  *area = i;
  return a > 0 && i > 0 && 2 * i >= a;
}
inline bool accept_simple(const Obj& r, const Obj& h, long long* area) {
  *area = 1;
  return r.q == h.q && r.d == h.d;
}

inline std::vector<Obj> distinct(const std::vector<Obj>& refs) {
  std::set<Obj> s(refs.begin(), refs.end());
  return std::vector<Obj>(s.begin(), s.end());
}

// Chooser for ties: picks among n equivalent candidates.
typedef std::function<int(int)> TieChooser;

inline Matching match(const std::vector<Obj>& refs /* distinct */, const std::vector<Hyp>& hyps,
                      const std::vector<int>& order, const Accept& acc, const TieChooser& tie) {
  Matching m; std::vector<char> used(refs.size(), 0);
  // Many references: only the ones of the same query and place can be accepted.
  std::map<std::pair<std::string, std::string>, std::vector<int>> by; std::vector<int> all;
  const bool index = refs.size() > 500;
  for (size_t r = 0; r < refs.size(); ++r) { if (index) by[{refs[r].q, refs[r].d}].push_back((int)r); else all.push_back((int)r); }
  static const std::vector<int> none;
  for (int hi : order) {
    std::vector<std::pair<long long, int>> free_; bool any = false;
    auto it = index ? by.find({hyps[hi].o.q, hyps[hi].o.d}) : by.end();
    for (int r : index ? it == by.end() ? none : it->second : all) {
      long long a = 0;
      if (!acc(refs[r], hyps[hi].o, &a)) continue;
      any = true;
      if (!used[r]) free_.push_back({a, (int)r});
    }
    if (!any) { m.entries.push_back({hi, FP, -1}); continue; }
    if (free_.empty()) { m.entries.push_back({hi, REPEAT, -1}); continue; }
    long long best = 0; for (auto& f : free_) best = std::max(best, f.first);
    std::vector<int> c; for (auto& f : free_) if (f.first == best) c.push_back(f.second);
    int pick = c.size() > 1 ? c[tie((int)c.size())] : c[0];
    used[pick] = 1; m.entries.push_back({hi, HIT, pick});
  }
  for (size_t r = 0; r < refs.size(); ++r) if (!used[r]) m.missed.push_back((int)r);
  return m;
}

// One counted hypothesis (hit or false positive) of a ranked list.
struct Ranked { bool hit; float s; };

// Points of the curve: cumulative counts, after collapsing or not.
struct Point { long long tp, nh; };
inline std::vector<Point> points(const std::vector<Ranked>& l, bool collapse) {
  std::vector<Point> p; long long tp = 0, nh = 0;
  for (size_t i = 0; i < l.size(); ++i) {
    tp += l[i].hit; nh += 1;
    if (collapse && i > 0 && l[i].s == l[i - 1].s) p.back() = Point{tp, nh};
    else p.push_back(Point{tp, nh});
  }
  return p;
}
struct Curve { std::vector<double> pr, rc; };
// missed: number of references that were not found; `entries` false negatives
// add points at the end which repeat the last one (or are (1, 0) on their own).
inline Curve curve(const std::vector<Ranked>& l, long long missed, bool collapse, bool interp) {
  std::vector<Point> p = points(l, collapse);
  long long tr = missed; for (auto& x : l) tr += x.hit;
  Curve c;
  for (auto& x : p) {
    c.pr.push_back((double)x.tp / x.nh);
    c.rc.push_back(tr > 0 ? (double)x.tp / tr : 1.0);
  }
  long long extra = missed > 0 ? (collapse ? 1 : missed) : 0;
  for (long long i = 0; i < extra; ++i) {
    if (c.pr.empty()) { c.pr.push_back(1.0); c.rc.push_back(0.0); }
    else { double a = c.pr.back(), b = c.rc.back(); c.pr.push_back(a); c.rc.push_back(b); }
  }
  if (interp) for (size_t i = c.pr.size(); i-- > 1;) c.pr[i - 1] = std::max(c.pr[i - 1], c.pr[i]);
  return c;
}
inline double ap(const std::vector<Ranked>& l, long long missed, const Opts& o) {
  Curve c = curve(l, missed, o.collapse, o.interp);
  double s = 0;
  for (size_t i = 0; i < c.pr.size(); ++i) {
    double dr = c.rc[i] - (i ? c.rc[i - 1] : 0.0);
    s += dr * (o.trap && i ? (c.pr[i] + c.pr[i - 1]) / 2 : c.pr[i]);
  }
  return s;
}
inline double ndcg(const std::vector<Ranked>& l, long long missed, bool collapse) {
  long long tr = missed; for (auto& x : l) tr += x.hit;
  if (tr == 0) return 0;
  double dcg = 0, z = 0;
  for (size_t i = 0; i < l.size();) {
    size_t j = i + 1;
    if (collapse) while (j < l.size() && l[j].s == l[i].s) ++j;
    double r = 0; for (size_t k = i; k < j; ++k) r += l[k].hit;
    r /= (double)(j - i);
    for (size_t k = i; k < j; ++k) dcg += (exp2(r) - 1) / log2((double)k + 2);
    i = j;
  }
  for (long long k = 1; k <= tr; ++k) z += 1 / log2((double)k + 1);
  return dcg / z;
}

struct Values { double gap, map, gndcg, mndcg; };

struct Grouped { std::vector<Ranked> all; long long missed = 0;
  std::map<std::string, std::pair<std::vector<Ranked>, long long>> g; };

inline Grouped group(const std::vector<Obj>& refs, const std::vector<Hyp>& hyps, const Matching& m,
                     const std::map<std::string, std::string>* groups) {
  Grouped G;
  auto gname = [&](const std::string& q) {
    if (groups) { auto it = groups->find(q); if (it != groups->end()) return "g:" + it->second; }
    return "q:" + q;
  };
  for (auto& e : m.entries) {
    if (e.fate == REPEAT) continue;
    Ranked r{e.fate == HIT, hyps[e.hyp].s};
    G.all.push_back(r); G.g[gname(hyps[e.hyp].o.q)].first.push_back(r);
  }
  for (int r : m.missed) { ++G.missed; G.g[gname(refs[r].q)].second++; }
  return G;
}
inline Values values(const Grouped& G, const Opts& o) {
  Values v;
  v.gap = ap(G.all, G.missed, o); v.gndcg = ndcg(G.all, G.missed, o.collapse);
  v.map = v.mndcg = 0;
  for (auto& g : G.g) { v.map += ap(g.second.first, g.second.second, o); v.mndcg += ndcg(g.second.first, g.second.second, o.collapse); }
  if (!G.g.empty()) { v.map /= G.g.size(); v.mndcg /= G.g.size(); }
  return v;
}

// The rank order the tools use: by score, ties by content (query, document, box).
inline std::vector<int> rank(const std::vector<Hyp>& h, Sort s) {
  std::vector<int> o(h.size()); for (size_t i = 0; i < h.size(); ++i) o[i] = (int)i;
  if (s == NONE) return o;
  auto less = [&](int a, int b) {
    if (h[a].s != h[b].s) return h[a].s < h[b].s;
    return h[a].o < h[b].o;
  };
  if (s == ASC) std::stable_sort(o.begin(), o.end(), less);
  else std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return less(b, a); });
  return o;
}

struct Problem {
  std::vector<Obj> refs; std::vector<Hyp> hyps; Accept acc;
  const std::map<std::string, std::string>* groups = nullptr;   // query -> group; also a filter
};

inline Values evaluate(const Problem& p, const Opts& o, Grouped* out = nullptr, Matching* mout = nullptr) {
  std::vector<Obj> refs; std::vector<Hyp> hyps;
  for (auto& r : p.refs) if (!p.groups || p.groups->count(r.q)) refs.push_back(r);
  for (auto& h : p.hyps) if (!p.groups || p.groups->count(h.o.q)) hyps.push_back(h);
  refs = distinct(refs);
  // ties in the overlap: the greatest reference, as refs are sorted the last one
  Matching m = match(refs, hyps, rank(hyps, o.sort), p.acc, [](int n) { return n - 1; });
  Grouped G = group(refs, hyps, m, p.groups);
  if (out) *out = G;
  if (mout) *mout = m;
  return values(G, o);
}

inline bool close(double a, double b) { return fabs(a - b) <= 6e-6 * std::max(fabs(a), fabs(b)) + 1e-7; }
inline bool same(const Values& a, const Values& b) {
  return close(a.gap, b.gap) && close(a.map, b.map) && close(a.gndcg, b.gndcg) && close(a.mndcg, b.mndcg);
}

// The specification does not say how ties (equal scores, equal overlaps) are
// broken: every value that SOME way of breaking them gives is allowed.
// Returns 1 allowed, 0 not allowed, -1 too many ways to enumerate.
inline int allowed(const Problem& p, const Opts& o, const std::function<bool(const Grouped&)>& ok, int cap = 20000) {
  std::vector<Obj> refs; std::vector<Hyp> hyps;
  for (auto& r : p.refs) if (!p.groups || p.groups->count(r.q)) refs.push_back(r);
  for (auto& h : p.hyps) if (!p.groups || p.groups->count(h.o.q)) hyps.push_back(h);
  refs = distinct(refs);
  std::vector<int> base = rank(hyps, o.sort);
  // choice-sequence enumeration
  std::vector<int> path, ar; int n = 0;
  for (;;) {
    size_t pos = 0;
    auto choose = [&](int k) {
      if (k <= 1) return 0;
      if (pos == path.size()) { path.push_back(0); ar.push_back(k); }
      return path[pos++];
    };
    std::vector<int> order;
    for (size_t i = 0; i < base.size();) {
      size_t j = i + 1;
      if (o.sort != NONE) while (j < base.size() && hyps[base[j]].s == hyps[base[i]].s) ++j;
      std::vector<int> blk(base.begin() + i, base.begin() + j);
      while (!blk.empty()) { int k = choose((int)blk.size()); order.push_back(blk[k]); blk.erase(blk.begin() + k); }
      i = j;
    }
    Matching m = match(refs, hyps, order, p.acc, choose);
    if (ok(group(refs, hyps, m, p.groups))) return 1;
    if (++n >= cap) return -1;
    while (!path.empty() && path.back() + 1 >= ar.back()) { path.pop_back(); ar.pop_back(); }
    if (path.empty()) return 0;
    path.back()++;
  }
}

}  // namespace ora
#endif
