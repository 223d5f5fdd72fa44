// C17: object files are read exactly or rejected with the line number.
#include "e2e.h"

#include "core/DocumentBoundingBox.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
#include "reader/PlainTextReader.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"

using namespace kws::core;
using kws::reader::PlainTextReader;
using e2e::MemFile;

// ---- the format, independently --------------------------------------------
static bool blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f' || c == '\n'; }
static std::vector<std::string> words(const std::string& l) {
  std::vector<std::string> w; std::string cur;
  for (char c : l) { if (blank(c)) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) w.push_back(cur);
  return w;
}
static bool digits(const std::string& s) { if (s.empty()) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
enum Ok { NO = 0, YES = 1, EITHER = 2 };
// A decimal integer between lo and hi.
static Ok integer(const std::string& t, __int128 lo, __int128 hi, __int128* v) {
  std::string d = t; bool neg = false;
  if (!d.empty() && (d[0] == '+' || d[0] == '-')) { neg = d[0] == '-'; d = d.substr(1); }
  if (!digits(d)) return NO;
  __int128 x = 0; for (char c : d) { x = x * 10 + (c - '0'); if (x > ((__int128)1 << 100)) x = (__int128)1 << 100; }
  if (neg) x = -x;
  *v = x;
  if (x < lo || x > hi) return NO;
  if (neg && x == 0 && lo == 0) return EITHER;       // -0
  return YES;
}
// A decimal number that a float can hold.
static Ok real(const std::string& t, float* v) {
  size_t i = 0, n = t.size(); if (i < n && (t[i] == '+' || t[i] == '-')) ++i;
  size_t a = i; while (i < n && isdigit((unsigned char)t[i])) ++i; size_t nd = i - a;
  if (i < n && t[i] == '.') { ++i; a = i; while (i < n && isdigit((unsigned char)t[i])) ++i; nd += i - a; }
  if (!nd) return NO;
  if (i < n && (t[i] == 'e' || t[i] == 'E')) { ++i; if (i < n && (t[i] == '+' || t[i] == '-')) ++i; a = i; while (i < n && isdigit((unsigned char)t[i])) ++i; if (i == a) return NO; }
  if (i != n) return NO;
  *v = strtof(t.c_str(), nullptr);
  if (std::isinf(*v)) return NO;
  if (fabsf(*v) < 1.17549435e-38f) {      // zero or too small for full precision: only the value is demanded
    bool nz = false; for (char c : t) { if (c == 'e' || c == 'E') break; if (c >= '1' && c <= '9') nz = true; }
    if (nz) return EITHER;
  }
  return YES;
}

// ---- event types ----------------------------------------------------------
typedef Event<std::string, std::string> SRef; typedef ScoredEvent<SRef> SHyp;
template <class T> using BRef = ShapedEvent<std::string, DocumentBoundingBox<T>>;
template <class T> using BHyp = ScoredEvent<BRef<T>>;

template <class T> struct Lim { static __int128 lo() { return std::numeric_limits<T>::min(); } static __int128 hi() { return std::numeric_limits<T>::max(); } };

struct Fields { std::string q, d; __int128 c[4]; float s; };
// What a line must give: -1 skipped, 0 refused, 1 an event, 2 refused or an event.
static int expect(const std::string& l, int nbox, bool score, __int128 lo, __int128 hi, Fields* f) {
  std::vector<std::string> w = words(l); if (w.empty() || w[0][0] == '#') return -1;
  if ((int)w.size() != 2 + nbox + score) return 0;
  f->q = w[0]; f->d = w[1]; int r = 1;
  for (int i = 0; i < nbox; ++i) { Ok k = integer(w[2 + i], lo, hi, &f->c[i]); if (k == NO) return 0; if (k == EITHER) r = 2; }
  if (score) { Ok k = real(w.back(), &f->s); if (k == NO) return 0; if (k == EITHER) r = 2; }
  return r;
}
static std::string show(const std::string& s) { std::string o; for (unsigned char c : s) { if (o.size() > 1500) { o += "..."; break; } if (c == '\n') o += "\\n\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } return o; }

static float score_of(const SRef&) { return 0; }
static float score_of(const SHyp& e) { return e.Score(); }
template <class T> static float score_of(const BRef<T>&) { return 0; }
template <class T> static float score_of(const BHyp<T>& e) { return e.Score(); }
template <class E> static void same(mc::Ctx& ctx, const E& e, const Fields& f, bool score, const std::string& loc, int nbox, const __int128* c, size_t k) {
  CHECK(e.Query() == f.q, "event %zu has query '%s', must be '%s'", k, show(e.Query()).c_str(), show(f.q).c_str());
  CHECK(loc == f.d, "event %zu has place '%s', must be '%s'", k, show(loc).c_str(), show(f.d).c_str());
  for (int i = 0; i < nbox; ++i) CHECK(c[i] == f.c[i], "coordinate %d of event %zu is %lld, must be %lld", i, k, (long long)c[i], (long long)f.c[i]);
  if (score) CHECK(score_of(e) == f.s, "event %zu has score %.9g, must be %.9g", k, score_of(e), f.s);
}
static void same1(mc::Ctx& ctx, const SRef& e, const Fields& f, size_t k) { same(ctx, e, f, false, e.Location(), 0, nullptr, k); }
static void same1(mc::Ctx& ctx, const SHyp& e, const Fields& f, size_t k) { same(ctx, e, f, true, e.Location(), 0, nullptr, k); }
template <class T> static void same1(mc::Ctx& ctx, const BRef<T>& e, const Fields& f, size_t k) { __int128 c[4] = {e.Location().x, e.Location().y, e.Location().w, e.Location().h}; same(ctx, e, f, false, e.Location().document, 4, c, k); }
template <class T> static void same1(mc::Ctx& ctx, const BHyp<T>& e, const Fields& f, size_t k) { __int128 c[4] = {e.Location().x, e.Location().y, e.Location().w, e.Location().h}; same(ctx, e, f, true, e.Location().document, 4, c, k); }
template <class E> struct Shape;
template <> struct Shape<SRef> { enum { nbox = 0, score = 0 }; typedef uint32_t T; };
template <> struct Shape<SHyp> { enum { nbox = 0, score = 1 }; typedef uint32_t T; };
template <class U> struct Shape<BRef<U>> { enum { nbox = 4, score = 0 }; typedef U T; };
template <class U> struct Shape<BHyp<U>> { enum { nbox = 4, score = 1 }; typedef U T; };

static std::vector<std::string> split_lines(const std::string& s) { std::vector<std::string> v; size_t a = 0; while (a < s.size()) { size_t b = s.find('\n', a); if (b == std::string::npos) b = s.size(); v.push_back(s.substr(a, b - a)); a = b + 1; } return v; }
static bool names_number(const std::string& msg, size_t n) {       // n stands in the text as a number
  std::string w = std::to_string(n);
  for (size_t p = msg.find(w); p != std::string::npos; p = msg.find(w, p + 1))
    if ((p == 0 || !isdigit((unsigned char)msg[p - 1])) && (p + w.size() >= msg.size() || !isdigit((unsigned char)msg[p + w.size()]))) return true;
  return false;
}

struct Plan { size_t bad; bool maybe; std::vector<Fields> ev; };     // bad: first refused line, 0: none
template <class E> static Plan plan_of(const std::string& text) {
  Plan p{0, false, {}}; size_t n = 0;
  for (auto& l : split_lines(text)) {
    ++n; Fields f; int e = expect(l, Shape<E>::nbox, Shape<E>::score, Lim<typename Shape<E>::T>::lo(), Lim<typename Shape<E>::T>::hi(), &f);
    if (e < 0) continue;
    if (e == 0) { p.bad = n; break; }
    if (e == 2) p.maybe = true;
    p.ev.push_back(f);
  }
  return p;
}
template <class E> static void read_check(mc::Ctx& ctx, const std::string& text, bool file = false) {
  ctx.say("%s", show(text).c_str());
  Plan p = plan_of<E>(text); ctx.state(mc::hash_str(text, Shape<E>::nbox * 2 + Shape<E>::score + sizeof(typename Shape<E>::T) * 8));
  PlainTextReader<E> reader; std::vector<E> ev(2); bool ok; std::string err;
  { e2e::StreamGuard g; if (file) { static MemFile f; f.set(text); ok = reader.Read(f.path, &ev); } else { std::istringstream is(text); ok = reader.Read(&is, &ev); } err = g.eb.str(); }
  ctx.compared(); ctx.outcome(ok * 100 + (ok ? ev.size() : p.bad));
  if (p.maybe && !ok) return;
  if (p.bad) { CHECK(!ok, "line %zu was accepted, it must be refused", p.bad); CHECK(names_number(err, p.bad), "the diagnostic does not name line %zu: %s", p.bad, err.c_str()); return; }
  CHECK(ok, "a well formed text was refused: %s", err.c_str());
  CHECK(ev.size() == p.ev.size(), "%zu events, must be %zu", ev.size(), p.ev.size());
  for (size_t i = 0; i < ev.size(); ++i) same1(ctx, ev[i], p.ev[i], i);
}
// All strings of at most n characters over an alphabet.
static std::string chars(mc::Ctx& ctx, const std::string& al, int n, int shard, bool* mine) {
  std::string s; *mine = true; bool called = false;
  for (int i = 0; i < n; ++i) { if (i == shard) { called = true; if (!ctx.mine()) { *mine = false; return s; } } int c = ctx.choose((int)al.size() + 1); if (c == (int)al.size()) break; s += al[c]; }
  if (!called && !ctx.mine()) *mine = false;
  return s;
}

#ifndef SIMPLE_TOOL
static std::string with_coord(const std::string& t, int pos, bool score) {
  std::string c[4] = {"1", "2", "3", "4"}; c[pos] = t; return "query doc " + c[0] + " " + c[1] + " " + c[2] + " " + c[3] + (score ? " 0.5" : "") + "\n";
}
MC_FAMILY(C17_coords, "every word of <=5 (thorough 6) characters of '0 1 9 + - . x e a , #' as each of the 4 coordinates, in references and hypotheses") {
  int pos = ctx.choose(4); bool sc = ctx.flip(), m; std::string t = chars(ctx, "019+-.xea,#", ctx.bound(5, 6), 2, &m); if (!m) return;
  if (sc) read_check<BHyp<uint32_t>>(ctx, with_coord(t, pos, true)); else read_check<BRef<uint32_t>>(ctx, with_coord(t, pos, false));
}
MC_FAMILY(C17_coord_types, "every word of <=3 characters of '0 1 7 + - . x e' as each coordinate of 16, 32 and 64 bit boxes, signed and unsigned") {
  int pos = ctx.choose(4), ty = ctx.choose(5); bool m; std::string t = chars(ctx, "017+-.xe", ctx.bound(3, 4), 1, &m); if (!m) return; std::string l = with_coord(t, pos, true);
  if (ty == 0) read_check<BHyp<int32_t>>(ctx, l); else if (ty == 1) read_check<BHyp<int64_t>>(ctx, l); else if (ty == 2) read_check<BHyp<uint16_t>>(ctx, l); else if (ty == 3) read_check<BHyp<int16_t>>(ctx, l); else read_check<BHyp<uint64_t>>(ctx, l);
}
MC_FAMILY(C17_limits, "numbers around every power of two and ten and the limits of each type, with signs and leading zeros, as each coordinate") {
  int pos = ctx.choose(4), ty = ctx.choose(6), k = ctx.choose(70); if (!ctx.mine()) return; int d = ctx.choose(5) - 2, form = ctx.choose(4);
  __int128 v = k < 66 ? (__int128)1 << k : k == 66 ? (__int128)1000000000 : k == 67 ? (__int128)10000000000LL : k == 68 ? (__int128)1000000000000000000LL * 10 : (__int128)1000000000000000000LL * 100000; v += d; if (form == 1) v = -v;
  bool neg = v < 0; if (neg) v = -v; std::string t; do { t.insert(t.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); if (form == 3) t = "000000000000000000000000000" + t; if (neg) t = "-" + t; else if (form == 2) t = "+" + t;
  std::string l = with_coord(t, pos, true);
  if (ty == 0) read_check<BHyp<int32_t>>(ctx, l); else if (ty == 1) read_check<BHyp<int64_t>>(ctx, l); else if (ty == 2) read_check<BHyp<uint16_t>>(ctx, l); else if (ty == 3) read_check<BHyp<int16_t>>(ctx, l); else if (ty == 4) read_check<BHyp<uint64_t>>(ctx, l); else read_check<BHyp<uint32_t>>(ctx, l);
}
static const char* kPre = "q d 1 2 3 4 ";
typedef BRef<uint32_t> R; typedef BHyp<uint32_t> H;
static const std::vector<std::string>& kinds(bool hyp) {
  static const std::vector<std::string> a = {"q d 1 2 3 4", "other doc2 0 0 10 20", "# q d 1 2 3 4", "", " \t", "  # x", "q d 1 2 3", "q d 1 2 3 4 5", "q d 1 x 3 4", "\tq  d 1 2 3 4 \r", "q"},
      b = {"q d 1 2 3 4 0.5", "other doc2 0 0 10 20 -1e2", "# q d 1 2 3 4 1", "", " \t", "  # x", "q d 1 2 3 4", "q d 1 2 3 4 5 6", "q d 1 2 3 4 x", "\tq  d 1 2 3 4 0.25 \r", "q d 1 2 3 4.5 0.5"};
  return hyp ? b : a;
}
#else
static const char* kPre = "q d ";
typedef SRef R; typedef SHyp H;
static const std::vector<std::string>& kinds(bool hyp) {
  static const std::vector<std::string> a = {"q d", "other doc2", "# q d", "", " \t", "  # x", "q", "q d e", "#q d", "\tq  d \r", "a b c d"},
      b = {"q d 0.5", "other doc2 -1e2", "# q d 1", "", " \t", "  # x", "q d", "q d 5 6", "q d x", "\tq  d  0.25 \r", "q d 4.5.5"};
  return hyp ? b : a;
}
MC_FAMILY(C17_chars, "every line of <=7 (thorough 8) characters of 'a 1 . - # blank tab carriage-return', as a reference and as a hypothesis") {
  bool hyp = ctx.flip(), m; std::string t = chars(ctx, "a1.-# \t\r", ctx.bound(7, 8), 2, &m); if (!m) return; if (ctx.flip()) t += "\n";
  if (hyp) read_check<SHyp>(ctx, t); else read_check<SRef>(ctx, t);
}
#endif

MC_FAMILY(C17_scores, "every word of <=6 (thorough 7) characters of '0 1 5 + - . e E x f n i' as the score") {
  bool m; std::string t = chars(ctx, "015+-.eExfni", ctx.bound(6, 7), 2, &m); if (!m) return; read_check<H>(ctx, kPre + t + "\n");
}
MC_FAMILY(C17_score_range, "mantissas x exponents over the whole range of single precision and beyond, with signs") {
  static const char* ms[] = {"0", "1", "3.4028235", "3.4028234663852886", "3.4028236", "3.40282357", "3.41", "1.17549435", "1.4", "9.99999999", "0.000001", "123456789", "16777217", "0.1", "1.00000005960464477539", "1.0000000596046448", "33554431.5", "5.", ".5", "00001"};
  int a = ctx.choose(20), e = ctx.choose(110) - 60; if (!ctx.mine()) return; int s = ctx.choose(3), sep = ctx.choose(3); char b[16]; snprintf(b, sizeof b, "%s%d", sep == 0 ? "e" : sep == 1 ? "E" : e < 0 ? "e" : "e+", e);
  std::string t = std::string(s == 1 ? "-" : s == 2 ? "+" : "") + ms[a] + b; read_check<H>(ctx, kPre + t + "\n");
  if (e > 45 || e < -55) for (const char* x : {"e400", "e99999999999", "e-400", "e0000038"}) read_check<H>(ctx, kPre + (std::string(ms[a]) + x) + "\n");
}
MC_FAMILY(C17_lines, "every file of <=4 (thorough 5) lines of 11 kinds (good, comments, blanks, too few or many fields, bad numbers), with and without final newline, as references and hypotheses, from a stream or a file") {
  bool hyp = ctx.flip(); auto& K = kinds(hyp); int n = ctx.choose(ctx.bound(5, 6)); std::string t;
  for (int i = 0; i < n; ++i) { t += K[ctx.choose(11)] + "\n"; if (i == 1 && !ctx.mine()) return; }
  if (n < 2 && !ctx.mine()) return;
  if (n && ctx.flip()) t.pop_back();
  bool file = ctx.flip();
  if (hyp) read_check<H>(ctx, t, file); else read_check<R>(ctx, t, file);
}
MC_FAMILY(C17_fields, "lines of 0..9 fields, each a name, a number or a bad number, with 4 separators") {
  int n = ctx.choose(10), sep = ctx.choose(4); bool hyp = ctx.flip(); if (!ctx.mine()) return; static const char* w[4] = {"7", "x", "0.5", "-3"}; static const char* sp[4] = {" ", "\t", "  \t ", "\v\f"};
  std::string t = ctx.flip() ? " " : ""; for (int i = 0; i < n; ++i) { if (i) t += sp[sep]; t += i < 2 ? "name" + std::to_string(i) : std::string(w[ctx.choose(i < 6 ? 4 : 3)]); } t += "\n";
  if (hyp) read_check<H>(ctx, t); else read_check<R>(ctx, t);
}
static std::string good(int i, bool hyp) {
#ifndef SIMPLE_TOOL
  std::string s = "q" + std::to_string(i % 7) + " d" + std::to_string(i % 3) + " " + std::to_string(i) + " 2 30 4";
#else
  std::string s = "q" + std::to_string(i % 7) + " d" + std::to_string(i);
#endif
  return hyp ? s + " " + std::to_string(i % 100) + ".25" : s;
}
MC_FAMILY(C17_where, "files of n lines with one bad line at each of the places around powers of two and ten: the diagnostic names it; comments count as lines") {
  static const int at[] = {1, 2, 3, 9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 4097, 0, 32768, 65535, 65536, 65537, 70000, 100001};
  int k = ctx.choose(28), com = ctx.choose(3), kind = ctx.choose(3); if (!ctx.mine()) return; bool hyp = ctx.flip(), file = ctx.flip(); int n = at[k] ? at[k] + (k % 3) * 50 : 3000; std::string t;
  for (int i = 1; i <= n; ++i) t += (i == at[k] ? std::string(kind == 0 ? "justone" : kind == 1 ? good(i, hyp) + " extra" : "one two three") : com == 1 && i % 3 == 0 ? "# comment" : com == 2 && i % 2 ? "" : good(i, hyp)) + "\n";
  if (hyp) read_check<H>(ctx, t, file); else read_check<R>(ctx, t, file);
}
MC_FAMILY(C17_long, "names, comments, blanks and numbers of up to 200000 characters") {
  static const int ns[] = {1, 15, 16, 100, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536, 200000}; int n = ns[ctx.choose(15)], what = ctx.choose(7); if (!ctx.mine()) return; bool hyp = ctx.flip(), file = ctx.flip();
  std::string g = good(3, hyp), t = good(1, hyp) + "\n"; size_t sp = g.find(' ');
  switch (what) { case 0: t += std::string(n, 'n') + g.substr(sp); break; case 1: t += g.substr(0, sp + 1) + std::string(n, 'n') + g.substr(sp + 1); break; case 2: t += "#" + std::string(n, 'c'); break; case 3: t += std::string(n, ' ') + g; break;
    case 4: t += g + std::string(n, '\t'); break; case 5: t += g.substr(0, sp) + std::string(n, ' ') + g.substr(sp); break; case 6: if (!hyp) return; t += kPre + ("0." + std::string(n, '5')); break; }
  t += "\n" + good(2, hyp); if (hyp) read_check<H>(ctx, t, file); else read_check<R>(ctx, t, file);
}
MC_FAMILY(C17_bytes, "names with every byte value in every position") {
  int c = ctx.choose(256), pos = ctx.choose(5); if (!ctx.mine()) return; bool hyp = ctx.flip(); std::string g = good(3, hyp), ch(1, (char)c);
  std::string t = pos == 0 ? ch + g : pos == 1 ? "n" + ch + g : pos == 2 ? g.substr(0, 3) + ch + g.substr(3) : pos == 3 ? g + ch : g.substr(0, 2) + ch + g.substr(2);
  t = good(1, hyp) + "\n" + t + "\n"; if (hyp) read_check<H>(ctx, t); else read_check<R>(ctx, t);
}
// Text t standing at one of the places of line i of 3 lines: alone, before the line, in its first name, between the names, within the second, at the end.
static const int kPlaces = 9;
static std::string placed(const std::string& t, int place, int line, bool hyp) {
  std::string o; for (int i = 0; i < 3; ++i) { std::string g = good(i + 1, hyp); size_t sp = g.find(' ');
    if (i == line) switch (place) { case 0: g = t; break; case 1: g = t + g; break; case 2: g = t + " " + g; break; case 3: g = g.substr(0, sp) + t + g.substr(sp); break; case 4: g = g.substr(0, sp + 1) + t + g.substr(sp + 1); break;
      case 5: g = t + g.substr(sp); break; case 6: g += t; break; case 7: g += " " + t; break; case 8: g = "\t" + t + g; break; }
    o += g + "\n"; }
  return o;
}
static void placed_check(mc::Ctx& ctx, const std::string& t, int place, int line, bool hyp) { std::string s = placed(t, place, line, hyp); if (hyp) read_check<H>(ctx, s); else read_check<R>(ctx, s); }
MC_FAMILY(C17_pairs, "every pair of bytes at each of 9 places of the first and the last of three lines, as references and hypotheses") {
  int a = ctx.choose(256); bool last = ctx.flip(); if (!ctx.mine()) return; int b = ctx.choose(256); bool hyp = ctx.flip(); std::string t; t += (char)a; t += (char)b; placed_check(ctx, t, ctx.choose(kPlaces), last ? 2 : 0, hyp);
}
MC_FAMILY(C17_triples, "every 3 bytes of 34 that mean something somewhere (marks of byte order, other blanks, quotes, comments, signs) at each of 9 places of the first two lines") {
  static const char A[] = "\xef\xbb\xbf\xfe\xff\xc2\xa0\xe2\x80\xe3\x85\x1a\x04\x7f/*-;%!\"'\\,:<&=|#.+0a \t\r"; const int n = sizeof A - 1;
  int a = ctx.choose(n), b = ctx.choose(n); if (!ctx.mine()) return; int c = ctx.choose(n); bool second = ctx.flip(), hyp = ctx.flip(); std::string t; t += A[a]; t += A[b]; t += A[c]; placed_check(ctx, t, ctx.choose(kPlaces), second, hyp);
}
MC_FAMILY(C17_words, "words with a meaning in other formats (quotes, escapes, markers, headers, keywords, other scripts' blanks) at each of 9 places of each of three lines, and one and two of them as whole lines") {
  const int n = e2e::odd_words().size(); int a = ctx.choose(n); bool two = ctx.flip(); if (!ctx.mine()) return; bool hyp = ctx.flip(); std::string t = e2e::odd_words()[a];
  if (two) { t += (ctx.flip() ? "\n" : " ") + e2e::odd_words()[ctx.choose(n)]; if (hyp) read_check<H>(ctx, t + "\n" + good(1, true) + "\n"); else read_check<R>(ctx, t + "\n" + good(1, false) + "\n"); return; }
  int line = ctx.choose(3); placed_check(ctx, t, ctx.choose(kPlaces), line, hyp);
}
#ifdef SIMPLE_TOOL
MC_FAMILY(C17_mapped, "every file of <=4 lines read through the name-to-number mappers: one event per line, in order") {
  bool hyp = ctx.flip(); auto& K = kinds(hyp); int n = ctx.choose(5); std::string t; for (int i = 0; i < n; ++i) t += K[ctx.choose(11)] + "\n"; if (!ctx.mine()) return; ctx.say("%s", show(t).c_str()); ctx.state(mc::hash_str(t, hyp));
  typedef kws::mapper::StringEventToIntMapper<int32_t> RM; typedef kws::mapper::ScoredEventMapper<RM> HM; RM rm; HM hm(&rm); kws::mapper::StringToIntMapper<int32_t> names; RM rm2(&names); HM hm2(&rm2);
  Plan p = hyp ? plan_of<SHyp>(t) : plan_of<SRef>(t); std::istringstream is(t); ctx.compared(); e2e::StreamGuard g;
  std::vector<Event<int32_t, int32_t>> e; std::vector<ScoredEvent<Event<int32_t, int32_t>>> s; bool ok;
  if (hyp) { kws::reader::PlainTextMapEventReader<HM> r(&hm2); ok = r.Read(&is, &s); } else { kws::reader::PlainTextMapEventReader<RM> r(&rm2); ok = r.Read(&is, &e); }
  CHECK(ok == (p.bad == 0), "reading gives %d, must be %d", ok, p.bad == 0); if (!ok) return;
  CHECK((hyp ? s.size() : e.size()) == p.ev.size(), "%zu events, must be %zu", hyp ? s.size() : e.size(), p.ev.size());
  for (size_t i = 0; i < p.ev.size(); ++i) { int q = hyp ? s[i].Query() : e[i].Query(), d = hyp ? s[i].Location() : e[i].Location();
    CHECK(q == names(p.ev[i].q) && d == names(p.ev[i].d), "event %zu has the numbers of other names", i); if (hyp) CHECK(s[i].Score() == p.ev[i].s, "event %zu has score %g, must be %g", i, s[i].Score(), p.ev[i].s); }
}
#endif

// ---- the tools ------------------------------------------------------------
static void tool_check(mc::Ctx& ctx, const std::string& t, const std::string& other, bool hyp) {
  e2e::f_ref.set(hyp ? other : t); e2e::f_hyp.set(hyp ? t : other); ctx.say("%s file:\n%s", hyp ? "hypotheses" : "references", show(t).c_str()); ctx.state(mc::hash_str(t + other, hyp));
  Plan p = hyp ? plan_of<H>(t) : plan_of<R>(t); e2e::Result r = e2e::run({e2e::f_ref.path, e2e::f_hyp.path}); ctx.compared(); ctx.outcome(p.bad);
  if (p.bad) {
    CHECK(r.status > 0, "line %zu is wrong and the tool ended with status %d", p.bad, r.status); CHECK(r.out.empty(), "line %zu is wrong and the tool printed results: %s", p.bad, r.out.c_str());
    std::string e = r.err; for (auto& path : {e2e::f_ref.path, e2e::f_hyp.path}) for (size_t k; (k = e.find(path)) != std::string::npos;) e.erase(k, path.size());
    CHECK(names_number(e, p.bad), "the diagnostic does not name line %zu: %s", p.bad, r.err.c_str());
  } else { CHECK(r.status == 0, "well formed files were refused: %s", r.err.c_str()); CHECK(e2e::parse(r.out).ok, "%s", e2e::parse(r.out).why.c_str()); }
}
MC_FAMILY(C17_tool, "every file of <=3 (thorough 4) lines of 11 kinds as the references or the hypotheses of the tool: results, or a diagnostic with the line and no results") {
  bool hyp = ctx.flip(); auto& K = kinds(hyp); int n = ctx.choose(ctx.bound(4, 5)); std::string t; for (int i = 0; i < n; ++i) { t += K[ctx.choose(11)] + "\n"; if (i == 1 && !ctx.mine()) return; } if (n < 2 && !ctx.mine()) return;
  std::string other = kinds(!hyp)[0] + "\n" + kinds(!hyp)[1] + "\n"; if (ctx.flip()) other = ""; tool_check(ctx, t, other, hyp);
}
MC_FAMILY(C17_tool_words, "words with a meaning in other formats at each of 9 places of each of three lines of the files of the tool, and as a whole line before and after them") {
  int a = ctx.choose((int)e2e::odd_words().size()), line = ctx.choose(5); bool hyp = ctx.flip(); if (!ctx.mine()) return; std::string other = good(1, !hyp) + "\n" + good(2, !hyp) + "\n";
  tool_check(ctx, line < 3 ? placed(e2e::odd_words()[a], ctx.choose(kPlaces), line, hyp) : line == 3 ? e2e::odd_words()[a] + "\n" + good(1, hyp) + "\n" : good(1, hyp) + "\n" + e2e::odd_words()[a], other, hyp);
}
