// C20, C21, C27: the command line, in the classes of cmd/ and in the tools.
#include "e2e.h"

#include <float.h>
#include <limits>
#include <memory>

using e2e::MemFile; using e2e::Result; using ora::Obj; using ora::Hyp; using ora::Box;
typedef std::vector<std::string> Words;

// ---- reference model -------------------------------------------------------
enum Type { B, S, I16, I32, I64, U16, U32, U64, F, D };
static const char* const kType[] = {"bool", "string", "int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "uint64_t", "float", "double"};
static const int FREE = -1;
static const std::string kNone = "\1none";   // not given
// Does the text denote a value of the type? 1 yes (its canonical text in *v), 0 no, FREE: not specified.
static int conv(Type t, const std::string& s, bool argument, std::string* v) {
  if (t == S) { if (s.find('\0') != std::string::npos) return FREE; *v = s; return 1; }
  if (t == B) {
    if (s == "true" || s == "1" || (s.empty() && !argument)) { *v = "1"; return 1; }
    if (s == "false" || s == "0") { *v = "0"; return 1; }
    return 0;
  }
  size_t i = 0; bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  if (t != F && t != D) {
    if (i == s.size() || s.size() > 60) return i == s.size() ? 0 : FREE;
    __int128 x = 0; bool huge = false; const bool uns = t == U16 || t == U32 || t == U64;
    for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return 0; x = x * 10 + (s[i] - '0'); if (x > ((__int128)1 << 100)) huge = true, x = (__int128)1 << 100; }
    if (uns && neg) return x == 0 && !huge ? FREE : 0;                        // "-0" for an unsigned one is left open
    if (neg) x = -x;
    const __int128 one = 1; int bits = t == I16 || t == U16 ? 16 : t == I32 || t == U32 ? 32 : 64;
    __int128 lo = uns ? 0 : -(one << (bits - 1)), hi = uns ? (one << bits) - 1 : (one << (bits - 1)) - 1;
    if (x < lo || x > hi || huge) return 0;
    char b[64]; if (x < 0) snprintf(b, sizeof b, "%lld", (long long)x); else snprintf(b, sizeof b, "%llu", (unsigned long long)x);
    *v = b; return 1;
  }
  size_t d = 0; bool nz = false;
  while (i < s.size() && isdigit((unsigned char)s[i])) { nz |= s[i] != '0'; ++d, ++i; }
  if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) { nz |= s[i] != '0'; ++d, ++i; } }
  if (!d) return 0;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; if (i == s.size()) return 0; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; }
  if (i != s.size()) return 0;
  double x = t == F ? strtof(s.c_str(), nullptr) : strtod(s.c_str(), nullptr), top = t == F ? FLT_MAX : DBL_MAX, low = t == F ? FLT_MIN : DBL_MIN;
  if (fabs(x) > top) return 0;
  if (nz && fabs(x) < low) return FREE;                                          // too small: left open
  char b[64]; snprintf(b, sizeof b, "%a", x); *v = b; return 1;
}
struct Var { Type t; bool b = false; std::string s; int16_t i16 = 0; int32_t i32 = 0; int64_t i64 = 0; uint16_t u16 = 0; uint32_t u32 = 0; uint64_t u64 = 0; float f = 0; double d = 0;
  explicit Var(Type t_) : t(t_) { }
  std::string str() const { char x[64]; switch (t) { case B: return b ? "1" : "0"; case S: return s; case I16: return std::to_string(i16); case I32: return std::to_string(i32); case I64: return std::to_string(i64);
      case U16: return std::to_string(u16); case U32: return std::to_string(u32); case U64: return std::to_string(u64); case F: snprintf(x, sizeof x, "%a", (double)f); return x; default: snprintf(x, sizeof x, "%a", d); return x; } }
};
template <class G> static void with(Var& v, G g) { switch (v.t) { case B: g(&v.b); break; case S: g(&v.s); break; case I16: g(&v.i16); break; case I32: g(&v.i32); break; case I64: g(&v.i64); break; case U16: g(&v.u16); break; case U32: g(&v.u32); break; case U64: g(&v.u64); break; case F: g(&v.f); break; default: g(&v.d); } }
struct Spec { std::vector<std::pair<std::string, Type>> opts; std::vector<Type> args; size_t mandatory; };
enum Kind { OK, REFUSED, HELP, OPEN };
struct Parsed { Kind kind; std::vector<std::string> opt, arg; };                // values; kNone when not given
static Parsed model(const Spec& sp, const Words& w) {
  Parsed p; p.kind = REFUSED; p.opt.assign(sp.opts.size(), kNone); p.arg.assign(sp.args.size(), kNone); bool help = false; size_t i = 0;
  while (i < w.size()) {
    const std::string& a = w[i]; if (a.size() < 2 || a[0] != '-') break;
    ++i; if (a == "--") break; if (a == "--help") { help = true; continue; }
    size_t o = 0; for (; o < sp.opts.size(); ++o) if (a == "--" + sp.opts[o].first) break;
    if (o == sp.opts.size()) return p;
    std::string v, c; if (sp.opts[o].second == B) { if (i < w.size() && (w[i].empty() || w[i][0] != '-')) v = w[i++]; }
    else { if (i == w.size()) return p; v = w[i++]; }
    int r = conv(sp.opts[o].second, v, false, &c); if (r == 0) return p; if (r == FREE) { p.kind = OPEN; return p; } p.opt[o] = c;
  }
  if (help) { p.kind = HELP; return p; }
  size_t k = 0; for (; i < w.size() && k < sp.args.size(); ++i, ++k) { std::string c; int r = conv(sp.args[k], w[i], true, &c); if (r == 0) return p; if (r == FREE) { p.kind = OPEN; return p; } p.arg[k] = c; }
  if (i < w.size() || k < sp.mandatory) return p;
  p.kind = OK; return p;
}
static std::string show(const Words& w) { std::string s; for (auto& x : w) s += " '" + x + "'"; return s; }

// Words close to a registered name.
static Words near(const std::string& n, bool all) {
  std::set<std::string> s; auto up = n, dash = n, spaced = n; for (auto& c : up) c = (char)toupper(c); for (auto& c : dash) if (c == '_') c = '-'; for (auto& c : spaced) if (c == '_') c = ' ';
  for (auto& x : {up, dash, spaced, n + "=1", n + "=", n + " ", " " + n, n + n, "no-" + n, "no_" + n, "no" + n, n + ":1"}) s.insert(x);
  for (size_t i = 0; i <= n.size(); ++i) {
    s.insert(n.substr(0, i)); s.insert(n.substr(i)); if (i < n.size()) { std::string e = n, c = n; e.erase(i, 1); s.insert(e); c[i] = (char)toupper(c[i]); s.insert(c); if (i + 1 < n.size()) { std::string w = n; std::swap(w[i], w[i + 1]); s.insert(w); } }
    if (all) for (char c : std::string("abcdefghijklmnopqrstuvwxyz0123456789_-=. ")) { std::string w = n; w.insert(i, 1, c); s.insert(w); if (i < n.size()) { w = n; w[i] = c; s.insert(w); } }
  }
  return Words(s.begin(), s.end());
}

#ifndef SIMPLE_TOOL
using kws::cmd::Parser; using kws::cmd::Option; using kws::cmd::Argument;
// ---- C20, the parser ---------------------------------------------------------
static void reg_arg(Parser& p, Var& v, const std::string& n, const std::string& h, bool opt) { with(v, [&](auto* x) { if (opt) p.RegisterOptArgument(n, h, x); else p.RegisterArgument(n, h, x); }); }
static bool reg_opt(Parser& p, Var& v, const std::string& n, const std::string& h) { bool r = false; with(v, [&](auto* x) { r = p.RegisterOption(n, h, x); }); return r; }
struct Got { Kind kind; std::string err; int code = 0; };
static Got parse(Parser& p, const Words& w) {
  // exit() is replaced by a jump; what lives on the stack of Parse is lost then
  std::vector<const char*> av = e2e::make_argv(w); Got g; e2e::StreamGuard sg; e2e::exit_armed = true;
  if (setjmp(e2e::exit_jmp) == 0) {
    try { g.kind = p.Parse((int)av.size() - 1, av.data()) ? OK : REFUSED; } catch (...) { e2e::exit_armed = false; throw; }
  } else { g.kind = HELP; g.code = e2e::exit_code; }
  e2e::exit_armed = false; g.err = sg.eb.str() + sg.ob.str(); return g;
}
static void parse_check(mc::Ctx& ctx, const Spec& sp, const Words& w) {
  std::vector<std::unique_ptr<Var>> ov, av; Parser p("prog", "text");
  for (auto& o : sp.opts) { ov.emplace_back(new Var(o.second)); CHECK(reg_opt(p, *ov.back(), o.first, "h"), "--%s cannot be registered", o.first.c_str()); }
  for (size_t i = 0; i < sp.args.size(); ++i) { av.emplace_back(new Var(sp.args[i])); reg_arg(p, *av.back(), "a" + std::to_string(i), "h", i >= sp.mandatory); }
  std::vector<std::string> o0, a0; for (auto& v : ov) { if (v->t == S) v->s = "start"; o0.push_back(v->str()); } for (auto& v : av) { if (v->t == S) v->s = "start"; a0.push_back(v->str()); }
  Parsed want = model(sp, w); if (want.kind == OPEN) return;
  ctx.say("command line:%s", show(w).c_str()); Got g = parse(p, w); ctx.compared(); ctx.outcome(want.kind * 100 + (want.kind == OK ? mc::hash_str(e2e::join(want.opt) + "|" + e2e::join(want.arg)) : 0));
  static const char* const kn[] = {"accepted", "refused", "answered with the help"}; CHECK(g.kind == want.kind, "the command line%s is %s, must be %s", show(w).c_str(), kn[g.kind], kn[want.kind]);
  if (g.kind == REFUSED) CHECK(!g.err.empty(), "the command line%s is refused without a diagnostic", show(w).c_str());
  if (g.kind == HELP) CHECK(g.code == 0, "the help ends with status %d", g.code);
  if (g.kind != OK) return;
  for (size_t i = 0; i < ov.size(); ++i) { std::string x = want.opt[i] == kNone ? o0[i] : want.opt[i]; CHECK(ov[i]->str() == x, "the command line%s sets --%s to '%s', must be '%s'", show(w).c_str(), sp.opts[i].first.c_str(), ov[i]->str().c_str(), x.c_str()); }
  for (size_t i = 0; i < av.size(); ++i) { std::string x = want.arg[i] == kNone ? a0[i] : want.arg[i]; CHECK(av[i]->str() == x, "the command line%s sets argument %zu to '%s', must be '%s'", show(w).c_str(), i + 1, av[i]->str().c_str(), x.c_str()); }
}
static uint64_t words_hash(const Words& w, uint64_t h) { for (auto& x : w) h = mc::hash_str(x, h); return h; }
static Words sequence(mc::Ctx& ctx, const Words& alphabet, int max, bool* mine) {
  Words w; int n = ctx.choose(max + 1); *mine = true; for (int i = 0; i < n; ++i) { w.push_back(ctx.pick(alphabet)); if (i == 1 && !ctx.mine()) { *mine = false; return w; } }
  if (n < 2 && !ctx.mine()) *mine = false;
  return w;
}
MC_FAMILY(C20_words, "every sequence of up to 5 (thorough: 6) of 15 words against a boolean, a number and a text option, one mandatory and one optional argument") {
  static const Words A = {"--b", "--n", "--s", "--", "-", "", "--help", "5", "x", "true", "--x", "-5", "-b", "--bb", "0"}; static const Spec sp = {{{"b", B}, {"n", I32}, {"s", S}}, {S, I32}, 1};
  bool m; Words w = sequence(ctx, A, ctx.bound(5, 6), &m); if (!m) return; ctx.state(words_hash(w, 1)); parse_check(ctx, sp, w);
}
MC_FAMILY(C20_long, "every sequence of up to 9 (thorough: 10) of 5 words: two booleans, a number, '1' and '--'") {
  static const Words A = {"--b", "--c", "--n", "1", "--"}; static const Spec sp = {{{"b", B}, {"c", B}, {"n", U16}}, {I32, B, S, I32}, 2};
  bool m; Words w = sequence(ctx, A, ctx.bound(9, 10), &m); if (!m) return; ctx.state(words_hash(w, 2)); parse_check(ctx, sp, w);
}
MC_FAMILY(C20_configs, "every set of up to 2 options (names a, ab, a-b, '', -a; 3 types) and every list of up to 2 mandatory and 2 optional arguments (3 types) x every sequence of up to 3 of 9 words") {
  static const Words N = {"a", "ab", "a-b", "", "-a"}; static const Type T[3] = {B, I32, S}; static const Words A = {"--a", "--ab", "--a-b", "---a", "--", "1", "zz", "", "--help"};
  Spec sp; int no = ctx.choose(3), f = 0; for (int i = 0; i < no; ++i) { int k = f + ctx.choose(5 - f - (no - 1 - i)); f = k + 1; sp.opts.push_back({N[k], T[ctx.choose(3)]}); }
  int ma = ctx.choose(3), oa = ctx.choose(3); if (!ctx.mine()) return; for (int i = 0; i < ma + oa; ++i) sp.args.push_back(T[ctx.choose(3)]); sp.mandatory = ma;
  // long argument lists with few words only, and the other way round
  int n = ctx.choose(ctx.bound(ma + oa + no > 4 ? 3 : 4, 4)); Words w; for (int i = 0; i < n; ++i) w.push_back(ctx.pick(A));
  uint64_t h = ma * 3 + oa; for (auto& o : sp.opts) h = mc::mix(mc::hash_str(o.first, h), o.second); for (auto t : sp.args) h = mc::mix(h, t); ctx.state(words_hash(w, h)); parse_check(ctx, sp, w);
}
MC_FAMILY(C20_args, "every list of up to 3 mandatory and 3 optional text arguments x 0 to 8 words, with or without '--' and options in front") {
  int ma = ctx.choose(4), oa = ctx.choose(4), n = ctx.choose(9), pre = ctx.choose(6); if (!ctx.mine()) return; Spec sp; sp.opts = {{"b", B}, {"n", I32}}; sp.mandatory = ma; for (int i = 0; i < ma + oa; ++i) sp.args.push_back(S);
  static const std::vector<Words> P = {{}, {"--"}, {"--b"}, {"--b", "true"}, {"--n", "7", "--"}, {"--b", "--"}}; Words w = P[pre]; int dash = ctx.choose(n + 1); for (int i = 0; i < n; ++i) w.push_back(i + 1 == dash ? (pre & 1 ? "--n" : "w") : "v" + std::to_string(i));
  ctx.state(words_hash(w, ma * 8 + oa)); parse_check(ctx, sp, w);
}
MC_FAMILY(C20_spelling, "every word of up to 6 (thorough: 7) of 7 characters before a value and an argument: exact spelling of dashes, names and --help") {
  static const char C[] = {'-', 'h', 'e', 'l', 'p', '=', 'a'}; static const Spec sp = {{{"h", I32}, {"hel", B}, {"a", S}, {"he", S}, {"help-", S}}, {S, S, S}, 0};
  std::string s; int n = ctx.choose(ctx.bound(7, 8)); for (int i = 0; i < n; ++i) { s += C[ctx.choose(7)]; if (i == 2 && !ctx.mine()) return; } if (n < 3 && !ctx.mine()) return;
  ctx.state(mc::hash_str(s)); parse_check(ctx, sp, {s, "1", "2"});
}
MC_FAMILY(C20_values, "every option type with every word of a list of 60 as value, alone, before another option, and before arguments") {
  static const Words V = {"", "-", "--", "--help", "--o", "-1", "0", "1", "true", "false", "True", "TRUE", "yes", " ", " 1", "1 ", "x", "1x", "1.5", ".5", "5.", "1e3", "1e", "e", "+1", "++1", "--1", "65535", "65536", "32767", "32768", "-32768", "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
    "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "0x10", "010", "1,000", "1_000", "inf", "nan", "1e400", "1e39", "-1e39", "0.1", "a b", "a\tb", "\xc3\xa4", "--z", "-z", "truefalse"};
  Type t = (Type)ctx.choose(10); std::string v = ctx.pick(V); int how = ctx.choose(5); if (!ctx.mine()) return; Spec sp{{{"o", t}, {"z", B}}, {S}, 0}; if (how == 4) { sp.args = {t, t}; sp.opts[0].second = S; }
  Words w; switch (how) { case 0: w = {"--o", v}; break; case 1: w = {"--o", v, "--z"}; break; case 2: w = {"--o", v, "arg"}; break; case 3: w = {"--o", v, "--o", "1", "--", "arg"}; break; default: w = {"--z", "true", v, "1"}; }
  ctx.state(words_hash(w, t)); parse_check(ctx, sp, w);
}

MC_FAMILY(C20_again, "every sequence of 3 of 18 command lines given to one parser: each is parsed as by a new one, what it does not give stays as it was") {
  static const std::vector<Words> L = {{}, {"x"}, {"y", "7"}, {"--b", "x"}, {"--b", "false", "x"}, {"--n", "3", "z", "8"}, {"--n", "4", "--n", "5", "x"}, {"--", "--n", "1"}, {"--", "w"}, {"--zz"}, {"--n"}, {"--n", "q", "x"}, {"--help"}, {"x", "7", "8"}, {"x", "bad"}, {"--s", "", "x"}, {"--s", "t", "--b", "u", "9"}, {"--b", "--s", "k", "--", "-", "2"}};
  static const Spec sp = {{{"b", B}, {"n", I32}, {"s", S}}, {S, I32}, 1}; int c[3]; for (int& k : c) k = ctx.choose((int)L.size()); if (!ctx.mine()) return;
  std::vector<std::unique_ptr<Var>> vs; Parser p("prog", "text"); for (auto& o : sp.opts) { vs.emplace_back(new Var(o.second)); CHECK(reg_opt(p, *vs.back(), o.first, "h"), "--%s cannot be registered", o.first.c_str()); } for (size_t i = 0; i < 2; ++i) { vs.emplace_back(new Var(sp.args[i])); reg_arg(p, *vs.back(), "a" + std::to_string(i), "h", i >= 1); }
  std::vector<std::string> now; for (auto& v : vs) now.push_back(v->str()); uint64_t h = 77; std::string all;
  for (int k : c) {
    const Words& w = L[k]; h = words_hash(w, mc::mix(h, k)); ctx.state(h); Parsed want = model(sp, w); all += show(w) + " /"; Got g = parse(p, w); ctx.compared();
    CHECK(g.kind == want.kind, "the last of the command lines%s ends with %d, must with %d (0 accepted, 1 refused, 2 help)", all.c_str(), g.kind, want.kind); if (g.kind == REFUSED) CHECK(!g.err.empty(), "a command line is refused without a diagnostic");
    for (size_t i = 0; i < vs.size(); ++i) { std::string x = i < 3 ? want.opt[i] : want.arg[i - 3]; if (g.kind != OK) { if (x != kNone || vs[i]->str() != now[i]) now[i] = vs[i]->str(); continue; } if (x != kNone) now[i] = x; CHECK(vs[i]->str() == now[i], "after the command lines%s value %zu is '%s', must be '%s'", all.c_str(), i + 1, vs[i]->str().c_str(), now[i].c_str()); }
  }
}
MC_FAMILY(C20_many, "1 to 70 options and 0 to 12 arguments of every type, each option given 0 to 3 times (up to 420 words) in 4 orders: all the values arrive") {
  int n = 1 + ctx.choose(70), na = ctx.choose(13), ord = ctx.choose(4); if (!ctx.mine()) return; if (n % 3 && na % 4) return; int times = ctx.choose(4), miss = ctx.choose(4); Spec sp; sp.mandatory = na / 2;
  for (int i = 0; i < n; ++i) { std::string s(1, char('a' + i % 26)); s += std::to_string(i * 7 % 100); if (i % 11 == 3) s += std::string(20 + i, 'x'); sp.opts.push_back({s, (Type)((i + na) % 10)}); } for (int i = 0; i < na; ++i) sp.args.push_back((Type)((i * 3) % 10));
  Words w; for (int t = 0; t < times; ++t) for (int k = 0; k < n; ++k) { int i = ord == 0 ? k : ord == 1 ? n - 1 - k : (k * 41 + t) % n; auto& o = sp.opts[i]; if (ord == 3 && (k + t) % 3 == 0) continue; w.push_back("--" + o.first); std::string v = o.second == B ? (t + i) % 3 == 0 ? "" : (t + i) % 3 == 1 ? "false" : "true" : std::to_string((i * 31 + t) % 251); if (!(o.second == B && v.empty())) w.push_back(v); }
  if (miss == 3 && n > 2) w.insert(w.begin() + (w.size() / 2), "--nosuch"); w.push_back("--"); int give = miss == 1 ? std::max(0, na / 2 - 1) : miss == 2 ? na + 1 : na; for (int i = 0; i < give; ++i) w.push_back(std::to_string(i % 2)); if (miss == 0 && na > 2) w.pop_back();
  ctx.state(words_hash(w, n * 100 + na)); parse_check(ctx, sp, w);
}
static const Words kNear = {"alpha", "alphabet", "beta", "collapse_matches", "interpolated_precision", "bootstrap_ci_gap", "bootstrap_ci_map", "bootstrap_samples", "rp_curve_samples", "helper", "x"};
MC_FAMILY(C20_near, "11 options of 3 types: every word that differs from a name in one character, two neighbours, the case or its length, every beginning and end of a name, with one, two and three dashes, before 3 endings") {
  static std::vector<Words> N; if (N.empty()) for (auto& n : kNear) N.push_back(near(n, true)); int k = ctx.choose((int)kNear.size()), t = ctx.choose(3); if (!ctx.mine()) return; std::string n = N[k][ctx.choose((int)N[k].size())]; int d = ctx.choose(3), end = ctx.choose(3);
  static const Type T[3] = {B, S, U64}; Spec sp{{}, {S, S}, 1}; for (size_t i = 0; i < kNear.size(); ++i) sp.opts.push_back({kNear[i], T[(i + t) % 3]}); Words w = {std::string(d + 1, '-') + n}; if (end == 0) w.insert(w.end(), {"1", "r"}); else if (end == 1) w.insert(w.end(), {"--", "r", "h"}); else w.insert(w.end(), {"r", "h"});
  ctx.state(words_hash(w, t)); parse_check(ctx, sp, w);
}

static Words placed_word(const std::string& t, int how) {
  switch (how) { case 0: return {t}; case 1: return {"first", t}; case 2: return {"--s", t, "x"}; case 3: return {"--b", t, "x"}; case 4: return {"--", t, "x"}; case 5: return {"--n", "3", t}; case 6: return {t, "--b"}; case 7: return {"--b", "--s", "v", t, "z"}; case 8: return {"--" + t, "x"}; default: return {"--s" + t, "v", "x"}; }
}
static void placed_word_check(mc::Ctx& ctx, const std::string& t, int how) { static const Spec sp = {{{"b", B}, {"n", I32}, {"s", S}}, {S, S}, 1}; Words w = placed_word(t, how); ctx.state(words_hash(w, 17)); parse_check(ctx, sp, w); }
MC_FAMILY(C20_bytes, "every word of one or two bytes at 10 places of a command line: argument, value, after a boolean, after '--', after dashes, stuck to a name") {
  int a = 1 + ctx.choose(255), how = ctx.choose(10); if (!ctx.mine()) return; int b = ctx.choose(256); std::string t(1, (char)a); if (b) t += (char)b; placed_word_check(ctx, t, how);
}
MC_FAMILY(C20_odd, "words with a meaning in other programs (response files, escapes, quotes, signs, assignments), alone or before and after a letter or a name, at 10 places of a command line") {
  static Words W; if (W.empty()) { for (auto& w : e2e::odd_words()) W.push_back(w); for (const char* w : {"@file", "@@", "+n", "+b", "/b", "/n:3", "n=3", "b=true", "s=", ":b", "--n=3", "--b=true", "--b=false", "--s=x", "--no-b", "--nob", "-s", "-n3", "-bn", "-vvv", "--n:3", "---", "----", "--b ", " --b", "-\xe2\x80\x93", "\xe2\x80\x94", "\xe2\x88\x92", "*", "?", "[ab]", "~", "$s", "%s", "%n", "%d%d", "help", "-help", "-h", "-?", "/?", "--version", "version", "--usage", "--HELP", "--Help", "--helpful", "--hel", "\\--b", "'--b'", "\"--b\""}) W.push_back(w); }
  const std::string& w = W[ctx.choose((int)W.size())]; if (!ctx.mine()) return; if (w.find('\0') != std::string::npos) return; int kind = ctx.choose(5); placed_word_check(ctx, kind == 0 ? w : kind == 1 ? w + "a" : kind == 2 ? "a" + w : kind == 3 ? "--b" + w : w + w, ctx.choose(10));
}

// ---- C21, conversions -------------------------------------------------------
static void convert(mc::Ctx& ctx, Type t, const std::string& s, bool argument) {
  std::string want; int r = conv(t, s, argument, &want); if (r == FREE) return;
  bool ok = false; Var v(t); if (t == S) v.s = "before"; ctx.state(mc::hash_str(s, t * 2 + argument));
  with(v, [&](auto* x) { typedef typename std::remove_pointer<decltype(x)>::type T; if (argument) ok = Argument<T>("n", "h", x).Parse(s); else ok = Option<T>("n", "h", x).Parse(s); });
  ctx.compared(); ctx.outcome(r ? 1 : 0);
  if (ctx.describing()) ctx.say("%s %s from '%s': %s", argument ? "argument" : "option", kType[t], s.c_str(), r ? ("must be " + want).c_str() : "must be refused");
  CHECK(ok == (r == 1), "'%s' is %s as %s %s", s.c_str(), ok ? "accepted" : "refused", kType[t], argument ? "argument" : "option");
  if (ok) CHECK(v.str() == want, "'%s' is converted to %s, must be %s (%s)", s.c_str(), v.str().c_str(), want.c_str(), kType[t]);
}
static std::string textof(mc::Ctx& ctx, const char* chars, int max, bool* mine) {
  std::string s; int k = (int)strlen(chars), n = ctx.choose(max + 1); *mine = true; for (int i = 0; i < n; ++i) { s += chars[ctx.choose(k)]; if (i == 1 && !ctx.mine()) { *mine = false; return s; } } if (n < 2 && !ctx.mine()) *mine = false; return s;
}
MC_FAMILY(C21_int, "the 6 integer types, options and arguments: every text of up to 5 (thorough: 6) of 11 characters") {
  Type t = (Type)(I16 + ctx.choose(6)); bool m; std::string s = textof(ctx, "013968-+ x.", ctx.bound(5, 6), &m); if (!m) return; convert(ctx, t, s, false); convert(ctx, t, s, true);
}
MC_FAMILY(C21_int_limits, "the 6 integer types: all values within 3 of the powers of 2 and 10 and of the limits x 11 prefixes x 10 suffixes") {
  Type t = (Type)(I16 + ctx.choose(6)); static const char* const P[] = {"", "0", "00000000000000000000", "+", "-", "+0", "-0", " ", "--", "+-", "\t"}; static const char* const X[] = {"", "0", " ", "x", ".", "e0", "\n", "-", "u", "l"};
  int k = ctx.choose(65 + 20); std::string p = P[ctx.choose(11)], x = X[ctx.choose(10)]; if (!ctx.mine()) return; unsigned __int128 v = 1; if (k < 65) v <<= k; else for (int i = 65; i < k + 1; ++i) v *= 10;
  int d = ctx.choose(7) - 3; if (d < 0 && v < (unsigned)-d) return; v += d; std::string s; do { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } while (v); convert(ctx, t, p + s + x, false); convert(ctx, t, p + s + x, true);
}
MC_FAMILY(C21_16bit, "16 bit types: every value from -70000 to 140000") {
  Type t = ctx.flip() ? U16 : I16; int hi = ctx.choose(210); if (!ctx.mine()) return; int v = -70000 + hi * 1000 + ctx.choose(1000); convert(ctx, t, std::to_string(v), false);
}
MC_FAMILY(C21_real, "float and double: every text of up to 6 (thorough: 8) of 8 characters") {
  Type t = ctx.flip() ? F : D; bool m; std::string s = textof(ctx, "017.e-+ ", ctx.bound(6, 8), &m); if (!m) return; convert(ctx, t, s, false); convert(ctx, t, s, true);
}
MC_FAMILY(C21_real_range, "float and double: 40 mantissas x all decimal exponents from -360 to 360 x notations") {
  static const char* const M[] = {"0", "1", "9", "1.5", "2.5", "3.4028234663852886", "3.4028235677973366", "3.4028236", "3.5", "1.7976931348623157", "1.7976931348623159", "1.8", "1.1754943508222875", "2.2250738585072014", "4.9", "0.1", "0.3", "12345678901234567890", "0.000000000000000000001", "16777217", "9007199254740993", "33554435",
    "1.00000005960464477539062", "1.00000005960464477539063", "1.0000000000000001110223024625156540423631668090820312", "1.0000000000000001110223024625156540423631668090820313", "99999999999999999999999999999999999999999", ".5", "5.", "00012.5000"};
  Type t = ctx.flip() ? F : D; std::string m = M[ctx.choose(30)]; int e = ctx.choose(721) - 360; if (!ctx.mine()) return; int n = ctx.choose(4); std::string sg = ctx.choose(3) == 0 ? "-" : n == 3 ? "+" : "";
  char b[16]; snprintf(b, sizeof b, n == 0 ? "e%d" : n == 1 ? "E%+d" : "e%+04d", e); convert(ctx, t, sg + m + b, n & 1);
}
MC_FAMILY(C21_bool, "booleans, options and arguments: every text of up to 5 (thorough: 6) of 10 characters") { bool m; std::string s = textof(ctx, "truefals01", ctx.bound(5, 6), &m); if (!m) return; convert(ctx, B, s, false); convert(ctx, B, s, true); }
MC_FAMILY(C21_words, "booleans, integers and floats: every word of up to 4 (thorough: 5) letters, small, capital and with a capital at the front, and 60 longer words") {
  static const char* const W[] = {"enable", "enabled", "disable", "disabled", "active", "positive", "negative", "affirm", "default", "truee", "ttrue", "falsee", "maybe", "null", "none", "nullptr", "undefined", "Enabled", "correct", "wrong", "right", "verdadero", "falso", "oui", "nein", "infinity", "Infinity", "-infinity", "+inf", "-inf", "nan(0)", "NaN", "-nan", "0x1p3", "0b1", "0o7", "1f", "1.0f", "1L", "1u", "10k", "1M", "1e3f", "1d", "1,5", "1'000", "\xd9\xa1", "\xef\xbc\x91", "one", "zero", "two", "1/2", "50%", "1+1", "1..2", "1e1.5", "0001", "01", "00", "true1", "true true"};
  static const Type T[5] = {B, I32, U64, F, D}; Type t = T[ctx.choose(5)]; int n = ctx.choose(ctx.bound(6, 7)); if (n == ctx.bound(5, 6)) { if (ctx.mine()) for (auto* w : W) { convert(ctx, t, w, false); convert(ctx, t, w, true); } return; }
  std::string s; for (int i = 0; i < n; ++i) { s += char('a' + ctx.choose(26)); if (i == 0 && !ctx.mine()) return; } if (!n && !ctx.mine()) return; if (n == 4 && t != B && ctx.bound(0, 1) == 0) { if (s[3] > 'f') return; }
  for (int c = 0; c < 3; ++c) { if (c == 1 && n) s[0] = (char)toupper(s[0]); if (c == 2) for (auto& x : s) x = (char)toupper(x); convert(ctx, t, s, false); convert(ctx, t, s, true); }
}
MC_FAMILY(C21_bool2, "booleans: the accepted words with one character changed, inserted or removed, at each place, by each of the 255 characters") {
  static const char* const W[] = {"true", "false", "1", "0"}; std::string w = W[ctx.choose(4)]; int at = ctx.choose((int)w.size() + 1), how = ctx.choose(3), c = 1 + ctx.choose(255); if (!ctx.mine()) return;
  if (how == 0) w.insert(at, 1, (char)c); else if (at < (int)w.size()) { if (how == 1) w[at] = (char)c; else w.erase(at, 1); } convert(ctx, B, w, false); convert(ctx, B, w, true);
}
MC_FAMILY(C21_string, "texts of up to 5 (thorough: 6) of 9 characters including blanks, line ends, dashes and quotes, and every single byte") {
  static const char C[] = " \t\n-a=\"\xff\r"; bool m; std::string s = textof(ctx, C, ctx.bound(5, 6), &m); if (!m) return; convert(ctx, S, s, false); convert(ctx, S, s, true);
  if (s.empty()) for (int c = 1; c < 256; ++c) { convert(ctx, S, std::string(1, (char)c), false); convert(ctx, S, std::string(3000 + c, (char)c), true); }
}
MC_FAMILY(C21_number_bytes, "all types: a number with one of 255 characters put in at each place") {
  Type t = (Type)ctx.choose(10); static const char* const W[] = {"12", "-3", "4.5", "1e2", ""}; std::string w = W[ctx.choose(5)]; int at = ctx.choose((int)w.size() + 1), c = 1 + ctx.choose(255); if (!ctx.mine()) return; w.insert(at, 1, (char)c); convert(ctx, t, w, false); convert(ctx, t, w, true);
}
MC_FAMILY(C21_again, "every type: every sequence of 3 of 12 texts given to one option; the variable holds the last value accepted") {
  static const char* const W[] = {"1", "0", "", "x", "12", "-7", "2.5", "true", "false", "99999999999999999999999", " 1", "3 "}; Type t = (Type)ctx.choose(10); Var v(t); std::string want = v.str(); bool bad = false; std::string all;
  int idx[3]; for (int& k : idx) k = ctx.choose(12); if (!ctx.mine()) return; for (int k : idx) { std::string c, s = W[k]; int r = conv(t, s, false, &c); bool ok = false; with(v, [&](auto* x) { typedef typename std::remove_pointer<decltype(x)>::type T; ok = Option<T>("n", "h", x).Parse(s); });
    all += " '" + s + "'"; ctx.compared(); ctx.state(mc::hash_str(all, t)); CHECK(ok == (r == 1), "'%s' after%s is %s as %s option", s.c_str(), all.c_str(), ok ? "accepted" : "refused", kType[t]); bad = r != 1; if (!bad) { want = c; CHECK(v.str() == want, "%s:%s gives '%s', must be '%s'", kType[t], all.c_str(), v.str().c_str(), want.c_str()); } }
}

// ---- C27, the usage text ----------------------------------------------------
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::stringstream ss(s); std::string l; while (std::getline(ss, l)) v.push_back(l); return v; }
#endif
static Words tokens(const std::string& s) { Words v; std::string c; for (char x : s + " ") { if (isalnum((unsigned char)x) || x == '_' || x == '.' || x == '-') c += x; else { if (!c.empty()) v.push_back(c); c.clear(); } } return v; }
static int count(const Words& v, const std::string& t) { return (int)std::count(v.begin(), v.end(), t); }
#ifndef SIMPLE_TOOL
struct Entry { int kind; std::string name, help; Var v; std::string value; };  // kind: 0 option, 1 mandatory, 2 optional argument
static void check_help(mc::Ctx& ctx, const std::string& text, const std::string& prog, const std::string& desc, std::vector<Entry*> es) {
  ctx.say("%s", text.c_str()); auto ls = lines(text); CHECK(text.find(desc) != std::string::npos, "the description is missing in\n%s", text.c_str());
  // usage line: the program and the arguments in order
  Words seq; for (int k : {1, 2}) for (auto* e : es) if (e->kind == k) seq.push_back(e->name); bool found = false;
  for (auto& l : ls) { Words t = tokens(l); size_t i = 0; while (i < t.size() && t[i] != prog) ++i; if (i == t.size()) continue; size_t j = 0; for (++i; i < t.size() && j < seq.size(); ++i) if (t[i] == seq[j]) ++j; if (j == seq.size()) { found = true; break; } }
  CHECK(found, "no line names the program and the %zu arguments in order:\n%s", seq.size(), text.c_str());
  for (auto& l : ls) {                                         // the optional ones, and only these, in brackets
    Words t = tokens(l); size_t at = l.find(prog); if (at == std::string::npos || std::find(t.begin(), t.end(), prog) == t.end()) continue; size_t j = 0; int depth = 0; bool bad = false; std::string c;
    for (char x : l.substr(at + prog.size()) + " ") { if (isalnum((unsigned char)x) || x == '_' || x == '.' || x == '-') { c += x; continue; } if (!c.empty() && j < seq.size() && c == seq[j]) { bool o = false; for (auto* e : es) if (e->kind == 2 && e->name == c) o = true; if (o != (depth > 0)) bad = true; ++j; } c.clear(); if (x == '[') ++depth; if (x == ']' && --depth < 0) bad = true; }
    if (j == seq.size()) CHECK(!bad && depth == 0, "the brackets of the usage line do not enclose exactly the optional arguments: %s", l.c_str());
  }
  size_t last = 0;
  for (int k : {1, 2, 0}) for (auto* e : es) if (e->kind == k) {
    std::string nm = k ? e->name : "--" + e->name; int n = 0; size_t at = 0;
    for (size_t i = 0; i < ls.size(); ++i) { Words t = tokens(ls[i]); if (!t.empty() && t[0] == nm) { ++n; at = i; } }
    CHECK(n == 1, "%s is listed %d times:\n%s", nm.c_str(), n, text.c_str());
    // the entry may go on in the following lines, up to the next entry
    Words t = tokens(ls[at]); for (size_t i = at + 1; i < ls.size(); ++i) { Words u = tokens(ls[i]); if (u.empty()) break; bool next = u[0].compare(0, 2, "--") == 0; for (auto* f : es) if (u[0] == f->name) next = true; if (next) break; t.insert(t.end(), u.begin(), u.end()); }
    for (auto& h : tokens(e->help)) CHECK(count(t, h) >= 1, "the help of %s is not shown:\n%s", nm.c_str(), text.c_str());
    if (e->v.t != F && e->v.t != D) CHECK(count(t, kType[e->v.t]) >= 1, "the type of %s (%s) is not shown:\n%s", nm.c_str(), kType[e->v.t], text.c_str());
    if (k == 0) CHECK(count(t, e->value) >= 1, "the value of %s (%s) is not shown:\n%s", nm.c_str(), e->value.c_str(), text.c_str());
    if (k) { CHECK(at > last || last == 0, "the arguments are not listed in order:\n%s", text.c_str()); last = at; }
  }
  for (auto& l : ls) { Words t = tokens(l); if (t.empty() || t[0].compare(0, 2, "--")) continue; bool known = t[0] == "--help"; for (auto* e : es) known |= e->kind == 0 && t[0] == "--" + e->name; CHECK(known, "%s is listed and not registered:\n%s", t[0].c_str(), text.c_str()); }
}
static void set_value(Var& v, int salt, std::string* shown) {
  switch (v.t) { case B: v.b = salt & 1; *shown = v.b ? "true" : "false"; break; case S: v.s = "v" + std::to_string(salt) + "v"; *shown = v.s; break; case F: v.f = salt + 0.5f; *shown = std::to_string(salt) + ".5"; break; case D: v.d = salt + 0.25; *shown = std::to_string(salt) + ".25"; break;
    default: with(v, [&](auto*) {}); v.i16 = v.i32 = v.i64 = v.u16 = v.u32 = v.u64 = 7000 + salt; *shown = std::to_string(7000 + salt); }
}
struct Action { int kind; const char* name; Type t; };
static const std::vector<Action> kActions = {{0, "aa", B}, {0, "aa", I32}, {0, "bbb", S}, {0, "help", B}, {0, "help", S}, {0, "cc", D}, {0, "uu", U16}, {0, "a", F}, {1, "pp", S}, {1, "qqq", I64}, {2, "oo", B}, {2, "rr", U64}};
static void help_check(mc::Ctx& ctx, const std::vector<Action>& acts, bool desc) {
  std::vector<std::unique_ptr<Entry>> es; std::vector<Entry*> reg; std::map<std::string, Entry*> byname; std::string d = desc ? "Some words on it." : ""; Parser p("theprog", d); int i = 0; uint64_t h = desc; bool argdup = false; std::set<std::string> an;
  for (auto& a : acts) {
    ++i; h = mc::mix(mc::hash_str(a.name, h), a.kind * 16 + a.t); es.emplace_back(new Entry{a.kind, a.name, "does thing" + std::to_string(i), Var(a.t), ""}); Entry* e = es.back().get(); set_value(e->v, i, &e->value);
    if (a.kind) { if (!an.insert(a.name).second) argdup = true; reg_arg(p, e->v, e->name, e->help, a.kind == 2); reg.push_back(e); continue; }
    const bool free_name = std::string(a.name) != "help" && !byname.count(a.name); std::string before = free_name ? "" : p.Help(); bool r = reg_opt(p, e->v, e->name, e->help); ctx.compared();
    CHECK(r == free_name, "registering --%s %s", a.name, r ? "succeeds: the name is reserved or in use" : "is refused");
    if (free_name) { byname[a.name] = e; reg.push_back(e); } else CHECK(p.Help() == before, "a refused registration of --%s changes the usage text to\n%s", a.name, p.Help().c_str());
  }
  ctx.state(h); if (argdup) return;                          // two arguments of one name: nothing to tell apart
  check_help(ctx, p.Help(), "theprog", d, reg); ctx.compared(); CHECK(p.Help() == p.Help(), "the usage text changes from call to call");
  i = 50; for (auto& e : es) set_value(e->v, ++i, &e->value); check_help(ctx, p.Help(), "theprog", d, reg); ctx.compared();      // the current values
  // options still act on the variables registered first
  for (auto& kv : byname) { Entry* e = kv.second; Got g = parse(p, {"--" + kv.first, e->v.t == B ? (e->v.b ? "false" : "true") : "9", "--"}); (void)g; std::string now = e->v.str(); CHECK(now == (e->v.t == B ? (e->value == "true" ? "0" : "1") : e->v.t == F || e->v.t == D ? "0x1.2p+3" : "9"), "--%s does not act on its variable: %s", kv.first.c_str(), now.c_str()); }
  Got g = parse(p, {"--help"}); ctx.compared(); CHECK(g.kind == HELP && g.code == 0, "--help does not end the program with status 0"); std::string t = g.err; for (auto& l : lines(p.Help())) CHECK(t.find(l) != std::string::npos, "--help does not print the line\n%s", l.c_str());
}
MC_FAMILY(C27_register, "every sequence of up to 4 (thorough: 5) of 12 registrations: options, repeated and reserved names, arguments; then the text, twice, with changed values, and --help") {
  int n = ctx.choose(ctx.bound(5, 6)); bool desc = ctx.flip(); std::vector<Action> a; for (int i = 0; i < n; ++i) { a.push_back(ctx.pick(kActions)); if (i == 1 && !ctx.mine()) return; } if (n < 2 && !ctx.mine()) return; help_check(ctx, a, desc);
}
MC_FAMILY(C27_many, "0 to 70 options and 0 to 12 arguments of every type, with names of every length from 1 to 60 in 3 orders, and of 64 to 600 characters: each is listed once") {
  static std::map<int, std::vector<std::string>> pool; int n = ctx.choose(71), na = ctx.choose(13), ord = ctx.choose(3); if (!ctx.mine()) return; if (n % 4 && na % 4) return; bool desc = ctx.flip();
  auto& P = pool[n * 3 + ord]; if (P.empty()) for (int i = 0; i < n; ++i) { int len = ord == 0 ? 1 + i % 60 : ord == 1 ? 60 - i % 60 : (i * 37) % 97 == 0 ? 64 + 8 * n : 5 + i % 3; std::string s(1, char('a' + i % 26)); s += std::to_string(i); while ((int)s.size() < len) s += char('a' + (s.size() * 7 + i) % 26); P.push_back(s); }
  static std::vector<std::string> an; if (an.empty()) for (int i = 0; i < 13; ++i) an.push_back("pos" + std::to_string(i) + std::string(i * 5, 'p'));
  std::vector<Action> a; for (int i = 0; i < n; ++i) { a.push_back({0, P[i].c_str(), (Type)((i + na) % 10)}); if (i % 9 == 4) a.push_back({0, P[i / 2].c_str(), B}); } for (int i = 0; i < na; ++i) a.insert(ord ? a.begin() + i : a.end(), {i < na / 2 ? 1 : 2, an[i].c_str(), (Type)((i * 3) % 10)});
  help_check(ctx, a, desc);
}
MC_FAMILY(C27_types, "every type as option, mandatory and optional argument, in pairs") {
  Type t = (Type)ctx.choose(10), u = (Type)ctx.choose(10); int k = ctx.choose(3), l = ctx.choose(3); if (!ctx.mine()) return; help_check(ctx, {{k, "first", t}, {l, "second_one", u}, {0, "help", t}, {0, "first", u}}, true);
}
MC_FAMILY(C27_texts, "descriptions, texts of options and arguments and values of text options of 1 to 70000 characters, in words of 1 to all of them: nothing is cut") {
  static const int L[] = {1, 5, 19, 20, 21, 39, 40, 41, 59, 60, 61, 63, 64, 65, 71, 72, 73, 77, 78, 79, 80, 81, 82, 99, 100, 101, 119, 120, 121, 127, 128, 129, 131, 132, 133, 159, 160, 161, 199, 200, 201, 239, 240, 241, 249, 250, 251, 254, 255, 256, 257, 299, 300, 301, 399, 400, 401, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 70000};
  static const int WL[] = {6, 9, 14, 40, 1 << 20}; int l = L[ctx.choose((int)(sizeof L / sizeof *L))], wl = WL[ctx.choose(5)], who = ctx.choose(6); if (!ctx.mine()) return;
  std::string t; for (int i = 0; (int)t.size() < l; ++i) { std::string w = "w" + std::to_string(i); while ((int)w.size() < wl && (int)w.size() < l) w += char('a' + (w.size() + i) % 26); if (!t.empty()) t += " "; t += w; }
  if (who == 4) for (char& c : t) if (c == ' ') c = '_';
  ctx.state(mc::hash_str(t, who)); std::string d = who == 5 ? t : "Words."; Parser p("theprog", d); std::vector<std::unique_ptr<Entry>> es; std::vector<Entry*> reg; static const Action A[] = {{0, "opt", I32}, {0, "text", S}, {1, "pos", S}, {2, "more", U16}, {0, "flag", B}};
  int i = 0; for (auto& a : A) { ++i; bool it = (who == 0 && i == 1) || (who == 1 && i == 3) || (who == 2 && i == 4) || (who == 3); es.emplace_back(new Entry{a.kind, a.name, it ? t : "does thing" + std::to_string(i), Var(a.t), ""}); Entry* e = es.back().get(); set_value(e->v, i, &e->value); if (who == 4 && a.t == S && a.kind == 0) e->value = e->v.s = t; reg.push_back(e); if (a.kind) reg_arg(p, e->v, e->name, e->help, a.kind == 2); else CHECK(reg_opt(p, e->v, e->name, e->help), "--%s cannot be registered", a.name); }
  check_help(ctx, p.Help(), "theprog", d, reg); ctx.compared();
}
MC_FAMILY(C27_help_lines, "every sequence of up to 4 (thorough: 5) of 10 words: the command line prints the text exactly when --help is among the options and they are well formed; the values given before it are shown") {
  static const Words A = {"--help", "--b", "--n", "--s", "5", "true", "x", "--", "--zz", "false"}; static const Spec sp = {{{"b", B}, {"n", I32}, {"s", S}}, {S}, 1};
  bool m; Words w = sequence(ctx, A, ctx.bound(4, 5), &m); if (!m) return; ctx.state(words_hash(w, 5)); Parsed want = model(sp, w); Var b(B), n(I32), s(S); Parser p("theprog", ""); std::string arg; n.i32 = 11; s.s = "start"; reg_opt(p, b, "b", "hb"); reg_opt(p, n, "n", "hn"); reg_opt(p, s, "s", "hs"); p.RegisterArgument("pos", "hp", &arg);
  Got g = parse(p, w); ctx.compared(); CHECK((g.kind == HELP) == (want.kind == HELP), "the command line%s %s the help", show(w).c_str(), g.kind == HELP ? "prints" : "does not print"); if (g.kind != HELP) return; CHECK(g.code == 0, "status %d", g.code);
  Entry eb{0, "b", "hb", b, want.opt[0] == "1" ? "true" : "false"}, en{0, "n", "hn", n, want.opt[1] == kNone ? "11" : want.opt[1]}, es{0, "s", "hs", s, want.opt[2] == kNone ? "start" : want.opt[2]}, ea{1, "pos", "hp", Var(S), ""};
  check_help(ctx, g.err, "theprog", "", {&eb, &en, &es, &ea});
}
#endif

// ---- the tools -------------------------------------------------------------
static const std::vector<std::pair<std::string, Type>> kOpts = {{"collapse_matches", B}, {"interpolated_precision", B}, {"trapezoid_integral", B}, {"query_set", S}, {"dump_matches", S}, {"query_groups", S}, {"bootstrap_ci_gap", B}, {"bootstrap_ci_map", B}, {"bootstrap_ci_gndcg", B}, {"bootstrap_ci_mndcg", B},
  {"bootstrap_samples", U64}, {"bootstrap_seed", U64}, {"bootstrap_alpha", D}, {"sort", S}, {"output_grp", S}, {"output_mrp", S}, {"rp_curve_samples", U64}};
static const Words kDefault = {"true", "true", "true", "", "", "", "false", "false", "false", "false", "10000", "74565", "0.05", "desc", "", "", "10000"};
static int opt(const std::string& n) { for (size_t i = 0; i < kOpts.size(); ++i) if (kOpts[i].first == n) return (int)i; abort(); }
static Obj spot(const std::string& q, int i) {
#ifndef SIMPLE_TOOL
  return Obj{q, "d", Box{10 * i, 0, 4, 4}};
#else
  return Obj{q, "d" + std::to_string(i), {}};
#endif
}
static std::string RT, HT; static MemFile f_q, f_g, f_o1, f_o2, f_o3;
// Every setting changes the results on these data.
static void data() {
  std::vector<Obj> R = {spot("a", 1), spot("a", 2), spot("b", 3), spot("b", 4), spot("a", 5), spot("c", 9), spot("a", 12), spot("b", 13), spot("b", 14)};
  std::vector<Hyp> H = {e2e::hyp(spot("a", 1), "0.5"), e2e::hyp(spot("a", 6), "0.5"), e2e::hyp(spot("b", 7), "0.85"), e2e::hyp(spot("b", 3), "0.8"), e2e::hyp(spot("a", 2), "0.7"), e2e::hyp(spot("b", 4), "0.1"), e2e::hyp(spot("b", 8), "0.2"), e2e::hyp(spot("a", 11), "0.75"),
    e2e::hyp(spot("a", 12), "0.95"), e2e::hyp(spot("b", 13), "0.97"), e2e::hyp(spot("a", 20), "0.03"), e2e::hyp(spot("b", 14), "0.01"), e2e::hyp(spot("b", 21), "0.5")};
  if (RT.empty()) { RT = e2e::refs_text(R); HT = e2e::hyps_text(H); } e2e::f_ref.set(RT); e2e::f_hyp.set(HT);
}
static bool results(const std::string& o) { for (int k = 0; k < 4; ++k) if (o.find(std::string(e2e::kNames[k]) + " =") != std::string::npos) return true; return false; }
static std::map<std::string, Result> memo;
// The same settings in the plainest spelling.
static const Result& canonical(mc::Ctx& ctx, Words w) { data(); std::string k = e2e::join(w); auto it = memo.find(k); if (it != memo.end()) return it->second; w.push_back("--"); w.push_back(e2e::f_ref.path); w.push_back(e2e::f_hyp.path); Result r = e2e::run(w); CHECK(r.status == 0 && e2e::parse(r.out).ok, "the command line%s fails: %s", show(w).c_str(), r.err.c_str()); return memo[k] = r; }
static void tool_line(mc::Ctx& ctx, const Words& given) {
  data(); Words w = given; for (auto& x : w) { if (x == "R") x = e2e::f_ref.path; if (x == "H") x = e2e::f_hyp.path; }
  Spec sp{kOpts, {S, S}, 1}; Parsed want = model(sp, w); if (want.kind == OPEN) return; std::string R = e2e::f_ref.path, H = e2e::f_hyp.path; ctx.state(mc::hash_str(show(given)));
  std::string sort = want.opt[opt("sort")]; bool stdin_ = want.kind == OK && (want.arg[1] == kNone || want.arg[1].empty());
  int fd = -1; if (stdin_) { fd = e2e::f_hyp.fd; lseek(fd, 0, SEEK_SET); } Result r = stdin_ ? e2e::run_fork(w, nullptr, fd) : e2e::run(w); ctx.compared(); ctx.outcome(want.kind * 1000 + r.status); ctx.say("%s: status %d\n%s", show(given).c_str(), r.status, r.out.c_str());
  if (want.kind == REFUSED) { CHECK(r.status == 1, "refused%s: status %d, must be 1", show(given).c_str(), r.status); CHECK(!results(r.out), "refused%s: results are printed:\n%s", show(given).c_str(), r.out.c_str()); CHECK(!r.err.empty(), "refused%s without a diagnostic", show(given).c_str()); return; }
  if (want.kind == HELP) { CHECK(r.status == 0 && !results(r.out), "help%s: status %d, output:\n%s", show(given).c_str(), r.status, r.out.c_str()); return; }
  const bool files = want.arg[0] == R && (stdin_ || want.arg[1] == H);
  if (!files) { CHECK(r.status != 0 && !results(r.out), "%s: there are no such files, status %d, output:\n%s", show(given).c_str(), r.status, r.out.c_str()); return; }
  if (sort != kNone && sort != "asc" && sort != "desc" && sort != "none") return;   // not specified
  Words c; for (size_t i = 0; i < kOpts.size(); ++i) if (want.opt[i] != kNone) { std::string v = want.opt[i]; if (kOpts[i].second == B) v = v == "1" ? "true" : "false"; if (kOpts[i].second == D) { char b[64]; snprintf(b, sizeof b, "%.17g", strtod(v.c_str(), nullptr)); v = b; } if (v != kDefault[i]) { c.push_back("--" + kOpts[i].first); c.push_back(v); } }
  const Result& e = canonical(ctx, c); CHECK(r.status == 0, "%s: status %d: %s", show(given).c_str(), r.status, r.err.c_str()); CHECK(r.out == e.out, "%s prints\n%sand%s prints\n%s", show(given).c_str(), r.out.c_str(), show(c).c_str(), e.out.c_str());
}
static Words tool_words(mc::Ctx& ctx, const Words& A, int max, bool* m) { Words w; int tail = ctx.choose(3), n = ctx.choose(max + 1); *m = true; for (int i = 0; i < n; ++i) { w.push_back(ctx.pick(A)); if (i == 1 && !ctx.mine()) { *m = false; return w; } } if (n < 2 && !ctx.mine()) *m = false; if (tail) w.push_back("R"); if (tail == 2) w.push_back("H"); return w; }
MC_FAMILY(C20_tool, "the tool: every sequence of up to 4 (thorough: 5) of 13 words, followed by nothing, the references, or both files") {
  static const Words A = {"--sort", "asc", "--collapse_matches", "false", "--bootstrap_samples", "5", "--", "R", "--bogus", "-x", "--help", "", "-1"}; bool m; Words w = tool_words(ctx, A, ctx.bound(4, 5), &m); if (m) tool_line(ctx, w);
}
MC_FAMILY(C20_tool_paths, "the tool: some 2000 odd names (every byte, marks, quotes, signs, words of other formats) for each of the 7 files it is given and for all of them: the results and files of plain names") {
  static const auto& N = e2e::odd_names(); const std::string& n = N[ctx.choose((int)N.size())]; if (!ctx.mine()) return; int who = ctx.choose(8); if (n.find('/') != std::string::npos || n.find('\0') != std::string::npos || n == "." || n == "..") return;
  data(); static bool in = false; static const Words plain = {"ref.txt", "hyp.txt", "set.txt", "grp.txt", "o1.txt", "o2.txt", "o3.txt"}; static std::string GT = "G a b\nH b c\n", QT = "a c\n"; static Result want[2]; static std::string files[2][3];
  if (!in) { const char* v = getenv("VERIF_SCRATCH"); std::string d = std::string(v ? v : "/tmp") + "/w" + std::to_string(getpid()); CHECK(mkdir(d.c_str(), 0700) == 0 && chdir(d.c_str()) == 0, "no scratch directory"); }
  auto put = [](const std::string& f, const std::string& s) { FILE* o = fopen(f.c_str(), "w"); if (!o) return false; fwrite(s.data(), 1, s.size(), o); fclose(o); return true; };
  auto get = [](const std::string& f) { std::string s; FILE* o = fopen(f.c_str(), "r"); if (!o) return std::string(kNone); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, o)) > 0) s.append(b, k); fclose(o); return s; };
  auto once = [&](const Words& f, bool grp, Result* r, std::string* out) {
    bool ok = put(f[0], RT) && put(f[1], HT) && put(f[2], QT) && put(f[3], GT); if (!ok) return false;
    Words w = {"--dump_matches", f[4], "--output_grp", f[5], "--output_mrp", f[6], "--rp_curve_samples", "5"}; if (grp) { w.push_back("--query_groups"); w.push_back(f[3]); } else { w.push_back("--query_set"); w.push_back(f[2]); } w.insert(w.end(), {"--", f[0], f[1]});
    *r = e2e::run(w); for (int i = 0; i < 3; ++i) out[i] = get(f[4 + i]); for (auto& x : f) unlink(x.c_str()); return true; };
  if (!in) { in = true; for (int g = 0; g < 2; ++g) { once(plain, g, &want[g], files[g]); CHECK(want[g].status == 0, "plain names: status %d: %s", want[g].status, want[g].err.c_str()); } }
  Words f = plain; if (who < 7) f[who] = n; else for (auto& x : f) x = n + x; const bool grp = who == 3 || who == 7; ctx.state(mc::hash_str(n, who)); ctx.say("names:%s", show(f).c_str());
  Result r; std::string o[3]; if (!once(f, grp, &r, o)) return; ctx.compared(); CHECK(r.status == 0, "the files%s: status %d: %s", show(f).c_str(), r.status, r.err.c_str()); CHECK(r.out == want[grp].out, "the files%s: prints\n%s, with plain names\n%s", show(f).c_str(), r.out.c_str(), want[grp].out.c_str());
  for (int i = 0; i < 3; ++i) CHECK(o[i] == files[grp][i], "the files%s: output %d is another one", show(f).c_str(), i);
}
MC_FAMILY(C20_tool_options, "the tool: every ordered pair of the 17 options with each of 7 values or none, before both files") {
  static const Words V = {"true", "0", "", "3", "-2", "x", "0.5"}; int a = ctx.choose(17), b = ctx.choose(17), va = ctx.choose(8), vb = ctx.choose(8); if (!ctx.mine()) return;
  for (int k : {a, b}) if (kOpts[k].second == S && kOpts[k].first != "sort") return;                 // files: elsewhere
  for (int k : {a, b}) if (kOpts[k].first == "rp_curve_samples" || kOpts[k].first == "bootstrap_seed") {} Words w; w.push_back("--" + kOpts[a].first); if (va < 7) w.push_back(V[va]); w.push_back("--" + kOpts[b].first); if (vb < 7) w.push_back(V[vb]);
  // keep the replicates few
  if (!(a == opt("bootstrap_samples") || b == opt("bootstrap_samples"))) { w.insert(w.begin(), "4"); w.insert(w.begin(), "--bootstrap_samples"); } w.push_back("R"); w.push_back("H"); tool_line(ctx, w);
}
MC_FAMILY(C20_tool_near, "the tool: every beginning and end of the 17 option names, and the names with a character left out, in the other case or exchanged with its neighbour, with one to three dashes and a value or none: accepted exactly when it is a name") {
  static std::vector<Words> N; if (N.empty()) for (auto& o : kOpts) N.push_back(near(o.first, false)); int k = ctx.choose(17), v = ctx.choose(2); if (!ctx.mine()) return; std::string n = N[k][ctx.choose((int)N[k].size())]; int d = ctx.choose(3); Words w = {"--bootstrap_samples", "4", std::string(d + 1, '-') + n}; if (v) w.push_back(kOpts[k].second == B ? "false" : kOpts[k].second == D ? "0.5" : kOpts[k].first == "sort" ? "asc" : "5");
  if (kOpts[k].second == S && kOpts[k].first != "sort") { bool name = false; for (auto& o : kOpts) name |= o.first == n; if (name) return; } w.push_back("R"); w.push_back("H"); tool_line(ctx, w);
}
MC_FAMILY(C20_tool_orders, "the tool: every order of 5 options in 4 spellings, the last value of each winning") {
  std::vector<Words> W = {{"--sort", "asc"}, {"--collapse_matches", "false"}, {"--interpolated_precision", "0"}, {"--trapezoid_integral", "false"}, {"--sort", "none"}}, T = {{"--sort", "none"}, {"--collapse_matches"}, {"--interpolated_precision"}, {"--trapezoid_integral", "0"}, {"--collapse_matches", "0"}};
  std::vector<int> left = {0, 1, 2, 3, 4}; Words w; int v = ctx.choose(4); while (!left.empty()) { int k = ctx.choose((int)left.size()), i = left[k]; left.erase(left.begin() + k); auto& x = (v >> (i & 1) & 1) ? T[i] : W[i]; w.insert(w.end(), x.begin(), x.end()); } bool dash = ctx.flip(); if (!ctx.mine()) return; if (dash) w.push_back("--"); else if (w.back() == "--collapse_matches" || w.back() == "--interpolated_precision") w.push_back("true"); w.push_back("R"); w.push_back("H"); tool_line(ctx, w);
}
// ---- C21, the effect of the options of the tools ------------------------------
static Result go(mc::Ctx& ctx, Words w) { data(); w.push_back(e2e::f_ref.path); w.push_back(e2e::f_hyp.path); Result r = e2e::run(w); ctx.compared(); CHECK(r.status == 0 && e2e::parse(r.out).ok, "the tool fails with%s: %s", show(w).c_str(), r.err.c_str()); return r; }
MC_FAMILY(C21_tool_switches, "the tool: every combination of collapse, interpolation, trapezoid (each in 6 spellings or not given) and sort (4): the results of the same values in other spellings agree, those of different values differ") {
  static const char* const N[3] = {"--collapse_matches", "--interpolated_precision", "--trapezoid_integral"}; static const std::vector<Words> SP = {{}, {"true"}, {"1"}, {""}, {}, {"false"}, {"0"}}; Words w; std::string key; Words c;
  int so = ctx.choose(4); static const char* const SO[] = {"", "desc", "asc", "none"}; for (int i = 0; i < 3; ++i) { int k = ctx.choose(7); bool on = k < 5; if (i == 1 && !ctx.mine()) return; if (k) { w.push_back(N[i]); w.insert(w.end(), SP[k].begin(), SP[k].end()); if (k == 4) { w.push_back("--rp_curve_samples"); w.push_back("5"); } } c.push_back(N[i]); c.push_back(on ? "true" : "false"); key += on ? '1' : '0'; }
  if (so) { w.push_back("--sort"); w.push_back(SO[so]); } c.push_back("--sort"); c.push_back(so ? SO[so] : "desc"); ctx.state(mc::hash_str(show(w)));
  const Result& e = canonical(ctx, c); Result r = go(ctx, w); CHECK(r.out == e.out, "%s prints\n%sand%s prints\n%s", show(w).c_str(), r.out.c_str(), show(c).c_str(), e.out.c_str());
  for (int i = 0; i < 4; ++i) { Words d = c; if (i < 3) d[2 * i + 1] = d[2 * i + 1] == "true" ? "false" : "true"; else d[7] = d[7] == "desc" ? "asc" : d[7] == "asc" ? "none" : "desc"; if (i == 2 && d[3] == "true" && (d[1] == "false" || d[7] != "desc")) continue;      // there both rules give the same on these data
    CHECK(canonical(ctx, d).out != e.out, "%s has no effect with%s:\n%s", i < 3 ? N[i] : "--sort", show(c).c_str(), e.out.c_str()); }
}
static size_t nlines(const std::string& s) { return std::count(s.begin(), s.end(), '\n'); }
MC_FAMILY(C21_tool_curves, "the tool: --rp_curve_samples 0 to 400 and around powers of ten, or not given: both curve files have that many lines (none below two), the default being 10000") {
  int k = ctx.choose(420); bool both = ctx.flip(); if (!ctx.mine()) return; static const int X[] = {999, 1000, 1001, 4096, 9999, 10000, 10001, 12345, 20000, 777}; int n = k <= 400 ? k : k < 411 ? X[k - 401] : 10000; data(); f_o1.set(""); f_o2.set(""); ctx.state(k * 2 + both);
  Words w; if (k < 411) { w = {"--rp_curve_samples", k % 3 ? std::to_string(n) : "+" + std::to_string(n)}; } w.push_back("--output_grp"); w.push_back(f_o1.path); if (both) { w.push_back("--output_mrp"); w.push_back(f_o2.path); } go(ctx, w); size_t want = n < 2 ? 0 : n;
  CHECK(nlines(f_o1.get()) == want, "the global curve has %zu lines, must have %zu", nlines(f_o1.get()), want); CHECK(nlines(f_o2.get()) == (both ? want : 0), "the mean curve has %zu lines, must have %zu", nlines(f_o2.get()), both ? want : 0);
}
MC_FAMILY(C21_tool_files, "the tool: every subset of the 5 file options, in 2 orders, naming a file or nothing: exactly the named ones are read and written") {
  int mask = ctx.choose(32), empty = ctx.choose(32); bool rev = ctx.flip(); if (!ctx.mine()) return; if (mask & empty) return; data(); f_q.set("a\nb\n"); f_g.set("g a\nh b\n"); f_o1.set(""); f_o2.set(""); f_o3.set(""); static const char* const N[5] = {"--query_set", "--query_groups", "--dump_matches", "--output_grp", "--output_mrp"}; MemFile* const M[5] = {&f_q, &f_g, &f_o3, &f_o1, &f_o2};
  ctx.state(mask * 64 + empty * 2 + rev); Words w; for (int j = 0; j < 5; ++j) { int i = rev ? 4 - j : j; if (mask >> i & 1) { w.push_back(N[i]); w.push_back(M[i]->path); } if (empty >> i & 1) { w.push_back(N[i]); w.push_back(""); } } Result r = go(ctx, w);
  for (int i = 2; i < 5; ++i) CHECK(M[i]->get().empty() == !(mask >> i & 1), "%s: %zu bytes written", N[i], M[i]->get().size()); CHECK(f_q.get() == "a\nb\n" && f_g.get() == "g a\nh b\n", "a query file was written");
  std::string base = canonical(ctx, {}).out; CHECK((r.out != base) == ((mask & 3) != 0), "the query options %s the results", r.out != base ? "change" : "do not change");
}
MC_FAMILY(C21_tool_bootstrap, "the tool: samples, seed and alpha given with their documented defaults, partly or not at all, give the same intervals; other values do not") {
  int g = ctx.choose(8), ci = 1 + ctx.choose(15), other = ctx.choose(4); if (!ctx.mine()) return; ctx.state(g * 64 + ci * 4 + other); Words w, c; static const char* const V[3][2] = {{"10000", "10007"}, {"74565", "74566"}, {"0.05", "0.5"}}; static const char* const N[3] = {"--bootstrap_samples", "--bootstrap_seed", "--bootstrap_alpha"};
  for (int i = 6; i < 10; ++i) if (ci >> (i - 6) & 1) { w.push_back("--" + kOpts[i].first); w.push_back("true"); } c = w;
  for (int i = 0; i < 3; ++i) { bool o = other == i + 1; if ((g >> i & 1) || o) { w.push_back(N[i]); w.push_back(V[i][o]); } if (o) { c.push_back(N[i]); c.push_back(V[i][1]); } }
  Result r = go(ctx, w); const Result& e = canonical(ctx, c); CHECK(r.out == e.out, "%s prints\n%sand%s prints\n%s", show(w).c_str(), r.out.c_str(), show(c).c_str(), e.out.c_str());
  e2e::Printed p = e2e::parse(r.out); for (int k = 0; k < 4; ++k) { static const int of[4] = {0, 1, 2, 3}; CHECK(p.ci[k] == ((ci >> of[k] & 1) != 0), "%s %s an interval", e2e::kNames[k], p.ci[k] ? "has" : "does not have"); }
}
MC_FAMILY(C21_tool_alpha, "the tool: 24 values of alpha in ascending order, 6 numbers of replicates, 4 seeds: each is acted on as given (in other spellings the same), so that no interval is wider than that of a smaller alpha, and without replicates or with alpha 1 and one replicate it is a point") {
  static const char* const A[24] = {"0", "1e-9", "0.001", "0.01", "0.02", "0.05", "0.1", "0.15", "0.2", "0.25", "0.3", "0.4", "0.5", "0.6", "0.7", "0.75", "0.8", "0.9", "0.95", "0.98", "0.99", "0.999", "0.999999", "1"};
  static const std::vector<Words> OTHER = {{"0", "0.0"}, {"0.5", ".5"}, {"0.5", "5e-1"}, {"1", "1.0"}, {"1", "+1"}, {"1", "1e0"}, {"0.05", "0.0500"}, {"0.25", "25e-2"}, {"0.01", "1e-2"}, {"0.99", "99e-2"}};
  static const char* const R[] = {"0", "1", "2", "20", "101", "500"}; static const char* const SD[] = {"0", "1", "74565", "18446744073709551615"}; int r = ctx.choose(6), sd = ctx.choose(4); if (!ctx.mine()) return; ctx.state(r * 4 + sd);
  auto ask = [&](const char* a) { Words w = {"--bootstrap_samples", R[r], "--bootstrap_seed", SD[sd], "--bootstrap_alpha", a}; for (int i = 6; i < 10; ++i) { w.push_back("--" + kOpts[i].first); w.push_back("true"); } return go(ctx, w); };
  e2e::Printed last; for (int i = 0; i < 24; ++i) { e2e::Printed p = e2e::parse(ask(A[i]).out); for (int k = 0; k < 4; ++k) { CHECK(p.ci[k], "%s has no interval with alpha %s", e2e::kNames[k], A[i]); if (i) CHECK(p.lo[k] >= last.lo[k] - 1e-9 && p.hi[k] <= last.hi[k] + 1e-9, "%s: the interval is [%g, %g] with alpha %s and [%g, %g] with %s (%s replicates, seed %s)", e2e::kNames[k], p.lo[k], p.hi[k], A[i], last.lo[k], last.hi[k], A[i - 1], R[r], SD[sd]); if (r < 2) CHECK(p.lo[k] == p.hi[k], "%s: %s replicates give the interval [%g, %g]", e2e::kNames[k], R[r], p.lo[k], p.hi[k]); } last = p; }
  for (auto& o : OTHER) { Result x = ask(o[0].c_str()), y = ask(o[1].c_str()); CHECK(x.out == y.out, "alpha %s prints\n%sand %s prints\n%s", o[0].c_str(), x.out.c_str(), o[1].c_str(), y.out.c_str()); }
}
// ---- C27, the tools ----------------------------------------------------------
static void tool_help(mc::Ctx& ctx, const Result& r, const Words& values) {
  std::string all = r.out + "\n" + r.err; Words a = tokens(all); std::stringstream ss(all); std::string l; std::map<std::string, int> seen; size_t refs = 0, hyps = 0, n = 0; bool usage = false; std::vector<std::string> ls; while (std::getline(ss, l)) ls.push_back(l);
  for (size_t k = 0; k < ls.size(); ++k) {
    ++n; Words t = tokens(ls[k]); if (t.empty()) continue; int pt = -1, pr = -1, ph = -1; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == "tool" && pt < 0) pt = i; if (t[i] == "references") pr = i; if (t[i] == "hypotheses") ph = i; } if (pt >= 0 && pr > pt && ph > pr) usage = true;
    if (t[0] == "references") refs = n; if (t[0] == "hypotheses") hyps = n; if (t[0].compare(0, 2, "--")) continue;
    int o = -1; for (size_t i = 0; i < kOpts.size(); ++i) if (t[0] == "--" + kOpts[i].first) o = (int)i; if (o < 0) { CHECK(t[0] == "--help" || t[0] == "--", "%s is listed", t[0].c_str()); continue; } seen[kOpts[o].first]++;
    for (size_t j = k + 1; j < ls.size(); ++j) { Words u = tokens(ls[j]); if (u.empty() || u[0].compare(0, 2, "--") == 0) break; t.insert(t.end(), u.begin(), u.end()); }
    if (kOpts[o].second == U64 || kOpts[o].second == B || kOpts[o].second == S) CHECK(count(t, kType[kOpts[o].second]) >= 1, "the type of --%s is not shown: %s", kOpts[o].first.c_str(), ls[k].c_str()); CHECK(values[o].empty() || count(t, values[o]) >= 1, "the value of --%s (%s) is not shown: %s", kOpts[o].first.c_str(), values[o].c_str(), ls[k].c_str()); CHECK(t.size() > 4, "--%s has no help: %s", kOpts[o].first.c_str(), ls[k].c_str());
  }
  CHECK(usage, "no line names the program and its two arguments:\n%s", all.c_str()); CHECK(refs && hyps > refs, "the arguments are not listed in order:\n%s", all.c_str()); for (auto& o : kOpts) CHECK(seen[o.first] == 1, "--%s is listed %d times:\n%s", o.first.c_str(), seen[o.first], all.c_str());
}
static const std::vector<Words> kSet = {{"--sort", "asc"}, {"--collapse_matches", "false"}, {"--bootstrap_ci_map"}, {"--bootstrap_samples", "77"}, {"--bootstrap_alpha", "0.125"}, {"--query_set", "nofile"}, {"--rp_curve_samples", "4321"}, {"--dump_matches", "/nonexistent/d"}, {"--trapezoid_integral", "0"}, {"--output_grp", "--help"}};
MC_FAMILY(C27_tool_help, "the tool: every sequence of up to 3 (thorough: 4) of 10 option settings with --help at every place, once or twice, and 4 endings: the text, status 0, no results, nothing else looked at") {
  int n = ctx.choose(ctx.bound(4, 5)); std::vector<int> k; for (int i = 0; i < n; ++i) { k.push_back(ctx.choose(10)); } int at = ctx.choose(n + 1), end = ctx.choose(4); bool twice = ctx.flip(); if (!ctx.mine()) return; data(); Words w, v = kDefault; for (int i = 0; i <= n; ++i) { if (i == at) w.push_back("--help"); if (i < n) { w.insert(w.end(), kSet[k[i]].begin(), kSet[k[i]].end()); int o = opt(kSet[k[i]][0].substr(2)); v[o] = kSet[k[i]].size() > 1 ? kSet[k[i]][1] : "true"; if (v[o] == "0") v[o] = "false"; } }
  if (twice) w.push_back("--help"); if (end == 1) w.push_back("--"); if (end >= 2) { if (w.back() == "--bootstrap_ci_map") w.push_back("true"); w.push_back(end == 2 ? "/nonexistent/r" : e2e::f_ref.path); if (end == 3) { w.push_back(e2e::f_hyp.path); } } ctx.state(mc::hash_str(show(w)));
  for (auto& x : v) if (x == "--help") x = "--help"; ctx.say("%s", show(w).c_str()); Result r = e2e::run(w); ctx.compared(); CHECK(r.status == 0, "%s: status %d", show(w).c_str(), r.status); CHECK(!results(r.out), "%s: results are printed", show(w).c_str()); for (auto& x : v) if (x[0] == '/') x = ""; tool_help(ctx, r, v);
}
MC_FAMILY(C27_tool_refused, "the tool: every sequence of up to 3 of 10 option settings with one of 8 mistakes at every place: the text, status 1, no results") {
  static const std::vector<Words> BAD = {{"--bogus"}, {"-h"}, {"--sort"}, {"--collapse_matches", "maybe"}, {"--bootstrap_samples", "x"}, {"--bootstrap_alpha", ""}, {}, {"--", "a", "b", "c"}};
  int n = ctx.choose(4), bad = ctx.choose(8); std::vector<int> k; for (int i = 0; i < n; ++i) k.push_back(ctx.choose(9)); int at = bad == 2 || bad >= 6 ? n : ctx.choose(n + 1); if (!ctx.mine()) return; data(); Words w; for (int i = 0; i <= n; ++i) { if (i == at) w.insert(w.end(), BAD[bad].begin(), BAD[bad].end()); if (i < n) w.insert(w.end(), kSet[k[i]].begin(), kSet[k[i]].end()); }
  if (bad < 6 && bad != 2) { w.push_back("--"); w.push_back(e2e::f_ref.path); w.push_back(e2e::f_hyp.path); } ctx.state(mc::hash_str(show(w))); ctx.say("%s", show(w).c_str()); Result r = e2e::run(w); ctx.compared(); CHECK(r.status == 1, "%s: status %d, must be 1", show(w).c_str(), r.status); CHECK(!results(r.out), "%s: results are printed", show(w).c_str()); tool_help(ctx, r, Words(kOpts.size(), ""));
}
