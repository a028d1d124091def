// C32: numbers to text and back, TextFormat and TextParser: enumerated numbers, patterns and inputs against reference models
#include "lightspeed/base/text/toString.tcc"
#include "lightspeed/base/text/textFormat.tcc"
#include "lightspeed/base/text/textParser.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/invalidNumberFormat.h"
#include "seq.h"
#include <vector>
#include <functional>
#include <string.h>
#include <math.h>
#include <limits>
using namespace LightSpeed;
typedef std::string S;
static S str(ConstStrA a) { return S(a.data(), a.length()); }
static S nar(ConstStrW a) { S r; for (natural i = 0; i < a.length(); i++) r += (char)a[i]; return r; }
// ---------------- numbers
typedef __int128 I;
static S refnum(I v, int base, bool up) { if (v == 0) return "0"; bool neg = v < 0; if (neg) v = -v; S r; while (v) { int d = (int)(v % base); r = S(1, d < 10 ? '0' + d : d < 36 ? (up ? 'A' : 'a') + d - 10 : 'a' + d - 36) + r; v /= base; } return neg ? "-" + r : r; }
static bool digits(const S &s, int base, bool neg, I lo, I hi, I &v) { if (s.empty()) return false; v = 0; for (char c : s) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; if (d >= base) return false; v = v * base + d; if (v > ((I)1 << 100)) v = (I)1 << 100; } if (neg) v = -v; return v >= lo && v <= hi; }
template<typename T> static bool refparse(const S &s, int base, I &v) { I lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); if (!s.empty() && s[0] == '+') return digits(s.substr(1), base, false, lo, hi, v); if (std::numeric_limits<T>::is_signed && !s.empty() && s[0] == '-') return digits(s.substr(1), base, true, lo, hi, v); return digits(s, base, false, lo, hi, v); }
template<typename T, bool sgn = std::numeric_limits<T>::is_signed> struct Conv { static T strict(ConstStrA s, int b) { return _intr::stringToSignedNumber<T>(s, b); } static bool lax(ConstStrA s, T &v, int b) { return parseSignedNumber(s.getFwIter(), v, (natural)b); } };
template<typename T> struct Conv<T, false> { static T strict(ConstStrA s, int b) { return _intr::stringToUnsignedNumber<T>(s, b); } static bool lax(ConstStrA s, T &v, int b) { return parseUnsignedNumber(s.getFwIter(), v, (natural)b); } };
template<typename T> static void text2num(const S &s, int base, const char *tn) { I v = 0; bool ok = refparse<T>(s, base, v); bool got = true; T r = 0; S w = s; ConstStrA a(w.data(), w.size()); try { r = Conv<T>::strict(a, base); } catch (InvalidNumberFormatException &) { got = false; }
	SQ_ASSERT(ok == got, "%s in base %d as %s is %s", sq::show(s).c_str(), base, tn, got ? "accepted" : "refused"); if (ok) SQ_ASSERT((I)r == v, "%s in base %d as %s gives %s", s.c_str(), base, tn, refnum(r, 10, false).c_str());
	if (ok && (std::numeric_limits<T>::is_signed || s[0] != '+')) { T q = 5; bool k = Conv<T>::lax(a, q, base); SQ_ASSERT(k && (I)q == v, "%s in base %d parsed as %s gives %s", s.c_str(), base, tn, k ? refnum(q, 10, false).c_str() : "nothing"); }
	else if (!ok && std::numeric_limits<T>::is_signed) { T q = 5; I x; if (Conv<T>::lax(a, q, base)) { bool pre = false; for (size_t n = s.size(); n && !pre; n--) pre = refparse<T>(s.substr(0, n), base, x) && (I)q == x; SQ_ASSERT(pre, "%s in base %d parsed as %s gives %s, which is no part of it", s.c_str(), base, tn, refnum(q, 10, false).c_str()); } } }
static void parseAll(const S &s, int base) { text2num<int>(s, base, "int"); text2num<unsigned>(s, base, "unsigned int"); text2num<long>(s, base, "long"); text2num<unsigned long>(s, base, "unsigned long"); text2num<long long>(s, base, "long long"); text2num<unsigned long long>(s, base, "unsigned long long"); }
static void format(I v, int base) { char b[100]; S up = refnum(v, base, true), lo = refnum(v, base, false); I x;
	if (v >= std::numeric_limits<long>::min() && v <= std::numeric_limits<long>::max()) { if (base <= 36) { ToString<integer> a((integer)v, base, true), c((integer)v, base); SQ_ASSERT(str(a) == up && str(c) == lo, "ToString of %s in base %d gives %s and %s", refnum(v, 10, false).c_str(), base, str(a).c_str(), str(c).c_str()); SQ_ASSERT(a.data()[a.length()] == 0, "not terminated"); ToString<integer, wchar_t> w((integer)v, base); SQ_ASSERT(nar(w) == lo, "wide ToString of %s is %s", lo.c_str(), nar(w).c_str()); }
		S g = str(_intr::numberToString<long>((long)v, b, 100, base)); SQ_ASSERT(g == up, "%s is formatted as %s", up.c_str(), g.c_str()); }
	if (v >= 0 && v <= std::numeric_limits<unsigned long>::max()) { if (base <= 36) { ToString<natural> a((natural)v, base, true), c((natural)v, base); SQ_ASSERT(str(a) == up && str(c) == lo, "unsigned ToString of %s in base %d gives %s and %s", refnum(v, 10, false).c_str(), base, str(a).c_str(), str(c).c_str()); }
		S g = str(_intr::numberToString<unsigned long>((unsigned long)v, b, 100, base)); SQ_ASSERT(g == up, "unsigned %s is formatted as %s", up.c_str(), g.c_str()); }
	if (v >= std::numeric_limits<int>::min() && v <= std::numeric_limits<int>::max()) { S g = str(_intr::numberToString<int>((int)v, b, 100, base)); SQ_ASSERT(g == up, "int %s is formatted as %s", up.c_str(), g.c_str()); }
	if (v >= 0 && v <= std::numeric_limits<unsigned>::max()) { S g = str(_intr::numberToString<unsigned>((unsigned)v, b, 100, base)); SQ_ASSERT(g == up, "unsigned int %s is formatted as %s", up.c_str(), g.c_str()); }
	(void)x; }
SQ_SCENARIO(small_numbers, 2000, 40000) { int base = 2 + sq::choose(61); for (int v = -sq::depth(); v <= sq::depth(); v++) { format(v, base); if (base <= 36 && v % 7 == 0) { parseAll(refnum(v, base, v & 1), base); } } sq::outcome(base); }
SQ_SCENARIO(boundary_numbers, 12, 200) { int base = 2 + sq::choose(61); int bit = sq::choose(65); I c = (I)1 << bit; for (int d = -sq::depth(); d <= sq::depth(); d++) for (int s = -1; s <= 1; s += 2) { I v = s * (c + d); format(v, base); if (base <= 36) { S t = refnum(v, base, d & 1); parseAll(t, base); if (v >= 0) parseAll("+" + t, base); parseAll("000" + refnum(v < 0 ? -v : v, base, false), base); } }
	if (base <= 36) { I p = 1; for (int k = 0; k < 66 && p < ((I)1 << 70); k++, p *= base) for (int d = -2; d <= 2; d++) parseAll(refnum(p + d, base, false), base); } sq::outcome(base * 100 + bit); }
SQ_SCENARIO(number_texts, 5, 6) { static const char al[] = "019aFzZ+- "; static const int bases[] = {2, 10, 16, 36}; int base = bases[sq::choose(4)]; int n = sq::choose(sq::depth() + 1); S s; for (int i = 0; i + 2 < n; i++) s += al[sq::choose(10)]; if (n < 2) { if (n == 0) parseAll(s, base); else for (int i = 0; i < 10; i++) parseAll(s + al[i], base); return; } for (int i = 0; i < 10; i++) for (int j = 0; j < 10; j++) parseAll(s + al[i] + al[j], base); }
static const double dbl[] = {0, 1, -1, 0.5, 1.0 / 3, -2.0 / 3, 1e10, 123456789.125, 1e-10, 1e100, -1e300, 1.7e308, 5e-324, 1e15, 999999.9999999, 0.1, 65536, 1e22};
SQ_SCENARIO(real_numbers, 40, 260) { double v = dbl[sq::choose(sizeof(dbl) / sizeof(*dbl))]; int p = sq::choose(sq::depth()); bool sci = sq::choose(2); static char b[2000]; snprintf(b, sizeof b, sci ? "%.*E" : "%.*f", p, v); S r = b; { ToString<double> t(v, p, sci); SQ_ASSERT(str(t) == r, "%g with %d decimals is %s instead of %s", v, p, str(t).c_str(), r.c_str()); ToString<double, wchar_t> w(v, p, sci); SQ_ASSERT(nar(w) == r, "wide form %s", nar(w).c_str()); }
	TextFormatBuff<char> f; if (sci) f.setSci(p); else f.setPrecision(p); f("[%1]") << v; S g = str(f.write()); SQ_ASSERT(g == "[" + r + "]", "formatted %s instead of %s", g.c_str(), r.c_str());
	{ snprintf(b, sizeof b, "%g", v); ToString<double> t(v); SQ_ASSERT(str(t) == b, "%g is %s", v, str(t).c_str()); if (p) { snprintf(b, sizeof b, "%.*g", p, v); ToString<double> u(v, -p); SQ_ASSERT(str(u) == b, "%g with %d digits is %s", v, p, str(u).c_str()); } } if (fabs(v) < 1e38) { float x = (float)v; snprintf(b, sizeof b, sci ? "%.*E" : "%.*f", p, (double)x); ToString<float> t(x, p, sci); SQ_ASSERT(str(t) == b, "float %g with %d decimals is %s", v, p, str(t).c_str()); } sq::outcome(r.size()); }
// ---------------- TextFormat
struct Fm { const char *txt; int w; char fill; bool right, force, between; };
static const Fm fmts[] = { {"", 0, 0, false, false, false}, {"{5}", 5, ' ', false, false, false}, {"{-5}", 5, ' ', true, false, false}, {"{+5}", 5, ' ', true, true, false}, {"{05}", 5, '0', true, false, false}, {"{-05}", 5, '0', true, false, true}, {"{+05}", 5, '0', true, true, true}, {"{x4}", 4, 'x', true, false, false}, {"{*12}", 12, '*', true, false, false}, {"{1}", 1, ' ', false, false, false}, {"{+1}", 1, ' ', true, true, false} };
enum { NF = sizeof(fmts) / sizeof(*fmts), NK = 11 };
template<typename T> static S out(const AutoArray<T> &a) { S r; for (natural i = 0; i < a.length(); i++) r += (char)a[i]; return r; }
static S layout(const Fm &f, const S &t) { if (!f.w) return t; S sign, body = t; if (f.force || (!t.empty() && t[0] == '-')) { if (!t.empty() && (t[0] == '-' || t[0] == '+')) { sign = t.substr(0, 1); body = t.substr(1); } else sign = "+"; } size_t len = sign.size() + body.size(); S pad(len < (size_t)f.w ? f.w - len : 0, f.fill); if (!f.right) return sign + body + pad; return f.between ? sign + pad + body : pad + sign + body; }
// one argument of the kind k; returns its text
template<typename T> struct Lit; template<> struct Lit<char> { static const char *a() { return "direct"; } static const char *n() { return ""; } static const char *m() { return "-ab"; } }; template<> struct Lit<wchar_t> { static const wchar_t *a() { return L"direct"; } static const wchar_t *n() { return L""; } static const wchar_t *m() { return L"-ab"; } };
template<typename T, typename F> static S arg(F &f, int k, int i) { static char cs[3][8]; switch (k) {
	case 0: f << Lit<T>::a(); return "direct"; case 1: f << Lit<T>::n(); return ""; case 2: f << (int)(-7 - i); return refnum(-7 - i, 10, false); case 3: f << (natural)(1234567 + i); return refnum(1234567 + i, 10, false);
	case 4: f << (char)('k' + i); return S(1, 'k' + i); case 5: snprintf(cs[i], 8, "c%d", i); f << (const char *)cs[i]; { S r = cs[i]; if (sizeof(T) > 1) strcpy(cs[i], "gone"); return r; } case 6: f << L"wide"; return "wide"; case 7: f << L""; return "";
	case 8: f << Lit<T>::m(); return "-ab"; case 9: f << (linteger)(5 + i); return refnum(5 + i, 10, false); case 10: f << std::string("std") /* copied or kept */; return "std"; } return ""; }
template<typename T> static void formatting(const std::vector<int> &toks, int nargs, const int *kinds, TextFormatBuff<T> &f) { S pat; S want; S a[3]; static char keep[256]; struct Tk { int f, i; }; 
	for (size_t i = 0; i < toks.size(); i++) { int t = toks[i]; if (t == 0) pat += "z"; else if (t == 1) pat += "%%"; else if (t == 2) pat += "\n"; else if (t == 3) pat += "2"; else { t -= 4; pat += S("%") + fmts[t / 4].txt + (char)('1' + t % 4); if (i + 1 < toks.size() && (toks[i + 1] == 1 || toks[i + 1] >= 3)) pat += '%'; } }
	strcpy(keep, pat.c_str()); f.setNL(ConstStringT<T>(Lit<T>::m())); f((const char *)keep); for (int i = 0; i < nargs; i++) a[i] = arg<T>(f, kinds[i], i);
	for (int t : toks) { if (t == 0) want += "z"; else if (t == 1) want += "%"; else if (t == 2) want += "-ab"; else if (t == 3) want += "2"; else { t -= 4; want += layout(fmts[t / 4], t % 4 < nargs ? a[t % 4] : S()); } }
	S got = out<T>(f.write()); SQ_ASSERT(got == want, "pattern %s with [%s] [%s] [%s] gives %s instead of %s", sq::show(pat).c_str(), a[0].c_str(), a[1].c_str(), a[2].c_str(), sq::show(got).c_str(), sq::show(want).c_str()); sq::outcome(got); }
static const int someKinds[] = {0, 2, 5, 7, 4};
static void formatPair(int n, const int *kinds, int nargs) { std::vector<int> t; for (int i = 0; i + 1 < n; i++) t.push_back(sq::choose(4 + NF * 4)); TextFormatBuff<char> f; TextFormatBuff<wchar_t> g; t.push_back(0); for (int x = 0; x < 4 + NF * 4; x++) { t.back() = x; formatting<char>(t, nargs, kinds, f); formatting<wchar_t>(t, nargs, kinds, g); } }
SQ_SCENARIO(format_one_field, 3, 3) { int nargs = sq::choose(sq::depth() + 1); int k[3]; for (int i = 0; i < nargs; i++) k[i] = sq::choose(NK); formatPair(1, k, nargs); }
SQ_SCENARIO(format_patterns, 2, 3) { int k[3]; for (int i = 0; i < 3; i++) k[i] = someKinds[sq::choose(sq::thorough() ? 3 : 5)]; formatPair(sq::depth(), k, 3); }
SQ_SCENARIO(format_bases, 2000, 20000) { int base = 2 + sq::choose(61); TextFormatBuff<char> f; TextFormatBuff<wchar_t> g(StdAlloc::getInstance()); f.setBase(base); g.setBase(base); for (int v = -sq::depth(); v < sq::depth(); v += 37) { f("%1 %2 %3 %4") << v << (linteger)(v * 1000000007L) << (unsigned)v << (natural)(integer)v; S w = refnum(v, base, true) + " " + refnum((I)v * 1000000007LL, base, true) + " " + refnum((unsigned)v, base, true) + " " + refnum((natural)(integer)v, base, true), r = out<char>(f.write()); SQ_ASSERT(r == w, "base %d: %s instead of %s", base, r.c_str(), w.c_str()); g("%2,%1") << v << (linteger)v; w = refnum(v, base, true) + "," + refnum(v, base, true); r = out<wchar_t>(g.write()); SQ_ASSERT(r == w, "wide: base %d: %s instead of %s", base, r.c_str(), w.c_str()); } sq::outcome(base); }
// ---------------- TextParser
enum PK { STAR, LIST, LAZY, QUOTE, DNUM, UNUM, XNUM, ONUM, FNUM, IDENT };
struct Piece { PK k; const char *set; bool neg; size_t lo, hi; bool range; char esc; };      // range: the range is given here
struct Field { const char *txt; std::vector<Piece> p; };
static const size_t INF = (size_t)-1;
static std::vector<Field> fields() { std::vector<Field> f; auto add = [&](const char *t, std::vector<Piece> p) { f.push_back(Field{t, p}); };
	add("", {{STAR, 0, 0, 1, INF, false, 0}}); add("(*)", {{STAR, 0, 0, 0, INF, true, 0}}); add("(2,3)", {{STAR, 0, 0, 2, 3, true, 0}}); add("(0,*)*", {{STAR, 0, 0, 0, INF, true, 0}});
	add("[ab]", {{LIST, "ab", 0, 1, INF, false, 0}}); add("[^,]", {{LIST, ",", 1, 1, INF, false, 0}}); add("[^a-b]", {{LIST, "ab", 1, 1, INF, false, 0}}); add("(1,2)[a-z]", {{LIST, "abcdefghijklmnopqrstuvwxyz", 0, 1, 2, true, 0}}); add("(?)[-+]", {{LIST, "-+", 0, 0, 1, true, 0}}); add("(.)[^-]", {{LIST, "-", 1, 1, 1, true, 0}}); add("[,a-]", {{LIST, ",a-", 0, 1, INF, false, 0}}); add("[*a-z]", {{LAZY, "abcdefghijklmnopqrstuvwxyz", 0, 1, INF, false, 0}}); add("(0,2)[*^1]", {{LAZY, "1", 1, 0, 2, true, 0}}); add("(0,*)[*ab]", {{LAZY, "ab", 0, 0, INF, true, 0}});
	add("(0,1)[-+](+)[0-9]", {{LIST, "-+", 0, 0, 1, true, 0}, {LIST, "1", 0, 1, INF, true, 0}}); add("[ab]*", {{LIST, "ab", 0, 1, INF, false, 0}, {STAR, 0, 0, 1, INF, false, 0}}); add("[a]*[1]", {{LIST, "a", 0, 1, INF, false, 0}, {STAR, 0, 0, 1, INF, false, 0}, {LIST, "1", 0, 1, INF, false, 0}}); add("[0-9][*a-b]", {{LIST, "1", 0, 1, INF, false, 0}, {LAZY, "ab", 0, 1, INF, false, 0}});
	add("'aa", {{QUOTE, "a", 0, 0, 0, false, 'a'}}); add("qab", {{QUOTE, "a", 0, 0, 0, false, 'b'}});
	add("d", {{DNUM, 0, 0, 1, INF, false, 0}}); add("(1,2)d", {{DNUM, 0, 0, 1, 2, true, 0}}); add("u", {{UNUM, 0, 0, 1, INF, false, 0}}); add("x", {{XNUM, 0, 0, 1, INF, false, 0}}); add("o", {{ONUM, 0, 0, 1, INF, false, 0}}); add("f", {{FNUM, 0, 0, 1, INF, false, 0}}); add("i", {{IDENT, 0, 0, 1, INF, false, 0}}); add("(2,*)i", {{IDENT, 0, 0, 2, INF, true, 0}}); return f; }
static const std::vector<Field> &F() { static std::vector<Field> f = fields(); return f; }
struct Tok { int k; char c; int field, id; std::vector<std::vector<Tok> > alt; };   // k: 0 literal, 1 %%, 2 field, 3 open end, 4 alternatives, 5 escaped blank
struct St { S f[32]; bool set[32]; size_t pos; };
typedef std::function<bool(St &)> K;
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\b' || c == '\a'; }
static bool num(const S &s, size_t &p, size_t max, bool neg, int base, bool plus = true) { size_t i = p, n = 0; if (!max || i >= s.size()) return false; if ((s[i] == '-' && neg) || (s[i] == '+' && plus)) { i++; n++; } size_t st = i; while (n < max && i < s.size() && strchr("0123456789ABCDEFabcdef", s[i]) && s[i]) { int d = isdigit(s[i]) ? s[i] - '0' : toupper(s[i]) - 'A' + 10; if (d >= base) break; i++; n++; } if (i == st) return false; p = i; return true; }
static bool pieces(const std::vector<Piece> &ps, size_t i, size_t lo, size_t hi, const S &s, size_t pos, S acc, const std::function<bool(size_t, const S &)> &k) { if (i == ps.size()) return k(pos, acc); const Piece &p = ps[i]; if (p.range) { lo = p.lo; hi = p.hi; }
	auto in = [&](char c) { return (strchr(p.set, c) != 0) != p.neg; };
	switch (p.k) {
	case STAR: for (size_t n = 0; n <= hi && pos + n <= s.size(); n++) if (n >= lo && pieces(ps, i + 1, lo, hi, s, pos + n, acc + s.substr(pos, n), k)) return true; return false;
	case LAZY: for (size_t n = 0; n <= hi && pos + n <= s.size(); n++) { if (n && !in(s[pos + n - 1])) return false; if (n >= lo && pieces(ps, i + 1, lo, hi, s, pos + n, acc + s.substr(pos, n), k)) return true; } return false;
	case LIST: { size_t n = 0; while (n < hi && pos + n < s.size() && in(s[pos + n])) n++; return n >= lo && pieces(ps, i + 1, lo, hi, s, pos + n, acc + s.substr(pos, n), k); }
	case QUOTE: { size_t q = pos; S t; if (q >= s.size() || s[q] != p.set[0]) return false; q++; bool closed = false; while (q < s.size()) { char c = s[q++]; if (c == p.esc && p.esc != p.set[0]) { if (q >= s.size()) return false; t += s[q++]; } else if (c == p.set[0]) { if (p.esc == p.set[0] && q < s.size() && s[q] == c) { t += c; q++; } else { closed = true; break; } } else t += c; } if (!closed) sq::skip(); return pieces(ps, i + 1, lo, hi, s, q, acc + t, k); }
	case IDENT: { size_t n = 0; while (n < hi && pos + n < s.size() && (isalpha((unsigned char)s[pos + n]) || s[pos + n] == '_' || (n && isdigit((unsigned char)s[pos + n])))) n++; return n && n >= lo && pieces(ps, i + 1, lo, hi, s, pos + n, acc + s.substr(pos, n), k); }
	case FNUM: { size_t q = pos; if (!num(s, q, hi, true, 10)) return false; if (q < s.size() && s[q] == '.') { q++; if (!num(s, q, INF, false, 10, false)) return false; } if (q < s.size() && (s[q] == 'e' || s[q] == 'E')) { q++; if (!num(s, q, INF, true, 10)) return false; } return q - pos >= lo && pieces(ps, i + 1, lo, hi, s, q, acc + s.substr(pos, q - pos), k); }
	default: { size_t q = pos; if (!num(s, q, hi, p.k != UNUM, p.k == XNUM ? 16 : p.k == ONUM ? 8 : 10)) return false; return q - pos >= lo && pieces(ps, i + 1, lo, hi, s, q, acc + s.substr(pos, q - pos), k); } } }
static bool seqm(const std::vector<Tok> &t, size_t i, const S &s, St st, const K &k) { if (i == t.size()) return k(st); const Tok &x = t[i]; size_t &p = st.pos;
	switch (x.k) {
	case 0: switch (x.c) {
		case ' ': while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) p++; break;
		case '\t': if (p >= s.size() || (s[p] != ' ' && s[p] != '\t')) return false; while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) p++; break;
		case '\b': if (p >= s.size() || !ws(s[p])) return false; while (p < s.size() && ws(s[p])) p++; break;
		case '\n': if (p >= s.size() || s[p] != '\n') return false; p++; break;
		default: if (p >= s.size() || s[p] != x.c) return false; p++; } return seqm(t, i + 1, s, st, k);
	case 1: if (p >= s.size() || s[p] != '%') return false; p++; return seqm(t, i + 1, s, st, k);
	case 5: if (p >= s.size() || s[p] != x.c) return false; p++; return seqm(t, i + 1, s, st, k);
	case 3: p = INF; return k(st);
	case 2: return pieces(F()[x.field].p, 0, 1, INF, s, p, "", [&](size_t q, const S &v) { St n = st; n.pos = q; if (x.id) { n.f[x.id] = v; n.set[x.id] = true; } return seqm(t, i + 1, s, n, k); });
	case 4: for (size_t a = 0; a <= x.alt.size(); a++) { static const std::vector<Tok> none; if (seqm(a < x.alt.size() ? x.alt[a] : none, 0, s, st, [&](St &n) { if (n.pos == INF) return k(n); return seqm(t, i + 1, s, n, k); })) return true; } return false; }
	return false; }
static void render(const std::vector<Tok> &t, std::vector<S> &o) { for (const Tok &x : t) { switch (x.k) { case 0: o.push_back(S(1, x.c)); break; case 1: o.push_back("%%"); break; case 5: o.push_back(S("%") + x.c); break; case 2: o.push_back(S("\1%") + F()[x.field].txt + refnum(x.id, 10, false)); break; case 3: o.push_back("%"); break; case 4: for (size_t i = 0; i < x.alt.size(); i++) { o.push_back(i ? "%|" : "%<"); render(x.alt[i], o); } o.push_back("%>"); } } }
static S pattern(const std::vector<Tok> &t) { std::vector<S> o; render(t, o); S r; for (size_t i = 0; i < o.size(); i++) { if (o[i][0] == 1) { r += o[i].substr(1); if (i + 1 < o.size()) { char c = o[i + 1][o[i + 1][0] == 1 ? 1 : 0]; if (c == '%' || isdigit(c)) r += '%'; } } else r += o[i]; } return r; }
template<typename T> struct Text { std::vector<T> d; Text(const S &s):d(s.begin(), s.end()) { d.push_back(0); } ConstStringT<T> get() const { return ConstStringT<T>(&d[0], d.size() - 1); } };
template<typename T> static S field(const TextParser<T> &p, int i) { ConstStringT<T> r = p[i].str(); S o; for (natural j = 0; j < r.length(); j++) o += (char)r[j]; return o; }
struct ItSrc: public IteratorBase<char, ItSrc> { const S *s; size_t p; ItSrc(const S *s):s(s), p(0) {} bool hasItems() const { return p < s->size(); } const char &getNext() { if (p >= s->size()) throwIteratorNoMoreItems(THISLOCATION, typeid(char)); return (*s)[p++]; } const char &peek() const { return (*s)[p]; } void skip() { p++; } };
template<typename T> static bool run(TextParser<T> &p, ConstStringT<T> pat, const S &src, int mode);
template<> bool run<char>(TextParser<char> &p, ConstStrA pat, const S &src, int mode) { if (mode) { ItSrc i(&src); return p(pat, i); } return p(pat, ConstStrA(src.data(), src.size())); }
template<> bool run<wchar_t>(TextParser<wchar_t> &p, ConstStrW pat, const S &src, int) { Text<wchar_t> t(src); return p(pat, t.get()); }
template<typename T> static void against(const std::vector<Tok> &t, const S &pat, TextParser<T> &p, ConstStringT<T> tp, const S &src, int mode) { St st; for (int i = 0; i < 32; i++) st.set[i] = false; st.pos = 0; St res; bool want; try { want = seqm(t, 0, src, st, [&](St &n) { if (n.pos != INF && n.pos != src.size()) return false; res = n; return true; }); } catch (sq::Skip &) { return; }
	bool got = run<T>(p, tp, src, mode); SQ_ASSERT(got == want, "pattern %s %s %s", sq::show(pat).c_str(), got ? "accepts" : "refuses", sq::show(src).c_str()); if (!got) { return; }
	for (int i = 1; i < 32; i++) if (res.set[i]) { S v = field<T>(p, i); SQ_ASSERT(v == res.f[i], "pattern %s on %s: the field %d is %s instead of %s", sq::show(pat).c_str(), sq::show(src).c_str(), i, sq::show(v).c_str(), sq::show(res.f[i]).c_str()); } }
static void sources(const S &al, int len, const std::function<void(const S &)> &f) { S s; std::function<void()> rec = [&]() { f(s); if ((int)s.size() == len) return; for (char c : al) { s += c; rec(); s.erase(s.size() - 1); } }; rec(); }
template<typename T> static void all(const std::vector<Tok> &t, const S &al, int len) { S pat = pattern(t); sq::op("pattern %s", sq::show(pat).c_str()); Text<T> tp(pat); TextParser<T> p; Text<T> nl("\n"); p.setNL(nl.get()); int n = 0; size_t acc = 0; sources(al, len, [&](const S &s) { against<T>(t, pat, p, tp.get(), s, n++ & 1); acc++; }); sq::outcome(pat); }
static Tok lit(char c) { Tok t; t.k = 0; t.c = c; return t; } static Tok kind(int k) { Tok t; t.k = k; return t; } static Tok fld(int f, int id) { Tok t; t.k = 2; t.field = f; t.id = id; return t; }
static const char lits[] = "a,1 \t\b\n"; enum { NL = 7 };
static Tok anyTok(int &id, bool more) { int n = (int)F().size(); int c = sq::choose(n + NL + 2 + (more ? 2 : 0)); if (c < n) { id++; return fld(c, id); } c -= n; if (c < NL) return lit(lits[c]); c -= NL; if (c == 0) return kind(1); if (c == 1) { id++; return fld(0, 0); } if (c == 2) { id++; return fld(11, 0); } Tok t = kind(5); t.c = ' '; return t; }
SQ_SCENARIO(parse_one_field, 6, 7) { int id = 0; std::vector<Tok> t; int pre = sq::choose(2); if (pre) t.push_back(lit('b')); t.push_back(fld(sq::choose((int)F().size()), sq::choose(2) ? 12 : 1)); int post = sq::choose(3); if (post == 1) t.push_back(kind(3)); if (post == 2) t.push_back(lit("b1"[sq::choose(2)])); (void)id; all<char>(t, sq::choose(2) ? "ab1-," : "1.e+a", sq::depth() - pre); }
SQ_SCENARIO(parse_two, 4, 5) { int id = 0; std::vector<Tok> t; t.push_back(anyTok(id, true)); t.push_back(anyTok(id, true)); if (sq::choose(2)) t.push_back(kind(3)); all<char>(t, "ab1-, ", sq::depth()); }
SQ_SCENARIO(parse_blanks, 5, 6) { int id = 0; std::vector<Tok> t; static const int fs[] = {0, 4, 7, 1}; t.push_back(lit(" \t\b\n"[sq::choose(4)])); int c = sq::choose(6); if (c < 4) t.push_back(fld(fs[c], ++id)); else t.push_back(c == 4 ? lit('a') : kind(1)); t.push_back(lit(" \t\b\n"[sq::choose(4)])); if (sq::choose(2)) t.push_back(lit('a')); all<char>(t, "a% \t\n", sq::depth()); }
SQ_SCENARIO(parse_three, 4, 5) { static const int fs[] = {0, 1, 2, 5, 7, 11, 13, 14, 16, 19, 20, 24}; std::vector<Tok> t; for (int i = 0; i < 3; i++) { int c = sq::choose(16); if (c < 12) t.push_back(fld(fs[c], i + 1)); else if (c < 14) t.push_back(lit(",1"[c - 12])); else t.push_back(fld(c == 14 ? 0 : 11, 0)); } all<char>(t, sq::thorough() ? "ab1-," : "ab1,", sq::depth()); }
SQ_SCENARIO(parse_wide, 3, 4) { int id = 0; std::vector<Tok> t; t.push_back(anyTok(id, false)); t.push_back(anyTok(id, false)); all<wchar_t>(t, "ab1-, ", sq::depth()); }
static std::vector<Tok> branch(int &id, bool two) { std::vector<Tok> t; static const int fs[] = {0, 4, 6, 10, 19, 20, 13}; int n = 1 + (two ? sq::choose(2) : 0); for (int i = 0; i < n; i++) { int c = sq::choose(10); if (c < 7) t.push_back(fld(fs[c], ++id + (c & 1 ? 10 : 0))); else if (c == 7) t.push_back(lit('a')); else if (c == 8) t.push_back(kind(1)); else { Tok e = kind(5); e.c = ' '; t.push_back(e); } } return t; }
SQ_SCENARIO(parse_alternatives, 3, 4) { int id = 0; std::vector<Tok> t; if (sq::choose(2)) t.push_back(fld(0, ++id)); Tok a = kind(4); int n = 2; for (int i = 0; i < n; i++) a.alt.push_back(branch(id, i == 0)); t.push_back(a); int e = sq::choose(3); if (e == 1) t.push_back(lit(',')); if (e == 2) t.push_back(fld(0, ++id)); all<char>(t, "ab1, ", sq::depth()); }
SQ_SCENARIO(parse_nested_alternatives, 3, 4) { int id = 0; std::vector<Tok> t; Tok a = kind(4), b = kind(4); for (int i = 0; i < 2; i++) b.alt.push_back(branch(id, false)); std::vector<Tok> x; x.push_back(lit('b')); x.push_back(b); if (sq::choose(2)) x.push_back(lit('1')); a.alt.push_back(branch(id, false)); if (sq::choose(2)) a.alt.insert(a.alt.begin(), x); else a.alt.push_back(x); t.push_back(a); if (sq::choose(2)) t.push_back(lit(',')); all<char>(t, "ab1,", sq::depth()); }
// conversions of the extracted fields
template<typename T> static void conversions(const S &s) { TextParser<T> p; Text<T> pat("%(*)1"), src(s); if (!p(pat.get(), src.get())) sq::fail("%%(*)1 refuses %s", s.c_str()); const TextParser<T> &c = p;
	{ I v; bool ok = refparse<int>(s, 10, v), got = true; int r = 0; try { r = c[1]; } catch (std::exception &) { got = false; } SQ_ASSERT(ok == got && (!ok || r == v), "%s as int: %s %d", s.c_str(), got ? "gives" : "refused", r); }
	{ I v; bool ok = refparse<unsigned>(s, 10, v), got = true; unsigned r = 0; try { r = c[1]; } catch (std::exception &) { got = false; } SQ_ASSERT(ok == got && (!ok || r == v), "%s as unsigned: %s %u", s.c_str(), got ? "gives" : "refused", r); }
	{ I v; bool ok = refparse<lnatural>(s, 10, v), got = true; lnatural r = 0; try { r = c[1]; } catch (std::exception &) { got = false; } SQ_ASSERT(ok == got && (!ok || r == v), "%s as lnatural: %s %lu", s.c_str(), got ? "gives" : "refused", (unsigned long)r); }
	{ I v; bool ok = refparse<linteger>(s, 10, v), got = true; linteger r = 0; try { r = c[1]; } catch (std::exception &) { got = false; } SQ_ASSERT(ok == got && (!ok || r == v), "%s as linteger: %s %ld", s.c_str(), got ? "gives" : "refused", (long)r); }
	{ bool got = true; T r = 0; try { r = c[1]; } catch (std::exception &) { got = false; } SQ_ASSERT(got == (s.size() == 1) && (!got || (char)r == s[0]), "%s as a character is %s", s.c_str(), got ? "accepted" : "refused"); }
	{ size_t n = 0; while (n < s.size() && isxdigit((unsigned char)s[n])) n++; if (n == s.size() && n < 15) { natural h = c[1].hex(); SQ_ASSERT(h == (n ? strtoul(s.c_str(), 0, 16) : 0), "%s as hex is %lx", s.c_str(), (unsigned long)h); } }
	bool thr = false; try { c[2].str(); } catch (std::exception &) { thr = true; } SQ_ASSERT(thr, "a field which does not exist is returned"); thr = false; try { c[0].str(); } catch (std::exception &) { thr = true; } SQ_ASSERT(thr, "the field 0 is returned"); }
SQ_SCENARIO(conversions_of_fields, 4, 5) { static const char al[] = "019-+a "; int n = sq::choose(sq::depth() + 1); S s; for (int i = 0; i < n; i++) s += al[sq::choose(7)]; conversions<char>(s); conversions<wchar_t>(s); static const char *big[] = {"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616"}; if (n == 0) for (auto b : big) { conversions<char>(b); conversions<wchar_t>(b); } }
