// JSON values of the harness, an independent strict parser and printer, and conversion from and to the library's values
#ifndef JSONREF_H_
#define JSONREF_H_
#include "lightspeed/base/iter/vtiterator.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/flatArray.h"
#include "lightspeed/utils/json/json.h"
#include "lightspeed/utils/json/jsonparser.tcc"
#include "lightspeed/utils/json/jsonserializer.tcc"
#include "seq.h"
#include <vector>
#include <map>
#include <math.h>
#include <string.h>
using namespace LightSpeed;
typedef std::string S;
struct J { enum T { Nul, Bool, Int, Uns, Flt, Str, Arr, Obj } t; long long i; double d; S s; std::vector<J> a; std::vector<std::pair<S, J> > o;
	J(T t = Nul):t(t), i(0), d(0) {} static J boolean(bool b) { J j(Bool); j.i = b; return j; } static J integer(long long i) { J j(Int); j.i = i; return j; } static J uns(unsigned long long u) { if (u < (1ull << 63)) return integer((long long)u); J j(Uns); j.i = (long long)u; return j; } static J flt(double d) { if (d == 0) return integer(0); /* zero is always the integer */ J j(Flt); j.d = d; return j; } static J str(const S &s) { J j(Str); j.s = s; return j; }
	double num() const { return t == Int ? (double)i : t == Uns ? (double)(unsigned long long)i : d; } bool isNum() const { return t == Int || t == Uns || t == Flt; } };
static inline bool jclose(double a, double b) { if (a == b) return true; double m = fabs(a) > fabs(b) ? fabs(a) : fabs(b); return fabs(a - b) <= m * 1e-15 || (m < 1e-290 && fabs(a - b) <= m * 1e-9); }
static inline void jsort(J &j) { if (j.t == J::Arr) for (size_t i = 0; i < j.a.size(); i++) jsort(j.a[i]); if (j.t == J::Obj) { std::map<S, J> m; for (size_t i = 0; i < j.o.size(); i++) { jsort(j.o[i].second); m.insert(std::make_pair(j.o[i].first, j.o[i].second)); /* the first of equal names stays */ } j.o.assign(m.begin(), m.end()); } }
static inline bool jeq(const J &a, const J &b) { if (a.t != b.t) return false; switch (a.t) { case J::Nul: return true; case J::Bool: case J::Int: case J::Uns: return a.i == b.i; case J::Flt: return jclose(a.d, b.d); case J::Str: return a.s == b.s;
	case J::Arr: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!jeq(a.a[i], b.a[i])) return false; return true;
	case J::Obj: if (a.o.size() != b.o.size()) return false; for (size_t i = 0; i < a.o.size(); i++) if (a.o[i].first != b.o[i].first || !jeq(a.o[i].second, b.o[i].second)) return false; return true; } return false; }
static inline S jshow(const J &j) { char b[64]; switch (j.t) { case J::Nul: return "null"; case J::Bool: return j.i ? "true" : "false"; case J::Int: snprintf(b, 64, "%lld", j.i); return b; case J::Uns: snprintf(b, 64, "%llu", (unsigned long long)j.i); return b; case J::Flt: snprintf(b, 64, "float %.17g", j.d); return b; case J::Str: return "'" + sq::show(j.s) + "'";
	case J::Arr: { S r = "["; for (size_t i = 0; i < j.a.size(); i++) r += (i ? "," : "") + jshow(j.a[i]); return r + "]"; } case J::Obj: { S r = "{"; for (size_t i = 0; i < j.o.size(); i++) r += (i ? "," : "") + sq::show(j.o[i].first) + ":" + jshow(j.o[i].second); return r + "}"; } } return "?"; }
static inline void jutf(unsigned c, S &o) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
// the verdict on a text: it must be accepted, it must be refused, or it may be either (texts outside of the standard which have one obvious meaning)
enum Verdict { Must, May, Not };
struct JParser { const S &s; size_t p; bool lenient, far; JParser(const S &s):s(s), p(0), lenient(false), far(false) {}
	bool end() const { return p >= s.size(); } static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; } static bool lws(char c) { return c == '\b' || c == '\a' || c == '\v' || c == '\f' || c == 0; }
	void skip() { while (!end() && (ws(s[p]) || lws(s[p]))) { if (lws(s[p])) lenient = true; p++; } }
	bool lit(const char *l) { size_t n = strlen(l); if (s.compare(p, n, l)) return false; p += n; return true; }
	int hex4() { if (p + 4 > s.size()) return -1; int v = 0; for (int i = 0; i < 4; i++) { char c = s[p + i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return -1; v = v * 16 + d; } p += 4; return v; }
	bool string(S &o) { p++; for (;;) { if (end()) return false; unsigned char c = s[p++]; if (c == '"') return true; if (c < 0x20) lenient = true; if (c != '\\') { o += (char)c; continue; } if (end()) return false; c = s[p++]; switch (c) { case '"': case '\\': case '/': o += c; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
		case 'u': { int u = hex4(); if (u < 0) return false; if (u >= 0xD800 && u < 0xDC00 && s.compare(p, 2, "\\u") == 0) { size_t q = p; p += 2; int v = hex4(); if (v >= 0xDC00 && v < 0xE000) { jutf(0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00), o); break; } p = q; } if (u >= 0xD800 && u < 0xE000) lenient = true; /* half of a pair */ jutf(u, o); break; } default: return false; } } }
	bool number(J &j) { size_t b = p; while (!end() && !ws(s[p]) && s[p] != ',' && s[p] != ']' && s[p] != '}' && !(lws(s[p]) && s[p] != '\b' && s[p] != '\a')) p++; S t = s.substr(b, p - b); size_t i = 0; bool len = false; if (i < t.size() && (t[i] == '-' || t[i] == '+')) { if (t[i] == '+') len = true; i++; } size_t d = i; while (i < t.size() && isdigit(t[i])) i++; size_t nd = i - d; if (nd > 1 && t[d] == '0') len = true; size_t nf = 0; bool f = false; if (i < t.size() && t[i] == '.') { f = true; i++; while (i < t.size() && isdigit(t[i])) { i++; nf++; } if (!nf) len = true; } if (!nd) len = true; if (nd + nf == 0) return false;
		int ex = 0; if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { f = true; i++; if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++; size_t e = i; while (i < t.size() && isdigit(t[i])) { if (ex < 100000) ex = ex * 10 + (t[i] - '0'); i++; } if (i == e) len = true; } if (i != t.size()) return false; if (len) lenient = true;
		const char *c = t.c_str() + (t[0] == '+'); if (!f) { errno = 0; long long v = strtoll(c, 0, 10); if (!errno) { j = J::integer(v); return true; } errno = 0; if (t[0] != '-') { unsigned long long u = strtoull(c, 0, 10); if (!errno) { j = J::uns(u); return true; } } }
		S t2 = c; if (!t2.empty() && (t2[t2.size() - 1] == 'e' || t2[t2.size() - 1] == 'E')) t2 += "0"; else if (t2.size() > 1 && (t2[t2.size() - 2] == 'e' || t2[t2.size() - 2] == 'E') && !isdigit(t2[t2.size() - 1])) t2 += "0"; j = J::flt(::strtod(t2.c_str(), 0)); if (ex > 250 || nd + nf > 250) far = true; /* out of the range the format guarantees */ return true; }
	bool value(J &j) { skip(); if (end()) return false; char c = s[p]; switch (c) { case '"': j = J(J::Str); return string(j.s); case 't': j = J::boolean(true); return lit("true"); case 'f': j = J::boolean(false); return lit("false"); case 'n': j = J(); return lit("null");
		case '[': { j = J(J::Arr); p++; skip(); if (!end() && s[p] == ']') { p++; return true; } for (;;) { J x; if (!value(x)) return false; j.a.push_back(x); skip(); if (end()) return false; if (s[p] == ']') { p++; return true; } if (s[p++] != ',') return false; } }
		case '{': { j = J(J::Obj); p++; skip(); if (!end() && s[p] == '}') { p++; return true; } for (;;) { skip(); if (end() || s[p] != '"') return false; S k; if (!string(k)) return false; skip(); if (end() || s[p++] != ':') return false; J x; if (!value(x)) return false; j.o.push_back(std::make_pair(k, x)); skip(); if (end()) return false; if (s[p] == '}') { p++; return true; } if (s[p++] != ',') return false; } }
		default: return number(j); } } };
static inline Verdict jparse(const S &s, J &j) { JParser p(s); if (!p.value(j)) return Not; jsort(j); return p.lenient || p.far ? May : Must; }
// strict: the whole text is one value of the standard
static inline bool jstrict(const S &s, J &j) { JParser p(s); if (!p.value(j)) return false; p.skip(); if (!p.end() || p.lenient) return false; jsort(j); return true; }
// ---- library values
static inline S jstr(ConstStrA a) { return S(a.data(), a.length()); }
static inline S jwstr(ConstStrW w) { S o; for (natural i = 0; i < w.length(); i++) jutf((unsigned)w[i], o); return o; }
static inline J jfrom(const JSON::ConstValue &v) { SQ_ASSERT(v != nil, "no value"); switch (v->getType()) { case JSON::ndNull: SQ_ASSERT(v->isNull(), "null is not null"); return J(); case JSON::ndBool: return J::boolean(v->getBool());
	case JSON::ndInt: { S t = jstr(v->getStringUtf8()); if (t[0] == '-') { char b[32]; snprintf(b, 32, "%lld", (long long)v->getLongInt()); SQ_ASSERT(t == b, "the number %s has the text %s", b, t.c_str()); return J::integer(v->getLongInt()); } char b[32]; snprintf(b, 32, "%llu", (unsigned long long)v->getLongUInt()); SQ_ASSERT(t == b, "the number %s has the text %s", b, t.c_str()); return J::uns(v->getLongUInt()); }
	case JSON::ndFloat: return J::flt(v->getFloat()); case JSON::ndString: { S a = jstr(v->getStringUtf8()); return J::str(a); }
	case JSON::ndArray: { J j(J::Arr); natural n = v->length(); for (natural i = 0; i < n; i++) j.a.push_back(jfrom(v[i])); natural k = 0; for (JSON::ConstIterator it = v->getFwConstIter(); it.hasItems(); k++) { const JSON::ConstKeyValue &kv = it.getNext(); SQ_ASSERT(k < n && kv.getIndex() == k && (const JSON::INode *)kv == (const JSON::INode *)v[k], "the iterator gives another item"); } SQ_ASSERT(k == n, "the iterator gives %lu of %lu items", (unsigned long)k, (unsigned long)n); return j; }
	case JSON::ndObject: { J j(J::Obj); for (JSON::ConstIterator it = v->getFwConstIter(); it.hasItems();) { const JSON::ConstKeyValue &kv = it.getNext(); S k = jstr(kv.getStringKey()); JSON::ConstValue q = v[ConstStrA(k.data(), k.size())]; SQ_ASSERT((const JSON::INode *)q == (const JSON::INode *)kv, "the field %s is another value", k.c_str()); j.o.push_back(std::make_pair(k, jfrom(kv))); } SQ_ASSERT(j.o.size() == v->length(), "wrong count of fields"); size_t n = j.o.size(); jsort(j); SQ_ASSERT(j.o.size() == n, "two fields have the same name"); return j; }
	default: sq::fail("unexpected type"); } return J(); }
static inline JSON::Value jto(const J &j, JSON::PFactory f, bool wide = false) { switch (j.t) { case J::Nul: return f->newValue(null); case J::Bool: return f->newValue(j.i != 0); case J::Int: return f->newValue((linteger)j.i); case J::Uns: return f->newValue((lnatural)j.i); case J::Flt: return f->newValue(j.d);
	case J::Str: if (wide) { String w(ConstStrA(j.s.data(), j.s.size())); return f->newValue(ConstStrW(w)); } return f->newValue(ConstStrA(j.s.data(), j.s.size())); case J::Arr: { JSON::Value v = f->array(); for (size_t i = 0; i < j.a.size(); i++) v->add(jto(j.a[i], f, wide)); return v; } case J::Obj: { JSON::Value v = f->object(); for (size_t i = 0; i < j.o.size(); i++) v->add(ConstStrA(j.o[i].first.data(), j.o[i].first.size()), jto(j.o[i].second, f, wide)); return v; } } return null; }
#endif
