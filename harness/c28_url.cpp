// C28: URL encoding and query strings: every short string, every way of feeding, against a reference
#include "lightspeed/utils/urlencode.h"
#include "lightspeed/utils/queryParser.h"
#include "lightspeed/base/iter/iterConv.h"
#include "lightspeed/base/iter/iteratorFilter.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "seq.h"
#include <vector>
#include <string.h>
using namespace LightSpeed;
typedef std::string S; typedef std::vector<std::pair<S, S> > Q;
static S enc(const S &d) { S o; for (size_t i = 0; i < d.size(); i++) { unsigned char c = d[i]; if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-') o += c; else { char b[4]; snprintf(b, 4, "%%%02X", c); o += b; } } return o; }
static int hx(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool dec(const S &s, S &o) { for (size_t i = 0; i < s.size(); i++) { if (s[i] == '+') o += ' '; else if (s[i] != '%') o += s[i]; else { if (i + 2 >= s.size() || hx(s[i + 1]) < 0 || hx(s[i + 2]) < 0) return false; o += (char)(hx(s[i + 1]) * 16 + hx(s[i + 2])); i += 2; } } return true; }
struct Src: public IteratorBase<char, Src> { const S *s; size_t p; Src(const S *s):s(s), p(0) {} bool hasItems() const { return p < s->size(); } const char &getNext() { SQ_ASSERT(p < s->size(), "the source is read beyond its end"); return (*s)[p++]; } const char &peek() const { return (*s)[p]; } };
struct Out: public WriteIteratorBase<char, Out> { S *o; Out(S *o):o(o) {} bool hasItems() const { return true; } void write(const char &x) { o->push_back(x); } void flush() {} };
enum { MODES = 8 };
static const char *modeName[] = {"converter", "reader", "writer", "block writer", "block reader", "filter reader", "filter writer", "filter block writer"};
template<typename C, typename F> static S drive(const S &in, int mode) { S out; const size_t lim = 10000;
	switch (mode) {
	case 0: { C c; for (size_t i = 0; i < in.size(); i++) { c.write(in[i]); while (c.hasItems) { char p = c.peek(); out += c.getNext(); SQ_ASSERT(p == out[out.size() - 1], "peek differs"); SQ_ASSERT(out.size() < lim, "endless"); } } c.flush(); while (c.hasItems) { out += c.getNext(); SQ_ASSERT(out.size() < lim, "endless"); } break; }
	case 1: { Src s(&in); C c; ConvertReadIter<C, Src &> r(c, s); while (r.hasItems()) { SQ_ASSERT(r.hasItems(), "hasItems changes"); out += r.getNext(); SQ_ASSERT(out.size() < lim, "endless"); } break; }
	case 2: { C c; ConvertWriteIter<C, Out> w(c, Out(&out)); for (size_t i = 0; i < in.size(); i++) w.write(in[i]); break; }
	case 3: { C c; ConvertWriteIter<C, Out> w(c, Out(&out)); size_t i = 0, step = 1; while (i < in.size()) { size_t n = in.size() - i < step ? in.size() - i : step; natural k = w.blockWrite(ConstStrA(in.data() + i, n), true); SQ_ASSERT(k == n, "a block of %lu written up to %lu", (unsigned long)n, (unsigned long)k); i += n; step = step % 5 + 1; } break; }
	case 4: { Src s(&in); C c; ConvertReadIter<C, Src &> r(c, s); char buf[8]; size_t want = 1; while (r.hasItems()) { ArrayRef<char> a(buf, want); natural k = r.blockRead(a.ref()); SQ_ASSERT(k >= 1 && k <= want, "a block of %lu read as %lu", (unsigned long)want, (unsigned long)k); out.append(buf, k); want = want % 5 + 1; SQ_ASSERT(out.size() < lim, "endless"); } break; }
	case 5: { Src s(&in); FilterRead<Src &, F> r(s); while (r.hasItems()) { out += r.getNext(); SQ_ASSERT(out.size() < lim, "endless"); } break; }
	case 6: { FilterWrite<Out, F> w((Out(&out))); for (size_t i = 0; i < in.size(); i++) w.write(in[i]); break; }
	case 7: { FilterWrite<Out, F> w((Out(&out))); size_t i = 0, step = 1; while (i < in.size()) { size_t n = in.size() - i < step ? in.size() - i : step; natural k = w.blockWrite(ConstStrA(in.data() + i, n), true); SQ_ASSERT(k == n, "a block of %lu written up to %lu", (unsigned long)n, (unsigned long)k); i += n; step = step % 5 + 1; } break; }
	} return out; }
static S urlenc(const S &s, int m) { return drive<UrlEncodeConvert, UrlEncoder>(s, m); }
static S urldec(const S &s, int m) { return drive<UrlDecodeConvert, UrlDecoder>(s, m); }
static void both(const S &d) { S r = enc(d), lo = r; for (size_t i = 0; i + 2 < lo.size(); i++) if (lo[i] == '%') { lo[i + 1] = tolower(lo[i + 1]); lo[i + 2] = tolower(lo[i + 2]); }
	for (int m = 0; m < MODES; m++) { S e = urlenc(d, m); SQ_ASSERT(e == r, "%s encoded by the %s is %s", sq::show(d).c_str(), modeName[m], sq::show(e).c_str()); S b = urldec(r, m); SQ_ASSERT(b == d, "%s decoded by the %s is %s", r.c_str(), modeName[m], sq::show(b).c_str()); b = urldec(lo, m); SQ_ASSERT(b == d, "%s decoded by the %s is %s", lo.c_str(), modeName[m], sq::show(b).c_str()); } sq::outcome(r.size()); }
SQ_SCENARIO(every_short_string, 2, 3) { int n = sq::choose(sq::depth() + 1); S s; for (int i = 0; i + 1 < n; i++) s += (char)sq::choose(256); if (n) for (int c = 0; c < 256; c++) both(s + (char)c); else both(s); }
SQ_SCENARIO(strings, 6, 8) { static const char al[] = "aZ-%+\0 \xFF"; int n = sq::choose(sq::depth() + 1); S s; for (int i = 0; i < n; i++) s += al[sq::choose(8)]; both(s); }
SQ_SCENARIO(decode_anything, 6, 7) { static const char al[] = "aF9%+g\xC3"; int n = sq::choose(sq::depth() + 1); S s, r; for (int i = 0; i < n; i++) s += al[sq::choose(7)]; bool ok = dec(s, r);
	for (int m = 0; m < MODES; m++) { S o; bool thrown = false; try { o = urldec(s, m); } catch (std::exception &) { thrown = true; } SQ_ASSERT(o.size() <= s.size(), "grows"); if (ok) SQ_ASSERT(!thrown && o == r, "%s decoded by the %s is %s instead of %s", s.c_str(), modeName[m], thrown ? "refused" : sq::show(o).c_str(), sq::show(r).c_str()); } }
// ---- query strings
static bool refq(const S &v, S &path, S &query, Q &q) { size_t p = v.find('?'); if (p == S::npos) { path = v; return true; } path = v.substr(0, p); query = v.substr(p + 1); size_t b = 0; while (b <= query.size()) { size_t e = query.find('&', b); if (e == S::npos) e = query.size(); S it = query.substr(b, e - b); b = e + 1; if (it.empty()) continue; size_t eq = it.find('='); S n, x; if (!dec(it.substr(0, eq), n)) return false; if (eq == S::npos) x = "1"; else if (!dec(it.substr(eq + 1), x)) return false; q.push_back(std::make_pair(n, x)); } return true; }
static S str(ConstStrA a) { return S(a.data(), a.length()); }
static void parse(const S &v, bool rep) { S path, query; Q q, g; if (!refq(v, path, query, q)) { try { QueryParser p((ConstStrA(v.data(), v.size()))); for (int i = 0; p.hasItems(); i++) { SQ_ASSERT(i < 100, "the parser of %s does not end", v.c_str()); p.getNext(); } } catch (std::exception &) {} return; }
	S copy = v; { QueryParser p((ConstStrA(copy.data(), copy.size()))); SQ_ASSERT(str(p.getPath()) == path && str(p.getQuery()) == query, "%s is split to path %s and query %s", v.c_str(), str(p.getPath()).c_str(), str(p.getQuery()).c_str());
	while (p.hasItems()) { SQ_ASSERT(g.size() < 100, "the parser of %s does not end", v.c_str()); S n1, v1; { const QueryField &f = p.peek(); n1 = str(f.name); v1 = str(f.value); } const QueryField &f = p.getNext(); if (rep && p.hasItems()) p.peek(); S n2 = str(f.name), v2 = str(f.value); SQ_ASSERT(n1 == n2 && v1 == v2, "%s: peek gives %s=%s and getNext %s=%s", v.c_str(), n1.c_str(), v1.c_str(), n2.c_str(), v2.c_str()); g.push_back(std::make_pair(n2, v2)); } }
	for (size_t i = 0; i < g.size() || i < q.size(); i++) { SQ_ASSERT(i < g.size(), "%s: field %lu (%s=%s) is missing", v.c_str(), (unsigned long)i, sq::show(q[i].first).c_str(), sq::show(q[i].second).c_str()); SQ_ASSERT(i < q.size(), "%s: spurious field %s=%s", v.c_str(), g[i].first.c_str(), g[i].second.c_str()); SQ_ASSERT(g[i] == q[i], "%s: field %lu is %s=%s instead of %s=%s", v.c_str(), (unsigned long)i, sq::show(g[i].first).c_str(), sq::show(g[i].second).c_str(), sq::show(q[i].first).c_str(), sq::show(q[i].second).c_str()); } sq::outcome(g.size()); }
SQ_SCENARIO(query, 7, 8) { static const char *al[] = {"a", "=", "&", "?", "%26", "+", "b%3d"}; int n = sq::choose(sq::depth() + 1); S s; for (int i = 0; i < n; i++) s += al[sq::choose(7)]; parse(s, false); if (n < sq::depth()) parse("/p?" + s, true); }
SQ_SCENARIO(query_broken_escapes, 6, 7) { static const char al[] = "a=&%4?"; int n = sq::choose(sq::depth() + 1); S s = "?"; for (int i = 0; i < n; i++) s += al[sq::choose(6)]; parse(s, false); }
SQ_SCENARIO(query_long_fields, 40, 220) { int n = sq::choose(sq::depth()) * (sq::thorough() ? 1 : 6), k = 1 + sq::choose(3); S s = "?"; for (int i = 0; i < k; i++) { s += S("x") + (char)('0' + i) + S(n, 'n') + "="; for (int j = 0; j < n; j++) s += j % 3 ? "v" : "%20"; s += "&"; } parse(s, true); }
