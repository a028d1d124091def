// C30: JSON: every small value and every short text, against an independent parser
#include "jsonref.h"
static const struct { const char *p; size_t n; } strs[] = { {"", 0}, {"a", 1}, {"\"\\/", 3}, {"\b\f\n\r\t", 5}, {"\x01\x1f\x7f", 3}, {"a\0b", 3}, {"\xC5\x99\xE2\x82\xAC", 5}, {"\xF0\x9D\x84\x9E", 4}, {"\xEF\xBF\xBF\xC2\x80", 5}, {"0", 1}, {"null", 4} };
static const double flts[] = { 0.5, -1.25, 1e-9, 0.1, 1e300, -2.5e-280, 1.0, 123456789.123456789, 1e21, 4503599627370497.5, 1.0 / 3, -1e17 };
static const long long ints[] = { 0, 1, -1, 10, -10, 2147483647ll, -2147483648ll, 4294967296ll, 9007199254740993ll, 9223372036854775807ll, -9223372036854775807ll - 1 };
static J leaf(int set) { if (set == 0) switch (sq::choose(5)) { case 0: return J(); case 1: return J::boolean(true); case 2: return J::integer(1); case 3: return J::str("a"); default: return J::flt(0.5); }
	switch (sq::choose(7)) { case 0: return J(); case 1: return J::boolean(sq::choose(2)); case 2: return J::integer(ints[sq::choose(sizeof(ints) / sizeof(*ints))]); case 3: return J::uns(sq::choose(2) ? ~0ull : 1ull << 63); case 4: return J::flt(flts[sq::choose(sizeof(flts) / sizeof(*flts))]); default: { int k = sq::choose(sizeof(strs) / sizeof(*strs)); return J::str(S(strs[k].p, strs[k].n)); } case 6: return sq::choose(2) ? J(J::Arr) : J(J::Obj); } }
static const char *keys[] = {"", "a", "\xC4\x8D\"", "b\\"};
static J make(int &nodes, int set) { nodes--; int k = nodes > 0 ? sq::choose(3) : 0; if (k == 0) return leaf(set); J j(k == 1 ? J::Arr : J::Obj); int n = 0; do { J x = make(nodes, set); if (k == 1) j.a.push_back(x); else { if (n == 4) return j; j.o.push_back(std::make_pair(S(keys[n]), x)); } n++; } while (nodes > 0 && sq::choose(2)); return j; }
static S text(const JSON::Value &v, bool esc) { AutoArrayStream<char> o; JSON::serialize((const JSON::INode *)v, o, esc); return jstr(o.getArray()); }
struct Src: public IteratorBase<char, Src> { const S *s; size_t p; Src(const S *s):s(s), p(0) {} bool hasItems() const { return p < s->size(); } const char &getNext() { if (p >= s->size()) throwIteratorNoMoreItems(THISLOCATION, typeid(char)); return (*s)[p++]; } const char &peek() const { if (p >= s->size()) throwIteratorNoMoreItems(THISLOCATION, typeid(char)); return (*s)[p]; } };
static JSON::Value parse(const S &s, int how, JSON::PFactory f, size_t *used = 0) { switch (how) { case 0: return f->fromString(ConstStrA(s.data(), s.size())); case 1: { Src i(&s); JSON::Value v = JSON::parse(i, f); if (used) *used = i.p; return v; } default: { Src i(&s); VtIterator<Src &> vi(i); return f->fromCharStream(vi); } } }
// values the library shares are created once
static void warmup() { static bool done = false; if (done) return; done = true; JSON::PFactory f = JSON::create(); f->newValue(null); f->newValue(true); f->newValue(false); f->newValue((integer)0); f->newValue(""); f->array()->add(f->object()); JSON::Value o = f->object(); o->add("a", f->newValue("x")); o->clone(f); jfrom(o); try { throwIteratorNoMoreItems(THISLOCATION, typeid(char)); } catch (std::exception &) {} }
static void roundtrip(const J &j, int fac, bool wide) { warmup(); J r = j; jsort(r); size_t h0 = sq::heapBytes(); { JSON::PFactory f = fac ? JSON::createFast() : JSON::create(); JSON::Value v = jto(j, f, wide); J got = jfrom(v); SQ_ASSERT(jeq(got, r), "the value %s is held as %s", jshow(r).c_str(), jshow(got).c_str());
	for (int esc = 0; esc < 2; esc++) { S t = text(v, esc); J p; SQ_ASSERT(jstrict(t, p), "%s is serialised to %s, which is not JSON", jshow(r).c_str(), t.c_str()); SQ_ASSERT(jeq(p, r), "%s is serialised to %s", jshow(r).c_str(), t.c_str()); if (esc || wide) { for (size_t i = 0; i < t.size(); i++) SQ_ASSERT(!esc || (unsigned char)t[i] < 0x80, "escaped text contains a non-ASCII character: %s", t.c_str()); }
		JSON::Value b = parse(t, esc, f); J q = jfrom(b); SQ_ASSERT(jeq(q, r), "%s is parsed as %s", t.c_str(), jshow(q).c_str()); bool fl = false; { S sh = jshow(r); fl = sh.find("float") != S::npos; } if (!fl) SQ_ASSERT(*b == *v && *v == *b && !(*b != *v), "the value parsed from %s is not equal to the original", t.c_str()); S t2 = text(b, esc); SQ_ASSERT(fl || (wide && !esc) || t2 == t, "%s is serialised to %s after parsing", t.c_str(), t2.c_str());
		if (esc == 0) { static_cast<JSON::FactoryCommon *>(f.get())->enableUTFEscaping(false); SQ_ASSERT(jstr(f->toString(*v)) == t, "toString differs"); } else { S t3 = jstr(JSON::toString(v, true)); SQ_ASSERT(t3 == t, "toString differs"); } }
	JSON::Value c = v->clone(f); SQ_ASSERT(*c == *v && *v == *c && jeq(jfrom(c), r), "clone of %s is %s", jshow(r).c_str(), jshow(jfrom(c)).c_str()); JSON::Value d = v->copy(f); SQ_ASSERT(*d == *v && *v == *d && jeq(jfrom(d), r), "copy of %s is %s", jshow(r).c_str(), jshow(jfrom(d)).c_str()); }
	SQ_ASSERT(sq::heapBytes() == h0, "%ld bytes are leaked", (long)(sq::heapBytes() - h0)); sq::outcome(jshow(r).size() % 64); }
SQ_SCENARIO(leaves, 2, 3) { int n = 1 + sq::choose(sq::depth()); J j = make(n, 1); roundtrip(j, sq::choose(2), sq::choose(2)); }
SQ_SCENARIO(shapes, 4, 5) { int n = 1 + sq::choose(sq::depth()); J j = make(n, 0); roundtrip(j, 0, false); }
// equality is exactly the equality of the values
SQ_SCENARIO(equality, 1, 2) { JSON::PFactory f = JSON::create(); int n = sq::depth(), m = n; J a = make(n, 1), b = make(m, 1); jsort(a); jsort(b); JSON::Value va = jto(a, f, sq::choose(2)), vb = jto(b, f, sq::choose(2)); bool e = jeq(a, b), g = *va == *vb, h = *vb == *va; if (a.t != b.t && a.isNum() && b.isNum() && a.num() == b.num()) { SQ_ASSERT(g == h, "asymmetric"); return; } /* 1 and 1.0 */ SQ_ASSERT(g == e && h == e && (*va != *vb) != e, "%s == %s is %d, the other way %d", jshow(a).c_str(), jshow(b).c_str(), (int)g, (int)h); sq::outcome(e); }
static void check(const S &s) { J r; Verdict v = jparse(s, r); JParser pr(s); J dummy; pr.value(dummy);
	for (int how = 0; how < 3; how++) { J got; bool ok = true; size_t used = 0; size_t h0 = sq::heapBytes(); { JSON::PFactory f = JSON::create(); try { JSON::Value x = parse(s, how, f, &used); got = jfrom(x); } catch (std::exception &) { ok = false; } } (void)h0;
		if (ok && v == Not) sq::fail("%s is accepted as %s", sq::show(s).c_str(), jshow(got).c_str()); if (!ok && v == Must) sq::fail("%s is refused", sq::show(s).c_str()); if (ok) SQ_ASSERT(jeq(got, r), "%s is parsed as %s instead of %s", sq::show(s).c_str(), jshow(got).c_str(), jshow(r).c_str()); if (ok && how == 1) SQ_ASSERT(used == pr.p, "%s: %lu characters were read for a value of %lu", sq::show(s).c_str(), (unsigned long)used, (unsigned long)pr.p); sq::outcome(ok * 2 + v * 4); } }
SQ_SCENARIO(texts, 5, 6) { static const char *al[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b", "1", "-2.5e3", " ", "true", "null"}; int n = sq::choose(sq::depth() + 1); S s; for (int i = 0; i < n; i++) s += al[sq::choose(13)]; check(s); }
SQ_SCENARIO(objects, 9, 11) { static const char *al[] = {"\"a\"", ":", "1", ",", "}", "{"}; int n = sq::choose(sq::depth() + 1); S s = "{"; bool ok = true; for (int i = 0; i < n && ok; i++) { s += al[sq::choose(6)]; J r; JParser p(s); if (!p.value(r) && !p.end()) ok = false; /* nothing that follows can repair it */ } check(s); }
SQ_SCENARIO(numbers, 5, 7) { static const char al[] = "019-+.eE"; int n = sq::choose(sq::depth()) + 1; S s; for (int i = 0; i < n; i++) s += al[sq::choose(8)]; check(s); check("[" + s + "]"); check(s + " "); }
SQ_SCENARIO(long_numbers, 24, 40) { static const char *heads[] = {"", "-", "1", "-9", "922337203685477580", "-922337203685477580", "1844674407370955161", "0.", "1e", "1e-", "123456789."}; static const char dig[] = "0123456789"; int h = sq::choose(11), n = sq::choose(sq::depth()); char c = dig[sq::choose(10)]; char last = dig[sq::choose(10)]; S s = heads[h]; s += S(n, c); s += last; check(s); check("[" + s + "," + s + "]"); }
SQ_SCENARIO(escapes, 5, 7) { static const char al[] = "\\\"u0dD8nx\xC3"; int n = sq::choose(sq::depth() + 1); S s = "\""; for (int i = 0; i < n; i++) s += al[sq::choose(10)]; check(s); check(s + "\""); }
SQ_SCENARIO(code_units, 256, 256) { int hi = sq::choose(256); for (int lo = 0; lo < 256; lo++) { char b[16]; snprintf(b, 16, sq::choose(1) ? "" : lo & 1 ? "\\u%04x" : "\\u%04X", hi * 256 + lo); check("\"" + S(b) + "\""); if (hi >= 0xD8 && hi < 0xE0 && (sq::thorough() || lo % 5 == 0)) { check("\"" + S(b) + "\\uDC00\""); check("\"" + S(b) + "\\uDFFF\""); check("\"" + S(b) + "\\uD800\""); check("\"" + S(b) + "x\""); check("\"" + S(b) + "\\n\""); check("\"" + S(b) + "\\uDC0\""); check("[\"" + S(b) + "\\u"); } } }
SQ_SCENARIO(bytes, 256, 256) { int a = sq::choose(256); check(S(1, (char)a)); for (int b = 0; b < 256; b++) { S t(1, (char)a); t += (char)b; check(t); check("\"" + t + "\""); check("[" + t + "1]"); } }
// any bytes in a string survive when the characters are not escaped; escaping them gives the characters or an exception
SQ_SCENARIO(byte_strings, 256, 256) { int a = sq::choose(256); for (int b = 0; b < 256; b++) { S t(1, (char)a); t += (char)b; for (int k = 0; k < 2; k++) { JSON::PFactory f = JSON::create(); JSON::Value v = f->newValue(ConstStrA(t.data(), t.size())); S x = text(v, false); J j; SQ_ASSERT(jstrict(x, j) && j.s == t, "%s is serialised to %s", sq::show(t).c_str(), sq::show(x).c_str()); SQ_ASSERT(jfrom(f->fromString(ConstStrA(x.data(), x.size()))).s == t, "%s is changed", sq::show(t).c_str()); try { S y = text(v, true); bool asc = true; for (size_t i = 0; i < y.size(); i++) if ((unsigned char)y[i] >= 0x80) asc = false; SQ_ASSERT(asc, "not escaped"); SQ_ASSERT(jstrict(y, j) || y.find("\\u") != S::npos, "%s is escaped to %s", sq::show(t).c_str(), y.c_str()); } catch (std::exception &) {} t = "\xE2\x82"; t += (char)a; t += (char)b; } } }
// every code point of a wide string
SQ_SCENARIO(code_points, 272, 272) { int blk = sq::choose(sq::depth()); JSON::PFactory f = JSON::create(); for (int i = 0; i < 4096; i++) { wchar_t c = (wchar_t)(blk * 4096 + i); if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) continue; if (blk > 16 && !sq::thorough() && i % 61 && i < 4090) continue; S u; jutf((unsigned)c, u); JSON::Value w = f->newValue(ConstStrW(&c, 1)), a = f->newValue(ConstStrA(u.data(), u.size())); SQ_ASSERT(*w == *a && *a == *w, "U+%X: the wide and the UTF-8 string differ", (unsigned)c); J j; for (int e = 0; e < 4; e++) { S t = text(e & 2 ? w : a, e & 1); SQ_ASSERT(jstrict(t, j) && j.s == u, "U+%X is serialised to %s", (unsigned)c, sq::show(t).c_str()); JSON::Value p = f->fromString(ConstStrA(t.data(), t.size())); SQ_ASSERT(jstr(p->getStringUtf8()) == u && *p == *w, "U+%X: %s is parsed to %s", (unsigned)c, sq::show(t).c_str(), sq::show(jstr(p->getStringUtf8())).c_str()); ConstStrW pw = p->getString(); SQ_ASSERT(pw.length() == 1 && pw[0] == c, "U+%X is read as a wide string of %lu", (unsigned)c, (unsigned long)pw.length()); } } }
SQ_SCENARIO(special_floats, 1, 1) { JSON::PFactory f = JSON::create(); double z = sq::choose(2) ? 1 : -1, zero = 0; double d; switch (sq::choose(4)) { case 0: d = z / zero; break; case 1: d = zero / zero; break; case 2: d = z * 1.7976931348623157e308; break; default: d = z * 2.2250738585072014e-300; break; } S t = text(f->newValue(d), false); J j; SQ_ASSERT(jstrict(t, j) || (j.t == J::Flt), "%g is serialised to %s", d, t.c_str()); if (d != d || d - d != 0) SQ_ASSERT(j.t == J::Nul, "%g is serialised to %s", d, t.c_str()); else SQ_ASSERT(j.t == J::Flt && fabs(j.d - d) <= fabs(d) * 1e-15, "%.17g is serialised to %s", d, t.c_str()); }
// ---- containers against a model
static JSON::Value item(JSON::PFactory f, int k) { return k == 0 ? f->newValue((integer)7) : k == 1 ? f->newValue("x") : f->array(); }
static void object_history(bool leaks, int depth) { static const char *nm[] = {"a", "b", "c"}; size_t cnt = 0; warmup(); size_t h0 = sq::heapBytes(); { JSON::PFactory f = JSON::create(); JSON::Value o = f->object(), snap; std::map<S, J> m, ms; bool has = false;
	for (int i = 0; i < depth; i++) { int op = sq::choose(8); const char *k = op < 4 ? nm[sq::choose(3)] : ""; JSON::Value x = f->newValue((integer)(i + 1)); J jx = J::integer(i + 1);
		switch (op) { case 0: if (!leaks) sq::op("add %s", k); o->add(ConstStrA(k), x); m.insert(std::make_pair(S(k), jx)); break; case 1: if (!leaks) sq::op("replace %s", k); { JSON::Value p = f->newValue("zz"); o->replace(ConstStrA(k), x, &p); if (m.count(k)) SQ_ASSERT(p != nil && jeq(jfrom(p), m[k]), "the previous value is not returned"); else SQ_ASSERT(p == nil, "a previous value is invented"); m[k] = jx; } break; case 2: if (!leaks) sq::op("unset %s", k); o.unset(ConstStrA(k)); m.erase(k); break; case 3: if (!leaks) sq::op("set %s to nothing", k); o.set(ConstStrA(k), JSON::Value(null)); m.erase(k); break; case 4: if (!leaks) sq::op("clear"); o.clear(); m.clear(); break;
		case 5: if (!leaks) sq::op("clone"); snap = o->clone(f); ms = m; has = true; break; case 6: if (!leaks) sq::op("load"); if (has) { o.load(snap); for (std::map<S, J>::iterator it = ms.begin(); it != ms.end(); ++it) m[it->first] = it->second; } break;
		case 7: { if (!leaks) sq::op("erase while iterating"); for (JSON::Iterator it = o->getFwIter(); it.hasItems();) { const JSON::KeyValue &kv = it.getNext(); S key = jstr(kv.getStringKey()); if (key != "b") { o.unset(ConstStrA(key.data(), key.size())); m.erase(key); } } break; } }
		J j(J::Obj); j.o.assign(m.begin(), m.end()); J g = jfrom(o); SQ_ASSERT(jeq(g, j), "the object is %s instead of %s", jshow(g).c_str(), jshow(j).c_str()); SQ_ASSERT(o.empty() == m.empty() && o.length() == m.size(), "length"); for (int q = 0; q < 3; q++) SQ_ASSERT((o[nm[q]] != nil) == (m.count(nm[q]) != 0), "field %s", nm[q]); if (has) { J s(J::Obj); s.o.assign(ms.begin(), ms.end()); SQ_ASSERT(jeq(jfrom(snap), s), "the clone has changed"); } } cnt = m.size(); } if (leaks) SQ_ASSERT(sq::heapBytes() == h0, "%ld bytes are leaked", (long)(sq::heapBytes() - h0)); sq::outcome(cnt); }
static void array_history(bool leaks, int depth) { size_t cnt = 0; warmup(); size_t h0 = sq::heapBytes(); { JSON::PFactory f = JSON::create(); JSON::Value o = f->array(), snap; std::vector<J> m, ms; bool has = false;
	for (int i = 0; i < depth; i++) { int op = sq::choose(8); JSON::Value x = f->newValue((integer)(i + 1)); J jx = J::integer(i + 1); size_t at = (op == 1 || op == 2 || op == 3) && m.size() ? sq::choose(m.size() > 3 ? 3 : m.size()) : 0; bool any = !m.empty();
		switch (op) { case 0: if (!leaks) sq::op("add"); o->add(x); m.push_back(jx); break; case 1: if (!leaks) sq::op("replace %d", (int)at); if (any) { JSON::Value p; o->replace((natural)at, x, &p); SQ_ASSERT(p != nil && jeq(jfrom(p), m[at]), "the previous value is not returned"); m[at] = jx; } break; case 2: if (!leaks) sq::op("erase %d", (int)at); if (any) { o.erase((natural)at); m.erase(m.begin() + at); } break; case 3: if (!leaks) sq::op("set %d to nothing", (int)at); if (any) { o.set((natural)at, JSON::Value(null)); m.erase(m.begin() + at); } break; case 4: if (!leaks) sq::op("clear"); o.clear(); m.clear(); break;
		case 5: if (!leaks) sq::op("clone"); snap = o->clone(f); ms = m; has = true; break; case 6: if (!leaks) sq::op("load"); if (has && m.size() < 8) { o.load(snap); m.insert(m.end(), ms.begin(), ms.end()); } break; case 7: if (!leaks) sq::op("add nothing"); o.add(JSON::Value(null)); break; }
		J j(J::Arr); j.a = m; J g = jfrom(o); SQ_ASSERT(jeq(g, j), "the array is %s instead of %s", jshow(g).c_str(), jshow(j).c_str()); SQ_ASSERT(o.empty() == m.empty() && o.length() == m.size(), "length"); if (has) { J s(J::Arr); s.a = ms; SQ_ASSERT(jeq(jfrom(snap), s), "the clone has changed"); } } cnt = m.size(); } if (leaks) SQ_ASSERT(sq::heapBytes() == h0, "%ld bytes are leaked", (long)(sq::heapBytes() - h0)); sq::outcome(cnt); }
SQ_SCENARIO(object_histories, 4, 5) { object_history(false, sq::depth()); }
SQ_SCENARIO(array_histories, 4, 6) { array_history(false, sq::depth()); }
SQ_SCENARIO(object_memory, 3, 4) { object_history(true, sq::depth()); }
SQ_SCENARIO(array_memory, 3, 5) { array_history(true, sq::depth()); }
// ---- stream parser: every callback in the documented order, whatever levels are monitored
static S jtext(const J &j) { S r; if (j.t == J::Arr) { r = "["; for (size_t i = 0; i < j.a.size(); i++) r += (i ? " ," : "") + jtext(j.a[i]); return r + "]"; } if (j.t == J::Obj) { r = "{ "; for (size_t i = 0; i < j.o.size(); i++) { r += S(i ? "," : "") + "\"" + (char)('p' + i) + "\":" + jtext(j.o[i].second); } return r + "}"; } if (j.t == J::Str) return "\"" + j.s + "\""; if (j.t == J::Flt) return "0.5"; return jshow(j); }
static S evs; static std::vector<int> answers; static size_t answerPos; static int level;
static void ev(const char *f, int a) { char b[64]; snprintf(b, 64, f, a); evs += b; }
struct Cb: public JSON::StreamParser<Src>::ICallback { int lev; std::vector<Cb *> *all; Cb(int l, std::vector<Cb *> *a):lev(l), all(a) {}
	ICallback *onBeginContainer(JSON::INode *c, JSON::INode *parent, ConstStrA name) { ev(c->isArray() ? "[%d " : "{%d ", lev); if (parent && parent->isObject() && c->isObject()) evs += jstr(name) + " "; SQ_ASSERT(c->length() == 0, "the opened container is not empty"); int a = answers.empty() ? 0 : answers[answerPos++ % answers.size()]; if (a == 1) return 0; if (a == 2) return this; Cb *n = new Cb(lev + 1, all); all->push_back(n); return n; }
	void onContainerCompleted(JSON::INode *c, JSON::INode *parent) { ev("end%d ", lev); ev("/%d ", (int)c->length()); ev(parent ? "in%d " : "root%d ", parent ? (int)parent->length() : 0); }
	JSON::Value onValue(JSON::INode *v, JSON::INode *c) { S t = v->isArray() ? "arr" : v->isObject() ? "obj" : jshow(jfrom(JSON::ConstValue(v))); ev("v%d:", lev); evs += t; ev(c ? "@%d " : "@root%d ", c ? (int)c->length() : 0); return v; } };
static void refEvents(const J &j, int lev /* 0: not monitored */, int parentLen, bool parentIsObj, const char *key, S &o) { char b[64]; if (j.t == J::Arr || j.t == J::Obj) { int inner = 0; if (lev) { snprintf(b, 64, j.t == J::Arr ? "[%d " : "{%d ", lev); o += b; if (parentLen >= 0 && parentIsObj && j.t == J::Obj) { o += key; o += " "; } int a = answers.empty() ? 0 : answers[answerPos++ % answers.size()]; inner = a == 1 ? 0 : a == 2 ? lev : lev + 1; }
	size_t n = j.t == J::Arr ? j.a.size() : j.o.size(); for (size_t i = 0; i < n; i++) { char k[2] = {(char)('p' + i), 0}; refEvents(j.t == J::Arr ? j.a[i] : j.o[i].second, inner, (int)i, j.t == J::Obj, k, o); } if (inner) { snprintf(b, 64, "end%d /%d ", inner, (int)n); o += b; snprintf(b, 64, parentLen >= 0 ? "in%d " : "root%d ", parentLen >= 0 ? parentLen : 0); o += b; } }
	if (lev) { snprintf(b, 64, "v%d:", lev); o += b; o += j.t == J::Arr ? "arr" : j.t == J::Obj ? "obj" : jshow(j); snprintf(b, 64, parentLen >= 0 ? "@%d " : "@root%d ", parentLen >= 0 ? parentLen : 0); o += b; } }
SQ_SCENARIO(stream_parser, 4, 5) { int n = 1 + sq::choose(sq::depth()); J j = make(n, 0); S t = jtext(j); answers.clear(); for (int i = 0; i < 3; i++) answers.push_back(sq::choose(3)); S want; answerPos = 0; refEvents(j, 1, -1, false, "", want); answerPos = 0; evs.clear(); { std::vector<Cb *> all; Cb root(1, &all); Src src(&t); JSON::PFactory f = JSON::create(); JSON::StreamParser<Src> p(src, f); JSON::Value v = p.parse(&root); for (size_t i = 0; i < all.size(); i++) delete all[i]; J r; SQ_ASSERT(jparse(t, r) == Must && jeq(jfrom(v), r), "%s is parsed as %s", t.c_str(), jshow(jfrom(v)).c_str()); } SQ_ASSERT(evs == want, "%s: the callbacks are %s instead of %s", t.c_str(), evs.c_str(), want.c_str()); sq::outcome(evs); }
// ---- paths
struct Step { int k; }; // 0: "a", 1: "b", 2: index 0, 3: index 1
static S pathShow(const std::vector<int> &v) { static const char *n[] = {".a", ".b", "[0]", "[1]"}; S r; for (size_t i = 0; i < v.size(); i++) r += n[v[i]]; return r; }
static const J *refPath(const J *j, const std::vector<int> &v, bool &undefd) { for (size_t i = 0; i < v.size(); i++) { if (v[i] < 2) { if (j->t != J::Obj) { undefd = true; return 0; } const J *x = 0; for (size_t k = 0; k < j->o.size(); k++) if (j->o[k].first == (v[i] ? "b" : "a")) x = &j->o[k].second; if (!x) return 0; j = x; } else { if (j->t != J::Arr || j->a.size() <= (size_t)v[i] - 2) { undefd = true; return 0; } j = &j->a[v[i] - 2]; } } return j; }
template<typename F> static void withPath(const std::vector<int> &v, size_t n, const JSON::Path &p, F &f) { if (n == v.size()) { f(p); return; } static const char key[2][2] = {"a", "b"}; if (v[n] < 2) { JSON::Path q(p, ConstStrA(key[v[n]], 1)); withPath(v, n + 1, q, f); } else { JSON::Path q(p, (natural)(v[n] - 2)); withPath(v, n + 1, q, f); } }
static int refCmp(const std::vector<int> &a, const std::vector<int> &b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; size_t m = a.size() < b.size() ? a.size() : b.size(); for (size_t i = 0; i < m; i++) { int x = a[i] < 2 ? a[i] + 10 : a[i], y = b[i] < 2 ? b[i] + 10 : b[i]; if (x != y) return x < y ? -1 : 1; } return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1; }
struct PathUse { const std::vector<int> *a, *b; const JSON::Path *other; JSON::Value doc; const J *jd; void check(const JSON::Path &p) { SQ_ASSERT(p.length() == a->size(), "the length of %s is %lu", pathShow(*a).c_str(), (unsigned long)p.length()); bool und = false; const J *w = refPath(jd, *a, und); if (!und) { JSON::Value g = p(doc); JSON::ConstValue gc = p(JSON::ConstValue(doc)); SQ_ASSERT((g != nil) == (w != 0) && (gc != nil) == (w != 0), "%s is %sfound", pathShow(*a).c_str(), g != nil ? "" : "not "); if (w) SQ_ASSERT(jeq(jfrom(g), *w) && jeq(jfrom(gc), *w), "%s is %s", pathShow(*a).c_str(), jshow(jfrom(g)).c_str()); } const JSON::Path *q = &p; for (size_t i = a->size(); i-- > 0; q = &q->getParent()) { if ((*a)[i] < 2) SQ_ASSERT(q->isKey() && jstr(q->getKey()) == ((*a)[i] ? "b" : "a"), "element %lu", (unsigned long)i); else SQ_ASSERT(q->isIndex() && q->getIndex() == (natural)((*a)[i] - 2), "element %lu", (unsigned long)i); } SQ_ASSERT(q->isRoot(), "the root"); }
	void operator()(const JSON::Path &p) { check(p); if (!other) { other = &p; std::vector<int> const *x = a; a = b; withPath(*b, 0, JSON::Path::root, *this); a = x; other = 0; JSON::Path *c = p.copy(); check(*c); int r = p.compare(*c); SQ_ASSERT(r == cmpResultEqual, "a copy is not equal"); delete c; } else { std::vector<int> const &o = *this->prev; CompareResult r = other->compare(p); int w = refCmp(o, *a); SQ_ASSERT((r == cmpResultEqual) == (w == 0) && (r == cmpResultLess) == (w < 0) && (r == cmpResultGreater) == (w > 0), "comparing %s and %s gives %d", pathShow(o).c_str(), pathShow(*a).c_str(), (int)r); } } const std::vector<int> *prev; };
SQ_SCENARIO(paths, 3, 3) { std::vector<int> a, b; int n = sq::choose(sq::depth() + 1), m = sq::choose(sq::depth() + 1); for (int i = 0; i < n; i++) a.push_back(sq::choose(4)); for (int i = 0; i < m; i++) b.push_back(sq::choose(4)); J d; S t = "{\"a\":[{\"a\":1,\"b\":[2,3]},{\"b\":{\"a\":4}}],\"b\":{\"b\":[5,[6,7]]}}"; jparse(t, d); warmup(); size_t h0 = sq::heapBytes(); { JSON::PFactory f = JSON::create(); PathUse u; u.a = u.prev = &a; u.b = &b; u.other = 0; u.jd = &d; u.doc = f->fromString(ConstStrA(t.data(), t.size())); withPath(a, 0, JSON::Path::root, u); } SQ_ASSERT(sq::heapBytes() == h0, "%ld bytes are leaked", (long)(sq::heapBytes() - h0)); sq::outcome(n * 4 + m); }
