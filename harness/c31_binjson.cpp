// C31: binary JSON against an independent decoder of the format
#include "jsonref.h"
#include "sqstream.h"
#include "lightspeed/utils/json/binjson.h"
#include "lightspeed/base/streams/compressNumb.h"
static const struct { const char *p; size_t n; } strs[] = { {"", 0}, {"a", 1}, {"\"\\/\n", 4}, {"a\0b", 3}, {"\xC5\x99\xE2\x82\xAC", 5}, {"b", 1} };
static const double flts[] = { 0.5, -1.25, 1e-9, 0.1, 1e300, -2.5e-280, 1.0 / 3, -1e17 };
static const long long ints[] = { 0, 1, -1, 255, 256, -255, -256, 65535, 65536, -65536, 4294967295ll, 4294967296ll, -4294967295ll, -4294967296ll, 2147483648ll, 9223372036854775807ll, -9223372036854775807ll, -9223372036854775807ll - 1 };
static J leaf(int set) { if (set == 0) switch (sq::choose(5)) { case 0: return J(); case 1: return J::boolean(true); case 2: return J::integer(-300); case 3: return J::str("a"); default: return J::flt(0.5); }
	switch (sq::choose(7)) { case 0: return J(); case 1: return J::boolean(sq::choose(2)); case 2: return J::integer(ints[sq::choose(sizeof(ints) / sizeof(*ints))]); case 3: return J::uns(sq::choose(2) ? ~0ull : 1ull << 63); case 4: return J::flt(flts[sq::choose(sizeof(flts) / sizeof(*flts))]); default: { int k = sq::choose(sizeof(strs) / sizeof(*strs)); return J::str(S(strs[k].p, strs[k].n)); } case 6: return sq::choose(2) ? J(J::Arr) : J(J::Obj); } }
static const char *keys[] = {"", "a", "\xC4\x8D\"", "b"};
static J make(int &nodes, int set) { nodes--; int k = nodes > 0 ? sq::choose(3) : 0; if (k == 0) return leaf(set); J j(k == 1 ? J::Arr : J::Obj); int n = 0; do { J x = make(nodes, set); if (k == 1) j.a.push_back(x); else { if (n == 4) return j; j.o.push_back(std::make_pair(S(keys[n]), x)); } n++; } while (nodes > 0 && sq::choose(2)); return j; }
// ---- the format, from the description of the codes in binjson.h
struct Bad {}; struct Unsure {};
struct Dec { const S &b; size_t p; const std::vector<S> &tab; std::vector<J> stack; bool exotic; Dec(const S &b, const std::vector<S> &tab):b(b), p(0), tab(tab), exotic(false) {}
	unsigned byte() { if (p >= b.size()) throw Bad(); return (unsigned char)b[p++]; }
	unsigned code() { unsigned c = byte(); if (c < 0x80) return c; exotic = true; if (c >= 0xC2 && c < 0xE0) { unsigned d = byte(); if (d >= 0x80 && d < 0xC0) return (c & 31) << 6 | (d & 63); } else if (c >= 0xE0 && c < 0xF0) { unsigned d = byte(), e = byte(); if ((d & 0xC0) == 0x80 && (e & 0xC0) == 0x80) return (c & 15) << 12 | (d & 63) << 6 | (e & 63); } throw Unsure(); }
	unsigned long long num(int w) { unsigned long long r = 0; for (int i = 0; i < 1 << w; i++) r |= (unsigned long long)byte() << 8 * i; return r; }
	S str(int w) { unsigned long long n = num(w); if (n > b.size() - p) throw Bad(); S r = b.substr(p, n); p += n; return r; }
	S named(unsigned c, const char *what) { c -= 40; if (c < tab.size()) return tab[c]; char t[32]; snprintf(t, 32, "%s%u", what, c); return t; }
	S key(unsigned c) { if (c == 21) return S(); if (c >= 8 && c <= 11) return str(c - 8); if (c < 40) throw Bad(); return named(c, "Key"); }
	bool top(J &j) { unsigned c = code(); switch (c) { case 0: j = J(); return true; case 1: j = J::boolean(false); return true; case 2: j = J::boolean(true); return true; case 3: { J a(J::Arr); for (;;) { if (p < b.size() && (unsigned char)b[p] == 5) { p++; j = a; return true; } J x; val(x); a.a.push_back(x); } }
		case 4: { J o(J::Obj); for (;;) { unsigned k = code(); if (k == 5) { j = o; return true; } S n = key(k); J x; val(x); o.o.push_back(std::make_pair(n, x)); } } case 5: return false; case 6: { J x; val(x); stack.push_back(x); return top(j); } case 7: if (stack.empty()) throw Bad(); j = stack.back(); stack.pop_back(); return true;
		case 8: case 9: case 10: case 11: j = J::str(str(c - 8)); return true; case 12: case 13: case 14: case 15: j = J::uns(num(c - 12)); return true; case 16: case 17: case 18: case 19: { unsigned long long n = num(c - 16); if (n > 1ull << 63) throw Bad(); j = J::integer((long long)(0 - n)); return true; } case 20: j = J::integer(0); return true; case 21: j = J::str(""); return true;
		case 22: { if (b.size() - p < 4) throw Bad(); float f; memcpy(&f, b.data() + p, 4); p += 4; j = J::flt(f); return true; } case 23: { if (b.size() - p < 8) throw Bad(); double f; memcpy(&f, b.data() + p, 8); p += 8; j = J::flt(f); return true; }
		case 28: case 29: case 30: { unsigned long long n = num(c - 28); if (n >= stack.size()) throw Bad(); j = stack[stack.size() - 1 - n]; return true; } case 31: { unsigned n = byte(); if (n > stack.size()) throw Unsure(); stack.resize(stack.size() - n); return top(j); } default: if (c < 40) throw Bad(); j = J::str(named(c, "Undefined")); return true; } }
	void val(J &j) { if (!top(j)) throw Bad(); } };
static void tableFor(int k, std::vector<S> &t) { if (k == 1) { t.push_back("a"); t.push_back("b"); } if (k == 2) { t.push_back("b"); t.push_back("\xC4\x8D\""); t.push_back("a"); t.push_back("\xC5\x99\xE2\x82\xAC"); } if (k == 3) { for (int i = 0; i < 120; i++) { char b[8]; snprintf(b, 8, "x%d", i); t.push_back(b); } t.push_back("a"); t.push_back("b"); } if (k == 4) { t.push_back("a"); t.push_back("a"); t.push_back("b"); } }
template<typename C> static void table(C &c, const std::vector<S> &t) { for (size_t i = 0; i < t.size(); i++) c.addEnum(ConstStrA(t[i].data(), t[i].size())); }
static J clean(const J &j) { J r = j; if (r.t == J::Flt && r.d - r.d != 0) return J(); for (size_t i = 0; i < r.a.size(); i++) r.a[i] = clean(j.a[i]); for (size_t i = 0; i < r.o.size(); i++) r.o[i].second = clean(j.o[i].second); return r; }
static bool same(const J &a, const J &b) { if (a.t == J::Flt && b.t == J::Flt && a.d != a.d && b.d != b.d) return true; if (a.t == J::Arr && b.t == J::Arr) { if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!same(a.a[i], b.a[i])) return false; return true; } if (a.t == J::Obj && b.t == J::Obj) { if (a.o.size() != b.o.size()) return false; for (size_t i = 0; i < a.o.size(); i++) if (a.o[i].first != b.o[i].first || !same(a.o[i].second, b.o[i].second)) return false; return true; } return jeq(a, b); }
static void warmup() { static bool done = false; if (done) return; done = true; JSON::PFactory f = JSON::create(); f->newValue(null); f->newValue(true); f->newValue(false); f->newValue((integer)0); f->newValue(""); f->array()->add(f->object()); JSON::Value o = f->object(); o->add("a", f->newValue("x")); jfrom(o); try { throwIteratorNoMoreItems(THISLOCATION, typeid(char)); } catch (std::exception &) {} }
static void fromText(const S &t, const J &w, const char *what) { J p; SQ_ASSERT(jstrict(t, p) && same(p, clean(w)), "%s %s is converted to the text %s", what, jshow(w).c_str(), sq::show(t).c_str()); }
// writing and reading a sequence of values
static void roundtrip(const std::vector<J> &v, int tab, int step) { warmup(); std::vector<S> t; tableFor(tab, t); size_t h0 = sq::heapBytes(); { S out; { JSON::PFactory f = JSON::create(); JSON::JsonToBinary w; table(w, t); SeqFileOutput o(new StrOut(out, step)); for (size_t i = 0; i < v.size(); i++) w.serialize(jto(v[i], f), o); }
	Dec d(out, t); JSON::BinaryToJson r; table(r, t); SeqFileInput in(new StrIn(out, step)); for (size_t i = 0; i < v.size(); i++) { J e = v[i], x; jsort(e); bool ok = true; try { d.val(x); } catch (Bad) { ok = false; } catch (Unsure) { ok = false; } jsort(x); SQ_ASSERT(ok && jeq(x, e), "%s is written as %s", jshow(e).c_str(), sq::show(out).c_str()); JSON::Value g = r.parse(in); J q = jfrom(g); if (q.t == J::Str && tab) SQ_ASSERT(jwstr(g->getString()) == q.s && jwstr(g->getString()) == q.s, "the wide form of %s differs", jshow(q).c_str()); SQ_ASSERT(same(q, e), "%s is read back as %s from %s", jshow(e).c_str(), jshow(q).c_str(), sq::show(out).c_str()); JSON::Value c = g->clone(JSON::create()); SQ_ASSERT(*c == *g && *g == *c, "a clone differs"); }
	SQ_ASSERT(d.p == out.size() && !in.hasItems(), "data remain after the last value"); JSON::BinaryToJson k; table(k, t); SeqFileInput in2(new StrIn(out, step)); for (size_t i = 0; i < v.size(); i++) { S text; { SeqTextOutA to((SeqFileOutput(new StrOut(text, step)))); k.convertToText(in2, to); } J e = v[i]; jsort(e); fromText(text, e, "the value"); } SQ_ASSERT(!in2.hasItems(), "data remain after the last converted value"); }
	SQ_ASSERT(sq::heapBytes() == h0, "%ld bytes are leaked", (long)(sq::heapBytes() - h0)); }
SQ_SCENARIO(leaves, 2, 3) { int n = 1 + sq::choose(sq::depth()); std::vector<J> v(1, make(n, 1)); int k = sq::choose(5); roundtrip(v, k, k & 1); sq::outcome(jshow(v[0]).size() % 32); }
SQ_SCENARIO(shapes, 4, 5) { int n = 1 + sq::choose(sq::depth()); std::vector<J> v(1, make(n, 0)); roundtrip(v, 1, 0); sq::outcome(jshow(v[0]).size() % 32); }
SQ_SCENARIO(sequences, 3, 4) { std::vector<J> v; int n = sq::choose(sq::depth()) + 1; for (int i = 0; i < n; i++) { int k = 1 + (sq::choose(2)); v.push_back(make(k, 0)); } roundtrip(v, 2, 1); sq::outcome(n); }
SQ_SCENARIO(numbers, 64, 64) { int bit = sq::choose(64); std::vector<J> v; for (int d = -2; d <= 2; d++) for (int s = 0; s < 2; s++) { unsigned long long u = (1ull << bit) + d; v.push_back(s ? J::integer((long long)(0 - u)) : J::uns(u)); } roundtrip(v, 0, 0); }
SQ_SCENARIO(lengths, 20, 20) { static const int len[] = {0, 1, 2, 254, 255, 256, 257, 4095, 4096, 4097, 8192, 8193, 65534, 65535, 65536, 65537, 127, 128, 300, 10000}; int n = len[sq::choose(20)]; std::vector<J> v(1, J::str(S(n, 'x'))); J o(J::Obj); o.o.push_back(std::make_pair(S(n, 'k'), J::str(S(n, 'v')))); v.push_back(o); v.push_back(J::integer(1)); roundtrip(v, sq::choose(2), 0); }
SQ_SCENARIO(characters, 256, 256) { int a = sq::choose(256); std::vector<J> v; for (int b = 0; b < 256; b += 5) { S s(1, (char)a); s += (char)b; v.push_back(J::str(s)); J o(J::Obj); o.o.push_back(std::make_pair(s, J())); v.push_back(o); } S out; std::vector<S> t; JSON::PFactory f = JSON::create(); JSON::JsonToBinary w; SeqFileOutput o(new StrOut(out)); for (size_t i = 0; i < v.size(); i++) w.serialize(jto(v[i], f), o); JSON::BinaryToJson r; SeqFileInput in(new StrIn(out)); for (size_t i = 0; i < v.size(); i++) { J q = jfrom(r.parse(in)); SQ_ASSERT(same(q, v[i]), "%s is read back as %s", jshow(v[i]).c_str(), jshow(q).c_str()); } }
// ---- any bytes: the value of the format or an exception
static void check(const S &b, int tab, int step = 0, bool must = true) { warmup(); std::vector<S> t; tableFor(tab, t); Dec d(b, t); J e; int verdict = 0; /* 0 value, 1 none, 2 bad, 3 either */ try { if (!d.top(e)) verdict = 1; } catch (Bad) { verdict = 2; } catch (Unsure) { verdict = 3; } J raw = e; jsort(e); size_t h0 = sq::heapBytes(); { JSON::BinaryToJson r; table(r, t); StrIn *si = new StrIn(b, step); SeqFileInput in(si); bool ok = true; J q; bool none = false; try { JSON::Value g = r.parse(in); none = g == nil; if (!none) q = jfrom(g); } catch (std::exception &) { ok = false; }
	if (verdict == 2 && ok) sq::fail("%s is accepted as %s", sq::show(b).c_str(), none ? "no value" : jshow(q).c_str()); if (verdict < 2) { SQ_ASSERT(ok, "%s is refused", sq::show(b).c_str()); SQ_ASSERT(none == (verdict == 1), "%s: a value is %s", sq::show(b).c_str(), none ? "missing" : "there"); SQ_ASSERT(verdict == 1 || same(q, e), "%s is read as %s instead of %s", sq::show(b).c_str(), jshow(q).c_str(), jshow(e).c_str()); SQ_ASSERT(si->p == d.p, "%s: %lu bytes were read instead of %lu", sq::show(b).c_str(), (unsigned long)si->p, (unsigned long)d.p); }
	JSON::BinaryToJson k; table(k, t); si = new StrIn(b, step); SeqFileInput in2(si); S text; ok = true; try { SeqTextOutA to((SeqFileOutput(new StrOut(text, step)))); k.convertToText(in2, to); } catch (std::exception &) { ok = false; } if (verdict == 2 || verdict == 1) SQ_ASSERT(!ok, "%s is converted to the text %s", sq::show(b).c_str(), sq::show(text).c_str()); if (verdict == 0) { bool asc = true; for (size_t i = 0; i < b.size(); i++) if ((unsigned char)b[i] >= 0x80) asc = false; if (asc || !d.exotic) { if (asc) { SQ_ASSERT(ok, "%s is not converted", sq::show(b).c_str()); fromText(text, e, "the value"); } if (ok) SQ_ASSERT(si->p == d.p, "%s: %lu bytes were converted instead of %lu", sq::show(b).c_str(), (unsigned long)si->p, (unsigned long)d.p); } } (void)must; }
	SQ_ASSERT(sq::heapBytes() == h0, "%ld bytes are leaked", (long)(sq::heapBytes() - h0)); sq::outcome(verdict); }
SQ_SCENARIO(truncated, 3, 4) { int n = 1 + sq::choose(sq::depth()); J j = make(n, 0); int tab = sq::choose(2), step = sq::choose(2); std::vector<S> t; tableFor(tab, t); S out; { JSON::JsonToBinary w; table(w, t); SeqFileOutput o(new StrOut(out)); w.serialize(jto(j, JSON::create()), o); } for (size_t i = 0; i < out.size(); i++) check(out.substr(0, i), tab, step); }
SQ_SCENARIO(corrupted, 3, 4) { int n = 1 + sq::choose(sq::depth()); J j = make(n, 0); S out; std::vector<S> t; tableFor(1, t); { JSON::JsonToBinary w; table(w, t); SeqFileOutput o(new StrOut(out)); w.serialize(jto(j, JSON::create()), o); } if (out.size() > 24 && !sq::thorough()) out.resize(24); for (size_t i = 0; i < out.size(); i++) for (int v = 0; v < 256; v += (sq::thorough() ? 1 : i & 1 ? 3 : 5)) { S x = out; x[i] = (char)v; check(x, 1); } }
SQ_SCENARIO(codes, 4, 5) { static const unsigned char al[] = {0, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 21, 24, 28, 29, 31, 35, 40, 41, 42, 1, 'a'}; int n = sq::choose(sq::depth() + 1); S s; for (int i = 0; i < n; i++) s += (char)al[sq::choose(sizeof al)]; check(s, 1); }
SQ_SCENARIO(stack_codes, 7, 9) { static const unsigned char al[] = {3, 5, 6, 7, 28, 31, 1, 20}; int n = sq::choose(sq::depth()) + 1; S s(1, (char)3); for (int i = 1; i < n; i++) s += (char)al[sq::choose(sizeof al)]; check(s, 0); }
SQ_SCENARIO(object_codes, 6, 7) { static const unsigned char al[] = {4, 5, 8, 1, 2, 'k', 40, 50, 21, 12}; int n = sq::choose(sq::depth()) + 1; S s(1, (char)4); for (int i = 1; i < n; i++) s += (char)al[sq::choose(sizeof al)]; check(s, 1); }
SQ_SCENARIO(byte_pairs, 256, 256) { int a = sq::choose(256); for (int b = 0; b < 256; b++) { S s(1, (char)a); s += (char)b; check(s, 3); S q("\x04"); q += s; q += S("\x02\x05"); check(q, 3); check("\x03" + s + "\x05", 2); } }
SQ_SCENARIO(huge_lengths, 1, 1) { S s(1, (char)(8 + sq::choose(4))); int n = 1 << (s[0] - 8); int cut = sq::choose(n + 1), lo = sq::choose(5), hi = sq::choose(5); static const char v[] = "\0\x7f\xff\1\x80"; for (int i = 0; i < n; i++) s += i < cut ? v[lo] : v[hi]; s += "abc"; if (sq::choose(2)) s = "\x04" + s; check(s, 0); }
SQ_SCENARIO(floats, 256, 256) { int hi = sq::choose(256); static const unsigned char mid[] = {0, 1, 0x7f, 0x80, 0xf0, 0xff, 0xf8, 0x3f}; for (int m = 0; m < 8; m++) for (int l = 0; l < 2; l++) { S f(1, (char)22); f += S(2, (char)(l ? 0xff : 0)); f += (char)mid[m]; f += (char)hi; S d(1, (char)23); d += S(6, (char)(l ? 0x55 : 0)); d += (char)mid[m]; d += (char)hi; for (int k = 0; k < 2; k++) { const S &b = k ? d : f; std::vector<S> t; Dec dec(b, t); J e; dec.val(e); JSON::BinaryToJson r; SeqFileInput in(new StrIn(b)); J q = jfrom(r.parse(in)); SQ_ASSERT(same(q, e), "%s is read as %s instead of %s", sq::show(b).c_str(), jshow(q).c_str(), jshow(e).c_str()); double v = e.num(); if (fabs(v) > 1e-280 && fabs(v) < 1e280) { JSON::BinaryToJson c; S text; SeqFileInput in2(new StrIn(b)); SeqTextOutA to((SeqFileOutput(new StrOut(text)))); c.convertToText(in2, to); J p; SQ_ASSERT(jstrict(text, p) && p.isNum() && fabs(p.num() - v) <= fabs(v) * 1e-15, "%s is converted to %s", jshow(e).c_str(), text.c_str()); } } } }
// ---- numbers of variable length
SQ_SCENARIO(compressed, 65536, 65536) { int hi = sq::choose(256); byte b[16]; for (int lo = 0; lo < 256; lo++) for (int sh = 0; sh <= 56; sh += 4) for (int d = -1; d < 2; d++) { unsigned long long off = 0; for (int k = 0; k < 8; k++) { unsigned long long u = ((unsigned long long)(hi << 8 | lo) << sh) + d + off; memset(b, 0xA5, sizeof b); natural n = CompressNumb::compress(u, b); SQ_ASSERT(n >= 1 && n <= 9 && b[n] == 0xA5 && CompressNumb::numberLength(b[0]) == n, "%llu takes %lu bytes, the length read back is %lu", u, (unsigned long)n, (unsigned long)CompressNumb::numberLength(b[0])); SQ_ASSERT(CompressNumb::decompress(b) == u, "%llu is read back as %llu", u, (unsigned long long)CompressNumb::decompress(b)); long long s = (long long)u; n = CompressNumb::compressSigned(s, b); SQ_ASSERT(n <= 9 && CompressNumb::decompressSigned(b) == s, "%lld is read back as %lld", s, (long long)CompressNumb::decompressSigned(b)); if (lo % 8) break; off = off << 8 | 0x20; } } }
