// C26: UTF-8: every code point, every short byte sequence, every way of feeding the converters
#include "lightspeed/base/streams/utf.tcc"
#include "lightspeed/base/iter/iterConv.h"
#include "lightspeed/base/iter/iteratorFilter.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/utf.h"
#include "seq.h"
#include <vector>
using namespace LightSpeed;
typedef std::string S; typedef std::vector<wchar_t> W;
static S enc1(uint32_t c) { S s; if (c < 0x80) { s += (char)c; return s; } int n = c < 0x800 ? 1 : c < 0x10000 ? 2 : c < 0x200000 ? 3 : c < 0x4000000 ? 4 : 5; static const unsigned char lead[] = {0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC}; s += (char)(lead[n] | (c >> 6 * n)); for (int i = n - 1; i >= 0; i--) s += (char)(0x80 | (c >> 6 * i & 63)); return s; }
static S enc(const W &w) { S s; for (size_t i = 0; i < w.size(); i++) s += enc1(w[i]); return s; }
// reference decoder: 0 = valid, 1 = invalid byte met, 2 = ends within a character (out holds what precedes)
static int dec(const S &s, W &o) { size_t i = 0; while (i < s.size()) { unsigned char a = s[i]; int n; uint32_t c; if (a < 0x80) { n = 0; c = a; } else if (a < 0xC0) return 1; else if (a < 0xE0) { n = 1; c = a & 31; } else if (a < 0xF0) { n = 2; c = a & 15; } else if (a < 0xF8) { n = 3; c = a & 7; } else if (a < 0xFC) { n = 4; c = a & 3; } else if (a < 0xFE) { n = 5; c = a & 1; } else return 1;
	i++; for (; n; n--, i++) { if (i == s.size()) return 2; unsigned char b = s[i]; if ((b & 0xC0) != 0x80) return 1; c = c << 6 | (b & 63); } o.push_back((wchar_t)c); } return 0; }
static S showw(const W &w) { S s; char b[20]; for (size_t i = 0; i < w.size(); i++) { snprintf(b, 20, "U+%04X ", (unsigned)w[i]); s += b; } return s; }
template<typename T, typename V> struct Src: public IteratorBase<T, Src<T, V> > { const V *s; size_t p; mutable T tmp; Src(const V *s):s(s), p(0) {} bool hasItems() const { return p < s->size(); } const T &getNext() { SQ_ASSERT(p < s->size(), "the source is read beyond its end"); tmp = (*s)[p++]; return tmp; } const T &peek() const { tmp = (*s)[p]; return tmp; } };
template<typename T, typename V> struct Out: public WriteIteratorBase<T, Out<T, V> > { V *o; Out(V *o):o(o) {} bool hasItems() const { return true; } void write(const T &x) { o->push_back(x); } void flush() {} };
enum { MODES = 8 };
static const char *modeName[] = {"converter", "reader", "writer", "block writer", "block reader", "filter reader", "filter writer", "filter block writer"};
template<typename C, typename F, typename I, typename O> static O drive(const I &in, int mode, const C &c0 = C(), const F &f0 = F()) { typedef typename C::FromType FT; typedef typename C::ToType TT; O out; typedef Src<FT, I> SR; typedef Out<TT, O> OU;
	try { switch (mode) {
	case 0: { C c(c0); for (size_t i = 0; i < in.size(); i++) { c.write((FT)in[i]); while (c.hasItems) { TT p = c.peek(); out.push_back(c.getNext()); SQ_ASSERT(p == out.back(), "peek differs from getNext"); SQ_ASSERT(out.size() < 10000, "the converter never runs out of items"); } } c.flush(); SQ_ASSERT(!c.hasItems, "items after flush"); break; }
	case 1: { SR s(&in); ConvertReadIter<C, SR &> r(c0, s); while (r.hasItems()) { SQ_ASSERT(r.hasItems(), "hasItems changes"); out.push_back(r.getNext()); SQ_ASSERT(out.size() < 10000, "endless"); } break; }
	case 2: { ConvertWriteIter<C, OU> w(c0, OU(&out)); for (size_t i = 0; i < in.size(); i++) w.write((FT)in[i]); break; }
	case 3: { ConvertWriteIter<C, OU> w(c0, OU(&out)); size_t i = 0, step = 1; while (i < in.size()) { size_t n = in.size() - i < step ? in.size() - i : step; std::vector<FT> b(in.begin() + i, in.begin() + i + n); natural k = w.blockWrite(ArrayRef<const FT>(&b[0], n), true); SQ_ASSERT(k == n, "a block of %lu written up to %lu", (unsigned long)n, (unsigned long)k); i += n; step = step % 5 + 1; } break; }
	case 4: { SR s(&in); ConvertReadIter<C, SR &> r(c0, s); TT buf[8]; size_t want = 1; while (r.hasItems()) { ArrayRef<TT> a(buf, want); natural k = r.blockRead(a.ref()); SQ_ASSERT(k >= 1 && k <= want, "a block of %lu read as %lu", (unsigned long)want, (unsigned long)k); for (natural j = 0; j < k; j++) out.push_back(buf[j]); want = want % 5 + 1; SQ_ASSERT(out.size() < 10000, "endless"); } break; }
	case 5: { SR s(&in); FilterRead<SR &, F> r(s, f0); while (r.hasItems()) { out.push_back(r.getNext()); SQ_ASSERT(out.size() < 10000, "endless"); } break; }
	case 6: { FilterWrite<OU, F> w(OU(&out), f0); for (size_t i = 0; i < in.size(); i++) w.write((FT)in[i]); break; }
	case 7: { FilterWrite<OU, F> w(OU(&out), f0); size_t i = 0, step = 1; while (i < in.size()) { size_t n = in.size() - i < step ? in.size() - i : step; std::vector<FT> b(in.begin() + i, in.begin() + i + n); natural k = w.blockWrite(ArrayRef<const FT>(&b[0], n), true); SQ_ASSERT(k == n, "a block of %lu written up to %lu", (unsigned long)n, (unsigned long)k); i += n; step = step % 5 + 1; } break; }
	} } catch (InvalidUTF8Character &) { throw 1; } return out; }
static S toU(const W &w, int m) { return drive<WideToUtf8Convert, WideToUtf8Filter, W, S>(w, m); }
static W toW(const S &s, int m, bool skipInv = false) { Utf8ToWideConvert c(skipInv); Utf8ToWideFilter f; f.enableSkipInvalidChars(skipInv); return drive<Utf8ToWideConvert, Utf8ToWideFilter, S, W>(s, m, c, f); }
static void roundtrip(const W &w, int m) { S ref = enc(w), u; W b; try { u = toU(w, m); } catch (int) { sq::fail("encoding %s by the %s throws", showw(w).c_str(), modeName[m]); } SQ_ASSERT(u == ref, "%s encoded by the %s is %s instead of %s", showw(w).c_str(), modeName[m], sq::show(u).c_str(), sq::show(ref).c_str());
	try { b = toW(ref, m); } catch (int) { sq::fail("decoding %s (%s) by the %s throws", sq::show(ref).c_str(), showw(w).c_str(), modeName[m]); } SQ_ASSERT(b == w, "%s decoded by the %s is %s instead of %s", sq::show(ref).c_str(), modeName[m], showw(b).c_str(), showw(w).c_str()); }
// every code point of Unicode, in every feeding mode, in the company of other characters
SQ_SCENARIO(every_code_point, 1, 8) { uint32_t blk = sq::choose(0x110); int m = sq::choose(MODES); int ctx = sq::choose(sq::depth()); static const wchar_t nb[] = {'a', 0x7FF, 0x10FFFF, 0x800, 0, 0x10000, 0x80, 0xFFFF};
	for (uint32_t c = blk << 12; c < (blk + 1) << 12; c++) { W w; w.push_back(c); if (m > 1 || ctx) { w.push_back(nb[ctx]); w.insert(w.begin(), nb[ctx]); w.push_back(c); } roundtrip(w, m); } sq::outcome(blk * 10 + m); }
// the whole 31 bit range around each power of two and combinations of two bits
SQ_SCENARIO(wide_range, 2, 3) { uint32_t c = 0; for (int i = 0; i < sq::depth(); i++) { int b = sq::choose(32); if (b < 31) c ^= 1u << b; } int d = sq::choose(5) - 2; c = (c + d) & 0x7FFFFFFF; if (c == 0x7FFFFFFF && 0) sq::skip(); for (int m = 0; m < MODES; m++) { if (c == 0x7FFFFFFF && m >= 5) continue; W w; w.push_back(c); w.push_back('x'); roundtrip(w, m); } }
// strings of boundary characters
SQ_SCENARIO(strings, 4, 5) { static const wchar_t al[] = {0, 'a', 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0x1FFFFF, 0x7FFFFFFE}; int n = sq::choose(sq::depth() + 1); W w; for (int i = 0; i < n; i++) w.push_back(al[sq::choose(11)]); for (int m = 0; m < MODES; m++) roundtrip(w, m);
	String s(ConstStrW(n ? &w[0] : L"", n)); StringA u = s.getUtf8(); S ref = enc(w), uu(u.data(), u.length()); SQ_ASSERT(uu == ref, "String::getUtf8 of %s is %s", showw(w).c_str(), sq::show(uu).c_str()); SQ_ASSERT(s.utf8length() == ref.size(), "utf8length"); StringA u2 = String::getUtf8(ConstStrW(n ? &w[0] : L"", n)); SQ_ASSERT(S(u2.data(), u2.length()) == ref, "String::getUtf8(text)"); SQ_ASSERT(String::utf8length(ConstStrW(n ? &w[0] : L"", n)) == ref.size(), "utf8length(text)");
	String b(ConstStrA(ref.data(), ref.size())); SQ_ASSERT(W(b.data(), b.data() + b.length()) == w, "String from UTF-8 %s has %lu characters", sq::show(ref).c_str(), (unsigned long)b.length()); SQ_ASSERT(b == s, "not equal after the round trip"); }
// every byte sequence: either exactly the characters it stands for, or an exception
static void bytes(const S &s) { if (s.find((char)0xFE) != S::npos) return; /* lead of a 36 bit form, beyond what is claimed */ W ref; int kind = dec(s, ref); for (int m = 0; m < MODES; m++) { W o; bool thrown = false; try { o = toW(s, m); } catch (int) { thrown = true; }
		if (kind == 0) { SQ_ASSERT(!thrown, "valid sequence %s is refused by the %s", sq::show(s).c_str(), modeName[m]); SQ_ASSERT(o == ref, "%s decoded by the %s is %s", sq::show(s).c_str(), modeName[m], showw(o).c_str()); }
		else if (kind == 1) SQ_ASSERT(thrown, "invalid sequence %s is accepted by the %s as %s", sq::show(s).c_str(), modeName[m], showw(o).c_str());
		else SQ_ASSERT(thrown || o == ref, "truncated sequence %s is decoded by the %s as %s", sq::show(s).c_str(), modeName[m], showw(o).c_str());
		try { W o2 = toW(s, m, true); if (kind == 0) SQ_ASSERT(o2 == ref, "with skipping of invalid characters, valid %s is decoded as %s", sq::show(s).c_str(), showw(o2).c_str()); SQ_ASSERT(o2.size() <= s.size(), "more characters than bytes"); }
		catch (int) { SQ_ASSERT(kind && m >= 5, "skipping of invalid characters is on but %s makes the %s throw", sq::show(s).c_str(), modeName[m]); } // the filters report an incomplete end even then
		try { S t = s + "\xC3\xA9" "bc"; W o3 = toW(t, m, true); size_t k = o3.size(); SQ_ASSERT(k >= 2 && o3[k - 2] == 'b' && o3[k - 1] == 'c' && (kind || o3[k - 3] == 0xE9), "with skipping, the text after %s is lost (%s)", sq::show(s).c_str(), showw(o3).c_str()); }
		catch (int) { sq::fail("skipping of invalid characters is on but %s followed by text makes the %s throw", sq::show(s).c_str(), modeName[m]); } } }
SQ_SCENARIO(every_short_sequence, 2, 3) { int n = sq::choose(sq::depth() + 1); S s; for (int i = 0; i < n; i++) s += (char)sq::choose(256); bytes(s); }
SQ_SCENARIO(sequences_of_classes, 5, 6) { static const char al[] = "a\x80\xBF\xC2\xE1\xF3\xF9\xFC\xFF"; int n = sq::choose(sq::depth() + 1); S s; for (int i = 0; i < n; i++) s += al[sq::choose(9)]; bytes(s); }
// UCS-2 in both byte orders
SQ_SCENARIO(ucs2, 1, 1) { int blk = sq::choose(16); for (int be = 0; be < 2; be++) for (int c = blk << 12; c < (blk + 1) << 12; c++) { W w; w.push_back(c); w.push_back('x'); S b; { typedef Out<byte, S> OU; WideToBytes wb(be); FilterWrite<OU, WideToBytes> fw((OU(&b)), wb); for (size_t i = 0; i < w.size(); i++) fw.write(w[i]); }
		S ref; for (size_t i = 0; i < w.size(); i++) { if (be) { ref += (char)(w[i] >> 8); ref += (char)w[i]; } else { ref += (char)w[i]; ref += (char)(w[i] >> 8); } } SQ_ASSERT(b == ref, "U+%04X as bytes is %s", c, sq::show(b).c_str());
		if (c == 0xFEFF || c == 0xFFFE) continue; for (int bom = 0; bom < 2; bom++) { W o; S in = bom ? (be ? S("\xFE\xFF") : S("\xFF\xFE")) + ref : ref; typedef Src<byte, S> SR; SR s(&in); FilterRead<SR &, BytesToWide> r(s, BytesToWide(bom ? !be : be)); while (r.hasItems()) { o.push_back(r.getNext()); SQ_ASSERT(o.size() < 9, "endless"); } SQ_ASSERT(o == w, "bytes of U+%04X are decoded as %s", c, showw(o).c_str()); } } }
