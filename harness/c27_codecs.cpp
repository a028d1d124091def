// C27: base16/32/64/85: every short byte string, every way of feeding it, against reference encoders
#include "lightspeed/utils/base16.h"
#include "lightspeed/utils/base32.h"
#include "lightspeed/utils/base64.tcc"
#include "lightspeed/utils/base85.h"
#include "lightspeed/base/iter/iterConv.h"
#include "lightspeed/base/iter/iteratorFilter.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/flatArray.h"
#include "seq.h"
#include <vector>
#include <string.h>
using namespace LightSpeed;
typedef std::string S;
// ---- reference encoders
static S ref64(const S &d, bool url, bool pad) { const char *t = url ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S o; unsigned acc = 0; int bits = 0; for (size_t i = 0; i < d.size(); i++) { acc = acc << 8 | (unsigned char)d[i]; bits += 8; while (bits >= 6) { bits -= 6; o += t[acc >> bits & 63]; } } if (bits) o += t[acc << (6 - bits) & 63]; if (pad) while (o.size() % 4) o += '='; return o; }
static S ref32(const S &d, bool pad) { const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"; S o; uint64_t acc = 0; int bits = 0; for (size_t i = 0; i < d.size(); i++) { acc = acc << 8 | (unsigned char)d[i]; bits += 8; while (bits >= 5) { bits -= 5; o += t[acc >> bits & 31]; } } if (bits) o += t[acc << (5 - bits) & 31]; if (pad) while (o.size() % 8) o += '='; return o; }
static S ref16(const S &d, bool up) { S o; const char *t = up ? "0123456789ABCDEF" : "0123456789abcdef"; for (size_t i = 0; i < d.size(); i++) { o += t[(unsigned char)d[i] >> 4]; o += t[(unsigned char)d[i] & 15]; } return o; }
static S ref85(const S &d) { const char *t = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ.-:+=^!/*?&<>()[]{}@%$#"; S o; for (size_t i = 0; i < d.size(); i += 4) { uint32_t a = 0; size_t n = d.size() - i < 4 ? d.size() - i : 4; for (size_t k = 0; k < 4; k++) a = a << 8 | (k < n ? (unsigned char)d[i + k] : 0); char b[5]; for (int k = 4; k >= 0; k--) { b[k] = t[a % 85]; a /= 85; } o.append(b, n + 1); } return o; }
// ---- drivers: the ways to feed a converter
struct Sink { S *o; bool hasItems() const { return true; } template<typename T> void write(const T &x) { o->push_back((char)x); } void flush() {} };
template<typename T> struct Out: public WriteIteratorBase<T, Out<T> > { S *o; Out(S *o):o(o) {} bool hasItems() const { return true; } void write(const T &x) { o->push_back((char)x); } void flush() {} };
template<typename T> struct Src: public IteratorBase<T, Src<T> > { const S *s; size_t p; mutable T tmp; Src(const S *s):s(s), p(0) {} bool hasItems() const { return p < s->size(); } const T &getNext() { SQ_ASSERT(p < s->size(), "the source is read beyond its end"); tmp = (T)(*s)[p++]; return tmp; } const T &peek() const { tmp = (T)(*s)[p]; return tmp; } };
enum { MODES = 8 };
static const size_t lim = 4096;
template<typename C> static void eager(C &c, const S &in, S &out) { typedef typename C::FromType F; for (size_t i = 0; i < in.size(); i++) { c.write((F)in[i]); while (c.hasItems) { out += (char)c.getNext(); SQ_ASSERT(out.size() < lim, "the converter never runs out of items"); } } c.flush(); while (c.hasItems) { char p = (char)c.peek(); out += (char)c.getNext(); SQ_ASSERT(out[out.size() - 1] == p, "peek is not the next item"); SQ_ASSERT(out.size() < lim, "the converter never runs out of items after flush"); } }
template<typename C> static S drive(const C &init, const S &in, int mode) { typedef typename C::FromType F; typedef typename C::ToType T; S out;
	switch (mode) {
	case 0: { C c(init); eager(c, in, out); break; }
	case 1: { C c(init); size_t i = 0; for (;;) { if (c.needItems && i < in.size()) { c.write((F)in[i++]); continue; } if (i == in.size() && !c.hasItems) { c.flush(); if (!c.hasItems) break; } SQ_ASSERT(c.hasItems, "the converter neither takes nor gives items"); out += (char)c.getNext(); SQ_ASSERT(out.size() < lim, "endless"); } break; }
	case 2: { Src<F> s(&in); ConvertReadIter<C, Src<F> &> r(init, s); while (r.hasItems()) { out += (char)r.getNext(); SQ_ASSERT(out.size() < lim, "endless"); } SQ_ASSERT(!r.hasItems(), "items appear again"); break; }
	case 3: { Src<F> s(&in); ConvertReadIter<C, Src<F> &> r(init, s); while (r.hasItems()) { SQ_ASSERT(r.hasItems(), "hasItems changes"); T x = r.getNext(); out += (char)x; SQ_ASSERT(out.size() < lim, "endless"); } break; }
	case 4: { { ConvertWriteIter<C, Out<T> > w(init, Out<T>(&out)); for (size_t i = 0; i < in.size(); i++) w.write((F)in[i]); } break; }
	case 5: { { ConvertWriteIter<C, Out<T> > w(init, Out<T>(&out)); size_t i = 0; int step = 1; while (i < in.size()) { size_t n = in.size() - i < (size_t)step ? in.size() - i : step; std::vector<F> b; for (size_t k = 0; k < n; k++) b.push_back((F)in[i + k]); natural c = w.blockWrite(ArrayRef<const F>(&b[0], n), true); if (c != n) { for (size_t k = i + c; k < in.size(); k++) SQ_ASSERT(in[k] == '=', "a block of %lu was written only up to %lu", (unsigned long)n, (unsigned long)c); break; } /* the end of the block: only padding remains */ i += n; step++; } } break; }
	case 6: { Src<F> s(&in); ConvertReadIter<C, Src<F> &> r(init, s); T buf[16]; size_t want = 1; while (r.hasItems()) { ArrayRef<T> a(buf, want); natural c = r.blockRead(a.ref()); SQ_ASSERT(c <= want && (c > 0), "a block of %lu was read as %lu", (unsigned long)want, (unsigned long)c); for (natural k = 0; k < c; k++) out += (char)buf[k]; want = want % 7 + 1; SQ_ASSERT(out.size() < lim, "endless"); } break; }
	case 7: { C c(init); S first; eager(c, in, first); SQ_ASSERT(first == drive(init, in, 0), "differs"); eager(c, in, out); break; } // used again after it was finished
	} return out; }
template<typename E, typename D> static void both(const E &e, const D &d, const S &data, const S &ref, const char *name, int mode, const S &alt = S()) {
	S enc = drive(e, data, mode); SQ_ASSERT(enc == ref, "%s of %s is %s instead of %s (feeding %d)", name, sq::show(data).c_str(), sq::show(enc).c_str(), sq::show(ref).c_str(), mode);
	S dec = drive(d, ref, mode); SQ_ASSERT(dec == data, "%s %s decodes to %s instead of %s (feeding %d)", name, ref.c_str(), sq::show(dec).c_str(), sq::show(data).c_str(), mode); }
static void codecs(const S &d, int codec, int mode) {
	switch (codec) {
	case 0: both(ByteToBase16Convert(), Base16ToByteConvert(), d, ref16(d, true), "base16", mode); { S dec = drive(Base16ToByteConvert(), ref16(d, false), mode); SQ_ASSERT(dec == d, "lower case base16 of %s decodes to %s", sq::show(d).c_str(), sq::show(dec).c_str()); } break;
	case 1: both(ByteToBase16Convert(ByteToBase16Convert::hexLowerCase), Base16ToByteConvert(Base16ToByteConvert::hexLowerCase, true), d, ref16(d, false), "base16 lower", mode); break;
	case 2: both(ByteToBase32Convert(), Base32ToByteConvert(), d, ref32(d, true), "base32", mode); { S l = ref32(d, true); for (size_t i = 0; i < l.size(); i++) l[i] = tolower(l[i]); S dec = drive(Base32ToByteConvert(), l, mode); SQ_ASSERT(dec == d, "lower case base32 %s decodes to %s", l.c_str(), sq::show(dec).c_str()); } break;
	case 3: both(ByteToBase32Convert(ByteToBase32Convert::standardTable, 0), Base32ToByteConvert(Base32ToByteConvert::standardTable, 0, true), d, ref32(d, false), "base32 without padding", mode); break;
	case 4: both(ByteToBase64Convert(), Base64ToByteConvert(), d, ref64(d, false, true), "base64", mode); break;
	case 5: both(ByteToBase64Convert(ByteToBase64Convert::forUrlTable, 0), Base64ToByteConvert(Base64ToByteConvert::forUrlTable, 0), d, ref64(d, true, false), "base64url", mode); { S dec = drive(Base64ToByteConvert(), ref64(d, true, false), mode); SQ_ASSERT(dec == d, "the default decoder turns base64url of %s into %s", sq::show(d).c_str(), sq::show(dec).c_str()); } break;
	case 6: both(ByteToBase85Convert(), Base85ToByteConvert(), d, ref85(d), "base85", mode); break;
	} sq::outcome(d.size() * 100 + codec * 10 + mode); }
enum { CODECS = 7 };
static S letters(int n, const char *a, int k) { S s; for (int i = 0; i < n; i++) s += a[sq::choose(k)]; return s; }
SQ_SCENARIO(all_short, 2, 2) { int n = sq::choose(sq::depth() + 1); S d; for (int i = 0; i < n; i++) d += (char)sq::choose(256); for (int c = 0; c < CODECS; c++) for (int m = 0; m < MODES; m++) codecs(d, c, m); }
SQ_SCENARIO(boundary_strings, 9, 10) { int n = sq::choose(sq::depth() + 1); S d = letters(n, "\0\xFF\x5A", 3); for (int c = 0; c < CODECS; c++) for (int m = 0; m < MODES; m++) codecs(d, c, m); }
SQ_SCENARIO(all_lengths, 300, 700) { S d; int n = sq::choose(sq::depth()), p = sq::choose(4); for (int i = 0; i < n; i++) d += (char)(p == 0 ? 0 : p == 1 ? 255 : p == 2 ? i * 37 + 11 : i * i * 91 + i * 7); for (int c = 0; c < CODECS; c++) for (int m = 0; m < MODES; m++) codecs(d, c, m); }
SQ_SCENARIO(all_triples_boundary, 16, 40) { S d; int k = sq::depth(); for (int i = 0; i < 3; i++) d += (char)(sq::choose(k) * 255 / (k - 1)); for (int c = 0; c < CODECS; c++) codecs(d, c, 0); }
// ---- one converter used for a sequence of messages
template<typename E, typename D> static void sequence(const E &e0, const D &d0, S (*ref)(const S &), const char *name) { E e(e0); D d(d0); for (int i = 0; i < sq::depth(); i++) { S m; int n = sq::choose(6); for (int k = 0; k < n; k++) m += (char)(i * 50 + k * 13 + 1); S en, de; eager(e, m, en); sq::op("message of %d", n); SQ_ASSERT(en == ref(m), "%s: message %d is encoded as %s instead of %s", name, i, en.c_str(), ref(m).c_str()); eager(d, en, de); SQ_ASSERT(de == m, "%s: message %d (%s) is decoded as %s", name, i, en.c_str(), sq::show(de).c_str()); } }
static S r16(const S &m) { return ref16(m, true); } static S r32(const S &m) { return ref32(m, true); } static S r32n(const S &m) { return ref32(m, false); } static S r64(const S &m) { return ref64(m, false, true); } static S r64n(const S &m) { return ref64(m, true, false); }
SQ_SCENARIO(messages, 5, 7) { switch (sq::choose(6)) { case 0: sequence(ByteToBase16Convert(), Base16ToByteConvert(), r16, "base16"); break; case 1: sequence(ByteToBase32Convert(), Base32ToByteConvert(), r32, "base32"); break; case 2: sequence(ByteToBase32Convert(ByteToBase32Convert::standardTable, 0), Base32ToByteConvert(), r32n, "base32 without padding"); break; case 3: sequence(ByteToBase64Convert(), Base64ToByteConvert(), r64, "base64"); break; case 4: sequence(ByteToBase64Convert(ByteToBase64Convert::forUrlTable, 0), Base64ToByteConvert(), r64n, "base64url"); break; case 5: sequence(ByteToBase85Convert(), Base85ToByteConvert(), ref85, "base85"); break; } }
// ---- the filter based coders
template<typename F> static S filt(const S &in, int mode, const F &init = F()) { typedef typename F::InputT I; typedef typename F::OutputT T; S out; Src<I> s(&in);
	switch (mode) {
	case 0: { FilterRead<Src<I> &, F> r(s, init); while (r.hasItems()) { T p = r.peek(); T x = r.getNext(); SQ_ASSERT(p == x, "peek"); out += (char)x; SQ_ASSERT(out.size() < lim, "endless"); } break; }
	case 1: { { FilterWrite<Out<T>, F> w(Out<T>(&out), init); for (size_t i = 0; i < in.size(); i++) { I x = (I)in[i]; w.write(x); } } break; }
	case 2: { { FilterWrite<Out<T>, F> w(Out<T>(&out), init); size_t i = 0, step = 1; while (i < in.size()) { size_t n = in.size() - i < step ? in.size() - i : step; std::vector<I> b; for (size_t k = 0; k < n; k++) b.push_back((I)in[i + k]); natural c = w.blockWrite(ArrayRef<const I>(&b[0], n), true); SQ_ASSERT(c == n, "a block of %lu was written only up to %lu", (unsigned long)n, (unsigned long)c); i += n; step++; } } break; }
	case 3: { { FilterWrite<Out<T>, F> w(Out<T>(&out), init); size_t i = 0, step = 1; while (i < in.size()) { size_t n = in.size() - i < step ? in.size() - i : step; std::vector<I> b; for (size_t k = 0; k < n; k++) b.push_back((I)in[i + k]); natural c = w.blockWrite(ArrayRef<I>(&b[0], n), true); SQ_ASSERT(c == n, "a block of %lu was written only up to %lu", (unsigned long)n, (unsigned long)c); i += n; step++; } } break; }
	case 4: { { FilterWrite<Out<T>, F> w(Out<T>(&out), init); for (size_t i = 0; i < in.size(); i++) { I x = (I)in[i]; w.write(x); } w.flush(); } break; } // flushed and then destroyed
	} return out; }
enum { FMODES = 5 };
static void filters(const S &d, int m) { S x;
	x = filt<Base64Encoder>(d, m); SQ_ASSERT(x == ref64(d, false, true), "Base64Encoder: %s -> %s (feeding %d)", sq::show(d).c_str(), x.c_str(), m);
	x = filt<Base64EncoderChr>(d, m, Base64EncoderChr(true, true)); SQ_ASSERT(x == ref64(d, true, false), "Base64Encoder for url: %s -> %s (feeding %d)", sq::show(d).c_str(), x.c_str(), m);
	x = filt<Base64Decoder>(ref64(d, false, true), m); SQ_ASSERT(x == d, "Base64Decoder: %s -> %s (feeding %d)", ref64(d, false, true).c_str(), sq::show(x).c_str(), m);
	x = filt<Base64DecoderChr>(ref64(d, true, false), m); SQ_ASSERT(x == d, "Base64Decoder: %s -> %s (feeding %d)", ref64(d, true, false).c_str(), sq::show(x).c_str(), m);
	x = filt<HexEncoder<> >(d, m); SQ_ASSERT(x == ref16(d, false), "HexEncoder: %s -> %s (feeding %d)", sq::show(d).c_str(), x.c_str(), m);
	x = filt<HexDecoder<> >(ref16(d, false), m); SQ_ASSERT(x == d, "HexDecoder: %s -> %s (feeding %d)", ref16(d, false).c_str(), sq::show(x).c_str(), m);
	x = filt<HexDecoder<> >(ref16(d, true), m, HexDecoder<>("0123456789ABCDEF")); SQ_ASSERT(x == d, "HexDecoder with a table: %s -> %s (feeding %d)", ref16(d, true).c_str(), sq::show(x).c_str(), m); sq::outcome(d.size() * 10 + m); }
SQ_SCENARIO(filters_short, 2, 2) { int n = sq::choose(sq::depth() + 1); S d; for (int i = 0; i < n; i++) d += (char)sq::choose(256); for (int m = 0; m < FMODES; m++) filters(d, m); }
SQ_SCENARIO(filters_boundary, 8, 10) { int n = sq::choose(sq::depth() + 1); S d = letters(n, "\0\xFF\x5A", 3); for (int m = 0; m < FMODES; m++) filters(d, m); }
// ---- decoders fed with any characters: no crash, no endless output
template<typename D> static void junk(const D &d, const S &s, const char *n) { for (int m = 0; m < 3; m++) { S o = drive(d, s, m); SQ_ASSERT(o.size() <= s.size(), "%s decoder: %s gives %lu bytes", n, sq::show(s).c_str(), (unsigned long)o.size()); } }
SQ_SCENARIO(any_characters, 7, 8) { int n = sq::choose(sq::depth() + 1); S s = letters(n, "A9=#\xE1", 5); junk(Base16ToByteConvert(), s, "base16"); junk(Base32ToByteConvert(), s, "base32"); junk(Base64ToByteConvert(), s, "base64"); junk(Base85ToByteConvert(), s, "base85"); }
