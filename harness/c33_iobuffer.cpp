// C33: IOBuffer: every sequence of operations with every way the underlying streams can be short, against two byte strings
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/streams/fileiobuff.tcc"
#include "seq.h"
#include <vector>
#include <string.h>
using namespace LightSpeed;
typedef std::string S;
struct Boom {};
enum { BS = 8, PAD = 2 };
static char srcByte(size_t i) { return (char)(33 + i % 90); }
static char outByte(size_t i) { return (char)(128 + i % 120); }
struct World { S source; size_t srcPos; S back; S written, target; bool allWritten; int srcLimit; bool mayThrow, eofRead, closed; bool det; int flushes, autoFlushes, dirtyExt; int ch(int n) { return det ? 0 : sq::choose(n); } World():srcPos(0), allWritten(true), srcLimit(0), mayThrow(false), eofRead(false), closed(false), det(false), flushes(0), autoFlushes(0), dirtyExt(0) {} };
struct Target: public IInOutStream { World &w; mutable bool peeked; Target(World &w):w(w), peeked(false) {}
	virtual natural read(void *b, natural size) { SQ_ASSERT(size > 0, "the source is asked for zero bytes"); SQ_ASSERT(w.target == w.written, "the source is read while %lu written bytes are not sent", (unsigned long)(w.written.size() - w.target.size())); SQ_ASSERT(!w.dirtyExt, "the source is read before the connected output is flushed"); size_t a = w.source.size() - w.srcPos; if (a > size) a = size; if (a == 0) { w.eofRead = true; return 0; } size_t n = a; if (a > 1) { int c = w.ch(a > 2 ? 3 : 2); n = c == 0 ? a : c == 1 ? 1 : a - 1; } memcpy(b, w.source.data() + w.srcPos, n); w.srcPos += n; return n; }
	virtual natural peek(void *b, natural size) const { size_t a = w.source.size() - w.srcPos; if (a > size) a = size; memcpy(b, w.source.data() + w.srcPos, a); return a; }
	virtual bool canRead() const { return w.srcPos < w.source.size(); }
	virtual natural dataReady() const { return w.srcPos < w.source.size() ? w.ch(2) : 1; }
	virtual natural write(const void *b, natural size) { SQ_ASSERT(size > 0, "zero bytes are written"); SQ_ASSERT(!w.closed, "written after it has been closed"); size_t n = size; int c = w.ch((size > 1 ? 2 : 1) + (w.mayThrow ? 1 : 0)); if (w.mayThrow && c == (size > 1 ? 2 : 1)) throw Boom(); if (c == 1) n = 1; w.target.append((const char *)b, n); SQ_ASSERT(w.target.size() <= w.written.size() && memcmp(w.target.data(), w.written.data(), w.target.size()) == 0, "the target receives %s, but %s was written", sq::show(w.target).c_str(), sq::show(w.written).c_str()); return n; }
	virtual bool canWrite() const { return !w.closed; } virtual void flush() { w.flushes++; } virtual void closeOutput() { w.closed = true; } };
template<natural N> struct Buf: public IOBuffer<N> { Buf(IInOutStream *s):IOBuffer<N>(s) {} Buf(IInputStream *s):IOBuffer<N>(s) {} Buf(IOutputStream *s):IOBuffer<N>(s) {}
	uint64_t state(uint64_t extra) const { size_t v[] = { this->rdpos, this->rdend, this->wrpos, this->wrbeg, (size_t)this->eof, (size_t)this->outputClosed, this->writeReserve, (size_t)extra }; return sq::hash(v, sizeof v); }
	S input() const { ConstBin b = this->getInputBuffer(); return S((const char *)b.data(), b.length()); } };
struct Ext: public IBufferFlush { World &w; Ext(World &w):w(w) {} virtual void flush() { w.autoFlushes++; w.dirtyExt = 0; } };
template<natural N> static void check(World &w, Buf<N> &b, const S &expect) { S in = b.input(); SQ_ASSERT(b.getInputLength() == in.size(), "the input length is %lu", (unsigned long)b.getInputLength()); SQ_ASSERT(in.size() <= expect.size() && expect.compare(0, in.size(), in) == 0, "the input buffer holds %s, but %s is to be read", sq::show(in).c_str(), sq::show(expect).c_str()); size_t p = b.getOutputLength(); SQ_ASSERT(w.target.size() + p == w.written.size(), "%lu bytes were written, %lu sent and %lu are pending", (unsigned long)w.written.size(), (unsigned long)w.target.size(), (unsigned long)p); SQ_ASSERT(b.getWriteSpace() <= N && b.getOutputAvailable() == b.getWriteSpace() && b.getInputLength() + b.getOutputLength() + b.getWriteSpace() <= N, "the space is %lu", (unsigned long)b.getWriteSpace()); }
static S expected(const World &w) { return w.source.substr(w.srcPos); }
template<natural N> static void ops(int srcLen, bool thr, int mode) {   // mode 0 both, 1 input only, 2 output only
	World w; for (int i = 0; i < srcLen; i++) w.source += srcByte(i); S exp = mode == 2 ? S() : w.source; Ext ext(w); size_t handed = 0; { Target *t = new Target(w); RefCntPtr<Target> keep(t); RefCntPtr<Buf<N> > hold = mode == 0 ? new Buf<N>((IInOutStream *)t) : mode == 1 ? new Buf<N>((IInputStream *)t) : new Buf<N>((IOutputStream *)t); Buf<N> &b = *hold;
	int rs = mode == 0 ? sq::choose(3) : 0; b.reserveWrite(rs == 0 ? 0 : rs == 1 ? 3 : naturalNull); if (sq::choose(2)) b.setAutoflush(&ext); bool ae = b.getAutoflush() != 0; int depth = sq::depth(); bool justRead = false; S last;
	for (int step = 0; step < depth; step++) { check(w, b, exp); uint64_t x[] = { (uint64_t)step, exp.size(), w.source.size() - w.srcPos, (size_t)justRead + 2 * last.size(), (size_t)w.dirtyExt, (size_t)ae }; if (sq::seen(b.state(sq::hash(x, sizeof x)))) { w.det = true; w.dirtyExt = 0; return; } w.mayThrow = thr; w.dirtyExt = 0; bool jr = false; int op = mode == 0 ? sq::choose(13) : mode == 1 ? (int[]){0, 1, 2, 3, 4, 5, 6, 7, 8, 11}[sq::choose(10)] : (int[]){9, 10, 12, 13, 7}[sq::choose(5)];
		if (ae && op != 9 && op != 10) w.dirtyExt = 1;
		try { switch (op) {
		case 0: case 1: { natural n = op == 0 ? 1 + sq::choose(2) * 2 : N + 1; char buf[N + 2]; memset(buf, '!', sizeof buf); sq::op("read(%lu)", (unsigned long)n); natural r = b.read(buf, n); SQ_ASSERT(r <= n && (r > 0 || exp.empty()), "read(%lu) returns %lu while %lu bytes remain", (unsigned long)n, (unsigned long)r, (unsigned long)exp.size()); SQ_ASSERT(exp.compare(0, r, S(buf, r)) == 0, "%s is read instead of %s", sq::show(S(buf, r)).c_str(), sq::show(exp.substr(0, r)).c_str()); for (size_t i = r; i < sizeof buf; i++) SQ_ASSERT(buf[i] == '!', "more bytes stored than reported"); last = exp.substr(0, r); exp.erase(0, r); jr = r > 0; break; }
		case 2: case 3: { natural n = op == 2 ? 1 : 1 + N / 2 + sq::choose(2) * N; char buf[N * 2 + 2]; memset(buf, '!', sizeof buf); sq::op("peek(%lu)", (unsigned long)n); natural r = b.peek(buf, n); SQ_ASSERT(r <= n && (r > 0 || exp.empty()), "peek(%lu) returns %lu while %lu bytes remain", (unsigned long)n, (unsigned long)r, (unsigned long)exp.size()); SQ_ASSERT(exp.compare(0, r, S(buf, r)) == 0, "%s is peeked instead of %s", sq::show(S(buf, r)).c_str(), sq::show(exp.substr(0, r)).c_str()); for (size_t i = r; i < sizeof buf; i++) SQ_ASSERT(buf[i] == '!', "more bytes stored than reported"); break; }
		case 4: { natural before = b.getInputLength(); sq::op("fetch()"); natural r = b.fetch(); SQ_ASSERT(b.getInputLength() == before + r, "fetch reports %lu bytes", (unsigned long)r); SQ_ASSERT(r > 0 || before == N || exp.size() == before, "fetch gives nothing, %lu bytes of %lu are buffered", (unsigned long)before, (unsigned long)exp.size()); break; }
		case 5: { S what; int k = sq::choose(3); if (k == 0) what = justRead ? last.substr(last.size() - 1) : S("x"); else if (k == 1) what = last; else what = "zy" + last; if (what.empty()) break; sq::op("putBack(%s)", sq::show(what).c_str()); bool ok = true; try { b.putBack(ConstBin((const byte *)what.data(), what.size())); } catch (WriteIteratorNoSpace &) { ok = false; } SQ_ASSERT(ok || !(justRead && what.size() <= last.size()), "bytes just read cannot be put back"); if (ok) exp = what + exp; break; }
		case 6: { natural n = sq::choose(2) ? 2 : N + 3; sq::op("discardInput(%lu)", (unsigned long)n); natural have = b.getInputLength(); b.discardInput(n); exp.erase(0, n < have ? n : have); break; }
		case 7: { sq::op("canRead()"); bool r = b.canRead(); SQ_ASSERT(r == !exp.empty(), "canRead is %d while %lu bytes remain", r, (unsigned long)exp.size()); if (mode == 0 || mode == 1) { char z; natural p = b.peek(&z, 0); SQ_ASSERT(p <= exp.size(), "%lu bytes can be peeked, but %lu remain", (unsigned long)p, (unsigned long)exp.size()); } break; }
		case 8: { S in = b.input(); S pat = sq::choose(2) && in.size() > 2 ? in.substr(in.size() - 2) : in.size() > 1 ? in.substr(0, 1) : S("!!"); natural f = b.fetch(); S in2 = b.input(); natural r = b.lookup(ConstBin((const byte *)pat.data(), pat.size())); size_t m = in2.find(pat); SQ_ASSERT(r == (m == S::npos ? naturalNull : m), "lookup returns %lu instead of %lu", (unsigned long)r, (unsigned long)m); if (in.find(pat) == S::npos) { r = b.lookup(ConstBin((const byte *)pat.data(), pat.size()), f); SQ_ASSERT(r == (m == S::npos ? naturalNull : m), "lookup after fetch returns %lu", (unsigned long)r); } if (f && in2.size() > 2) { pat = in2.substr(in2.size() - f - (f < in2.size()), 2); r = b.lookup(ConstBin((const byte *)pat.data(), pat.size()), f); m = in2.find(pat); SQ_ASSERT(m >= in2.size() || r == m, "lookup of the fetched part returns %lu instead of %lu", (unsigned long)r, (unsigned long)m); } break; }
		case 9: case 10: { natural n = op == 9 ? 1 + sq::choose(3) : N - 1 + sq::choose(3); S d; for (natural i = 0; i < n; i++) d += outByte(handed + i); size_t old = w.written.size(); S keepW = w.written; w.written += d; sq::op("write(%lu)", (unsigned long)n); natural r; try { r = b.write(d.data(), n); } catch (Boom &) { SQ_ASSERT(w.target.size() <= old, "a failed write sent new bytes"); w.written = keepW; throw; } SQ_ASSERT(r >= 1 && r <= n, "write(%lu) returns %lu", (unsigned long)n, (unsigned long)r); w.written = keepW + d.substr(0, r); handed += r; break; }
		case 11: { sq::op("dataReady()"); natural r = b.dataReady(); SQ_ASSERT(r <= 1 || r <= b.getInputLength(), "dataReady is %lu", (unsigned long)r); SQ_ASSERT(r > 0 || b.getInputLength() == 0, "no data are ready"); break; }
		case 12: { sq::op("flush()"); int f = w.flushes; b.flush(); SQ_ASSERT(w.target == w.written && b.getOutputLength() == 0, "%lu bytes remain after flush", (unsigned long)(w.written.size() - w.target.size())); SQ_ASSERT(w.flushes == f + 1, "the target is not flushed"); break; }
		case 13: { natural n = 1 + sq::choose(2) * N, p = b.getOutputLength(); sq::op("discardOutput(%lu)", (unsigned long)n); b.discardOutput(n); w.written.erase(w.written.size() - (n < p ? n : p)); handed = w.written.size(); break; }
		} } catch (Boom &) { sq::op("  fails"); }
		justRead = jr; if (!jr && op != 5) last.clear(); w.mayThrow = false; }
	w.dirtyExt = 0; w.det = true; check(w, b, exp); if (mode != 2 && sq::choose(2)) { for (;;) { char buf[3]; natural r = b.read(buf, 3); if (!r) break; SQ_ASSERT(exp.compare(0, r, S(buf, r)) == 0, "%s is read instead of %s", sq::show(S(buf, r)).c_str(), sq::show(exp.substr(0, r)).c_str()); exp.erase(0, r); } SQ_ASSERT(exp.empty(), "%lu bytes are lost", (unsigned long)exp.size()); }
	int e = mode == 1 ? 2 : sq::choose(3); if (e == 0) { b.closeOutput(); SQ_ASSERT(w.target == w.written && w.closed && !b.canWrite(), "closing lost output"); } }
	SQ_ASSERT(w.target == w.written, "%lu bytes are lost", (unsigned long)(w.written.size() - w.target.size())); sq::outcome(w.target.size() * 100 + w.srcPos); }
SQ_SCENARIO(both_directions, 4, 6) { ops<BS>(18, false, 0); }
SQ_SCENARIO(small_buffer, 7, 9) { ops<3>(9, false, 0); }
SQ_SCENARIO(input_only, 8, 11) { ops<5>(14, false, 1); }
SQ_SCENARIO(output_only, 8, 14) { ops<5>(0, false, 2); }
SQ_SCENARIO(failing_writes, 4, 6) { ops<5>(12, true, 0); }
// the iterators over buffered files
SQ_SCENARIO(iterators, 4, 5) { World w; for (int i = 0; i < 14; i++) w.source += srcByte(i); size_t rd = 0, wr = 0; { Target *t = new Target(w); PInputStream keep(t); SeqFileInBuff<4> in((IInputStream *)t); SeqFileOutBuff<4> out((IOutputStream *)t); if (sq::choose(2)) in.setAutoflush(out); else in.setAutoflush(&out.getBuffer());
	for (int step = 0; step < sq::depth() * 2; step++) { uint64_t x[] = { (uint64_t)step, rd, w.srcPos, in.getBuffer().getInputLength(), in.getBuffer().getWriteSpace(), out.getBuffer().getOutputLength(), out.getBuffer().getWriteSpace() }; if (sq::seen(sq::hash(x, sizeof x))) { w.det = true; return; } switch (sq::choose(7)) {
	case 0: { sq::op("getNext"); bool thr = false; try { byte c = in.getNext(); SQ_ASSERT(rd < w.source.size() && c == (byte)w.source[rd], "byte %lu is %02x", (unsigned long)rd, c); rd++; } catch (IteratorNoMoreItems &) { thr = true; } SQ_ASSERT(thr == (rd == w.source.size() && thr), "end reported at %lu", (unsigned long)rd); break; }
	case 1: { sq::op("peek"); if (rd < w.source.size()) { byte c = in.peek(); SQ_ASSERT(c == (byte)w.source[rd], "byte %lu is %02x", (unsigned long)rd, c); } break; }
	case 2: { sq::op("hasItems"); bool h = in.hasItems(); SQ_ASSERT(h == (rd < w.source.size()), "hasItems is %d at %lu", h, (unsigned long)rd); break; }
	case 3: { natural n = 1 + sq::choose(2) * 5; sq::op("blockRead(%lu)", (unsigned long)n); byte b[8]; natural k = 0; try { k = in.blockRead(b, n, false); } catch (IteratorNoMoreItems &) { } SQ_ASSERT(k > 0 || rd == w.source.size(), "end reported at %lu", (unsigned long)rd); SQ_ASSERT(k <= n && memcmp(b, w.source.data() + rd, k) == 0 && rd + k <= w.source.size(), "%lu bytes read wrong", (unsigned long)k); rd += k; break; }
	case 4: { byte b[8]; natural n = 6; sq::op("blockRead(6,all)"); bool thr = false; try { in.blockRead(b, n, true); } catch (IteratorNoMoreItems &) { thr = true; } SQ_ASSERT(thr == (w.source.size() - rd < n), "a block of 6 bytes is %s", thr ? "refused" : "read"); if (thr) { rd = w.source.size(); } else { SQ_ASSERT(memcmp(b, w.source.data() + rd, n) == 0, "wrong bytes"); rd += n; } break; }
	case 5: { sq::op("write"); w.written += outByte(wr); out.write((byte)outByte(wr++)); break; }
	case 6: { sq::op("blockWrite(6,all)"); S d; for (int i = 0; i < 6; i++) d += outByte(wr++); w.written += d; out.blockWrite(d.data(), d.size(), true); break; } } } w.det = true; if (sq::choose(2)) { out.flush(); SQ_ASSERT(w.target == w.written, "not flushed"); } }
	SQ_ASSERT(w.target == w.written, "%lu bytes are lost", (unsigned long)(w.written.size() - w.target.size())); sq::outcome(rd * 100 + wr); }
