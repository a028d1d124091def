// C29: LZW and LZWp compression
#define CONV_LIMIT 200000
#include "lightspeed/utils/lzw.tcc"
#include "lightspeed/base/exceptions/exception.h"
#include "convdrive.h"

// independent decoder of plain LZW with clear and end codes; returns false when the stream is not valid
static bool refDecode(const S &in, S &out) {
	std::vector<S> dict; S prev; unsigned long acc = 0; int bits = 0, width = 9; bool ended = false;
	for (size_t i = 0; i < in.size(); i++) {
		acc = (acc << 8 | (unsigned char)in[i]) & 0xFFFFFFFFFFUL; bits += 8;
		if (bits < width) continue;
		bits -= width; unsigned c = acc >> bits & ((1u << width) - 1);
		if (c == 256) { dict.clear(); prev.clear(); width = 9; continue; }
		if (c == 257) { dict.clear(); prev.clear(); width = 9; bits = 0; ended = true; continue; }
		S e; if (c < 256) e = S(1, c); else if (c - 258 < dict.size()) e = dict[c - 258]; else if (c - 258 == dict.size() && !prev.empty()) e = prev + prev[0]; else return false;
		if (!prev.empty()) dict.push_back(prev + e[0]);
		prev = e; out += e;
		// the code after this one can be number 258+size (the entry which will be made from it)
		if (258 + dict.size() == (1u << width)) width++;
	}
	(void)ended; return true;
}
template<typename C, typename D> struct Codec { typedef C Comp; typedef D Decomp; };
// consecutive blocks: data with the positions where the compressor is flushed
template<typename C, typename D> static void blocks(const S &data, const std::vector<size_t> &cuts, int maxBits, bool plain) {
	C c(maxBits); S all; D d; size_t from = 0;
	D per;
	for (size_t i = 0; i <= cuts.size(); i++) {
		size_t to = i < cuts.size() ? cuts[i] : data.size(); S part = data.substr(from, to - from), enc; from = to;
		eager(c, part, enc); all += enc;
		S dec; eager(per, enc, dec);
		SQ_ASSERT(dec == part, "block %lu: %lu bytes are decoded as %lu bytes, first difference at %lu", (unsigned long)i, (unsigned long)part.size(), (unsigned long)dec.size(), (unsigned long)(std::mismatch(part.begin(), part.begin() + std::min(part.size(), dec.size()), dec.begin()).first - part.begin()));
		if (plain) { S r; SQ_ASSERT(refDecode(enc, r) && r == part, "block %lu is not a valid LZW stream of the data", (unsigned long)i); }
		// an empty block has no encoding; decoding it alone gives nothing either
		D fresh; S alone; eager(fresh, enc, alone); SQ_ASSERT(alone == part, "block %lu alone is decoded differently", (unsigned long)i);
	}
	S dec; eager(d, all, dec); SQ_ASSERT(dec == data, "the whole stream is decoded as %lu bytes of %lu", (unsigned long)dec.size(), (unsigned long)data.size());
}
template<typename C, typename D> static void allModes(const S &data, int maxBits) {
	S enc = drive(C(maxBits), data, 0);
	for (int m = 1; m < MODES; m++) { S e = drive(C(maxBits), data, m); SQ_ASSERT(e == enc, "compressed data depend on the way of feeding (%d)", m); }
	for (int m = 0; m < MODES; m++) { S d = drive(D(), enc, m); SQ_ASSERT(d == data, "%lu bytes are decoded as %lu bytes (feeding %d)", (unsigned long)data.size(), (unsigned long)d.size(), m); }
	sq::outcome(enc);
}
static void pick(const S &data, const std::vector<size_t> &cuts, int maxBits, int kind) { if (kind) blocks<LZWpCompress, LZWpDecompress>(data, cuts, maxBits, false); else blocks<LZWCompress, LZWDecompress>(data, cuts, maxBits, true); }
SQ_SCENARIO(short_data, 11, 14) {
	int kind = sq::choose(2), n = sq::choose(sq::depth() + 1); S d; for (int i = 0; i < n; i++) d += sq::choose(2) ? '\xFF' : 'a';
	sq::op("%s of %s", kind ? "lzwp" : "lzw", sq::show(d).c_str());
	if (kind) allModes<LZWpCompress, LZWpDecompress>(d, 9); else allModes<LZWCompress, LZWDecompress>(d, 9);
}
SQ_SCENARIO(short_blocks, 8, 10) {
	int kind = sq::choose(2), n = sq::choose(sq::depth() + 1); S d; std::vector<size_t> cuts; for (int i = 0; i < n; i++) { d += sq::choose(2) ? '\0' : 'a'; if (sq::choose(2)) cuts.push_back(i + 1); }
	sq::op("%s of %s in %lu blocks", kind ? "lzwp" : "lzw", sq::show(d).c_str(), (unsigned long)cuts.size() + 1);
	pick(d, cuts, 9, kind); sq::outcome(d);
}
// long data around every change of the code width and every reset of the dictionary
static S family(int f, int L) { S d; unsigned x = 1; for (int i = 0; i < L; i++) switch (f) {
	case 0: d += (char)(i * 7 + i / 256); break;           // nearly incompressible
	case 1: d += 'a'; break;                               // one letter: longest chains
	case 2: d += "abc"[i % 3]; break;
	case 3: x = x * 1103515245 + 12345; d += (char)(x >> 16 & 3); break;
	case 4: x = x * 1103515245 + 12345; d += (char)(x >> 16); break;
	case 5: d += (char)(i * i / 3); break; }
	return d; }
static const int FAM = 6;
SQ_SCENARIO(long_data, 600, 3000) {
	int kind = sq::choose(2), f = sq::choose(FAM), bits = 9 + sq::choose(3); int L = sq::choose(sq::depth() / 3) * 3 + 200; if (f == 1) L *= 8;
	sq::op("%s, family %d, %d bits, %d bytes", kind ? "lzwp" : "lzw", f, bits, L);
	S d = family(f, L); std::vector<size_t> cuts; cuts.push_back(L); S two = d + family((f + 1) % FAM, 300); pick(two, cuts, bits, kind); sq::outcome(L * 100 + f * 10 + bits);
}
SQ_SCENARIO(every_width, 1, 2) {   // all dictionary sizes up to the largest, data longer than several dictionaries
	int kind = sq::choose(2), f = sq::choose(FAM), bits = sq::choose(18); int L = sq::depth() * (bits > 12 ? 80000 : 20000); if (f == 1) L *= 2;
	sq::op("%s, family %d, %d bits, %d bytes", kind ? "lzwp" : "lzw", f, bits, L);
	std::vector<size_t> cuts; cuts.push_back(L / 2 + bits); pick(family(f, L), cuts, bits, kind); sq::outcome(bits * 10 + f);
}
// LZWp keeps the used entries when the dictionary is full: every number of kept entries
SQ_SCENARIO(kept_entries, 700, 760) {
	int used = sq::choose(sq::depth()), shape = sq::choose(2); S d; sq::op("%d entries used again, shape %d", used, shape);
	// pairs of distinct bytes fill the dictionary without using it, repeating a pair marks one entry
	std::vector<S> pairs; for (int i = 0; i < 256 && pairs.size() < 1200; i++) for (int j = 0; j < 5; j++) { S p; p += (char)i; p += (char)(i + 1 + j * 13); pairs.push_back(p); }
	size_t k = 0; for (int i = 0; i < used; i++) { const S &p = pairs[k++]; d += p; if (shape) { d += p; } }
	if (!shape) for (int i = 0; i < used; i++) d += pairs[i];
	for (; k < pairs.size(); k++) d += pairs[k];
	d += d.substr(0, 400);
	std::vector<size_t> cuts; for (int b = 9; b < 12; b++) pick(d, cuts, b, 1);
	sq::outcome(used * 2 + shape);
}
// arbitrary and damaged streams: the decoder ends with data or an exception, plain LZW agrees with the reference
static void feed(const S &in, bool plain) {
	for (int kind = 0; kind < 2; kind++) {
		S out; bool thrown = false; try { if (kind) { LZWpDecompress d; eager(d, in, out); } else { LZWDecompress d; eager(d, in, out); } } catch (const Exception &) { thrown = true; }
		if (!kind) { S r; bool ok = refDecode(in, r); SQ_ASSERT(ok == !thrown, "a stream which is %s is %s", ok ? "valid" : "not valid", thrown ? "refused" : "accepted"); if (ok) SQ_ASSERT(r == out, "decoded data differ from the reference: %lu bytes, expected %lu", (unsigned long)out.size(), (unsigned long)r.size()); }
		sq::outcome(out.size() * 2 + thrown);
	}
}
SQ_SCENARIO(any_codes, 6, 7) {
	static const int code[] = {0, 255, 256, 257, 258, 259, 260, 511}; int n = sq::choose(sq::depth() + 1); unsigned long acc = 0; int bits = 0; S in;
	for (int i = 0; i < n; i++) { int c = code[sq::choose(8)]; acc = acc << 9 | c; bits += 9; while (bits >= 8) { bits -= 8; in += (char)(acc >> bits); } if (c == 257 && bits) { in += (char)(acc << (8 - bits)); bits = 0; } acc &= (1 << bits) - 1; }
	if (bits) in += (char)(acc << (8 - bits)); sq::op("%d codes: %s", n, sq::show(in).c_str()); feed(in, true);
}
SQ_SCENARIO(damaged, 200, 700) {
	int f = 3 + sq::choose(2), kind = sq::choose(2); S d = family(f, 900), enc; if (kind) { LZWpCompress c(9); eager(c, d, enc); } else { LZWCompress c(9); eager(c, d, enc); }
	size_t p = sq::choose(sq::depth()) * enc.size() / sq::depth(); int how = sq::choose(4); if (how == 0) enc.resize(p); else if (how == 1) enc.erase(p, 1); else if (how == 2) enc[p] ^= 0x10; else enc.insert(p, 1, '\0');
	sq::op("family %d kind %d damage %d at %lu", f, kind, how, (unsigned long)p); feed(enc, false);
	if (how == 0 && !kind) { S out; LZWDecompress x; eager(x, enc, out); SQ_ASSERT(d.compare(0, out.size(), out) == 0, "a cut stream gives something else than a prefix"); }
	if (how == 0 && kind) { S out; LZWpDecompress x; eager(x, enc, out); SQ_ASSERT(d.compare(0, out.size(), out) == 0, "a cut stream gives something else than a prefix"); }
}
