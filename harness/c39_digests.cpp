// C39: MD5, SHA-1 and CRC-32: every length and every split of patterned data, all short byte strings, data longer than the 32bit bit counter, against plain implementations of the definitions
#include "lightspeed/base/types.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/utils/md5iter.h"
#include "lightspeed/utils/impl/sha1.h"
#include "lightspeed/utils/crc32.h"
#include "seq.h"
#include <string>
#include <vector>
#include <math.h>
#include <string.h>
#include <sstream>
using namespace LightSpeed;
typedef std::string S;
typedef unsigned int U;
// ---------------- the definitions
static U rl(U x, int n) { return x << n | x >> (32 - n); }
static S padded(const S &s, bool big) { S p = s + '\x80'; while (p.size() % 64 != 56) p += '\0'; unsigned long long b = (unsigned long long)s.size() * 8; for (int i = 0; i < 8; i++) p += (char)(b >> (big ? 56 - 8 * i : 8 * i)); return p; }
static S words(const U *v, int n, bool big) { S r; for (int i = 0; i < n; i++) for (int k = 0; k < 4; k++) r += (char)(v[i] >> (big ? 24 - 8 * k : 8 * k)); return r; }
struct Md { U h[4]; U K[64]; Md() : h{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476} { for (int i = 0; i < 64; i++) K[i] = (U)(unsigned long long)floor(fabs(sin(i + 1.0)) * 4294967296.0); }
	void block(const unsigned char *p) { static const int R[] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21}; U w[16]; for (int i = 0; i < 16; i++) w[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (U)p[4 * i + 3] << 24; U a = h[0], b = h[1], c = h[2], d = h[3]; for (int i = 0; i < 64; i++) { U f; int g; if (i < 16) f = (b & c) | (~b & d), g = i; else if (i < 32) f = (d & b) | (~d & c), g = (5 * i + 1) % 16; else if (i < 48) f = b ^ c ^ d, g = (3 * i + 5) % 16; else f = c ^ (b | ~d), g = 7 * i % 16; U t = d; d = c; c = b; b = b + rl(a + f + K[i] + w[g], R[i / 16 * 4 + i % 4]); a = t; } h[0] += a; h[1] += b; h[2] += c; h[3] += d; } };
struct Sh { U h[5]; Sh() : h{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0} {}
	void block(const unsigned char *p) { U w[80]; for (int i = 0; i < 16; i++) w[i] = (U)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3]; for (int i = 16; i < 80; i++) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1); U a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for (int i = 0; i < 80; i++) { U f, k; if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999; else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1; else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC; else f = b ^ c ^ d, k = 0xCA62C1D6; U t = rl(a, 5) + f + e + k + w[i]; e = d; d = c; c = rl(b, 30); b = a; a = t; } h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; } };
static S refMd5(const S &s) { Md m; S p = padded(s, false); for (size_t i = 0; i < p.size(); i += 64) m.block((const unsigned char *)p.data() + i); return words(m.h, 4, false); }
static S refSha(const S &s) { Sh m; S p = padded(s, true); for (size_t i = 0; i < p.size(); i += 64) m.block((const unsigned char *)p.data() + i); return words(m.h, 5, true); }
static U refCrc(const S &s) { U c = ~0u; for (unsigned char x : s) { c ^= x; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; } return ~c; }
static S hex(const S &s) { S r; for (unsigned char c : s) { r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; } return r; }
static void known() { static bool done = false; if (done) return; done = true; SQ_ASSERT(hex(refMd5("")) == "d41d8cd98f00b204e9800998ecf8427e" && hex(refMd5("message digest")) == "f96b697d7cb7938d525a2f31aaf161d0" && hex(refMd5("12345678901234567890123456789012345678901234567890123456789012345678901234567890")) == "57edf4a22be3c955ac49da2e2107b67a", "the reference of MD5 is wrong"); SQ_ASSERT(hex(refSha("abc")) == "a9993e364706816aba3e25717850c26c9cd0d89d" && hex(refSha("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")) == "84983e441c3bd26ebaae4aa1f95129e5e54670f1", "the reference of SHA-1 is wrong"); SQ_ASSERT(refCrc("123456789") == 0xCBF43926u, "the reference of CRC-32 is wrong"); }
// ---------------- the library
typedef HashMD5<char> H;
static S dig(const H &h) { ConstStringT<byte> d = h.digest(); S r((const char *)d.data(), d.length()); ConstStringT<char> x = h.hexdigest(); SQ_ASSERT(S(x.data(), x.length()) == hex(r), "hexadecimal form %s of %s", S(x.data(), x.length()).c_str(), hex(r).c_str()); ConstStringT<char> y = h.hexdigest(); SQ_ASSERT(S(y.data(), y.length()) == hex(r), "hexadecimal form changed"); return r; }
static void put(H &h, const S &p, int how) { if (how == 0) for (char c : p) h.write(c); else if (how == 1) h.blockWrite(ConstStringT<char>(p.data(), p.size()), true); else if (how == 2) h.copy(ConstStringT<char>(p.data(), p.size()).getFwIter()); }
static S md5(const std::vector<S> &parts, int how) { H h; int k = how; for (const S &p : parts) { put(h, p, how == 3 ? k % 3 : how); k++; } if (how & 1) h.flush(); else h.finish(); return dig(h); }
static S raw(const std::vector<S> &parts) { md5_state_t st; md5_init(&st); for (const S &p : parts) md5_append(&st, (const md5_byte_t *)p.data(), (int)p.size()); md5_byte_t d[16]; md5_finish(&st, d); return S((char *)d, 16); }
static S sha(const std::vector<S> &parts, bool stream) { SHA1 h; for (const S &p : parts) if (stream) { std::istringstream is(p); h.update(is); } else h.update(p); return h.final(); }
static U crc(const std::vector<S> &parts, int how) { Crc32 c; for (const S &p : parts) if (how) for (char x : p) c.write((byte)x); else c.blockWrite((const byte *)p.data(), p.size()); return c.getCrc32(); }
static void all(const std::vector<S> &parts, const S &whole, const S &m, const S &s, U c, int how) { S g = md5(parts, how); SQ_ASSERT(g == m, "MD5 of %zu bytes in %zu parts is %s instead of %s", whole.size(), parts.size(), hex(g).c_str(), hex(m).c_str()); g = raw(parts); SQ_ASSERT(g == m, "plain MD5 of %zu bytes in %zu parts is %s", whole.size(), parts.size(), hex(g).c_str()); g = sha(parts, how & 1); SQ_ASSERT(g == s, "SHA-1 of %zu bytes in %zu parts is %s instead of %s", whole.size(), parts.size(), hex(g).c_str(), hex(s).c_str()); U k = crc(parts, how & 1); SQ_ASSERT(k == c, "CRC-32 of %zu bytes in %zu parts is %08x instead of %08x", whole.size(), parts.size(), k, c); }
static S pattern(int n, int k) { S s; U x = 12345 + k; for (int i = 0; i < n; i++) { x = x * 1103515245 + 12345; s += k == 0 ? '\0' : k == 1 ? '\xff' : (char)(x >> 16); } return s; }
SQ_SCENARIO(splits, 200, 520) { known(); int n = sq::choose(sq::depth() + 1), k = sq::choose(3); S s = pattern(n, k), m = refMd5(s), h = refSha(s); U c = refCrc(s); for (int how = 0; how < 4; how++) all({s}, s, m, h, c, how); for (int i = 0; i <= n; i++) all({s.substr(0, i), s.substr(i)}, s, m, h, c, i & 3); sq::outcome(m); }
SQ_SCENARIO(three_parts, 140, 260) { known(); static const int ln[] = {55, 56, 63, 64, 65, 119, 120, 127, 128, 129}; int n = ln[sq::choose(10)]; if (n > sq::depth()) return; S s = pattern(n, 2), m = refMd5(s), h = refSha(s); U c = refCrc(s); int i = sq::choose(n + 1); for (int j = i; j <= n; j += sq::thorough() ? 1 : 3) all({s.substr(0, i), s.substr(i, j - i), s.substr(j)}, s, m, h, c, j & 3); sq::outcome(n * 1000 + i); }
SQ_SCENARIO(pieces, 12, 40) { known(); int step = 1 + sq::choose(130); static const int ln[] = {0, 1, 63, 64, 65, 200, 256, 517}; for (int n : ln) { S s = pattern(n, 2); std::vector<S> p; for (int i = 0; i < n; i += step) p.push_back(s.substr(i, step)); all(p, s, refMd5(s), refSha(s), refCrc(s), step & 3); } sq::outcome(step); }
SQ_SCENARIO(short_strings, 2, 2) { known(); int a = sq::choose(257); S e; if (a == 256) { all({}, e, refMd5(e), refSha(e), refCrc(e), 0); return; } S s(1, (char)a); all({s}, s, refMd5(s), refSha(s), refCrc(s), 0); for (int b = 0; b < 256; b++) { S t = s + (char)b; all({t}, t, refMd5(t), refSha(t), refCrc(t), b & 3); } sq::outcome(a); }
struct Tee : public WriteIteratorBase<char, Tee> { S *o; natural max; Tee(S *o, natural max = naturalNull) : o(o), max(max) {} void write(const char &c) { *o += c; } bool hasItems() const { return true; } void flush() {} template<class Tr> natural blockWrite(const FlatArray<char, Tr> &b, bool all) { return take(b.data(), b.length(), all); } template<class Tr> natural blockWrite(const FlatArray<const char, Tr> &b, bool all) { return take(b.data(), b.length(), all); } natural take(const char *d, natural n, bool all) { if (!all && n > max) n = max; o->append(d, n); return n; } };
// one object used again; forwarding to the next iterator; digest of a file
SQ_SCENARIO(reuse, 100, 300) { known(); int n = sq::choose(sq::depth() + 1); S s = pattern(n, 2), t = pattern((n * 7) % 150, 2); SHA1 h; h.update(s); S a = h.final(); h.update(t); S b = h.final(); SQ_ASSERT(a == refSha(s) && b == refSha(t), "SHA-1 object used again"); Crc32 c; c.blockWrite((const byte *)s.data(), s.size()); SQ_ASSERT(c.getCrc32() == refCrc(s), "CRC"); c.reset(); c.blockWrite((const byte *)t.data(), t.size()); SQ_ASSERT(c.getCrc32() == refCrc(t), "CRC-32 after reset"); for (char x : s) c.write((byte)x); SQ_ASSERT(c.getCrc32() == refCrc(t + s), "CRC-32 continued after it was read");
	S out; { HashMD5<char, Tee> m((Tee(&out))); size_t half = s.size() / 2; for (size_t i = 0; i < half; i++) m.write(s[i]); m.blockWrite(ConstStringT<char>(s.data() + half, s.size() - half), true); m.finish(); ConstStringT<byte> d = m.digest(); SQ_ASSERT(S((const char *)d.data(), d.length()) == refMd5(s), "MD5 when forwarding"); } SQ_ASSERT(out == s, "%zu bytes forwarded of %zu", out.size(), s.size());
	{ S part; HashMD5<char, Tee> m((Tee(&part, 7))); size_t k = 0; while (k < s.size()) k += m.blockWrite(ConstStringT<char>(s.data() + k, s.size() - k), false); m.finish(); ConstStringT<byte> d = m.digest(); SQ_ASSERT(part == s && S((const char *)d.data(), d.length()) == refMd5(s), "MD5 when the next iterator takes a part"); }
	HashMD5<Bin::natural16> w; S ws; for (int i = 0; i < n; i++) { Bin::natural16 x = (Bin::natural16)(i * 257 + 3); w.write(x); ws.append((const char *)&x, 2); } Bin::natural16 two[] = {1, 0x8000}; w.blockWrite(ConstStringT<Bin::natural16>(two, 2), true); ws.append((const char *)two, 4); w.finish(); ConstStringT<byte> d = w.digest(); SQ_ASSERT(S((const char *)d.data(), d.length()) == refMd5(ws), "MD5 of wide items"); S f = S(sq::scratchDir()) + "/f"; FILE *o = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), o); fclose(o); SQ_ASSERT(SHA1::from_file(f) == refSha(s), "SHA-1 of a file of %d bytes", n); remove(f.c_str()); sq::outcome(n); }
// the length of the data in bits does not fit to 32 bits
SQ_SCENARIO(long_data, 1, 3) { known(); int v = sq::choose(2), extra = sq::choose(sq::depth()); const size_t blk = 1 << 20; size_t total = ((size_t)1 << 29) + 13 + 70 * extra; S b = pattern(blk, 2); if (v == 0) { Md m; H h; size_t done = 0; while (total - done >= blk) { for (size_t i = 0; i < blk; i += 64) m.block((const unsigned char *)b.data() + i); h.blockWrite(ConstStringT<char>(b.data(), blk), true); done += blk; } size_t r = total - done; h.blockWrite(ConstStringT<char>(b.data(), r), true); S p = b.substr(0, r) + '\x80'; while (p.size() % 64 != 56) p += '\0'; unsigned long long bits = total * 8ULL; for (int i = 0; i < 8; i++) p += (char)(bits >> 8 * i); for (size_t i = 0; i < p.size(); i += 64) m.block((const unsigned char *)p.data() + i); h.finish(); SQ_ASSERT(dig(h) == words(m.h, 4, false), "MD5 of %zu bytes", total); }
	else { Sh m; SHA1 h; size_t done = 0; while (total - done >= blk) { for (size_t i = 0; i < blk; i += 64) m.block((const unsigned char *)b.data() + i); h.update(b); done += blk; } size_t r = total - done; h.update(b.substr(0, r)); S p = b.substr(0, r) + '\x80'; while (p.size() % 64 != 56) p += '\0'; unsigned long long bits = total * 8ULL; for (int i = 0; i < 8; i++) p += (char)(bits >> (56 - 8 * i)); for (size_t i = 0; i < p.size(); i += 64) m.block((const unsigned char *)p.data() + i); SQ_ASSERT(h.final() == words(m.h, 5, true), "SHA-1 of %zu bytes", total); } sq::outcome(v * 8 + extra); }
