// C34: HTTP client: every response of a bounded grammar, every cut and every single-byte change of responses, every order of reading calls, every sequence of request calls
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/streams/fileiobuff.tcc"
#include "lightspeed/base/streams/httpc.tcc"
#include "lightspeed/base/exceptions/iterator.h"
#include "sqstream.h"
#include "seq.h"
#include <vector>
#include <map>
#include <utility>
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include <ctype.h>
using namespace LightSpeed;
typedef std::string S;
typedef std::vector<std::pair<S, S> > Hdrs;
struct Feed { S data; size_t pos; int eofs; Feed(const S &d = S()):data(d), pos(0), eofs(0) {} };
struct In { Feed *f; In(Feed *f):f(f) {} int operator()() { if (f->pos < f->data.size()) return (byte)f->data[f->pos++]; SQ_ASSERT(++f->eofs < 100, "the response is read for ever after its end: %s", sq::show(f->data).c_str()); return -1; } };
typedef HttpResponse<In> Resp;
static S str(ConstStrA s) { return S(s.data(), s.length()); }
static const char *txt[] = {"GET", "a", "", "xyz"};
static S num(size_t n, int base, bool up) { char b[40]; sprintf(b, base == 10 ? "%zu" : up ? "%zX" : "%zx", n); return b; }

// --- responses ---
struct Msg { S wire, body, reason; natural status; Hdrs hdrs; int framing; };   // framing 0 length, 1 chunked, 2 until the end, 3 no body by status
static S bodyBytes(size_t n) { static const char pat[] = "\r\n0\r\n\r\n5;\0\xff" "A\r1\nHTTP/1.1 200 OK\r\nxyzw0123456789abcdefghijklmnopqrstuvwx"; S s; for (size_t i = 0; i < n; i++) s += pat[i % (sizeof pat - 1)]; return s; }
static S chunk(const S &d, int style) { return (style == 3 ? S("0") : S()) + num(d.size(), 16, style == 1) + (style == 2 ? ";ext=1" : "") + "\r\n" + d + "\r\n"; }
static Msg makeMsg(int framing, const std::vector<size_t> &chunks, int style, int trailer, int status, int extraHdr, int hdrCase) { Msg m; m.framing = framing; m.status = status; m.reason = status == 200 ? "OK" : status == 404 ? "Not Found" : status == 204 ? "No Content" : ""; m.wire = "HTTP/1.1 " + num(status, 10, false) + (m.reason.empty() ? "" : " " + m.reason) + "\r\n"; size_t n = 0; for (size_t c: chunks) n += c; m.body = bodyBytes(n);
	if (extraHdr > 0) m.hdrs.push_back(std::make_pair(S("X-First"), S("va: l;\tue"))); if (extraHdr > 2) { m.hdrs.push_back(std::make_pair(S("Empty"), S(""))); m.hdrs.push_back(std::make_pair(S("Long"), S(300, 'q'))); }
	S te = hdrCase ? "transfer-encoding" : "Transfer-Encoding", cl = hdrCase ? "content-length" : "Content-Length"; if (framing == 0) m.hdrs.push_back(std::make_pair(cl, num(n, 10, false))); if (framing == 1) m.hdrs.push_back(std::make_pair(te, S(hdrCase ? "Chunked" : "chunked"))); if (extraHdr > 1) m.hdrs.push_back(std::make_pair(S("Last"), S("z")));
	for (size_t i = 0; i < m.hdrs.size(); i++) m.wire += m.hdrs[i].first + (i % 2 ? ":" : ": ") + m.hdrs[i].second + (extraHdr > 1 && i == 0 ? " \t" : "") + "\r\n"; m.wire += "\r\n";
	if (framing == 1) { size_t p = 0; for (size_t c: chunks) { m.wire += chunk(m.body.substr(p, c), style); p += c; } m.wire += style == 3 ? "000\r\n" : "0\r\n"; for (int i = 0; i < trailer; i++) m.wire += "Trailer-" + num(i, 10, false) + ": t\r\n"; m.wire += "\r\n"; } else m.wire += m.body; return m; }
template<typename R> static void checkHead(const R &r, const Msg &m, const char *when) { SQ_ASSERT(r.getStatusCode() == m.status, "%s: status %lu instead of %lu", when, (unsigned long)r.getStatusCode(), (unsigned long)m.status); SQ_ASSERT(str(r.getStatusMessage()) == m.reason, "%s: status message %s instead of %s", when, sq::show(str(r.getStatusMessage())).c_str(), sq::show(m.reason).c_str());
	for (size_t i = 0; i < m.hdrs.size(); i++) { SQ_ASSERT(r.headerDefined(ConstStrA(m.hdrs[i].first.c_str())), "%s: header %s is not there", when, m.hdrs[i].first.c_str()); S v = str(r.getHeader(ConstStrA(m.hdrs[i].first.c_str()))), up = m.hdrs[i].first; for (char &c: up) c = i % 2 ? toupper((byte)c) : tolower((byte)c); SQ_ASSERT(str(r.getHeader(ConstStrA(up.c_str()))) == v, "%s: header %s is not found", when, up.c_str()); SQ_ASSERT(v == m.hdrs[i].second, "%s: header %s is %s instead of %s", when, m.hdrs[i].first.c_str(), sq::show(v).c_str(), sq::show(m.hdrs[i].second).c_str()); } SQ_ASSERT(!r.headerDefined("X-None") && str(r.getHeader("X-None")) == "" && !r.headerDefined("") && !r.headerDefined("X-Firs") && !r.headerDefined("X-First2"), "%s: a header which was not sent is defined", when); }
template<typename R> static int nextOf(R &r, byte &out) { try { out = r.getNext(); return 1; } catch (const IteratorNoMoreItems &) { return 0; } }
template<typename R> static int peekOf(R &r, byte &out) { try { out = r.peek(); return 1; } catch (const IteratorNoMoreItems &) { return 0; } }
template<typename R> static S rest(R &r, bool useHas, bool usePeek) { S s; for (;;) { if (useHas && !r.hasItems()) break; byte b; if (usePeek) { byte c = 0; int k = peekOf(r, c); if (!k) break; SQ_ASSERT(nextOf(r, b) == 1 && b == c, "peek differs from getNext"); } else if (!nextOf(r, b)) break; s += (char)b; SQ_ASSERT(s.size() < 5000, "endless data"); } return s; }
static void chunksOf(size_t n, std::vector<size_t> &out) { while (n) { size_t k = 1 + sq::choose((int)n); out.push_back(k); n -= k; } }
static Msg anyMsg(size_t maxBody, bool small) { int framing = sq::choose(4); size_t n = framing == 3 ? 0 : sq::choose((int)maxBody + 1); std::vector<size_t> ch; int style = 0, trailer = 0, status = 200; if (framing == 1) { chunksOf(n, ch); style = small ? sq::choose(2) * 2 : sq::choose(4); trailer = sq::choose(3); } else if (n) ch.push_back(n); if (framing == 3) status = sq::choose(2) ? 304 : 204; else if (!small) status = sq::choose(2) ? 404 : 599; return makeMsg(framing, ch, style, trailer, status, small ? 1 : sq::choose(4), small ? 0 : sq::choose(2)); }
// all messages of the grammar read in the usual ways; two messages behind each other on one connection
SQ_SCENARIO(response_messages, 5, 7) { Msg m = anyMsg(sq::depth(), false); bool two = m.framing != 2; Msg m2 = makeMsg(0, std::vector<size_t>(1, 3), 0, 0, 200, 1, 0); Feed f(m.wire + (two ? m2.wire : S())); if (sq::choose(2)) f.data = "\r\n" + f.data; In in(&f); Resp r(in); sq::op("message %s", sq::show(f.data).c_str());
	int way = sq::choose(4); if (way != 3) SQ_ASSERT(r.open() == m.status, "open returns a wrong status"); S got = rest(r, way == 0 || way == 3, way == 2); SQ_ASSERT(got == m.body, "the body is %s instead of %s", sq::show(got).c_str(), sq::show(m.body).c_str()); checkHead(r, m, "after the body"); SQ_ASSERT(!r.hasItems() && r.getRemain() == 0, "more data after the end"); byte b; SQ_ASSERT(!nextOf(r, b) && !peekOf(r, b), "a byte is given after the end"); SQ_ASSERT(r.open() == m.status, "open of the opened response");
	bool rs = r.reset(); SQ_ASSERT(rs == two, "reset returns %d", rs); if (!rs) return; SQ_ASSERT(r.open() == m2.status, "second message: status"); checkHead(r, m2, "second message"); SQ_ASSERT(m.hdrs.empty() || m.hdrs[0].first == "X-First" || m.hdrs[0].first == "Content-Length" || m.hdrs[0].first == "content-length" || !r.headerDefined(ConstStrA(m.hdrs[0].first.c_str())), "a header of the previous message is defined"); SQ_ASSERT(r.getRemain() == 3, "second message: remain is %lu", (unsigned long)r.getRemain()); got = rest(r, true, false); SQ_ASSERT(got == m2.body && f.pos == f.data.size(), "second message: the body is %s", sq::show(got).c_str()); sq::outcome(m.wire); }
// every order of the reading calls
SQ_SCENARIO(response_calls, 5, 7) { Msg m = anyMsg(3, true); bool two = m.framing != 2; Msg m2 = makeMsg(1, std::vector<size_t>(1, 2), 0, 0, 404, 0, 0); Feed f(m.wire + (two ? m2.wire : S())); In in(&f); Resp r(in); sq::op("message %s", sq::show(f.data).c_str()); const Msg *cur = &m; size_t done = 0; bool opened = false; int d = sq::depth();
	for (int i = 0; i < d; i++) { size_t left = cur->body.size() - done; switch (sq::choose(6)) {
		case 0: sq::op("hasItems"); SQ_ASSERT(r.hasItems() == (left > 0), "hasItems is wrong, %zu bytes remain", left); opened = true; break;
		case 1: { sq::op("getNext"); byte b; int k = nextOf(r, b); SQ_ASSERT(k == (left > 0), "getNext %s, %zu bytes remain", k ? "gives a byte" : "fails", left); if (k) { SQ_ASSERT((char)b == cur->body[done], "getNext gives %02x", b); done++; } opened = true; break; }
		case 2: { sq::op("peek"); byte b; int k = peekOf(r, b); SQ_ASSERT(k == (left > 0), "peek %s, %zu bytes remain", k ? "gives a byte" : "fails", left); if (k) SQ_ASSERT((char)b == cur->body[done], "peek gives %02x", b); opened = true; break; }
		case 3: { sq::op("getRemain"); natural n = r.getRemain(); natural e = cur->framing == 0 ? left : left ? naturalNull : 0; SQ_ASSERT(n == e, "getRemain gives %lu instead of %lu", (unsigned long)n, (unsigned long)e); opened = true; break; }
		case 4: sq::op("open"); SQ_ASSERT(r.open() == cur->status, "open gives a wrong status"); opened = true; checkHead(r, *cur, "open"); break;
		case 5: { sq::op("reset"); bool k = r.reset(); if (!opened) { SQ_ASSERT(k, "reset of the unopened response fails"); break; } SQ_ASSERT(k == two, "reset returns %d", k); if (!k) return; two = false; if (cur == &m2) { SQ_ASSERT(f.pos == f.data.size(), "reset did not skip the body"); return; } SQ_ASSERT(f.pos <= m.wire.size(), "reset reads beyond the message"); cur = &m2; two = true; done = 0; opened = false; break; } } SQ_ASSERT(cur != &m || f.pos <= m.wire.size(), "the call reads beyond the message"); }
	S got = rest(r, true, false); SQ_ASSERT(got == cur->body.substr(done), "the rest of the body is %s", sq::show(got).c_str()); }
// every cut
SQ_SCENARIO(response_cut, 4, 6) { Msg m = anyMsg(sq::depth(), true); size_t cut = sq::choose((int)m.wire.size()); Feed f(m.wire.substr(0, cut)); In in(&f); Resp r(in); sq::op("message %s", sq::show(f.data).c_str()); size_t head = m.wire.find("\r\n\r\n") + 4; int way = sq::choose(5);
	if (way < 2) { natural s = r.open(); SQ_ASSERT(s == (cut < head ? naturalNull : m.status), "open returns %lu", (unsigned long)s); SQ_ASSERT(r.open() == s, "open again returns %lu instead of %lu", (unsigned long)r.open(), (unsigned long)s); } S got; if (way < 4) { got = rest(r, way % 2, false); SQ_ASSERT(got == m.body.substr(0, got.size()), "the body is %s", sq::show(got).c_str()); size_t have = 0; if (cut > head) { if (m.framing == 1) have = got.size(); else have = cut - head; } SQ_ASSERT(got.size() == have, "%zu bytes of the body are given", got.size()); } else { if (sq::choose(2)) r.open(); byte b; if (sq::choose(2)) { peekOf(r, b); } f.eofs = 0; }
	bool k = false; bool ok = true; try { k = r.reset(); } catch (const Exception &) { ok = false; } size_t need = m.wire.size(); if (m.framing == 1) { /* the last line ends may be missing */ need = m.wire.rfind(m.wire.find("\r\n000\r\n") != S::npos ? "000\r\n" : "0\r\n"); } if (ok && k && f.pos > 0) SQ_ASSERT(m.framing != 2 && cut > need, "reset succeeds although the message is cut"); sq::outcome(f.data); }
// every change of one byte: bytes given come from the message in its order, nothing hangs
SQ_SCENARIO(response_changed, 3, 4) { Msg m = anyMsg(sq::depth(), true); size_t at = sq::choose((int)m.wire.size()); static const char alpha[] = "\r\n :0-f;\xff\0"; S w = m.wire; int kind = sq::choose(2 + sizeof alpha); if (kind < (int)sizeof alpha) w[at] = alpha[kind]; else if (kind == (int)sizeof alpha) w.erase(at, 1); else w.insert(at, 1, w[at]); Feed f(w); In in(&f); Resp r(in); sq::op("message %s", sq::show(w).c_str()); S got; try { natural s = r.open(); SQ_ASSERT(s == naturalNull || s < 100000, "status %lu", (unsigned long)s); got = rest(r, sq::choose(2), false); if (s == naturalNull) SQ_ASSERT(got.empty(), "a broken message has a body"); } catch (const Exception &) {}
	size_t p = 0; for (size_t i = 0; i < got.size(); i++) { p = w.find(got[i], p); SQ_ASSERT(p != S::npos, "the body %s does not come from the message", sq::show(got).c_str()); p++; } try { r.reset(); } catch (const Exception &) {} sq::outcome(got); }
static bool isDigits(const S &s, int base) { if (s.empty()) return false; for (char c: s) if (!(base == 16 ? isxdigit((byte)c) : isdigit((byte)c))) return false; return true; }
// every text of the length and of the chunk size
SQ_SCENARIO(response_lengths, 4, 5) { bool ch = sq::choose(2); static const char alpha[] = "019afAFgG -+x;"; int k = ch ? 14 : 14; S t; int n = sq::choose(sq::depth() + 1); for (int i = 0; i < n; i++) t += alpha[sq::choose(k)]; if (sq::choose(2)) t = S(ch ? "FFFFFFFFFFFFFFFF" : "18446744073709551616") + t; S trim = t; while (!trim.empty() && trim[trim.size() - 1] == ' ') trim.erase(trim.size() - 1); while (!trim.empty() && trim[0] == ' ') trim.erase(0, 1);
	S body(300, 'b'); S w = S("HTTP/1.1 200 OK\r\n") + (ch ? "Transfer-Encoding: chunked\r\n\r\n" : "Content-Length: "); w += t + "\r\n" + (ch ? "" : "\r\n") + body; Feed f(w); In in(&f); Resp r(in); natural s = r.open(); S num = trim; if (ch) { size_t q = num.find(';'); if (q != S::npos) num.erase(q); while (!num.empty() && num[num.size() - 1] == ' ') num.erase(num.size() - 1); }
	sq::op("length %s", sq::show(t).c_str()); S sig = num; while (sig.size() > 1 && sig[0] == '0') sig.erase(0, 1); bool valid = isDigits(num, ch ? 16 : 10) && (sig.size() < (ch ? 16u : 20u)); if (!ch && trim.empty()) return; if (!valid) { SQ_ASSERT(ch ? (s == 200) : s == naturalNull, "open returns %lu", (unsigned long)s); bool threw = false; S got; try { got = rest(r, sq::choose(2), false); } catch (const Exception &) { threw = true; } SQ_ASSERT(got.empty(), "%zu bytes are read although the length is broken", got.size()); bool k = false; try { k = r.reset(); } catch (const Exception &) {} SQ_ASSERT(!k || f.pos == 0, "reset succeeds although the length is broken"); return; }
	SQ_ASSERT(s == 200, "open returns %lu", (unsigned long)s); unsigned long v = strtoul(num.c_str(), 0, ch ? 16 : 10); if (!ch) SQ_ASSERT(r.getRemain() == v, "remain is %lu instead of %lu", (unsigned long)r.getRemain(), v); S got = rest(r, false, false); SQ_ASSERT(got.size() == (v < 300 ? v : 300), "%zu bytes are read instead of %lu", got.size(), v); }
SQ_SCENARIO(status_lines, 5, 6) { static const char *part[] = {"HTTP/1.1", " ", "200", "x", "7", "HTTP/1.0"}; S l; int n = sq::choose(sq::depth() + 1); for (int i = 0; i < n; i++) l += part[sq::choose(6)]; Feed f(l + "\r\nA: b\r\n\r\nbody"); In in(&f); Resp r(in); sq::op("status line %s", sq::show(l).c_str()); natural s = r.open(); size_t p = l.find(' '), q = p == S::npos ? p : l.find(' ', p + 1); S code = p == S::npos ? S() : l.substr(p + 1, q == S::npos ? q : q - p - 1); bool valid = p != 0 && isDigits(code, 10); if (l.empty()) return; if (valid) { SQ_ASSERT(s == strtoul(code.c_str(), 0, 10), "open returns %lu", (unsigned long)s); SQ_ASSERT(str(r.getStatusMessage()) == (q == S::npos ? S() : l.substr(q + 1)), "the message is %s", sq::show(str(r.getStatusMessage())).c_str()); SQ_ASSERT(s == 204 || s == 304 || rest(r, true, false) == "body", "the body is lost"); } else { SQ_ASSERT(s == naturalNull, "open returns %lu", (unsigned long)s); SQ_ASSERT(!r.hasItems() && !r.reset(), "a broken message continues"); } }
// --- requests ---
struct Out { S *s; Out(S *s):s(s) {} void operator()(ConstBin d) { s->append((const char *)d.data(), d.length()); } };
struct Req { S method, path, body; std::map<S, S> hdrs; bool chunked; size_t maxChunk; };
static Req parseReq(const S &w, size_t &pos) { Req q; q.chunked = false; q.maxChunk = 0; size_t e = w.find("\r\n", pos); SQ_ASSERT(e != S::npos, "no request line in %s", sq::show(w.substr(pos)).c_str()); S l = w.substr(pos, e - pos); pos = e + 2; size_t a = l.find(' '), b = l.rfind(' '); SQ_ASSERT(a != S::npos && b > a && l.substr(b) == " HTTP/1.1", "request line %s", sq::show(l).c_str()); q.method = l.substr(0, a); q.path = l.substr(a + 1, b - a - 1);
	for (;;) { e = w.find("\r\n", pos); SQ_ASSERT(e != S::npos, "headers do not end in %s", sq::show(w).c_str()); l = w.substr(pos, e - pos); pos = e + 2; if (l.empty()) break; size_t c = l.find(": "); SQ_ASSERT(c != S::npos, "header line %s", sq::show(l).c_str()); SQ_ASSERT(q.hdrs.insert(std::make_pair(l.substr(0, c), l.substr(c + 2))).second, "header %s is sent twice", l.substr(0, c).c_str()); }
	if (q.hdrs.count("Transfer-Encoding")) { SQ_ASSERT(q.hdrs["Transfer-Encoding"] == "chunked", "transfer encoding"); SQ_ASSERT(!q.hdrs.count("Content-Length"), "both framings are announced"); q.chunked = true; for (;;) { e = w.find("\r\n", pos); SQ_ASSERT(e != S::npos, "chunk size is missing in %s", sq::show(w).c_str()); S n = w.substr(pos, e - pos); SQ_ASSERT(isDigits(n, 16), "chunk size is %s", sq::show(n).c_str()); size_t k = strtoul(n.c_str(), 0, 16); pos = e + 2; SQ_ASSERT(pos + k + 2 <= w.size() && w.compare(pos + k, 2, "\r\n") == 0, "chunk of %zu bytes is broken in %s", k, sq::show(w).c_str()); q.body += w.substr(pos, k); if (k > q.maxChunk) q.maxChunk = k; pos += k + 2; if (!k) break; } }
	else if (q.hdrs.count("Content-Length")) { S n = q.hdrs["Content-Length"]; SQ_ASSERT(isDigits(n, 10), "length %s", n.c_str()); size_t k = strtoul(n.c_str(), 0, 10); SQ_ASSERT(pos + k <= w.size(), "the body is short"); q.body = w.substr(pos, k); pos += k; } return q; }
static S data(int n, char c) { S s; for (int i = 0; i < n; i++) s += i % 3 == 1 ? '\n' : (char)(c + i); return s; }
SQ_SCENARIO(request_calls, 4, 5) { S wire; std::vector<Req> expect; Req cur; bool begun = false; static const natural mcs[] = {1, 2, 65536}; natural mc = mcs[sq::choose(3)], mcMax = mc; cur.chunked = false; { Out out(&wire); HttpRequest<Out> r(out); r.setMaxChunkSize(mc); bool fresh = true; auto fin = [&]() { expect.push_back(cur); cur = Req(); cur.chunked = false; begun = false; fresh = true; };
	int d = sq::depth(); for (int i = 0; i < d; i++) { if (fresh) { int k = sq::choose(2); sq::op("%s", k ? "POST /b" : "GET /a?x"); r.setMethod(k ? "POST" : "GET"); cur.method = k ? "POST" : "GET"; if (k) r.setPath("/b"); else SQ_ASSERT(r.setUrl("http://h/a?x"), "setUrl fails"); cur.path = k ? "/b" : "/a?x"; if (!k) cur.hdrs["Host"] = "h"; fresh = false; }
		switch (sq::choose(begun ? 5 : 9)) {
		case 0: { int n = 1 + sq::choose(3); S x = data(n, 'a' + i); sq::op("write %d bytes", n); if (n == 2) r.blockWrite(ConstBin((const byte *)x.data(), x.size())); else for (char c: x) { if (n == 1) r((byte)c); else r.write((byte)c); } cur.body += x; begun = true; cur.chunked = true; break; }
		case 1: sq::op("flush"); r.flush(); begun = true; cur.chunked = true; break;
		case 2: sq::op("reset"); r.reset(); if (begun) fin(); else { cur = Req(); cur.chunked = false; fresh = true; } break;
		case 3: { mc = mcs[sq::choose(2)]; if (mc > mcMax) mcMax = mc; sq::op("setMaxChunkSize(%lu)", (unsigned long)mc); r.setMaxChunkSize(mc); break; }
		case 4: SQ_ASSERT(r.hasItems(), "hasItems"); break;
		case 5: sq::op("addHeader"); if (sq::choose(2)) { r.addHeader("X-A", "1"); cur.hdrs["X-A"] = "1"; } else { r.addHeader("X-A", "2 3"); cur.hdrs["X-A"] = "2 3"; r.addHeader("Content-Length", "77"); cur.hdrs["Content-Length"] = "77"; } break;
		case 6: sq::op("beginBody"); r.beginBody(); begun = true; cur.chunked = true; break;
		case 7: { S x = data(sq::choose(3), 'p'); sq::op("send(%zu bytes)", x.size()); r.send(ConstBin((const byte *)x.data(), x.size())); cur.body = x; cur.hdrs["Content-Length"] = num(x.size(), 10, false); fin(); break; }
		case 8: sq::op("send()"); if (cur.hdrs.count("Content-Length")) { sq::skip(); } r.send(); fin(); break; } if (begun) cur.hdrs.erase("Content-Length"); }
	if (begun) expect.push_back(cur); sq::op("destroy"); }
	size_t pos = 0; for (size_t i = 0; i < expect.size(); i++) { Req q = parseReq(wire, pos); Req &e = expect[i]; SQ_ASSERT(q.method == e.method && q.path == e.path, "request %zu: %s %s in %s", i, q.method.c_str(), q.path.c_str(), sq::show(wire).c_str()); SQ_ASSERT(q.chunked == e.chunked, "request %zu: framing in %s", i, sq::show(wire).c_str()); q.hdrs.erase("Transfer-Encoding"); SQ_ASSERT(q.hdrs == e.hdrs, "request %zu: headers in %s", i, sq::show(wire).c_str()); SQ_ASSERT(q.body == e.body, "request %zu: body %s instead of %s", i, sq::show(q.body).c_str(), sq::show(e.body).c_str()); SQ_ASSERT(q.maxChunk <= mcMax, "chunk of %zu bytes, the limit is %lu", q.maxChunk, (unsigned long)mcMax); }
	SQ_ASSERT(pos == wire.size(), "more is sent: %s", sq::show(wire.substr(pos)).c_str()); sq::outcome(wire); }
static S b64(const S &s) { static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S o; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = (byte)s[i] << 16 | (i + 1 < s.size() ? (byte)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (byte)s[i + 2] : 0); o += t[v >> 18]; o += t[v >> 12 & 63]; o += i + 1 < s.size() ? t[v >> 6 & 63] : '='; o += i + 2 < s.size() ? t[v & 63] : '='; } return o; }
SQ_SCENARIO(request_urls, 1, 1) { static const char *proto[] = {"http://", "https://", "ws://", "wss://", "ftp://", "http:/", "", "httpx://"}; static const char *auth[] = {"", "u:p@", "user:pa:ss@", "u@"}; static const char *host[] = {"h", "example.com:8080", "[::1]:80"}; static const char *path[] = {"", "/", "/a/b", "/a@b:c//d"}; static const char *query[] = {"", "?", "?q=1&x=/y", "?m=a@b", "?u=http://z/"}; static const char *frag[] = {"", "#f", "#a/b@c?d"};
	int p = sq::choose(8); S a = auth[sq::choose(4)], h = host[sq::choose(3)], pa = path[sq::choose(4)], q = query[sq::choose(5)], fr = frag[sq::choose(3)]; S url = proto[p] + a + h + pa + q + fr; bool proxy = sq::choose(2); sq::op("url %s%s", url.c_str(), proxy ? " proxy" : ""); S wire; Out out(&wire); HttpRequest<Out> r(out); r.setMethod("GET"); bool ok = r.setUrl(ConstStrA(url.data(), url.size()), proxy); if (p > 3) { if (url.find("://") == S::npos || p == 7 || p == 4) SQ_ASSERT(!ok, "the url is accepted"); return; } SQ_ASSERT(ok, "the url is refused"); r.send(); size_t pos = 0; Req e = parseReq(wire, pos); if (!proxy) { S ep = (pa.empty() ? S("/") : pa) + q; SQ_ASSERT(e.path == ep, "the path is %s instead of %s", e.path.c_str(), ep.c_str()); } else { SQ_ASSERT(e.path.find("://") != S::npos && e.path.find(h) != S::npos, "the proxy gets %s", e.path.c_str()); } SQ_ASSERT(e.hdrs["Host"] == h, "the host is %s", e.hdrs["Host"].c_str()); if (a.empty()) SQ_ASSERT(!e.hdrs.count("Authorization"), "authorization without a user"); else SQ_ASSERT(e.hdrs["Authorization"] == "Basic " + b64(a.substr(0, a.size() - 1)), "authorization is %s", e.hdrs["Authorization"].c_str()); SQ_ASSERT(pos == wire.size(), "more is sent"); }
// --- the client over a buffered connection: the server answers complete requests only ---
struct Server: public IInOutStream { S got, reply; size_t parsed, rp, step; std::vector<Req> reqs; std::vector<Msg> msgs; Server():parsed(0), rp(0), step(0) {}
	bool complete() { S w = got.substr(parsed); size_t h = w.find("\r\n\r\n"); if (h == S::npos) return false; if (w.find("chunked") < h) { size_t e = w.find("\r\n0\r\n\r\n", h); if (e == S::npos) return false; } else { size_t c = w.find("Content-Length: "); if (c < h && w.size() < h + 4 + strtoul(w.c_str() + c + 16, 0, 10)) return false; } return true; }
	void work() { while (parsed < got.size() && complete()) { size_t p = parsed; reqs.push_back(parseReq(got, p)); parsed = p; if (reqs.size() <= msgs.size()) reply += msgs[reqs.size() - 1].wire; } }
	virtual natural read(void *b, natural size) { work(); SQ_ASSERT(rp < reply.size() || reqs.size() == msgs.size(), "the client waits for the response, but only %s of the request is sent", sq::show(got).c_str()); size_t n = reply.size() - rp; if (n > size) n = size; if (step && n > step) n = step; memcpy(b, reply.data() + rp, n); rp += n; return n; }
	virtual natural peek(void *b, natural size) const { size_t n = reply.size() - rp; if (n > size) n = size; memcpy(b, reply.data() + rp, n); return n; }
	virtual bool canRead() const { const_cast<Server *>(this)->work(); SQ_ASSERT(rp < reply.size() || reqs.size() == msgs.size(), "the client waits for the response, but only %s of the request is sent", sq::show(got).c_str()); return rp < reply.size(); } virtual natural dataReady() const { return reply.size() - rp; }
	virtual natural write(const void *b, natural size) { size_t n = size; if (step && n > step) n = step; got.append((const char *)b, n); return n; } virtual bool canWrite() const { return true; } virtual void flush() {} virtual void closeOutput() {} };
SQ_SCENARIO(client, 3, 4) { RefCntPtr<Server> s = new Server; static const size_t steps[] = {0, 1, 3}; s->step = steps[sq::choose(3)]; int n = 2; std::vector<size_t> c1(1, 4), c2; chunksOf(sq::depth(), c2); for (int i = 0; i < n; i++) { int k = sq::choose(i + 1 < n ? 2 : 3); s->msgs.push_back(makeMsg(k, k == 1 ? c2 : c1, 0, 0, 200 + i, 1, 0)); } RefCntPtr<IOBuffer<32> > buf = new IOBuffer<32>((IInOutStream *)s); PInOutStream ps(buf.get()); HttpClientInstance cl(ps);
	std::vector<S> bodies; for (int i = 0; i < n; i++) { cl.request.setMethod("PUT"); cl.request.setUrl("http://h/x"); S x = data(i ? 40 : 3, 'a'); int how = sq::choose(3); sq::op("request %d way %d", i, how); if (how == 0) { cl.request.send(ConstBin((const byte *)x.data(), x.size())); } else if (how == 1) { cl.request.beginBody(); cl.request.setMaxChunkSize(16); cl.request.blockWrite(ConstBin((const byte *)x.data(), x.size())); cl.request.reset(); } else { cl.request.send(); x.clear(); } bodies.push_back(x); SQ_ASSERT(cl.response.open() == s->msgs[i].status, "status of the response %d", i); checkHead(cl.response, s->msgs[i], "client"); S got = rest(cl.response, sq::choose(2), false); SQ_ASSERT(got == s->msgs[i].body, "the body of the response %d is %s", i, sq::show(got).c_str()); SQ_ASSERT(s->reqs.size() == (size_t)i + 1 && s->reqs[i].body == bodies[i], "the request %d did not come", i); bool k = cl.response.reset(); SQ_ASSERT(k == (s->msgs[i].framing != 2), "reset"); } }
