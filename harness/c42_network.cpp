// C42: network streams, connecting, accepting and datagrams over a simulated network: every order of calls, arrivals, resets, interruptions and timeouts
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/streams/netio_ifc.h"
#include "lightspeed/base/exceptions/netExceptions.h"
#include "lightspeed/base/exceptions/iterator.h"
#include "lightspeed/base/streams/netio.tcc"
#include "lightspeed/base/streams/fileiobuff.tcc"
#include "lightspeed/base/linux/netStream.h"
#include "lightspeed/base/linux/netStreamSource.h"
#include "lightspeed/base/linux/netDgramSource.h"
#include "lightspeed/base/linux/netAddress.h"
#include "lightspeed/base/linux/linuxNetWaitingObj.h"
#include "lightspeed/base/interface.tcc"
#include "net.h"
using namespace LightSpeed; using net::S;
static const S text = "abcdefghijklmnopqrstuvwxyz";
// ---- one stream
static int fd; static size_t sentByPeer; static bool peerRst;
static int evCount() { if (peerRst) return 0; return net::fds[fd].fin ? 2 : 5; }
static void evDo(int k) { net::Sock &s = net::fds[fd]; switch (k) { case 0: sq::op("(space for 2 bytes)"); s.space += 2; break; case 1: sq::op("(reset)"); s.rst = peerRst = true; s.in.clear(); break; case 2: sq::op("(end)"); s.fin = true; break; case 3: case 4: { size_t n = k == 3 ? 1 : 3; sq::op("(%zu bytes)", n); s.in += text.substr(sentByPeer % 13, n); sentByPeer += n; break; } } }
static int budget;
static bool unlimited; static int evBudget() { return budget > 0 ? evCount() : unlimited && !peerRst ? 1 : 0; }
static S arrivedAll; // everything the peer sent
static void evB(int k) { if (budget <= 0) { evDo(1); return; } budget--; size_t b = net::fds[fd].in.size(); evDo(k); if (k >= 3) arrivedAll += net::fds[fd].in.substr(b); }
static void streamOps(bool nonblock, int timeout) {
	net::reset(); fd = net::add(net::kStream); sentByPeer = 0; peerRst = false; arrivedAll.clear(); net::fds[fd].nonblock = nonblock; net::fds[fd].space = 1; sq::setDeviations(sq::thorough() ? 2 : 1); budget = 3; net::events = evBudget; net::event = evB;
	S got, wrote; bool eof = false, outClosed = false; int d = sq::depth(), tm = timeout; size_t peeked = 0; unlimited = tm < 0;
	{ LinuxNetStream *ns = new LinuxNetStream(fd, tm < 0 ? naturalNull : (natural)tm); PNetworkStream hold = ns; INetworkStream &s = *ns;
	for (int i = 0; i < d; i++) {
		net::Sock &k = net::fds[fd]; char b[32]; memset(b, '#', sizeof b); uint64_t x[] = { (uint64_t)i, got.size(), wrote.size(), eof, outClosed, (uint64_t)tm, (uint64_t)budget, k.space, k.fin, k.rst, peeked, k.in.size() }; (void)x;
		int op = sq::choose(9); long t0 = net::now_; bool ready = !k.in.empty() || k.fin || k.rst || eof; bool ret = true, timeouted = false, failed = false; natural r = 0;
		if (op == 7 && !budget) sq::skip();
		if (op == 3 && outClosed) { sq::op("write after closeOutput"); bool f = false; try { s.write("q", 1); } catch (const NetworkIOError &) { f = true; } catch (const NetworkTimeoutException &) { f = true; } SQ_ASSERT(f, "a write after closeOutput succeeds"); continue; }
		if (op == 3 && eof) sq::skip();
		try { switch (op) {
			case 0: case 1: { natural n = op == 0 ? 1 : 20; sq::op("read(%lu)", (unsigned long)n); r = s.read(b, n); S e = S(b, r); if (r) { SQ_ASSERT(r <= n && arrivedAll.substr(got.size(), r) == e, "read returns %s", sq::show(e).c_str()); got += e; peeked = 0; } else { SQ_ASSERT(net::fds[fd].fin || peerRst, "the end is read before the end"); SQ_ASSERT(peerRst || got == arrivedAll, "%zu of %zu bytes were read before the end", got.size(), arrivedAll.size()); eof = true; } break; }
			case 2: { sq::op("peek(2)"); r = s.peek(b, 2); if (r) { SQ_ASSERT(r <= 2 && arrivedAll.substr(got.size(), r) == S(b, r), "peek returns %s", sq::show(S(b, r)).c_str()); } else { SQ_ASSERT(net::fds[fd].fin || peerRst, "peek reaches the end before the end"); SQ_ASSERT(peerRst || got == arrivedAll, "peek sees the end before the last byte"); eof = true; } break; }
			case 3: { natural n = 1 + 2 * sq::choose(2); S w = text.substr(20 - i, n); sq::op("write(%lu)", (unsigned long)n); size_t had = net::fds[fd].out.size(); r = s.write(w.data(), n); SQ_ASSERT(r >= 1 && r <= n, "write returns %lu", (unsigned long)r); wrote += w.substr(0, r); SQ_ASSERT(net::fds[fd].out == wrote, "%s was sent instead of %s", sq::show(net::fds[fd].out.substr(had)).c_str(), w.substr(0, r).c_str()); break; }
			case 4: { sq::op("canRead"); bool c = s.canRead(); if (c) SQ_ASSERT(!net::fds[fd].in.empty() || peerRst, "canRead is true without data"); else { SQ_ASSERT(eof || net::fds[fd].fin || peerRst, "canRead is false before the end"); SQ_ASSERT(eof || peerRst || net::fds[fd].in.empty(), "canRead is false before the last byte"); } break; }
			case 5: { sq::op("dataReady"); r = s.dataReady(); SQ_ASSERT(net::now_ == t0, "dataReady waits"); if (!ready) SQ_ASSERT(r == 0, "dataReady returns %lu", (unsigned long)r); else SQ_ASSERT(r > 0 && (r <= k.in.size() || r == 1 || peerRst), "dataReady returns %lu of %zu bytes", (unsigned long)r, k.in.size()); break; }
			case 6: { int c = sq::choose(3); sq::op("%s", c == 0 ? "read(0)" : c == 1 ? "peek(0)" : "closeOutput"); if (c == 2) { s.closeOutput(); outClosed = true; SQ_ASSERT(k.shutWr && !s.canWrite(), "the output stays open"); break; } r = c == 0 ? s.read(b, 0) : s.peek(b, 0); SQ_ASSERT(r == 0, "%lu bytes of 0", (unsigned long)r); break; }
			case 7: { int e = sq::choose(evBudget()); evB(e); break; }
			case 8: { int m = sq::choose(3); natural mask = m == 0 ? INetworkResource::waitForInput : m == 1 ? INetworkResource::waitForOutput : INetworkResource::waitDefault; if (eof) break; sq::op("wait(%lu)", (unsigned long)mask); r = m == 2 ? s.wait() : s.wait(mask); bool in = !net::fds[fd].in.empty() || net::fds[fd].fin || peerRst, out = net::fds[fd].space || peerRst || outClosed; if (r == 0) { SQ_ASSERT(m == 1 ? !out : !in, "wait ends without event"); timeouted = true; throw NetworkTimeoutException(THISLOCATION, tm, NetworkTimeoutException::reading); } SQ_ASSERT(m == 1 ? out : in, "wait reports %lu", (unsigned long)r); if (!peerRst && !outClosed) SQ_ASSERT(r == (m == 1 ? 2u : 1u), "wait reports %lu", (unsigned long)r); break; }
			} } catch (const NetworkTimeoutException &) { sq::op("timeout"); SQ_ASSERT(tm >= 0, "timeout of an unlimited operation"); SQ_ASSERT(net::now_ - t0 >= tm && net::now_ - t0 <= tm + 1, "the timeout came after %ld ms instead of %d", net::now_ - t0, tm); net::Sock &q = net::fds[fd]; if (op == 3) SQ_ASSERT(!q.space && !peerRst, "the write timed out"); else if (op == 8) {} else SQ_ASSERT(q.in.empty() && !q.fin && !peerRst, "the operation timed out although it can finish"); failed = true; }
		catch (const NetworkIOError &) { sq::op("error"); SQ_ASSERT(peerRst, "an operation failed"); failed = true; }
		(void)ret; (void)timeouted; if (failed) {} if (op != 5 && op != 7 && tm >= 0) SQ_ASSERT(net::now_ - t0 <= tm + 1, "the operation took %ld ms, the timeout is %d", net::now_ - t0, tm);
		SQ_ASSERT(net::fds[fd].out == wrote, "%zu bytes were sent, %zu were reported", net::fds[fd].out.size(), wrote.size());
	}
	sq::outcome(got + "|" + wrote + (eof ? "E" : "")); }
	SQ_ASSERT(net::fds.empty() && net::closed == 1, "the socket is not closed"); net::active = false;
}
SQ_SCENARIO(stream, 3, 4) { streamOps(true, sq::choose(2) ? 10 : -1); }

// ---- addresses made by hand
static sockaddr_in sin4(int port, int ip = 0x0100007f) { sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_port = htons(port); x.sin_addr.s_addr = ip; return x; }
struct Chain { addrinfo ai[6]; sockaddr_in sa[6]; };
static void noFree(addrinfo *) {}
static PNetworkAddress chain(Chain &c, int n) { memset(&c, 0, sizeof c); for (int i = 0; i < n; i++) { c.sa[i] = sin4(i + 1); c.ai[i].ai_family = AF_INET; c.ai[i].ai_socktype = SOCK_STREAM; c.ai[i].ai_addr = (sockaddr *)&c.sa[i]; c.ai[i].ai_addrlen = sizeof c.sa[i]; c.ai[i].ai_next = i + 1 < n ? &c.ai[i + 1] : 0; } return new LinuxNetAddress(c.ai, noFree); }
// ---- connecting
static int addrs, script[6], tried, socketsMade, sockErrs; static int pendingFd[6];
static int cSocket() { return script[std::min(socketsMade++, 5)] == 3 ? EAFNOSUPPORT : 0; }
static int cConnect(int f, int target) { net::Sock &s = net::fds[f]; tried |= 1 << target; switch (script[target - 1]) { case 0: sq::op("(%d connected)", target); return 0; case 1: sq::op("(%d refused)", target); return ECONNREFUSED; default: s.connecting = true; pendingFd[target] = f; return s.nonblock ? EINPROGRESS : (sq::fail("connect blocks"), 0); } }
static int conEvents() { int n = 0; for (auto &f : net::fds) if (f.second.connecting) n++; return 2 * n; }
static void conEvent(int k) { for (auto &f : net::fds) if (f.second.connecting) { if (k < 2) { f.second.connecting = false; if (k == 1) { f.second.failed = true; f.second.soError = ECONNREFUSED; } sq::op("(%d %s)", f.second.target, k ? "fails" : "succeeds"); return; } k -= 2; } }
SQ_SCENARIO(connecting, 3, 4) {
	int d = sq::depth(); Chain c; net::reset(); net::onSocket = cSocket; net::onConnect = cConnect; net::events = conEvents; net::event = conEvent; sq::setDeviations(1);
	addrs = 1 + sq::choose(sq::thorough() ? 4 : 3); if (addrs > 2) d--; static const char *names[] = { "ok", "refused", "pending", "no socket" }; S t; for (int i = 0; i < addrs; i++) { script[i] = sq::choose(4); t += S(i ? ", " : "") + names[script[i]]; } sq::op("%s", t.c_str()); bool limited = sq::choose(2); int tm = limited ? 10 : -1; natural count = 1 + sq::choose(2), left = count;
	{ PNetworkStreamSource src = new LinuxNetConnect(chain(c, addrs), count, limited ? 10 : naturalNull, 77); std::vector<PNetworkStream> streams; bool opened = false, ready = false; int possible = 0; for (int i = 0; i < addrs; i++) if (script[i] == 0 || script[i] == 2) possible++;
	for (int i = 0; i < d; i++) { int op = sq::choose(4); SQ_ASSERT(src->hasItems() == (left > 0), "hasItems with %lu connections left", (unsigned long)left); long t0 = net::now_;
		if (op <= 1) { if (!left && op) sq::skip(); if (!opened) socketsMade = tried = 0; sq::op(op ? "wait" : "getNext"); int before = net::fds.size(); (void)before; bool got = false, timeout = false, ioerr = false; PNetworkStream st;
			try { if (op) got = src->wait() != 0; else { st = src->getNext(); got = true; } if (!got) timeout = true; } catch (const NetworkConnectFailedException &) { timeout = true; } catch (const NetworkIOError &) { ioerr = true; } catch (const IteratorNoMoreItems &) { SQ_ASSERT(!left, "no more connections, %lu left", (unsigned long)left); sq::op("no more"); continue; }
			SQ_ASSERT(left, "a connection over the limit"); if (!opened) for (int k = 0; k < addrs; k++) if (script[k] != 3) SQ_ASSERT(tried >> (k + 1) & 1, "address %d was not tried", k + 1); opened = true;
			int live = 0, con = 0; for (auto &f : net::fds) { bool held = false; for (auto &q : streams) if ((int)((LinuxNetStream *)q.get())->getSocket(0) == f.first) held = true; if (held) continue; if (f.second.connecting) con++; else if (!f.second.failed) live++; }
			if (got) { sq::op("ok"); if (op) { SQ_ASSERT(live, "wait reports a connection which does not exist"); ready = true; } else { int f = ((LinuxNetStream *)st.get())->getSocket(0); net::Sock *s = net::get(f); SQ_ASSERT(s && !s->connecting && !s->failed, "the stream is not connected"); SQ_ASSERT(s->nonblock, "the stream blocks"); SQ_ASSERT(st->getTimeout() == 77, "the timeout of the stream is %lu", (unsigned long)st->getTimeout()); streams.push_back(st); left--; opened = ready = false; SQ_ASSERT(net::fds.size() == streams.size(), "%zu sockets stay open", net::fds.size() - streams.size()); } }
			else if (ioerr) { sq::op("error"); SQ_ASSERT(possible == 0, "connecting failed although another address is possible"); opened = false; SQ_ASSERT(net::fds.size() == streams.size(), "a socket stays open"); }
			else { sq::op("failed"); SQ_ASSERT(!ready, "the connection reported by wait is lost"); SQ_ASSERT(live == 0, "connecting failed although an address is connected"); if (net::fds.size() > streams.size()) SQ_ASSERT(limited && net::now_ - t0 >= tm, "connecting gave up after %ld ms", net::now_ - t0); if (op == 0 || net::fds.size() == streams.size()) { opened = false; SQ_ASSERT(net::fds.size() == streams.size(), "%zu sockets stay open", net::fds.size() - streams.size()); } }
			if (limited) SQ_ASSERT(net::now_ - t0 <= tm + 1, "it took %ld ms", net::now_ - t0); }
		else if (op == 2) { if (streams.empty()) sq::skip(); sq::op("close"); streams.pop_back(); }
		else { int n = conEvents(); if (!n) sq::skip(); conEvent(sq::choose(n)); } }
	sq::outcome(S(1, '0' + streams.size()) + (opened ? "o" : "")); }
	SQ_ASSERT(net::fds.empty() && net::opened == net::closed, "%zu sockets stay open", net::fds.size()); net::active = false;
}
// ---- accepting
static int lsock, arrived, quota; static std::vector<int> queue;
static int accEvents() { return quota > 0 ? 3 : 1; }
static void accEvent(int k) { if (quota > 0) quota--; net::Sock &s = net::fds[lsock]; if (k == 0) { sq::op("(connection %d)", ++arrived); s.pending.push_back(arrived); queue.push_back(arrived); } else { sq::op(k == 1 ? "(aborted connection)" : "(vanished connection)"); s.pending.push_back(k == 1 ? -ECONNABORTED : -EAGAIN); } }
SQ_SCENARIO(accepting, 4, 5) {
	int d = sq::depth(); Chain c; net::reset(); net::events = accEvents; net::event = accEvent; sq::setDeviations(1); arrived = 0; quota = 3; queue.clear(); int bad = sq::choose(4); if (bad == 1) net::bindError = EADDRINUSE; if (bad == 2) net::listenError = EADDRINUSE; bool limited = sq::choose(2); long tm = 10; natural left = 2;
	{ PNetworkStreamSource src; PNetworkAddress adr = chain(c, 1); if (bad == 3) net::onSocket = []() { return EMFILE; };
	try { src = new LinuxNetAccept(adr, left, limited ? tm : naturalNull, 5); SQ_ASSERT(!bad, "the port is opened"); } catch (const NetworkException &) { SQ_ASSERT(bad, "the port is not opened"); SQ_ASSERT(net::fds.empty(), "the socket of a port which can not be opened stays open"); net::active = false; return; }
	lsock = net::fds.begin()->first; std::vector<PNetworkStream> st; int taken = 0;
	for (int i = 0; i < d; i++) { int op = sq::choose(5); long t0 = net::now_; SQ_ASSERT(src->hasItems() == (left > 0), "hasItems"); net::Sock &ls = net::fds[lsock];
		if (op == 0) { sq::op("getNext"); try { PNetworkStream s = src->getNext(); SQ_ASSERT(left, "a connection over the limit"); SQ_ASSERT(taken < (int)queue.size(), "a connection nobody made"); int f = ((LinuxNetStream *)s.get())->getSocket(0), w = queue[taken++]; SQ_ASSERT(net::fds[f].target == w, "connection %d instead of %d", net::fds[f].target, w); left--; PNetworkAddress pa = src->getPeerAddr(); sockaddr_in x; SQ_ASSERT(pa->getSockAddress(&x, sizeof x) == sizeof x && ntohs(x.sin_port) == w, "the address of the peer"); SQ_ASSERT(s->getTimeout() == 5, "the timeout of the stream"); st.push_back(s); }
			catch (const NetworkTimeoutException &) { sq::op("timeout"); SQ_ASSERT(limited && net::now_ - t0 >= tm, "timeout after %ld ms", net::now_ - t0); SQ_ASSERT(taken == (int)queue.size(), "timeout although a connection waits"); } catch (const IteratorNoMoreItems &) { SQ_ASSERT(!left, "no more connections, %lu left", (unsigned long)left); } catch (const NetworkIOError &) { sq::fail("accept failed"); } }
		else if (op == 1) { if (!left) sq::skip(); sq::op("wait"); natural r = src->wait(); if (r) SQ_ASSERT(r == 1 && !net::fds[lsock].pending.empty(), "wait reports %lu", (unsigned long)r); else SQ_ASSERT(limited && net::now_ - t0 >= tm && ls.pending.empty(), "wait gave up after %ld ms", net::now_ - t0); }
		else if (op == 2) { if (!quota) sq::skip(); accEvent(sq::choose(3)); }
		else if (op == 3) { if (st.empty()) sq::skip(); sq::op("write(3)"); int f = ((LinuxNetStream *)st.back().get())->getSocket(0); size_t sp = net::fds[f].space; net::events = []() { return 0; }; try { natural n = st.back()->write("abc", 3); SQ_ASSERT(n && n <= sp, "%lu bytes were written to %zu", (unsigned long)n, sp); } catch (const NetworkTimeoutException &) { SQ_ASSERT(!sp, "timeout of a write"); } net::events = accEvents; }
		else { if (st.empty()) sq::skip(); sq::op("close"); st.pop_back(); } SQ_ASSERT(net::fds.size() == 1 + st.size(), "%zu sockets are open", net::fds.size()); }
	sq::outcome(S(1, '0' + taken)); }
	SQ_ASSERT(net::fds.empty() && net::opened == net::closed, "%zu sockets stay open", net::fds.size()); net::active = false;
}
// ---- datagrams
static int dsock, dgot; static std::deque<std::pair<S, int> > dqueue;
static int dgEvents() { return quota > 0 ? 2 : 1; }
static void dgEvent(int k) { if (quota > 0) quota--; S t = text.substr(dgot, quota == 1 ? 0 : 3 + k); sq::op("(%zu bytes from %d)", t.size(), k + 1); dgot++; net::Dgram g; g.data = t; g.from = sin4(k + 1); net::fds[dsock].dg.push_back(g); dqueue.push_back(std::make_pair(t, k + 1)); }
struct Dg { PNetworkDatagram d; S in, out; size_t pos; int target; natural uid; };
SQ_SCENARIO(datagrams, 4, 5) {
	int d = sq::depth(); net::reset(); net::events = dgEvents; net::event = dgEvent; sq::setDeviations(1); dgot = 0; quota = 3; dqueue.clear(); bool limited = sq::choose(2); long tm = 10; natural uid = 40;
	{ RefCntPtr<LinuxNetDgamSource> src = new LinuxNetDgamSource(0, limited ? tm : naturalNull, uid); dsock = net::fds.begin()->first; std::vector<Dg> v; Chain c1, c2; PNetworkAddress a[3]; a[1] = chain(c1, 1); a[2] = chain(c2, 2); c2.sa[0] = sin4(2); SQ_ASSERT(src->getTimeout() == (limited ? (natural)tm : naturalNull) && src->getDefaultWait() == 1, "the timeout of the source is %lu", (unsigned long)src->getTimeout()); natural next = uid;
	for (int i = 0; i < d; i++) { int op = sq::choose(10); long t0 = net::now_; net::Sock &so = net::fds[dsock]; if (op > 2 && v.empty()) sq::skip(); Dg *g = v.empty() ? 0 : &v[v.size() > 1 && op > 2 ? v.size() - 1 - sq::choose(2) : v.size() - 1]; size_t sentN = so.sent.size();
		switch (op) {
		case 0: { sq::op("receive"); try { PNetworkDatagram r = src->receive(); SQ_ASSERT(!dqueue.empty(), "a datagram nobody sent"); Dg n; n.d = r; n.in = dqueue.front().first; n.target = dqueue.front().second; n.pos = 0; n.uid = naturalNull; dqueue.pop_front(); v.push_back(n); } catch (const NetworkTimeoutException &) { sq::op("timeout"); SQ_ASSERT(limited && net::now_ - t0 >= tm && dqueue.empty(), "timeout after %ld ms", net::now_ - t0); } catch (const NetworkIOError &) { sq::fail("receiving failed"); } break; }
		case 1: { int t = sq::choose(3); sq::op("create(%d)", t); Dg n; n.d = t ? src->create(a[t]) : src->create(); n.pos = 0; n.target = t; n.uid = naturalNull; v.push_back(n); break; }
		case 2: { if (!quota) sq::skip(); dgEvent(sq::choose(2)); break; }
		case 3: { char b[8]; natural n = 1 + sq::choose(2) * 3; bool pk = sq::choose(2); sq::op("%s(%lu)", pk ? "peek" : "read", (unsigned long)n); natural r = pk ? g->d->peek(b, n) : g->d->read(b, n); S e = g->in.substr(g->pos, n); SQ_ASSERT(S(b, r) == e, "reads %s instead of %s", sq::show(S(b, r)).c_str(), e.c_str()); if (!pk) g->pos += r; break; }
		case 4: { int k = sq::choose(3); if (k == 0) { sq::op("rewind"); g->d->rewind(); g->pos = 0; } else if (k == 1) { sq::op("clear"); g->d->clear(); g->out.clear(); } else { sq::op("resetTarget"); g->d->resetTarget(); g->target = 0; } break; }
		case 5: { S t = text.substr(10 + i, 2 + i % 2); sq::op("write(%s)", t.c_str()); natural r = g->d->write(t.data(), t.size()); SQ_ASSERT(r == t.size(), "write returns %lu", (unsigned long)r); g->out += t; break; }
		case 6: case 7: { int t = op == 6 ? g->target : 1 + sq::choose(2); sq::op(op == 6 ? "send" : "sendTo(%d)", t); try { if (op == 6) g->d->send(); else g->d->sendTo(a[t]); SQ_ASSERT(t, "a datagram without address is sent"); SQ_ASSERT(so.sent.size() == sentN + 1, "%zu datagrams were sent", so.sent.size() - sentN); net::Dgram &q = so.sent.back(); SQ_ASSERT(q.data == g->out, "%s is sent instead of %s", sq::show(q.data).c_str(), g->out.c_str()); SQ_ASSERT(ntohs(q.from.sin_port) == t, "it is sent to %d", ntohs(q.from.sin_port)); g->target = 0; } catch (const NetworkInvalidAddressException &) { SQ_ASSERT(!t, "the address is refused"); } break; }
		case 8: { sq::op("getTarget"); PNetworkAddress x = g->d->getTarget(); if (!g->target) SQ_ASSERT(x == nil, "a target without address"); else { SQ_ASSERT(x != nil, "no target"); SQ_ASSERT(x->equalTo(*a[g->target]) && a[g->target]->equalTo(*x) && !x->equalTo(*a[3 - g->target]), "another target"); } break; }
		case 9: { sq::op("getUID"); natural u = g->d->getUID(); if (g->uid == naturalNull) { SQ_ASSERT(u == next, "the number is %lu instead of %lu", (unsigned long)u, (unsigned long)next); next++; g->uid = u; } else SQ_ASSERT(u == g->uid, "the number changed"); break; } }
		for (auto &x : v) { for (int k = 1; k < 3; k++) SQ_ASSERT(x.d->checkAddress(a[k]) == (x.target == k), "checkAddress"); SQ_ASSERT(x.d->canRead() == (x.pos < x.in.size()), "canRead"); ConstStringT<byte> o = x.d->peekOutputBuffer(); SQ_ASSERT(S((const char *)o.data(), o.length()) == x.out, "the written data are %s", sq::show(S((const char *)o.data(), o.length())).c_str()); SQ_ASSERT(x.d->size() == x.in.size(), "the size"); }
		if (limited) SQ_ASSERT(net::now_ - t0 <= tm + 1, "it took %ld ms", net::now_ - t0); }
	sq::outcome(S(1, '0' + net::fds[dsock].sent.size()) + S(1, '0' + v.size())); v.clear(); }
	SQ_ASSERT(net::fds.empty(), "the socket stays open"); net::active = false;
}
// ---- waiting for more resources
struct WoRes { LinuxNetStream *s; PNetworkStream hold; int fd; bool in; int mask; long deadline; };
static WoRes wr[3]; static int wrN; static LinuxNetWaitingObj *wobj; static int wakes; static natural lastReason;
static int woEvents() { return quota > 0 ? wrN + 1 : 1; }
static void woEvent(int k) { if (k == (quota > 0 ? wrN : 0)) { lastReason = 11 + k; wakes++; sq::op("(wake up %lu)", (unsigned long)lastReason); wobj->wakeUp(lastReason); } else { sq::op("(data %d)", k); net::fds[wr[k].fd].in += "x"; } if (quota > 0) quota--; }
static natural readyMask(const WoRes &w) { net::Sock &s = net::fds[w.fd]; natural m = 0; if (!s.in.empty()) m |= 1; if (s.space) m |= 2; return m & w.mask; }
SQ_SCENARIO(waiting, 4, 5) {
	int d = sq::depth(); for (auto &w : wr) w.hold = nil; net::reset(); net::events = woEvents; net::event = woEvent; sq::setDeviations(1); quota = 2; wrN = 2; wakes = 0; lastReason = 0;
	{ LinuxNetWaitingObj *o = new LinuxNetWaitingObj; PNetworkWaitingObject hold = o; wobj = o; for (int i = 0; i < wrN; i++) { wr[i].fd = net::add(net::kStream); net::fds[wr[i].fd].nonblock = true; net::fds[wr[i].fd].space = 0; wr[i].s = new LinuxNetStream(wr[i].fd, naturalNull); wr[i].hold = wr[i].s; wr[i].in = false; } bool peeked = false; NetworkWaitingObjectItem pk; bool wakePending = false; int wakesSeen = 0; (void)wakePending;
	for (int i = 0; i < d; i++) { int op = i ? sq::choose(6) : 5 * sq::choose(2); long t0 = net::now_; int regs = 0; bool ready = wakes != wakesSeen; for (int k = 0; k < wrN; k++) if (wr[k].in) { regs++; if (readyMask(wr[k]) || net::now_ > wr[k].deadline) ready = true; } SQ_ASSERT(o->hasItems() == (regs > 0), "hasItems with %d resources", regs);
		switch (op) {
		case 0: { int k = sq::choose(wrN), m = 1 + sq::choose(2) * 2; bool lim = (sq::thorough() || i == 0 || k) && sq::choose(2); sq::op("add(%d, %d, %s)", k, m, lim ? "5 ms" : "ever"); o->add(wr[k].hold, m, lim ? 5 : naturalNull); wr[k].in = true; wr[k].mask = m; wr[k].deadline = lim ? net::now_ + 5 : 1L << 60; peeked = false; break; }
		case 1: { int k = sq::choose(wrN); sq::op("remove(%d)", k); o->remove(wr[k].hold); wr[k].in = false; peeked = false; break; }
		case 2: case 3: { sq::op(op == 2 ? "getNext" : "peek"); int w0 = wakes; NetworkWaitingObjectItem e = op == 2 ? o->getNext() : o->peek(); if (ready && op == 2) SQ_ASSERT(net::now_ <= t0 + 1 || wakes != w0, "waits although an event is ready"); if (!e.rsrc) { SQ_ASSERT(wakes != wakesSeen, "a wake up nobody requested"); SQ_ASSERT(e.event == lastReason, "the reason is %lu instead of %lu", (unsigned long)e.event, (unsigned long)lastReason); if (op == 2) wakesSeen = wakes; } else { int k = e.rsrc == wr[0].s ? 0 : 1; SQ_ASSERT(e.rsrc == wr[k].s && wr[k].in, "an event of a resource which is not watched"); natural rm = readyMask(wr[k]); if (e.event == 0) SQ_ASSERT(net::now_ >= wr[k].deadline, "timeout after %ld ms", net::now_ - t0); else SQ_ASSERT(e.event == rm, "event %lu instead of %lu", (unsigned long)e.event, (unsigned long)rm); if (op == 2) wr[k].in = false; }
			if (peeked && op == 2 && wakes == w0 && e.rsrc) SQ_ASSERT(pk.rsrc == e.rsrc, "another event than peek returned"); peeked = op == 3; pk = e; break; }
		case 4: { long ms = sq::choose(2) ? 3 : 8; sq::op("sleep(%ld)", ms); peeked = false; bool r = o->sleep(ms); if (r) SQ_ASSERT(!ready && net::now_ - t0 >= ms, "sleep ended after %ld ms%s", net::now_ - t0, ready ? " although an event is ready" : ""); else { bool ev = wakes != wakesSeen; for (int k = 0; k < wrN; k++) if (wr[k].in && (readyMask(wr[k]) || net::now_ >= wr[k].deadline)) ev = true; SQ_ASSERT(ev, "sleep was interrupted by nothing"); } SQ_ASSERT(net::now_ - t0 <= ms + 1, "slept %ld ms", net::now_ - t0); break; }
		case 5: { int k = sq::choose(3); if (k == 0) { lastReason = 40 + i; sq::op("wakeUp(%lu)", (unsigned long)lastReason); o->wakeUp(lastReason); wakes++; } else if (k == 1) { int f = sq::choose(wrN); sq::op("data %d", f); net::fds[wr[f].fd].in += "x"; } else { int f = sq::choose(wrN); net::Sock &q = net::fds[wr[f].fd]; if (wr[f].in && !q.in.empty()) sq::skip(); sq::op(q.in.empty() ? "space %d" : "consume %d", f); if (!q.in.empty()) q.in.clear(); else q.space = 1; } peeked = false; break; } } }
	sq::outcome(S(1, '0' + wakesSeen) + S(1, wr[0].in ? 'a' : '-') + S(1, wr[1].in ? 'b' : '-'));
	hold = nil; for (int i = 0; i < wrN; i++) { wr[i].hold = nil; wr[i].s = 0; } }
	SQ_ASSERT(net::fds.empty() && net::opened == net::closed, "%zu descriptors stay open", net::fds.size()); net::active = false;
}
// ---- order and equality of addresses
SQ_SCENARIO(addresses, 1, 2) {
	struct A { S raw; }; std::vector<S> raw; int k[3]; for (int ip = 0; ip < 3; ip++) for (int p = 0; p < 3; p++) { sockaddr_in x = sin4(p == 0 ? 80 : p == 1 ? 443 : 256, ip == 0 ? 0x0100007f : ip == 1 ? 0x0200007f : 0x7f000001); raw.push_back(S((char *)&x, sizeof x)); }
	for (int ip = 0; ip < 2; ip++) for (int p = 0; p < 3; p++) { sockaddr_in6 x; memset(&x, 0, sizeof x); x.sin6_family = AF_INET6; x.sin6_port = htons(p == 0 ? 80 : p == 1 ? 443 : 256); x.sin6_addr.s6_addr[15] = 1; x.sin6_addr.s6_addr[0] = ip * 200; raw.push_back(S((char *)&x, sizeof x)); }
	for (int l = 3; l < 6; l++) for (int q = 0; q < 2; q++) { char b[8] = { AF_UNIX, 0, (char)('a' + q), 'b', 'c', 'd' }; raw.push_back(S(b, l)); }
	PNetworkAddress a[3]; INetworkServices &sv = INetworkServices::getNetServices(); for (int i = 0; i < 3; i++) { k[i] = sq::choose(raw.size()); a[i] = sv.createAddr(raw[k[i]].data(), raw[k[i]].size()); }
	sq::op("%d %d %d", k[0], k[1], k[2]); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { bool eq = k[i] == k[j], l = a[i]->lessThan(*a[j]), g = a[j]->lessThan(*a[i]); SQ_ASSERT(a[i]->equalTo(*a[j]) == eq, "equality of addresses %d and %d", k[i], k[j]); SQ_ASSERT(!(l && g), "addresses %d and %d are both smaller", k[i], k[j]); SQ_ASSERT(eq == (!l && !g), "addresses %d and %d are not ordered", k[i], k[j]); for (int m = 0; m < 3; m++) if (l && a[j]->lessThan(*a[m])) SQ_ASSERT(a[i]->lessThan(*a[m]), "the order is not transitive"); NetworkAddress x(a[i]), y(a[j]), n; SQ_ASSERT((x == y) == eq && (x != y) == !eq && !(x == n) && !(n == x) && n == NetworkAddress(), "equality of network addresses"); }
	const S &r = raw[k[0]]; natural n = sq::choose(40); char b[40]; memset(b, '#', sizeof b); SQ_ASSERT(a[0]->getSockAddress(0, n) == r.size(), "the size of the address"); natural got = a[0]->getSockAddress(b, n); SQ_ASSERT(got == std::min<size_t>(n, r.size()), "%lu bytes of the address are returned", (unsigned long)got); SQ_ASSERT(!memcmp(b, r.data(), got) && (got == sizeof b || b[got] == '#'), "the address"); natural port = a[0]->getIfc<INetworkAddrEx>().getPortNumber(); SQ_ASSERT(port == (k[0] >= 15 ? naturalNull : (natural)(k[0] % 3 == 0 ? 80 : k[0] % 3 == 1 ? 443 : 256)), "port %lu", (unsigned long)port); sq::outcome(r);
}
// ---- buffered stream
static int nbEvents() { return 1; }
static void nbEvent(int) { net::Sock &s = net::fds[fd]; s.space += quota-- > 0 ? 3 : 40; if (sentByPeer < 26) { sq::op("(3 bytes, space)"); S t = text.substr(sentByPeer, 3); s.in += t; sentByPeer += t.size(); } else s.fin = true; }
SQ_SCENARIO(buffered, 4, 5) {
	int d = sq::depth(); net::reset(); fd = net::add(net::kStream); net::fds[fd].nonblock = true; net::fds[fd].space = 2; quota = 2; sentByPeer = 0; net::events = nbEvents; net::event = nbEvent; sq::setDeviations(1); S wrote, got, sent; size_t w = 0; std::string all; net::Sock keep;
	{ PNetworkStream ps = new LinuxNetStream(fd, naturalNull); { NetworkStream<16> s(ps);
	for (int i = 0; i < d; i++) { int op = sq::choose(6); switch (op) {
		case 0: case 1: { size_t n = op ? 20 : 5; S t; while (t.size() < n) t += 'A' + w++ % 26; sq::op("write(%zu)", n); s.blockWrite(t.data(), n); wrote += t; break; }
		case 2: case 3: { if (net::fds[fd].fin) sq::skip(); char b[20]; natural n = op == 2 ? 1 : 20; sq::op("read(%lu)", (unsigned long)n); natural r = 0; try { r = s.blockRead(b, n, false); } catch (const IteratorNoMoreItems &) {} if (r == 0) SQ_ASSERT(net::fds[fd].fin, "the end is read before the end"); got += S(b, r); SQ_ASSERT(got == (text + text).substr(0, got.size()) && got.size() <= sentByPeer, "%s was read", sq::show(got).c_str()); break; }
		case 4: { sq::op("flush"); s.flush(); SQ_ASSERT(net::fds[fd].out == wrote, "%s was sent after flush instead of %s", net::fds[fd].out.c_str(), wrote.c_str()); break; }
		case 5: { char b = s.hasItems() ? s.peek() : '#'; sq::op("peek"); SQ_ASSERT(b == '#' ? net::fds[fd].fin : b == text[got.size()], "%c is next", b); break; } }
		SQ_ASSERT(wrote.compare(0, net::fds[fd].out.size(), net::fds[fd].out) == 0, "%s was sent", net::fds[fd].out.c_str()); }
	sq::op("end"); } SQ_ASSERT(net::fds[fd].out == wrote, "%s was sent instead of %s", net::fds[fd].out.c_str(), wrote.c_str()); }
	sq::outcome(got + wrote); SQ_ASSERT(net::fds.empty() && net::closed == 1, "the socket is not closed"); net::active = false;
}
// ---- set of descriptors
SQ_SCENARIO(descriptor_set, 4, 6) {
	int d = sq::depth(); net::reset(); int f[2]; for (int i = 0; i < 2; i++) { f[i] = net::add(net::kStream); net::fds[f[i]].space = 0; } bool on = false, in[2] = { false, false }; int wk = 0, marks[2]; net::events = []() { return 1; }; net::event = [](int) { for (auto &x : net::fds) if (x.second.kind == net::kStream && x.second.in.empty()) x.second.in = "x"; };
	{ LinuxFdSelect s; for (int i = 0; i < d; i++) { int op = sq::choose(6); switch (op) {
		case 0: { bool e = sq::choose(2); sq::op("enableWakeUp(%d)", e); s.enableWakeUp(e); if (!e) wk = 0; on = e; SQ_ASSERT(net::fds.size() == (e ? 4u : 2u), "%zu descriptors are open", net::fds.size()); break; }
		case 1: { int k = sq::choose(2); sq::op("set(%d)", k); s.set(f[k], LinuxFdSelect::waitForInput, &marks[k], nil); in[k] = true; break; }
		case 2: { int k = sq::choose(2); sq::op("unset(%d)", k); void *r = s.unset(f[k]); SQ_ASSERT(r == (in[k] ? &marks[k] : 0), "unset returns another pointer"); in[k] = false; break; }
		case 3: { if (!on) sq::skip(); sq::op("wakeUp"); wk++; s.wakeUp(7 + wk); break; }
		case 4: { if (!wk && !in[0] && !in[1]) sq::skip(); sq::op("getNext"); const LinuxFdSelect::FdInfo &r = s.getNext(); natural reason; if (s.isWakeUpRequest(r, reason)) { SQ_ASSERT(wk && reason == (natural)(7 + wk), "a wake up request %lu", (unsigned long)reason); wk = 0; } else { int k = r.fd == f[0] ? 0 : 1; SQ_ASSERT(r.fd == f[k] && in[k] && r.data == &marks[k] && r.waitMask == 1, "a descriptor which is not watched"); } break; }
		case 5: { sq::op("state"); SQ_ASSERT(s.hasItems() == (in[0] || in[1]), "hasItems"); for (int k = 0; k < 2; k++) { bool e; SQ_ASSERT(s.isSet(f[k]) == in[k] && s.getData(f[k]) == (in[k] ? &marks[k] : 0) && s.getData(f[k], e) == (in[k] ? &marks[k] : 0) && e == in[k], "the state of descriptor %d", k); } i = d; break; } } }
	sq::outcome(S(1, '0' + wk) + (on ? "o" : "") + (in[0] ? "a" : "") + (in[1] ? "b" : "")); }
	SQ_ASSERT(net::fds.size() == 2, "%zu descriptors stay open", net::fds.size()); net::active = false;
}
