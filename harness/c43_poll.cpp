// C43: waiting for descriptors (epoll and poll): every history of set / unset / readiness / time / wake up / wait over three descriptors
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/sort.tcc"
#include "lightspeed/base/streams/netio_ifc.h"
#include "lightspeed/base/linux/epollSelect.h"
#include "lightspeed/base/linux/pollSelect.h"
#include "lightspeed/base/exceptions/systemException.h"
#include "net.h"
#include <sys/epoll.h>
using namespace LightSpeed;
namespace ep {
struct Reg { uint32_t ev; epoll_data_t data; bool armed; };
static std::map<int, std::map<int, Reg> > sets;
static void closed(int fd) { sets.erase(fd); for (auto &s : sets) s.second.erase(fd); }
}
extern "C" {
int epoll_create1(int) { int f = net::add(net::kNone); ep::sets[f]; return f; }
int epoll_ctl(int e, int op, int fd, struct epoll_event *ev) { if (!ep::sets.count(e) || !net::get(fd)) { errno = EBADF; return -1; } std::map<int, ep::Reg> &m = ep::sets[e]; bool have = m.count(fd); if (op == EPOLL_CTL_ADD && have) { errno = EEXIST; return -1; } if (op != EPOLL_CTL_ADD && !have) { errno = ENOENT; return -1; } if (op == EPOLL_CTL_DEL) { m.erase(fd); return 0; } ep::Reg r = {ev->events, ev->data, true}; m[fd] = r; return 0; }
static int epReady(int e, int *out) { int n = 0; for (auto &r : ep::sets[e]) if (r.second.armed && net::state(r.first, (short)(r.second.ev & 0xFFF))) { if (out) out[n] = r.first; n++; } return n; }
int epoll_wait(int e, struct epoll_event *ev, int, int tm) {
	long end = tm < 0 ? -1 : net::now_ + tm;
	for (;;) { int rdy[16], n = epReady(e, rdy);
		if (n) { int fd = rdy[n > 1 ? sq::choose(n) : 0]; ep::Reg &r = ep::sets[e][fd]; ev->events = (uint16_t)net::state(fd, (short)(r.ev & 0xFFF)); ev->data = r.data; if (r.ev & EPOLLONESHOT) r.armed = false; return 1; }
		if (tm == 0) return 0;
		if (sq::deviate(2)) { sq::op("(interrupted)"); if (end > 0) net::now_ += (end - net::now_) / 2; errno = EINTR; return -1; }
		SQ_ASSERT(end > 0, "waits for ever"); sq::op("(time passes)"); net::now_ = end; return 0; }
}
}
struct M { int fd; bool open; natural mask; long dl; int data; bool active; int stateNo; };
static const natural masks[] = {INetworkResource::waitForInput, INetworkResource::waitForOutput | INetworkResource::waitForInput, INetworkResource::waitForException};
static const int tms[] = {-1, 5, 10, 0};
static int tags[64];
static M *cbM; static int cbN; static int cbSeen[4];
struct Cb { void operator()(int fd, void *d) const { int j = -1; for (int i = 0; i < cbN; i++) if (cbM[i].fd == fd) j = i; SQ_ASSERT(j >= 0 && cbM[j].active && !cbSeen[j], "clean up of descriptor %d", fd); SQ_ASSERT(d == &tags[cbM[j].data], "clean up with wrong data"); cbSeen[j] = 1; } };
// 0: nothing ready, 1: readable, 2: not writable, 3: peer has closed, 4: connection reset
static void world(int fd, int st) { net::Sock &s = net::fds[fd]; s.in = st == 1 ? "x" : ""; s.space = st == 2 || st == 5 ? 0 : 10; s.fin = st == 3; s.rst = st == 4; s.hup = st == 5; }
static natural flagsOf(int fd, natural mask) { short r = net::state(fd, 0xF); natural f = 0; if (r & (POLLIN | POLLHUP)) f |= INetworkResource::waitForInput; if (r & POLLOUT) f |= INetworkResource::waitForOutput; if (r & (POLLERR | POLLPRI)) f |= INetworkResource::waitForException; return f; }
static bool ready(const M &m) { if (!m.active || !m.open) return false; short ev = 0; if (m.mask & INetworkResource::waitForInput) ev |= POLLIN; if (m.mask & INetworkResource::waitForOutput) ev |= POLLOUT; if (m.mask & INetworkResource::waitForException) ev |= POLLPRI; return net::state(m.fd, ev) != 0; }
template<typename P> static void history(int N, bool closing, int devs) {
	net::base = 100; net::reset(); ep::sets.clear(); net::onClose = &ep::closed; sq::setDeviations(devs); int D = sq::depth(); int wakes = 0; natural reason = 0; int tag = 0; std::string log;
	M m[4]; { P p; for (int i = 0; i < N; i++) { M x = {net::add(net::kStream), true, 0, -1, 0, false, 0}; m[i] = x; net::fds[x.fd].nonblock = true; world(x.fd, 2); m[i].stateNo = 2; net::nextFd += i == 0 ? 0 : 20; }
	for (int step = 0; step <= D; step++) {
		bool last = step == D; int k = last ? 3 : sq::choose(closing ? 6 : 5);
		switch (k) {
		case 0: { int i = sq::choose(N), a = sq::choose(3), t = sq::choose(3); if (!m[i].open) { if (a || t) sq::skip(); sq::op("set closed #%d", i); bool ex = false; try { p.set(m[i].fd, masks[a], Timeout(3), &tags[63]); } catch (const ErrNoException &) { ex = true; } SQ_ASSERT(ex, "a closed descriptor is accepted"); break; } tag = (tag + 1) % 60; sq::op("set #%d %s timeout %d", i, a == 0 ? "in" : a == 1 ? "in+out" : "exception", tms[t]); p.set(m[i].fd, masks[a], tms[t] < 0 ? Timeout(nil) : Timeout(tms[t]), &tags[tag]); m[i].mask = masks[a]; m[i].dl = tms[t] < 0 ? -1 : net::now_ + tms[t]; m[i].data = tag; m[i].active = true; SQ_ASSERT(p.getUserData(m[i].fd) == &tags[tag], "user data"); break; }
		case 1: { int i = sq::choose(N); sq::op("unset #%d", i); p.unset(m[i].fd); m[i].active = false; break; }
		case 2: { int i = sq::choose(N); if (!m[i].open) sq::skip(); int st = sq::choose(6); if (st == m[i].stateNo) sq::skip(); static const char *n[] = {"writable", "readable+writable", "not ready", "closed by the peer", "reset", "hung up"}; sq::op("#%d is %s", i, n[st]); world(m[i].fd, st); m[i].stateNo = st; break; }
		case 3: { int t = last ? 3 : sq::choose(3); bool pend = wakes > 0, dls = false, rdy = false; long first = -1; for (int i = 0; i < N; i++) if (m[i].active) { if (m[i].dl >= 0) { dls = true; if (first < 0 || m[i].dl < first) first = m[i].dl; } rdy |= ready(m[i]); } if (t == 0 && !pend && !dls && !rdy) sq::skip();
			long tmo = t == 0 ? -1 : t == 1 ? 7 : t == 2 ? 0 : 100; long t0 = net::now_; sq::op("wait(%ld)", tmo); typename P::Result r; r.fd = -5; r.userData = 0; r.flags = 0; typename P::WaitStatus w = p.wait(tmo < 0 ? Timeout(nil) : Timeout((natural)tmo), r);
			if (w == P::waitTimeout) { SQ_ASSERT(tmo >= 0 && net::now_ >= t0 + tmo, "timeout after %ld ms of %ld", net::now_ - t0, tmo); SQ_ASSERT(!rdy && !pend, "a timeout although something is ready"); SQ_ASSERT(first < 0 || first >= t0 + tmo, "a timeout although a timeout of a descriptor has passed"); log += 't'; }
			else if (w == P::waitWakeUp) { SQ_ASSERT(wakes > 0, "woken without request"); SQ_ASSERT(r.reason == reason, "reason %lu instead of %lu", (unsigned long)r.reason, (unsigned long)reason); wakes--; log += 'w'; }
			else { SQ_ASSERT(w == P::waitEvent, "status %d", (int)w); int j = -1; for (int i = 0; i < N; i++) if (m[i].fd == r.fd) j = i; SQ_ASSERT(j >= 0 && m[j].active, "an event for #%d which is not registered", j); SQ_ASSERT(r.userData == &tags[m[j].data], "the event of #%d carries other data", j);
				if (r.flags == 0) { SQ_ASSERT(m[j].dl >= 0 && net::now_ >= m[j].dl, "timeout of #%d is reported %ld ms early", j, m[j].dl - net::now_); for (int i = 0; i < N; i++) SQ_ASSERT(!m[i].active || m[i].dl < 0 || m[i].dl >= m[j].dl, "timeout of #%d is reported before the timeout of #%d", j, i); log += 'T'; }
				else { natural f = flagsOf(m[j].fd, m[j].mask), g = f & m[j].mask ? f : f | m[j].mask; SQ_ASSERT((r.flags & ~g) == 0 && (r.flags & m[j].mask), "events %lx of #%d are reported, %lx happened", (unsigned long)r.flags, j, (unsigned long)f); SQ_ASSERT((f & m[j].mask & ~r.flags) == 0, "events %lx of #%d are reported, %lx was expected", (unsigned long)r.flags, j, (unsigned long)(f & m[j].mask)); log += (char)('0' + r.flags); }
				m[j].active = false; m[j].dl = -1; }
			long lim = t0; if (tmo >= 0) lim = t0 + tmo; if (first >= 0 && (tmo < 0 || first < lim)) lim = std::max(first, t0); if (tmo >= 0 || first >= 0) SQ_ASSERT(net::now_ <= lim + 1, "waits %ld ms too long", net::now_ - lim); break; }
		case 4: { int x = sq::choose(2); if (x) { net::now_ += 6; sq::op("6 ms pass"); } else { if (wakes == 2) sq::skip(); reason += 3; sq::op("wakeUp(%lu)", (unsigned long)reason); p.wakeUp(reason); wakes++; } break; }
		case 5: { int i = sq::choose(N); if (m[i].open) { sq::op("#%d is closed", i); close(m[i].fd); m[i].open = false; m[i].active = false; p.unset(m[i].fd); } else { sq::op("#%d is opened again", i); net::fds[m[i].fd] = net::Sock(net::kStream); m[i].open = true; world(m[i].fd, 2); m[i].stateNo = 2; } break; }
		}
	}
	sq::op("cancelAll"); cbM = m; cbN = N; memset(cbSeen, 0, sizeof cbSeen); p.cancelAll(Cb()); for (int i = 0; i < N; i++) SQ_ASSERT(cbSeen[i] == (m[i].active ? 1 : 0), "#%d is not cancelled", i);
	while (wakes) { typename P::Result r; SQ_ASSERT(p.wait(Timeout(0), r) == P::waitWakeUp, "a wake up is lost"); wakes--; }
	{ typename P::Result r; SQ_ASSERT(p.wait(Timeout(20), r) == P::waitTimeout, "an event after everything was cancelled"); }
	}
	for (int i = 0; i < N; i++) if (m[i].open) close(m[i].fd); SQ_ASSERT(net::fds.empty(), "%d descriptors are left open", (int)net::fds.size()); sq::outcome(log); net::active = false;
}
SQ_SCENARIO(epoll_one, 4, 5) { history<EPollSelect>(1, false, 1); }
SQ_SCENARIO(epoll_two, 3, 4) { history<EPollSelect>(2, false, 1); }
SQ_SCENARIO(epoll_three, 3, 4) { history<EPollSelect>(3, false, 0); }
SQ_SCENARIO(epoll_closing, 3, 4) { history<EPollSelect>(2, true, 0); }
SQ_SCENARIO(poll_one, 4, 5) { history<PollSelect>(1, false, 1); }
SQ_SCENARIO(poll_two, 3, 4) { history<PollSelect>(2, false, 1); }
SQ_SCENARIO(poll_three, 3, 4) { history<PollSelect>(3, false, 0); }
// timeouts only: every order of registering, cancelling and waiting, deeper
template<typename P> static void timers(int N) {
	net::base = 100; net::reset(); ep::sets.clear(); net::onClose = &ep::closed; int D = sq::depth(); std::string log; { P p; int fd[5]; long dl[5]; for (int i = 0; i < N; i++) { fd[i] = net::add(net::kStream); net::nextFd += i == 1 ? 20 : 0; net::fds[fd[i]].space = 0; dl[i] = -1; }
	for (int step = 0; step < D; step++) { int k = sq::choose(2 * N + 1);
		if (k < 2 * N) { int i = k / 2; if (k % 2 && dl[i] >= 0) { sq::op("unset #%d", i); p.unset(fd[i]); dl[i] = -1; } else { int t = k % 2 ? 3 : 9 - i; dl[i] = net::now_ + t; sq::op("set #%d timeout %d", i, t); p.set(fd[i], INetworkResource::waitForInput, Timeout((natural)t), &tags[i]); } }
		else { sq::op("wait(4)"); long t0 = net::now_; typename P::Result r; typename P::WaitStatus w = p.wait(Timeout(4), r); long first = -1; for (int i = 0; i < N; i++) if (dl[i] >= 0 && (first < 0 || dl[i] < first)) first = dl[i];
			if (w == P::waitTimeout) SQ_ASSERT((first < 0 || first >= t0 + 4) && net::now_ == t0 + 4, "timeout at %ld", net::now_ - t0); else { SQ_ASSERT(w == P::waitEvent && r.flags == 0, "event"); int j = -1; for (int i = 0; i < N; i++) if (fd[i] == r.fd) j = i; SQ_ASSERT(j >= 0 && dl[j] == first && first >= 0 && r.userData == &tags[j] && net::now_ >= dl[j] && net::now_ <= std::max(t0, dl[j]), "the timeout of #%d at %ld, the first is at %ld", j, net::now_ - t0, first - t0); dl[j] = -1; log += char('0' + j); } } }
	for (int left = 1; left;) { left = 0; for (int i = 0; i < N; i++) left += dl[i] >= 0; if (!left) break; sq::op("wait"); typename P::Result r; SQ_ASSERT(p.wait(Timeout(nil), r) == P::waitEvent && r.flags == 0, "event"); int j = -1; for (int i = 0; i < N; i++) if (fd[i] == r.fd) j = i; SQ_ASSERT(j >= 0 && dl[j] >= 0 && net::now_ >= dl[j], "the timeout of #%d", j); for (int i = 0; i < N; i++) SQ_ASSERT(dl[i] < 0 || dl[i] >= dl[j], "the timeout of #%d before #%d", j, i); dl[j] = -1; log += char('0' + j); } for (int i = 0; i < N; i++) close(fd[i]); }
	sq::outcome(log); net::active = false; }
SQ_SCENARIO(epoll_timers, 6, 8) { timers<EPollSelect>(3); }
SQ_SCENARIO(epoll_timers_4, 5, 7) { timers<EPollSelect>(4); }
SQ_SCENARIO(poll_timers, 6, 7) { timers<PollSelect>(3); }
