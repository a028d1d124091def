// C43: the network event listener (its thread runs over a simulated epoll)
#include "lslife.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/sort.tcc"
#include "lightspeed/base/streams/netio_ifc.h"
#include "lightspeed/base/linux/networkEventListener.h"
#include "lightspeed/base/interface.tcc"
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <semaphore.h>
#include <fcntl.h>
#include <stdarg.h>
#include <errno.h>
using namespace LightSpeed;
// ---- simulated descriptors: 500 epoll, 501/502 pipe, 510.. sockets
namespace st {
enum { NF = 3 };
struct F { bool open, reg, armed; uint32_t ev, rdy; epoll_data_t data; };
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static sem_t sg; static F f[NF]; static int bytes, waiting, ep, pipes;
struct L { L() { pthread_mutex_lock(&mx); } ~L() { pthread_mutex_unlock(&mx); } };
static void kick() { if (waiting) { waiting = 0; sem_post(&sg); } }
static void reset() { sem_init(&sg, 0, 0); for (int i = 0; i < NF; i++) { F x = {true, false, false, 0, 0, {0}}; f[i] = x; } bytes = waiting = ep = pipes = 0; }
static void ready(int i, uint32_t ev) { L _; f[i].rdy |= ev; kick(); }
static void unready(int i) { L _; f[i].rdy = 0; }
static void closeFd(int i) { L _; f[i].open = f[i].reg = f[i].armed = false; }
static uint32_t state(const F &x) { return x.open && x.reg && x.armed ? x.rdy & (x.ev | EPOLLHUP | EPOLLERR) : 0; }
}
extern "C" {
int epoll_create1(int) { st::ep++; return 500; }
int pipe(int *p) { st::pipes += 2; p[0] = 501; p[1] = 502; return 0; }
int pipe2(int *p, int) { return pipe(p); }
int fcntl(int fd, int c, ...) { if (fd >= 500) return 0; va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); return syscall(SYS_fcntl, fd, c, x); }
int close(int fd) { if (fd == 500) st::ep--; else if (fd == 501 || fd == 502) st::pipes--; else return syscall(SYS_close, fd); return 0; }
ssize_t write(int fd, const void *b, size_t n) { if (fd != 502) return syscall(SYS_write, fd, b, n); st::L _; st::bytes += (int)n; st::kick(); return n; }
ssize_t read(int fd, void *b, size_t n) { if (fd != 501) return syscall(SYS_read, fd, b, n); st::L _; MC_ASSERT(st::bytes > 0, "the listener would wait for a wake up for ever"); st::bytes--; *(char *)b = 0; return 1; }
int epoll_ctl(int, int op, int fd, struct epoll_event *ev) { if (fd == 501) return 0; st::L _; int i = fd - 510; if (i < 0 || i >= st::NF || !st::f[i].open) { errno = EBADF; return -1; } st::F &x = st::f[i]; if (op == EPOLL_CTL_ADD ? x.reg : !x.reg) { errno = op == EPOLL_CTL_ADD ? EEXIST : ENOENT; return -1; } x.reg = true; x.armed = true; x.ev = ev->events & 0xFFF; x.data = ev->data; st::kick(); return 0; }
int epoll_wait(int, struct epoll_event *ev, int, int tm) { struct timespec ts; if (tm > 0) { clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += tm * 1000000L; ts.tv_sec += ts.tv_nsec / 1000000000L; ts.tv_nsec %= 1000000000L; }
	for (bool last = tm == 0;;) { { st::L _; int c[st::NF + 1], n = 0; if (st::bytes) c[n++] = -1; for (int i = 0; i < st::NF; i++) if (st::state(st::f[i])) c[n++] = i; if (n) { int k = c[n > 1 ? mc::choose(n) : 0]; if (k < 0) { ev->events = EPOLLIN; ev->data.fd = 501; } else { ev->events = st::state(st::f[k]); ev->data = st::f[k].data; st::f[k].armed = false; } return 1; } if (last) { st::waiting = 0; return 0; } st::waiting = 1; }
		if (tm < 0) sem_wait(&st::sg); else if (sem_timedwait(&st::sg, &ts)) last = true; } }
}
struct Res: public INetworkResource, public INetworkSocket { int fd; Res(int i = 0):fd(510 + i) {} virtual integer getSocket(int i) const { return i ? -1 : fd; } virtual natural getDefaultWait() const { return waitForInput; } virtual void setWaitHandler(WaitHandler *) {} virtual WaitHandler *getWaitHandler() const { return 0; } virtual void setTimeout(natural) {} virtual natural getTimeout() const { return 0; } virtual natural wait(natural, natural) const { return 0; } virtual natural doWait(natural, natural) const { return 0; } };
struct Obs: public ISleepingObject { volatile int n; natural reason; long at; bool gone; mc::Sem s; Obs():n(0), reason(99), at(-1), gone(false) {} virtual void wakeUp(natural r) throw() { { mc::NoPreempt _; MC_ASSERT(!gone, "an observer is notified after its removal was confirmed"); n = n + 1; reason = r; at = mc::now_ms(); mc::event(7); } s.post(); } };
struct Done: public ISleepingObject { mc::Sem s; int n; Done():n(0) {} virtual void wakeUp(natural) throw() { { mc::NoPreempt _; n++; mc::event(8); } s.post(); } };
typedef LinuxNetworkEventListener Lst;
enum { IN = INetworkResource::waitForInput, OUT = INetworkResource::waitForOutput, EXC = INetworkResource::waitForException };
static void gone(Obs &o) { mc::NoPreempt _; o.gone = true; mc::event(9); }
static void ended() { MC_ASSERT(st::ep == 0 && st::pipes == 0, "descriptors of the listener are left open"); }
struct Ready { int i; uint32_t ev; void operator()(int) const { st::ready(i, ev); } };
static Res rs[3] = {Res(0), Res(1), Res(2)};
static void start(Lst &l) { mc::quiet(true); Done d; l.remove(&rs[2], 0, &d); d.s.wait(); mc::quiet(false); }
static void warm() { mc::quiet(true); { Lst l; start(l); } st::reset(); mc::quiet(false); }
// an event arrives before, while or after the request is processed; the observer is told once, and only once until it asks again
MC_SCENARIO(once, 2, 3) { st::reset(); { Lst l; Obs o; Ready r = {0, EPOLLIN}; LsPool<1> p; p.prepare(r); p.go_all(); l.add(&rs[0], &o, IN); o.s.wait(); p.wait_all(); MC_ASSERT(o.reason == IN, "reason %d", (int)o.reason); start(l); MC_ASSERT(o.n == 1, "notified %d times", o.n); l.add(&rs[0], &o, IN | OUT); o.s.wait(); start(l); MC_ASSERT(o.n == 2 && o.reason == IN, "notified %d times", o.n); gone(o); p.finish(); } ended(); }
MC_SCENARIO(two_observers, 2, 2) { st::reset(); { Lst l; start(l); Obs a, b; Done d; Ready r = {0, EPOLLIN}; LsPool<1> p; p.prepare(r); p.go_all(); l.add(&rs[0], &a, IN); l.add(&rs[0], &b, IN | OUT, naturalNull, &d); a.s.wait(); b.s.wait(); d.s.wait(); p.wait_all(); start(l); MC_ASSERT(a.n == 1 && b.n == 1 && a.reason == IN && b.reason == IN, "notified %d %d times", a.n, b.n); gone(a); gone(b); p.finish(); } ended(); }
MC_SCENARIO(other_direction, 2, 2) { st::reset(); { Lst l; start(l); Obs a, b; Ready r = {0, EPOLLIN}; LsPool<1> p; p.prepare(r); p.go_all(); l.add(&rs[0], &a, OUT); l.add(&rs[0], &b, IN); b.s.wait(); p.wait_all(); start(l); MC_ASSERT(a.n == 0 && b.n == 1 && b.reason == IN, "notified %d %d", a.n, b.n); st::ready(0, EPOLLOUT); a.s.wait(); MC_ASSERT(a.n == 1 && a.reason == OUT && b.n == 1, "notified %d %d", a.n, b.n); p.finish(); gone(a); gone(b); } ended(); }
MC_SCENARIO(two_resources, 2, 2) { st::reset(); { Lst l; start(l); Obs a, b; struct Two { void operator()(int) const { st::ready(1, EPOLLOUT); st::ready(0, EPOLLIN); } } r; LsPool<1> p; p.prepare(r); p.go_all(); l.add(&rs[0], &a, IN); l.add(&rs[1], &b, OUT); a.s.wait(); b.s.wait(); p.wait_all(); start(l); MC_ASSERT(a.n == 1 && b.n == 1 && a.reason == IN && b.reason == OUT, "notified %d %d", a.n, b.n); gone(a); gone(b); p.finish(); } ended(); }
// hang up and error end any waiting
MC_SCENARIO(hang_up, 2, 3) { st::reset(); { Lst l; start(l); Obs a, b; Ready r = {0, EPOLLHUP}; LsPool<1> p; p.prepare(r); p.go_all(); l.add(&rs[0], &a, IN); a.s.wait(); MC_ASSERT(a.reason == IN, "hang up is reported as %d", (int)a.reason); l.add(&rs[0], &b, OUT, 50); b.s.wait(); MC_ASSERT(b.reason != 0, "hang up is reported as a timeout"); p.wait_all(); gone(a); gone(b); p.finish(); } ended(); }
MC_SCENARIO(error, 2, 3) { st::reset(); { Lst l; start(l); Obs a; Ready r = {0, EPOLLERR}; LsPool<1> p; p.prepare(r); p.go_all(); l.add(&rs[0], &a, OUT, 50); a.s.wait(); MC_ASSERT(a.reason != 0 || a.at >= 50, "error is reported as %d", (int)a.reason); p.wait_all(); gone(a); p.finish(); } ended(); }
// removal races with the event: after it is confirmed nothing comes, the observer may be destroyed
MC_SCENARIO(remove, 2, 3) { st::reset(); { Lst l; start(l); Obs *o = new Obs; Done d; Ready r = {0, EPOLLIN}; LsPool<1> p; p.prepare(r); l.add(&rs[0], o, IN); p.go_all(); l.remove(&rs[0], o, &d); d.s.wait(); gone(*o); MC_ASSERT(o->n <= 1, "notified %d times", o->n); mc::outcome(o->n); delete o; p.wait_all(); start(l); MC_ASSERT(d.n == 1, "confirmed %d times", d.n); p.finish(); } ended(); }
MC_SCENARIO(remove_one, 2, 2) { st::reset(); { Lst l; start(l); Obs a, b; Done d; Ready r = {0, EPOLLIN}; LsPool<1> p; p.prepare(r); l.add(&rs[0], &a, IN); l.add(&rs[0], &b, IN); p.go_all(); l.remove(&rs[0], &a, &d); d.s.wait(); gone(a); b.s.wait(); p.wait_all(); start(l); MC_ASSERT(b.n == 1 && a.n <= 1, "notified %d %d", a.n, b.n); mc::outcome(a.n); gone(b); p.finish(); } ended(); }
// timeouts
static void tmo(int n, int t0, int step, bool sameRes) { st::reset(); { Lst l; start(l); Obs o[3]; long t[3]; for (int i = 0; i < n; i++) { t[i] = mc::now_ms(); l.add(&rs[sameRes ? 0 : i], &o[i], IN, t0 + step * i); } for (int i = 0; i < n; i++) o[i].s.wait(); start(l); for (int i = 0; i < n; i++) { MC_ASSERT(o[i].n == 1 && o[i].reason == 0, "#%d is notified %d times, reason %d", i, o[i].n, (int)o[i].reason); MC_ASSERT(o[i].at >= t[i] + t0 + step * i, "timeout of #%d came %d ms early", i, (int)(t[i] + t0 + step * i - o[i].at)); gone(o[i]); } } ended(); }
MC_SCENARIO(timeout, 2, 3) { tmo(1, 10, 0, true); }
MC_SCENARIO(timeout_two, 2, 3) { tmo(2, 10, 10, false); }
MC_SCENARIO(timeout_falling, 2, 3) { tmo(2, 20, -10, false); }
MC_SCENARIO(timeout_same_resource, 2, 3) { tmo(2, 20, -10, true); }
MC_SCENARIO(timeout_or_event, 2, 3) { st::reset(); { Lst l; start(l); Obs o; Ready r = {0, EPOLLIN}; LsPool<1> p; p.prepare(r); long t = mc::now_ms(); l.add(&rs[0], &o, IN, 10); p.go_all(); o.s.wait(); p.wait_all(); start(l); MC_ASSERT(o.n == 1, "notified %d times", o.n); MC_ASSERT(o.reason == IN || (o.reason == 0 && o.at >= t + 10), "reason %d", (int)o.reason); mc::outcome(o.reason); gone(o); p.finish(); } ended(); }
// two threads ask first, at the same time
struct Add { Lst *l; Obs *o; void operator()(int i) const { l->add(&rs[i], &o[i], IN); } };
MC_SCENARIO(two_askers, 1, 2) { st::reset(); { Lst l; Obs o[2]; st::ready(0, EPOLLIN); st::ready(1, EPOLLIN); Add a = {&l, o}; LsPool<2> p; p.prepare(a); p.go_all(); o[0].s.wait(); o[1].s.wait(); p.wait_all(); start(l); MC_ASSERT(o[0].n == 1 && o[1].n == 1, "notified %d %d", o[0].n, o[1].n); gone(o[0]); gone(o[1]); p.finish(); } ended(); }
// the listener ends with requests waiting in its queue or registered: each is confirmed once, nothing leaks, nothing comes later
static void destroy(int n, bool started) { st::reset(); warm(); size_t b = mc::live_blocks(); { Obs o[2]; Done d[2]; { Lst l; if (started) start(l); for (int i = 0; i < n; i++) l.add(&rs[i], &o[i], i ? OUT : IN, i ? 10 : naturalNull, &d[i]); } for (int i = 0; i < n; i++) { MC_ASSERT(d[i].n == 1, "request %d is confirmed %d times", i, d[i].n); MC_ASSERT(o[i].n == 0 || i, "notified"); } } MC_ASSERT(mc::live_blocks() == b, "%d blocks left", (int)(mc::live_blocks() - b)); ended(); }
MC_SCENARIO(destroy_one, 3, 4) { destroy(1, true); }
MC_SCENARIO(destroy_two, 2, 3) { destroy(2, true); }
MC_SCENARIO(destroy_starting, 3, 4) { destroy(1, false); }
MC_SCENARIO(destroy_ready, 2, 3) { st::reset(); warm(); size_t b = mc::live_blocks(); { Obs o; { Lst l; start(l); st::ready(0, EPOLLIN); l.add(&rs[0], &o, IN); l.add(&rs[1], &o, IN); } MC_ASSERT(o.n <= 1, "notified %d times", o.n); mc::outcome(o.n); } MC_ASSERT(mc::live_blocks() == b, "%d blocks left", (int)(mc::live_blocks() - b)); ended(); }
// the descriptor is closed before the observer is removed
MC_SCENARIO(closed, 2, 3) { st::reset(); warm(); size_t b = mc::live_blocks(); { Obs o; Done d; { Lst l; start(l); l.add(&rs[0], &o, IN, naturalNull, &d); d.s.wait(); st::closeFd(0); l.remove(&rs[0], &o, &d); d.s.wait(); gone(o); } MC_ASSERT(o.n == 0 && d.n == 2, "notified %d, confirmed %d", o.n, d.n); } MC_ASSERT(mc::live_blocks() == b, "%d blocks left", (int)(mc::live_blocks() - b)); ended(); }
// an observer asks again from its notification
struct Again: public Obs { Lst *l; int left; virtual void wakeUp(natural r) throw() { if (left) { { mc::NoPreempt _; left--; } l->add(&rs[0], this, IN, 10); } Obs::wakeUp(r); } };
MC_SCENARIO(again_from_notification, 2, 3) { st::reset(); { Lst l; start(l); Again o; o.l = &l; o.left = 1; Ready r = {0, EPOLLIN}; LsPool<1> p; p.prepare(r); l.add(&rs[0], &o, IN, 10); p.go_all(); o.s.wait(); o.s.wait(); p.wait_all(); start(l); MC_ASSERT(o.n == 2, "notified %d times", o.n); mc::outcome(o.reason); gone(o); p.finish(); } ended(); }
