// a simulated network: sockets, their peers and the clock are answered by the harness; every wait is a choice of the environment
#pragma once
#include "seq.h"
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <netdb.h>
#include <poll.h>
#include <errno.h>
#include <unistd.h>
#include <stdarg.h>
#include <string.h>
#include <map>
#include <vector>
#include <deque>
namespace net {
typedef std::string S;
enum Kind { kNone, kStream, kListen, kDgram, kPipeR, kPipeW };
struct Dgram { S data; sockaddr_in from; };
struct Sock {
	Kind kind; S in, out; bool fin, rst, nonblock, shutWr, connecting, failed, hup; int soError, peer, family; size_t space; std::deque<int> pending; std::deque<Dgram> dg; std::vector<Dgram> sent; int target;
	Sock(Kind k = kNone):kind(k), fin(false), rst(false), nonblock(false), shutWr(false), connecting(false), failed(false), hup(false), soError(0), peer(-1), family(0), space(1000), target(-1) {}
};
static bool active; static std::map<int, Sock> fds; static int nextFd, base = 1000; static long now_; static int opened, closed; static bool sigpipe; static int spins; static long last;
// environment: hooks of the scenario
static int (*events)();            // number of events which may happen now
static void (*event)(int);         // let one happen
static int (*onConnect)(int fd, int target); // 0 or errno; may leave the socket connecting
static void (*onClose)(int fd); static int (*onSocket)(); static int bindError, listenError;
static void reset() { active = true; fds.clear(); nextFd = base; now_ = 1000000; opened = closed = 0; sigpipe = false; spins = 0; last = 0; events = 0; event = 0; onConnect = 0; onSocket = 0; onClose = 0; bindError = listenError = 0; }
static int add(Kind k) { int f = nextFd++; fds[f] = Sock(k); opened++; return f; }
static Sock *get(int fd) { std::map<int, Sock>::iterator i = fds.find(fd); if (i == fds.end()) { errno = EBADF; return 0; } return &i->second; }
static bool mine(int fd) { return active && fd >= base; }
static short state(int fd, short ev) { Sock *s = get(fd); if (!s) return POLLNVAL; short r = 0; switch (s->kind) {
	case kStream: if (s->connecting) break; if (s->failed) { r = POLLERR | POLLHUP | POLLOUT | POLLIN; r &= ev | POLLERR | POLLHUP; break; } if (!s->in.empty() || s->fin || s->rst) r |= POLLIN; if (s->space || s->rst || s->shutWr) r |= POLLOUT; r &= ev; if (s->rst) r |= POLLERR | POLLHUP; else if (s->hup || (s->fin && s->shutWr)) r |= POLLHUP; break;
	case kListen: if (!s->pending.empty()) r = POLLIN & ev; break;
	case kDgram: if (!s->dg.empty()) r |= POLLIN; r |= POLLOUT; r &= ev; break;
	case kPipeR: if (!s->in.empty()) r = POLLIN & ev; break;
	default: break; } return r; }
static bool waitReal(struct pollfd *f, nfds_t n) { int c = 0; for (nfds_t i = 0; i < n; i++) { f[i].revents = f[i].fd < 0 ? 0 : state(f[i].fd, f[i].events); if (f[i].revents) c++; } return c > 0; }
static int doPoll(struct pollfd *f, nfds_t n, int tm) {
	long end = tm < 0 ? -1 : now_ + tm;
	for (int guard = 0;; guard++) { if (waitReal(f, n)) { int c = 0; for (nfds_t i = 0; i < n; i++) if (f[i].revents) c++; return c; } if (tm == 0) { if (last != now_) { last = now_; spins = 0; } if (++spins > 1000) { spins = 0; now_++; } return 0; } 
		if (sq::deviate(2)) { sq::op("(interrupted)"); if (end > 0) now_ += (end - now_) / 2; errno = EINTR; return -1; }
		int ne = events ? events() : 0; SQ_ASSERT(ne || end > 0, "waits for ever"); int k = sq::choose(ne + (end > 0 ? 1 : 0)); if (k < ne) { if (end > 0 && end - now_ > 1) now_++; event(k); } else { sq::op("(time passes)"); now_ = end; waitReal(f, n); return 0; } }
}
static ssize_t take(S &in, void *b, size_t n, bool peek) { size_t r = std::min(n, in.size()); memcpy(b, in.data(), r); if (!peek) in.erase(0, r); return r; }
}
extern "C" {
int socket(int fam, int type, int) { if (net::onSocket) { int e = net::onSocket(); if (e) { errno = e; return -1; } } int f = net::add((type & 0xF) == SOCK_DGRAM ? net::kDgram : net::kStream); net::fds[f].family = fam; if (type & SOCK_NONBLOCK) net::fds[f].nonblock = true; return f; }
int bind(int fd, const struct sockaddr *, socklen_t) { if (!net::get(fd)) return -1; if (net::bindError) { errno = net::bindError; return -1; } return 0; }
int listen(int fd, int) { net::Sock *s = net::get(fd); if (!s) return -1; if (net::listenError) { errno = net::listenError; return -1; } s->kind = net::kListen; return 0; }
int setsockopt(int fd, int, int, const void *, socklen_t) { return net::get(fd) ? 0 : -1; }
int getsockopt(int fd, int, int opt, void *v, socklen_t *) { net::Sock *s = net::get(fd); if (!s) return -1; if (opt == SO_ERROR) { *(int *)v = s->connecting ? 0 : s->soError; s->soError = 0; } return 0; }
int getsockname(int fd, struct sockaddr *a, socklen_t *l) { if (!net::get(fd)) return -1; sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_port = htons(fd); memcpy(a, &x, std::min<size_t>(*l, sizeof x)); *l = sizeof x; return 0; }
int connect(int fd, const struct sockaddr *a, socklen_t) { net::Sock *s = net::get(fd); if (!s) return -1; s->target = ntohs(((const sockaddr_in *)a)->sin_port); int e = net::onConnect ? net::onConnect(fd, s->target) : 0; if (e) { errno = e; return -1; } return 0; }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) { net::Sock *s = net::get(fd); if (!s) return -1; if (s->pending.empty()) { SQ_ASSERT(s->nonblock, "accept blocks"); errno = EAGAIN; return -1; } int p = s->pending.front(); s->pending.pop_front(); if (p < 0) { errno = -p; return -1; } int f = net::add(net::kStream); net::fds[f].target = p; net::fds[f].nonblock = (flags & SOCK_NONBLOCK) != 0; net::fds[f].space = 1; sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_port = htons(p); memcpy(a, &x, std::min<size_t>(*l, sizeof x)); *l = sizeof x; return f; }
ssize_t recv(int fd, void *b, size_t n, int flags) { net::Sock *s = net::get(fd); if (!s) return -1; if (s->kind != net::kStream) { errno = EINVAL; return -1; } if (n && s->in.empty() && !s->fin && !s->rst) { if (s->nonblock) { errno = EAGAIN; return -1; } sq::fail("recv blocks"); } if (sq::deviate(2)) { sq::op("(recv interrupted)"); errno = EINTR; return -1; } if (s->in.empty() && s->rst) { errno = ECONNRESET; return -1; } return net::take(s->in, b, n, flags & MSG_PEEK); }
ssize_t send(int fd, const void *b, size_t n, int flags) { net::Sock *s = net::get(fd); if (!s) return -1; if (s->rst || s->shutWr) { if (!(flags & MSG_NOSIGNAL)) sq::fail("SIGPIPE kills the program which writes to a closed connection"); errno = EPIPE; return -1; } if (n && !s->space) { if (s->nonblock) { errno = EAGAIN; return -1; } sq::fail("send blocks"); } if (n > s->space) SQ_ASSERT(s->nonblock, "sending %zu bytes blocks", n); if (sq::deviate(2)) { sq::op("(send interrupted)"); errno = EINTR; return -1; } size_t r = std::min(n, s->space); s->out.append((const char *)b, r); s->space -= r; return r; }
ssize_t recvfrom(int fd, void *b, size_t n, int, struct sockaddr *a, socklen_t *l) { net::Sock *s = net::get(fd); if (!s) return -1; if (s->dg.empty()) { SQ_ASSERT(s->nonblock, "recvfrom blocks"); errno = EAGAIN; return -1; } if (sq::deviate(2)) { sq::op("(recvfrom interrupted)"); errno = EINTR; return -1; } net::Dgram d = s->dg.front(); s->dg.pop_front(); size_t r = std::min(n, d.data.size()); memcpy(b, d.data.data(), r); memcpy(a, &d.from, std::min<size_t>(*l, sizeof d.from)); *l = sizeof d.from; return r; }
ssize_t sendto(int fd, const void *b, size_t n, int, const struct sockaddr *a, socklen_t l) { net::Sock *s = net::get(fd); if (!s) return -1; net::Dgram d; d.data.assign((const char *)b, n); memset(&d.from, 0, sizeof d.from); memcpy(&d.from, a, std::min<size_t>(l, sizeof d.from)); s->sent.push_back(d); return n; }
int shutdown(int fd, int how) { net::Sock *s = net::get(fd); if (!s) return -1; if (how != SHUT_RD) s->shutWr = true; return 0; }
int poll(struct pollfd *f, nfds_t n, int tm) { if (!net::active) { syscall(SYS_poll, f, n, tm); return 0; } return net::doPoll(f, n, tm); }
int ioctl(int fd, unsigned long rq, ...) { va_list v; va_start(v, rq); void *p = va_arg(v, void *); va_end(v); if (!net::mine(fd)) return syscall(SYS_ioctl, fd, rq, p); net::Sock *s = net::get(fd); if (!s) return -1; if (rq == FIONBIO) s->nonblock = *(int *)p != 0; else if (rq == FIONREAD) *(int *)p = s->kind == net::kDgram ? (s->dg.empty() ? 0 : (int)s->dg.front().data.size()) : (int)s->in.size(); return 0; }
int close(int fd) { if (!net::mine(fd)) return syscall(SYS_close, fd); net::Sock *s = net::get(fd); SQ_ASSERT(s, "descriptor %d is closed twice", fd); net::fds.erase(fd); net::closed++; if (net::onClose) net::onClose(fd); return 0; }
int gettimeofday(struct timeval *__restrict t, void *__restrict) { if (!net::active) { struct timespec x; syscall(SYS_clock_gettime, 0, &x); t->tv_sec = x.tv_sec; t->tv_usec = x.tv_nsec / 1000; return 0; } t->tv_sec = net::now_ / 1000; t->tv_usec = net::now_ % 1000 * 1000; return 0; }
int pipe2(int *f, int) { if (!net::active) return syscall(SYS_pipe2, f, 0); f[0] = net::add(net::kPipeR); f[1] = net::add(net::kPipeW); net::fds[f[1]].peer = f[0]; return 0; }
ssize_t read(int fd, void *b, size_t n) { if (!net::mine(fd)) return syscall(SYS_read, fd, b, n); net::Sock *s = net::get(fd); if (!s) return -1; if (s->kind != net::kPipeR) return recv(fd, b, n, 0); if (s->in.empty()) sq::fail("reading the wake up pipe blocks"); return net::take(s->in, b, n, false); }
ssize_t write(int fd, const void *b, size_t n) { if (!net::mine(fd)) return syscall(SYS_write, fd, b, n); net::Sock *s = net::get(fd); if (!s) return -1; if (s->kind != net::kPipeW) return send(fd, b, n, 0); net::Sock *p = net::get(s->peer); if (!p) { sq::fail("SIGPIPE"); return -1; } p->in.append((const char *)b, n); return n; }
}
