// C44: started processes: real children (a tiny program which reports what it was given and obeys), failing system calls injected, virtual clock for timed joins
#include "lightspeed/mt/process.h"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/base/interface.tcc"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/base/streams/fileio.h"
#include "seq.h"
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <poll.h>
#include <signal.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <vector>
#include <map>
#include <set>
using namespace LightSpeed;
typedef std::string S;
enum { REC = 250, CTL = 251, KEEP = 200 };
// the program: reports arguments, environment, folder and descriptors to REC, then obeys commands from CTL
static const char *const PROG = R"(
typedef long L; static L sc(L n, L a, L b, L c) { L r; __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory"); return r; }
static void out(const void *p, L n) { const char *c = p; while (n > 0) { L k = sc(1, 250, (L)c, n); if (k <= 0) sc(60, 99, 0, 0); c += k; n -= k; } }
static void str(const char *s) { int n = 0; while (s[n]) n++; out(&n, 4); out(s, n); }
static void num(int n) { out(&n, 4); }
__attribute__((used)) void start2(L *sp) { int argc = (int)sp[0]; char **av = (char **)(sp + 1), **ev = av + argc + 1; int n, i; num((int)sc(39, 0, 0, 0)); num(argc); for (i = 0; i < argc; i++) str(av[i]); for (n = 0; ev[n]; n++); num(n); for (i = 0; i < n; i++) str(ev[i]);
	static char cwd[4096]; sc(79, (L)cwd, 4096, 0); str(cwd); static char st[512]; for (i = 0; i < 250; i++) if (sc(5, i, (L)st, 0) == 0) { num(i); out(st, 16); } num(-1);
	for (;;) { unsigned char c[2]; if (sc(0, 251, (L)c, 2) != 2) sc(60, 98, 0, 0); if (c[0] == 'x') sc(60, c[1], 0, 0); if (c[0] == 'k') { sc(62, sc(39, 0, 0, 0), c[1], 0); continue; }
		if (c[0] == 'w') { char b = 'A' + c[1]; L r = sc(1, c[1], (L)&b, 1); num((int)r); } if (c[0] == 'r') { char b; int k = 0; char buf[64]; L r; while ((r = sc(0, c[1], (L)&b, 1)) == 1 && k < 64) buf[k++] = b; num(r < 0 ? (int)r : k); if (r >= 0) out(buf, k); } if (c[0] == 'c') { sc(3, c[1], 0, 0); num(0); } } }
__asm__(".globl _start\n_start: mov %rsp,%rdi\n and $-16,%rsp\n call start2\n");
)";
static const char *program() { static S path; if (path.empty()) { S dir = sq::scratchDir(), c = dir + "/prog.c"; path = dir + "/prog"; FILE *f = fopen(c.c_str(), "w"); fputs(PROG, f); fclose(f); if (system(("cc -O1 -w -fno-builtin -fno-stack-protector -fno-pie -no-pie -nostdlib -static -o " + path + " " + c).c_str())) { fprintf(stderr, "cannot build the helper program\n"); _exit(2); } } return path.c_str(); }
// stand-ins for system calls
static int execErr, dupFail, dupCount, pipeFail, forkFail, eintr; static S execPath; static int recW = -1, ctlR = -1; static int execs; static std::vector<S> execArgs; static bool only;
extern "C" {
int execve(const char *p, char *const a[], char *const e[]) { execs++; execPath = p; if (only) { execArgs.clear(); for (int i = 0; a[i]; i++) execArgs.push_back(a[i]); errno = ENOENT; return -1; } if (execErr) { errno = execErr; return -1; } if (recW < 0) return (int)syscall(SYS_execve, p, a, e); syscall(SYS_dup2, recW, REC); syscall(SYS_dup2, ctlR, CTL); syscall(SYS_execve, program(), a, e); return -1; }
static bool dupHere() { if (dupFail && ++dupCount == dupFail) { errno = EMFILE; return true; } return false; }
int dup(int f) { return dupHere() ? -1 : (int)syscall(SYS_dup, f); }
int dup2(int f, int t) { return dupHere() ? -1 : (int)syscall(SYS_dup2, f, t); }
int dup3(int f, int t, int fl) { return dupHere() ? -1 : (int)syscall(SYS_dup3, f, t, fl); }
int fcntl(int f, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); if ((c == F_DUPFD || c == F_DUPFD_CLOEXEC) && dupHere()) return -1; return (int)syscall(SYS_fcntl, f, c, x); }
int fcntl64(int f, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); if ((c == F_DUPFD || c == F_DUPFD_CLOEXEC) && dupHere()) return -1; return (int)syscall(SYS_fcntl, f, c, x); }
int pipe2(int *p, int fl) { if (pipeFail) { errno = EMFILE; return -1; } return (int)syscall(SYS_pipe2, p, fl); }
pid_t waitpid(pid_t p, int *st, int fl) { if (eintr && p > 0) { eintr--; errno = EINTR; return -1; } return (pid_t)syscall(SYS_wait4, p, st, fl, 0); }
// virtual time of timed joins
static bool virt; static long now_us, exitAt; static int lost, sigIntr, waits, exitPid; static void (*onExit)();
static bool ripe() { return exitAt >= 0 && now_us >= exitAt; }
int gettimeofday(struct timeval *__restrict t, void *__restrict) { if (virt) { t->tv_sec = 1000 + now_us / 1000000; t->tv_usec = now_us % 1000000; return 0; } struct timespec x; syscall(SYS_clock_gettime, 0, &x); t->tv_sec = x.tv_sec; t->tv_usec = x.tv_nsec / 1000; return 0; }
static void pass(long us) { now_us += us; if (ripe() && onExit) { onExit(); onExit = 0; } }
int sigtimedwait(const sigset_t *__restrict s, siginfo_t *__restrict, const struct timespec *__restrict t) { if (!virt) sq::fail("waits for a signal"); SQ_ASSERT(sigismember(s, SIGCHLD) == 1, "waits for another signal"); SQ_ASSERT(++waits < 5000, "the wait does not end");
	if (t && (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= 1000000000)) { errno = EINVAL; return -1; } long us = t ? t->tv_sec * 1000000 + (t->tv_nsec + 999) / 1000 : -1; if (sigIntr) { sigIntr--; pass(us < 0 ? 1000 : us / 2); errno = EINTR; return -1; }
	if (exitAt >= 0 && onExit && !lost && (us < 0 || exitAt <= now_us + us)) { pass(exitAt > now_us ? exitAt - now_us : 0); return SIGCHLD; } SQ_ASSERT(us >= 0, "an endless wait for a signal which does not come"); pass(us); if (!us) pass(100); errno = EAGAIN; return -1; }
int nanosleep(const struct timespec *t, struct timespec *r) { if (!virt) return (int)syscall(SYS_nanosleep, t, r); SQ_ASSERT(++waits < 5000, "the wait does not end"); pass(t->tv_sec * 1000000 + t->tv_nsec / 1000 + 1); return 0; }
int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, 0); }
}
__attribute__((constructor)) static void init() { signal(SIGPIPE, SIG_IGN); setenv("C44", "\xC5\xBE=\xE2\x82\xAC", 1); }
// a child
struct Child { int rec, ctl, rw, cr, pid; bool said; std::vector<S> args, env; S cwd; std::map<int, S> fds;
	Child(): pid(0), said(false) { int a[2], b[2]; syscall(SYS_pipe2, a, O_CLOEXEC); syscall(SYS_pipe2, b, O_CLOEXEC); int *all[] = {&a[0], &a[1], &b[0], &b[1]}; for (int *p: all) { int n = (int)syscall(SYS_fcntl, *p, F_DUPFD_CLOEXEC, KEEP); close(*p); *p = n; } rec = a[0]; rw = a[1]; cr = b[0]; ctl = b[1]; arm(); }
	~Child() { siginfo_t si; if (std::uncaught_exception() && pid > 0 && syscall(SYS_waitid, P_PID, pid, &si, WEXITED | WNOWAIT | WNOHANG, 0) == 0) kill(pid, SIGKILL); close(rec); close(ctl); if (rw >= 0) close(rw); if (cr >= 0) close(cr); recW = ctlR = -1; }
	void arm() { recW = rw; ctlR = cr; } void disarm() { recW = ctlR = -1; }
	void get(void *p, size_t n) { char *c = (char *)p; while (n) { struct pollfd q = {rec, POLLIN, 0}; int pr; while ((pr = poll(&q, 1, 10000)) < 0 && errno == EINTR) {} if (pr <= 0) sq::fail("the process does not answer"); ssize_t k = read(rec, c, n); if (k <= 0) sq::fail("the process ended too early"); c += k; n -= k; } }
	int num() { int n; get(&n, 4); return n; } S str() { int n = num(); S s(n, 0); if (n) get(&s[0], n); return s; }
	void started() { close(rw); close(cr); rw = cr = -1; disarm(); pid = num(); int n = num(); while (n--) args.push_back(str()); n = num(); while (n--) env.push_back(str()); cwd = str(); for (;;) { n = num(); if (n < 0) break; S id(16, 0); get(&id[0], 16); fds[n] = id; } said = true; }
	void tell(char c, int v) { char b[2] = {c, (char)v}; SQ_ASSERT(write(ctl, b, 2) == 2, "the process is gone"); }
	int put(int fd) { tell('w', fd); return num(); } S take(int fd) { tell('r', fd); int n = num(); if (n < 0) return S("error ") + strerror(-n); S s(n, 0); if (n) get(&s[0], n); return s; } };
static S ident(int fd) { struct stat st; if (fstat(fd, &st)) return S(); S s(16, 0); memcpy(&s[0], &st, 16); return s; }
static std::set<int> openFds() { std::set<int> r; for (int i = 0; i < 300; i++) if (syscall(SYS_fcntl, i, F_GETFD, 0) >= 0) r.insert(i); return r; }
static S show(const std::set<int> &s) { S r; for (int i: s) { char b[16]; sprintf(b, "%s%d", r.empty() ? "" : " ", i); r += b; } return r; }
static S show(const std::vector<S> &v) { S r; for (auto &x: v) r += "[" + sq::show(x) + "]"; return r; }
static std::vector<S> environment() { std::vector<S> v; for (char **e = environ; *e; e++) v.push_back(*e); return v; }
static void hangs(int) { static const char m[] = "the operation does not return\n"; if (write(2, m, sizeof m - 1)) {} *(volatile int *)8 = 1; }
struct World { std::set<int> before; ~World() { alarm(0); } World() { signal(SIGALRM, hangs); alarm(15); execErr = dupFail = dupCount = pipeFail = forkFail = eintr = 0; only = virt = false; execs = 0; now_us = 0; exitAt = -1; lost = sigIntr = waits = 0; onExit = 0; recW = ctlR = -1; program(); before = openFds(); }
	void end() { std::set<int> now = openFds(); SQ_ASSERT(now == before, "open descriptors are %s instead of %s", show(now).c_str(), show(before).c_str()); int st; pid_t p = (pid_t)syscall(SYS_wait4, -1, &st, WNOHANG, 0); SQ_ASSERT(p == -1 && errno == ECHILD, "a child is left behind"); } };
static std::wstring W(const S &s) { std::wstring w; for (size_t i = 0; i < s.size();) { unsigned char c = s[i++]; unsigned v = c; int n = 0; if (c >= 0xF0) { v = c & 7; n = 3; } else if (c >= 0xE0) { v = c & 15; n = 2; } else if (c >= 0xC0) { v = c & 31; n = 1; } while (n--) v = v << 6 | (s[i++] & 63); w += (wchar_t)v; } return w; }
template<typename F> static int failing(const F &f, bool &start) { start = false; try { f(); return 0; } catch (const UnableToStartProcessException &e) { start = true; return (int)e.getErrNo(); } catch (const ErrNoException &e) { return (int)e.getErrNo(); } catch (const FileOpenError &e) { return (int)e.getErrNo(); } catch (const Exception &) { return -1; } }
static const S ARG[] = {"a", "", "a b", "\"", "\\", "\xC5\xBE\xF0\x9D\x84\x9E", "\t\n'$", "\"x\" \\"};
static void check(Child &c, const std::vector<S> &args, const std::vector<S> &env) { SQ_ASSERT(c.args == args, "the process has arguments %s instead of %s", show(c.args).c_str(), show(args).c_str()); SQ_ASSERT(c.env == env, "the process has environment %s instead of %s", show(c.env).c_str(), show(env).c_str()); }
static S add(Process &p, int k) { switch (k) { default: if (k % 2) p.arg(ConstStrA(ARG[k / 2].data(), ARG[k / 2].size())); else { std::wstring w = W(ARG[k / 2]); p.arg(ConstStrW(w.data(), w.size())); } return ARG[k / 2]; case 16: p.arg(natural(255), 16); return "FF"; case 17: p.arg(integer(-50)); return "-50"; case 18: p.arg(natural(-1)); return "18446744073709551615"; case 19: p.arg(natural(35), 36); return "Z"; case 20: p.arg("c s"); return "c s"; case 21: p.arg(L"w\x17E"); return "w\xC5\xBE"; case 22: p.arg(String(L"s \x17E")); return "s \xC5\xBE"; case 23: p.arg(StringA("sa")); return "sa"; } }
// arguments and environment arrive
SQ_SCENARIO(arguments, 2, 3) { World w; static const char *const names[] = {"prog", "a prog", "\xC5\xBE", "/x/\"y\\"}; { S name = names[sq::choose(4)]; Process p(String(W(name).c_str())); std::vector<S> args(1, name), env; int d = sq::choose(sq::depth() + 1); for (int i = 0; i < d; i++) { args.push_back(add(p, sq::choose(i == 2 ? 6 : 24))); } sq::op("%s", show(args).c_str());
		ProcessEnv e; std::wstring store[4]; int ek = sq::choose(d == sq::depth() ? 2 : 4); if (ek == 0) env = environment(); else { p.setEnv(&e); static const S k[] = {"A", "\xC5\xBD"}, v[] = {"", "x=\xE2\x82\xAC y"}; for (int i = 0; i < ek - 1; i++) { store[2 * i] = W(k[i]); store[2 * i + 1] = W(v[i]); e.insert(ConstStrW(store[2 * i].c_str()), ConstStrW(store[2 * i + 1].c_str())); env.push_back(k[i] + "=" + v[i]); } }
		SQ_ASSERT(p.empty() == (d == 0), "empty is %d with %d arguments", p.empty(), d); Child c; p.start(); c.started(); check(c, args, env); SQ_ASSERT(execPath == name, "%s is executed", execPath.c_str()); char cwd[4096]; SQ_ASSERT(getcwd(cwd, sizeof cwd) && c.cwd == cwd, "the process works in %s", c.cwd.c_str()); SQ_ASSERT(p.isRunning(), "the process is not running"); int code = sq::choose(3) * 127; c.tell('x', code); integer r = p.join(); SQ_ASSERT(r == code && p.getExitCode() == code, "the exit code is %d instead of %d", (int)r, code); SQ_ASSERT(!p.isRunning() && p.empty(), "after join: running %d, empty %d", p.isRunning(), p.empty()); sq::outcome(show(c.args)); } w.end(); }
// the command line as a text and back
static std::vector<S> argsOf(Process &p) { only = true; bool st; int e = failing([&]() { p.start(); }, st); only = false; SQ_ASSERT(st && e == ENOENT, "start of a missing program ends by %d", e); return execArgs; }
SQ_SCENARIO(command_line, 4, 5) { World w; { static const char *const ch[] = {"a", " ", "\"", "\\", "\xC5\xBE"}; std::vector<S> args(1, "p"); Process p(String(L"p")); int n = 1 + sq::choose(2), budget = sq::depth(); if (sq::choose(2)) { args[0] = "p q\\"; p.cmdLine(String(L"p\\ q\\\\")); } for (int i = 0; i < n; i++) { S a; int len = sq::choose(budget + 1); budget -= len; while (len--) a += ch[sq::choose(5)]; args.push_back(a); p.arg(ConstStrA(a.data(), a.size())); }
		sq::op("%s", show(args).c_str()); String text = p.getCmdLine(); Process q; q.cmdLine(text); std::vector<S> got = argsOf(q); SQ_ASSERT(got == args, "command line %s means %s instead of %s", sq::show(S(text.getUtf8().c_str())).c_str(), show(got).c_str(), show(args).c_str()); SQ_ASSERT(q.getCmdLine() == text, "the command line changes"); q.cmdLine(String(L"x \"y z\""), true); args.push_back("x"); args.push_back("y z"); got = argsOf(q); SQ_ASSERT(got == args, "with appended arguments: %s", show(got).c_str()); } w.end(); }
SQ_SCENARIO(any_command_line, 6, 8) { World w; { static const char ch[] = {'a', ' ', '"', '\\', 'b'}; S t; int n = sq::choose(sq::depth() + 1); for (int i = 0; i < n; i++) t += ch[sq::choose(4)]; sq::op("%s", sq::show(t).c_str()); Process p; p.cmdLine(String(ConstStrA(t.c_str()))); std::vector<S> a = argsOf(p); if (a[0].empty()) return sq::skip(); Process q; q.cmdLine(p.getCmdLine()); std::vector<S> b = argsOf(q); SQ_ASSERT(a == b, "%s becomes %s", show(a).c_str(), show(b).c_str()); sq::outcome(show(a)); } w.end(); }
// redirections, with any of the standard descriptors of this process closed
struct Std { int save[3]; unsigned closed; Std(): closed(0) { for (int i = 0; i < 3; i++) save[i] = (int)syscall(SYS_fcntl, i, F_DUPFD_CLOEXEC, KEEP + 20); } void shut(unsigned m) { closed = m; for (int i = 0; i < 3; i++) if (m >> i & 1) close(i); } void back() { for (int i = 0; i < 3; i++) if (save[i] >= 0) { syscall(SYS_dup2, save[i], i); close(save[i]); save[i] = -1; } } ~Std() { back(); } };
static int handle(IInterface &i) { int fd = -1; i.getIfc<IFileExtractHandle>().getHandle(&fd, sizeof fd); return fd; }
static POutputStream stdStream(int fd) { return IFileIOServices::getIOServices().openSeqFile(&fd, sizeof fd, IFileIOServices::fileOpenWrite).get(); }
static S all(SeqFileInput &in) { S s; while (in.hasItems()) s += (char)in.getNext(); return s; }
SQ_SCENARIO(redirections, 3, 4) { World w; { unsigned shut = sq::choose(8); int how[3] = {sq::choose(3), sq::choose(4), sq::choose(4)}; bool both = how[1] == how[2] && how[1] && how[1] < 3 && sq::choose(2), fails = sq::choose(2); sq::op("closed %u in %d out %d err %d both %d%s", shut, how[0], how[1], how[2], both, fails ? " exec fails" : ""); for (int i = 1; i < 3; i++) if (how[i] == 3 && shut >> (3 - i) & 1) return sq::skip(); S problem; S dir = sq::scratchDir(); Std std_; S was[3];
		try { S f[3] = {dir + "/i", dir + "/o", dir + "/e"}; int x = (int)syscall(SYS_open, f[0].c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0600); if (write(x, "I", 1) != 1) throw 1; close(x); SeqFileInput fin(String(ConstStrA(f[0].c_str())), 0); SeqFileOutput fo[3] = {nil, SeqFileOutput(String(ConstStrA(f[1].c_str())), OpenFlags::create | OpenFlags::truncate), SeqFileOutput(String(ConstStrA(f[2].c_str())), OpenFlags::create | OpenFlags::truncate)}; std_.shut(shut); for (int i = 0; i < 3; i++) was[i] = ident(i); SeqFileOutput in(nil); SeqFileInput out(nil), err(nil); Process p(String(L"prog")); Child c; S id[3];
			if (how[0] == 1) { p.stdIn(in); id[0] = ident(handle(*in.getStream())); } else if (how[0] == 2) { id[0] = ident(handle(*fin.getStream())); p.stdIn(fin); }
			if (both) { if (how[1] == 1) { p.stdOutErr(out); id[1] = id[2] = ident(handle(*out.getStream())); } else { id[1] = id[2] = ident(handle(*fo[1].getStream())); p.stdOutErr(fo[1]); } }
			else { if (how[1] == 1) { p.stdOut(out); id[1] = ident(handle(*out.getStream())); } else if (how[1] == 2) { id[1] = ident(handle(*fo[1].getStream())); p.stdOut(fo[1]); } else if (how[1] == 3) { id[1] = was[2]; p.stdOut(SeqFileOutput(stdStream(2))); }
				if (how[2] == 1) { p.stdErr(err); id[2] = ident(handle(*err.getStream())); } else if (how[2] == 2) { id[2] = ident(handle(*fo[2].getStream())); p.stdErr(fo[2]); } else if (how[2] == 3) { id[2] = was[1]; p.stdErr(SeqFileOutput(stdStream(1))); } }
			auto say = [&](const S &s) { if (problem.empty()) problem = s; };
			if (fails) { execErr = EACCES; bool st; int e = failing([&]() { p.start(); }, st); if (!st || e != EACCES) say(S("failing exec ends by ") + (e ? strerror(e) : "success")); if (p.isRunning() && problem.empty()) say("the process which did not start is running"); if (p.isRunning()) p.detach(); }
			else { p.start(); c.started(); static const char *const nm[] = {"input", "output", "error output"}; std::map<int, S> want; for (int i = 0; i < 3; i++) { S s = how[i] ? id[i] : shut >> i & 1 ? S() : was[i]; if (c.fds[i] != s && !(c.fds[i].empty() && s.empty())) say(S("the standard ") + nm[i] + " of the process is " + (c.fds[i].empty() ? "closed" : "another file")); } for (auto &e: c.fds) if (e.first > 2 && !e.second.empty()) say("the process inherits other descriptors");
				if (problem.empty()) { if (how[0]) { if (how[0] == 1) { char x = 'P'; in.blockWrite(&x, 1, true); in = SeqFileOutput(nil); } S g = c.take(0), wnt = how[0] == 1 ? "P" : "I"; if (g != wnt) say("the process reads " + g + " from its input"); } for (int i = 1; i < 3; i++) if (how[i] && how[i] < 3 && c.put(i) != 1) say("the process cannot write"); }
				c.tell('x', 7); integer r = p.join(); if (r != 7) say("the exit code is wrong"); if (problem.empty()) { for (int i = 1; i < 3; i++) if (how[i] && how[i] < 3) { S wnt = both ? "BC" : i == 1 ? "B" : "C", got; if (both && i == 2) continue; if (how[i] == 1) got = all(i == 1 ? out : err); else { char b[16]; int x = (int)syscall(SYS_open, f[i].c_str(), O_RDONLY | O_CLOEXEC); ssize_t k = read(x, b, 16); close(x); got.assign(b, k); if (both) { if (got.size() != 2) say("a file of both outputs holds " + got); continue; } } if (got != wnt) say(S("the ") + nm[i] + " is " + got); } } } }
		catch (const Exception &e) { problem = S("exception: ") + String(e.getMessage()).getUtf8().c_str(); } std_.back(); SQ_ASSERT(problem.empty(), "%s", problem.c_str()); } w.end(); }
// two processes and a pipe between them
SQ_SCENARIO(piped, 1, 1) { World w; { int how = sq::choose(5), order = sq::choose(2); sq::op("how %d order %d", how, order); Process a(String(L"left")), b(String(L"right")); switch (how) { case 0: a | b; break; case 1: a.stdOut(b); break; case 2: a.stdErr(b); break; case 3: a.stdOutErr(b); break; case 4: b.stdIn(a); break; } Child ca, cb; if (order) { cb.arm(); b.start(); cb.started(); ca.arm(); a.start(); ca.started(); } else { ca.arm(); a.start(); ca.started(); cb.arm(); b.start(); cb.started(); }
		SQ_ASSERT(ca.args[0] == "left" && cb.args[0] == "right", "names"); SQ_ASSERT(ca.fds.size() == 3 && cb.fds.size() == 3, "the processes inherit %d and %d descriptors", (int)ca.fds.size(), (int)cb.fds.size()); S want; if (how != 2) { SQ_ASSERT(ca.put(1) == 1, "left cannot write"); want += "B"; } if (how == 2 || how == 3) { SQ_ASSERT(ca.put(2) == 1, "left cannot write"); want += "C"; } ca.tell('x', 1); SQ_ASSERT(a.join() == 1, "exit code of left"); S got = cb.take(0); SQ_ASSERT(got == want, "right reads %s instead of %s", got.c_str(), want.c_str()); cb.tell('x', 2); SQ_ASSERT(b.join() == 2, "exit code of right"); } w.end(); }
// extra pipes given as arguments
SQ_SCENARIO(extra_pipes, 2, 3) { World w; { int d = sq::depth(); Process p(String(L"prog")); std::vector<int> kind; SeqFileInput ins[3] = {nil, nil, nil}; SeqFileOutput outs[3] = {nil, nil, nil}; for (int i = 0; i < d; i++) { kind.push_back(sq::choose(2)); if (kind[i]) p.arg(outs[i]); else p.arg(ins[i]); } bool shutStd = sq::choose(2); Child c; (void)shutStd; p.start(); c.started(); SQ_ASSERT((int)c.args.size() == d + 1, "arguments %s", show(c.args).c_str()); SQ_ASSERT((int)c.fds.size() == 3 + d, "the process has %d descriptors instead of %d", (int)c.fds.size(), 3 + d);
		for (int i = 0; i < d; i++) { int fd = -1; char r, x, k; SQ_ASSERT(sscanf(c.args[i + 1].c_str(), "#fd:%c%c%c%d", &r, &x, &k, &fd) == 4 && k == 'p' && (kind[i] ? r == 'r' && x == '-' : r == '-' && x == 'w'), "the argument is %s", c.args[i + 1].c_str()); SQ_ASSERT(c.fds.count(fd), "descriptor %d is not open in the process", fd); if (kind[i]) { char ch = 'q'; outs[i].blockWrite(&ch, 1, true); outs[i] = SeqFileOutput(nil); S g = c.take(fd); SQ_ASSERT(g == "q", "the process reads %s", g.c_str()); } else { SQ_ASSERT(c.put(fd) == 1, "the process cannot write"); c.tell('c', fd); c.num(); S g = all(ins[i]); SQ_ASSERT(g == S(1, 'A' + fd), "%s is read from the process", sq::show(g).c_str()); } }
		c.tell('x', 0); p.join(); } w.end(); }
// a start which fails at any step is reported, leaves nothing behind and can be repeated
SQ_SCENARIO(failing_start, 1, 1) { World w; { int what = sq::choose(6), redir = sq::choose(8), intr = sq::choose(2); char old[4096]; if (!getcwd(old, sizeof old)) return; Process p(String(L"prog")); p.arg("x"); SeqFileOutput in(nil); SeqFileInput out(nil), err(nil); if (redir & 1) p.stdIn(in); if (redir & 2) p.stdOut(out); if (redir & 4) p.stdErr(err); int want = 0, k = 0; eintr = intr; switch (what) { case 0: { static const int e[] = {ENOENT, EACCES, E2BIG, ENOEXEC}; want = execErr = e[sq::choose(4)]; break; } case 1: p.workDir(L"/missing \x17E/x"); want = ENOENT; break; case 2: { k = 1 + sq::choose(7); dupFail = k; want = EMFILE; break; } case 3: pipeFail = 1; want = EMFILE; break; case 4: p.workDir(ConstStrW(W(S(program())).c_str())); want = ENOTDIR; break; case 5: break; }
		Child c; sq::op("failure %d (%d) redirections %d%s", what, what == 2 ? k : want, redir, intr ? " interrupted" : ""); bool st, dup = false; int e = failing([&]() { p.start(); }, st); if (what == 2 && e == 0) { c.started(); for (int i = 0; i < 3; i++) if (redir >> i & 1) SQ_ASSERT(c.fds[i] == ident(handle(i == 0 ? (IInterface &)*in.getStream() : i == 1 ? (IInterface &)*out.getStream() : (IInterface &)*err.getStream())), "a process without its redirection %d is started", i); dup = true; } else if (what == 5) { SQ_ASSERT(e == 0, "start fails"); c.started(); dup = true; }
		if (dup) { c.tell('x', 9); SQ_ASSERT(p.join() == 9, "exit code"); } else { SQ_ASSERT(e == want, "the start ends by %d (%s) instead of %s", e, e > 0 ? strerror(e) : "", strerror(want)); SQ_ASSERT(st || what == 3, "another exception is thrown"); SQ_ASSERT(!p.isRunning(), "a process which did not start is running"); dupFail = execErr = pipeFail = 0; eintr = 0; p.workDir(L"/"); c.arm(); p.start(); c.started(); SQ_ASSERT(c.args.size() == 2 && c.args[1] == "x", "arguments after the repeated start: %s", show(c.args).c_str()); SQ_ASSERT(c.cwd == "/", "the process works in %s", c.cwd.c_str()); c.tell('x', 4); SQ_ASSERT(p.join() == 4, "exit code"); }
		char now[4096]; SQ_ASSERT(getcwd(now, sizeof now) && !strcmp(old, now), "the working directory of this process is changed"); } w.end(); }
// life of a process object
SQ_SCENARIO(lifecycle, 7, 9) { World w; { Process p(String(L"prog")); std::unique_ptr<Child> c; enum { NONE, RUN, DEAD } st = NONE; int code = -1, deadCode = 0; pid_t pid = 0; bool open = false, waited = false; int d = sq::depth(); static int caught; caught = 0;
		try { for (int i = 0; i < d; i++) { int o = sq::choose(9); switch (o) {
			case 0: if (st == NONE) { sq::op("start"); c.reset(new Child); p.start(); c->started(); st = RUN; open = false; code = -2; } else { sq::op("second start"); bool s; int e = failing([&]() { p.start(); }, s); SQ_ASSERT(s && e == EBUSY, "start of a running process ends by %d", e); } break;
			case 1: case 2: if (st != RUN) return sq::skip(); { int v = o == 1 ? 3 : 255; sq::op("it exits with %d", v); c->tell('x', v); siginfo_t si; syscall(SYS_waitid, P_ALL, 0, &si, WEXITED | WNOWAIT, 0); st = DEAD; deadCode = v; } break;
			case 3: if (st != RUN) return sq::skip(); { sq::op("it kills itself"); c->tell('k', SIGUSR1); siginfo_t si; syscall(SYS_waitid, P_ALL, 0, &si, WEXITED | WNOWAIT, 0); st = DEAD; deadCode = -SIGUSR1; } break;
			case 4: case 5: { bool force = o == 5; sq::op("stop%s", force ? " by force" : ""); p.stop(force); if (st == RUN) { siginfo_t si; syscall(SYS_waitid, P_ALL, 0, &si, WEXITED | WNOWAIT, 0); st = DEAD; deadCode = force ? -SIGKILL : -SIGTERM; } } break;
			case 6: if (st == RUN) return sq::skip(); { sq::op("join"); eintr = sq::choose(2); integer r = p.join(); if (st == DEAD) code = deadCode; if (st == DEAD || code != -2) SQ_ASSERT(r == code, "join returns %d instead of %d", (int)r, code); st = NONE; eintr = 0; c.reset(); open = true; } break;
			case 7: { bool ended = st != RUN; sq::op("timed join"); virt = true; now_us = 0; exitAt = -1; bool r = p.join(Timeout(30)); virt = false; SQ_ASSERT(r == ended, "timed join of %s process returns %d", ended ? "an ended" : "a running", r); if (r && st == DEAD) { code = deadCode; c.reset(); open = true; } if (r) st = NONE; if (!ended) SQ_ASSERT(now_us >= 30000, "timed join ends after %ld us", now_us); } break;
			case 8: if (st == NONE && sq::choose(2)) return sq::skip(); sq::op("detach"); p.detach(); if (st != NONE) { if (st == RUN) { c->tell('x', 0); } int s; syscall(SYS_wait4, -1, &s, 0, 0); c.reset(); open = p.getJoinObject().isOpened(); } st = NONE; code = -1; break; }
			if (st == NONE && code != -2) SQ_ASSERT(p.getExitCode() == code, "the exit code is %d instead of %d", (int)p.getExitCode(), code); SQ_ASSERT(p.isRunning() == (st != NONE), "isRunning is %d", p.isRunning()); SQ_ASSERT(p.getJoinObject().isOpened() == open, "the gate is %s", open ? "closed" : "opened");
			char b[64]; sprintf(b, "%d %d %d %d %d", i, st, code, deadCode, open); if (sq::seen(sq::hash(S(b)))) break; } } catch (const Exception &e) { sq::fail("exception %s", String(e.getMessage()).getUtf8().c_str()); }
		if (st == RUN) c->tell('x', 0); if (c) { siginfo_t si; syscall(SYS_waitid, P_ALL, 0, &si, WEXITED | WNOWAIT, 0); } c.reset(); (void)pid; (void)waited; } w.end(); }
// a timed join notices the end of the process whether the signal arrives or not, and does not end earlier
static Child *exiting;
SQ_SCENARIO(timed_join, 1, 1) { World w; { static const long at[] = {-1, 0, 500, 60000, 299000, 400000}; static const long tm[] = {0, 1, 300, -1}; Process p(String(L"prog")); Child c; exiting = &c; p.start(); c.started(); long a = at[sq::choose(6)], t = tm[sq::choose(4)]; bool l = sq::choose(2); int in = sq::choose(3); if (t < 0 && a < 0) { c.tell('x', 0); p.join(); return sq::skip(); } sq::op("exit at %ld us, timeout %ld ms%s, %d interruptions", a, t, l ? ", signal lost" : "", in); virt = true; now_us = 0; waits = 0; lost = l; sigIntr = in; exitAt = a; onExit = []() { exiting->tell('x', 5); siginfo_t si; syscall(SYS_waitid, P_ALL, 0, &si, WEXITED | WNOWAIT, 0); }; if (a == 0) pass(0);
		bool r; try { r = p.join(t < 0 ? Timeout(naturalNull) : Timeout(natural(t))); } catch (const Exception &e) { virt = false; sq::fail("exception %s", String(e.getMessage()).getUtf8().c_str()); } virt = false; bool ended = onExit == 0; SQ_ASSERT(!r || ended, "the running process is joined"); SQ_ASSERT(r || t >= 0, "an endless join ends"); SQ_ASSERT(r || now_us >= t * 1000, "the join ends after %ld us", now_us); SQ_ASSERT(r || a < 0 || a > t * 1000 - 5000, "the end of the process is not noticed"); SQ_ASSERT(r || now_us <= t * 1000 + 5000 || in, "the join waits %ld us", now_us); if (r && a >= 0) SQ_ASSERT(now_us <= a + 1000000, "the join returns %ld us after the end", now_us - a); SQ_ASSERT(p.isRunning() == !r, "isRunning is %d", p.isRunning()); if (r) SQ_ASSERT(p.getExitCode() == 5, "exit code %d", (int)p.getExitCode());
		if (!r) { if (!ended) c.tell('x', 6); SQ_ASSERT(p.join() == (ended ? 5 : 6), "exit code"); } } w.end(); }
// the environment of this process
SQ_SCENARIO(environment_of_this, 1, 1) { World w; { ProcessEnv e = Process::getEnv(); std::map<S, S> want, got; for (auto &x: environment()) { size_t p = x.find('='); if (p == S::npos) continue; want.insert(std::make_pair(x.substr(0, p), x.substr(p + 1))); } for (ProcessEnv::Iterator i = e.getFwIter(); i.hasItems();) { const ProcessEnv::Entity &n = i.getNext(); got[S(String(n.key).getUtf8().c_str())] = String(n.value).getUtf8().c_str(); } SQ_ASSERT(want == got, "the environment differs (%d entries, %d)", (int)got.size(), (int)want.size()); Process p(String(L"prog")); p.setEnv(&e); Child c; p.start(); c.started(); std::set<S> x(c.env.begin(), c.env.end()), y; for (auto &m: want) y.insert(m.first + "=" + m.second); SQ_ASSERT(x == y, "the environment given to the process differs"); c.tell('x', 0); p.join(); } w.end(); }
