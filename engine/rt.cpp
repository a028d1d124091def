// lsmc runtime: controlled scheduler + exhaustive explorer for code compiled with
// clang -fsanitize=thread (instrumentation only; this file replaces the TSan runtime).
//
//  * every thread of the program under test is a fiber; pthread_create/sem_*/clock/sleep/malloc/... are
//    defined here, so the scheduler owns scheduling, time and memory
//  * each atomic operation, semaphore operation, thread start/exit and clock access is a scheduling
//    point; each plain access that was ever seen unordered (vector clocks) with a conflicting access
//    becomes a scheduling point too and the exploration restarts (fixpoint)
//  * depth first search over all schedules with at most `bound` deviations; states with the same
//    happens-before fingerprint are explored once
//  * oracles: harness assertions, deadlock, livelock, use after free / out of bounds heap access,
//    access to a dead stack frame of another thread, leak, uncaught exception, abort, SIGSEGV
#include "lsmc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <exception>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef uintptr_t uptr;
#define INL static inline __attribute__((always_inline))
#define NOINL __attribute__((noinline))
#define RETPC ((uptr)__builtin_return_address(0))

enum { MAXT = 10, SYS = MAXT };
static const uptr R_ADDR = 0x100000000000ull;
static const uptr ARENA = 0x200000000000ull;
static const uptr ARENA_SZ = 8ull << 20;            // per thread
static const uptr ARENA_END = ARENA + ARENA_SZ * (MAXT + 1);
static const uptr STACKS = 0x300000000000ull;
static const uptr STACK_SZ = 256ull << 10;
static const uptr STACKS_END = STACKS + STACK_SZ * MAXT;
static const uptr SH_ARENA = 0x400000000000ull;
static const uptr SH_STACK = 0x480000000000ull;
static const uptr SH_DATA = 0x500000000000ull;
static const uptr AMAP = 0x580000000000ull;         // allocation state, one byte per granule

extern "C" char __data_start, _end, __executable_start, etext;

struct VC { u32 c[MAXT]; };
struct Cell {
	u32 epoch; u8 wt; u8 wmask; u16 sync; u32 wclk; u32 wpc;
	struct { u32 clk; u32 pc; u8 mask; } r[MAXT];
	u64 lastw, readsum;
};
struct SyncVC { VC vc; };

enum State { UNUSED = 0, READY, B_SEM, B_JOIN, B_GUARD, B_SPIN, B_YIELD, B_SLEEP, FINISHED };
static const char *stateName[] = {"unused", "ready", "blocked on semaphore", "joining", "static-init guard", "spinning", "yielded", "sleeping", "finished"};

struct SpinRec { uptr pc, addr; u64 val; int n; };
struct EhGlobals { void *caught; unsigned uncaught; unsigned pad; };
struct Thr {
	int st; void *sp; uptr bp; VC vc; u64 hist;
	uptr waitObj; u64 deadline; bool timedOut; bool woken; int joinTid; bool harness;
	int nopre; int err; EhGlobals eh; void *tls[128];
	void *(*pfn)(void *); void *parg; mc::thr_fn hfn;
	SpinRec spin[12]; int nspin; int spinPos;
	uptr arenaPos; uptr minSp; uptr curPc; const char *curOp; uptr curAddr;
	u64 pthreadKeys[16];
};
struct Node { u16 n, idx, used; u8 isChoice; u8 cost[MAXT * 2]; };
struct Step { u8 tid; u8 flags; uptr pc; uptr addr; const char *op; };
enum { MAXNODES = 1 << 16, MAXTRACE = 1 << 18, MAXEV = 4096, RACYSZ = 32 << 20 };

struct Rt {
	bool inited, quiet, inExec, haveSnap, violation, replaying, verbose, newRace, pruned, diverged, horizonHit, inHost;
	int cur, nthr;
	Thr t[MAXT];
	void *hostSp;
	uptr sysPos, sysSnapPos;
	u32 epoch;
	u64 clock;
	u64 fp; u64 fpOrder;
	u64 steps, plain, forced;
	size_t live, liveSys;
	u64 totSteps, execs, prunedExecs, totPlain, ticks;
	int bound, used;
	Node nodes[MAXNODES]; int nnodes, pos;
	int evThr[MAXEV], evCode[MAXEV], nev;
	u64 outcome;
	SyncVC sync[16384]; int nsync;
	Step trace[MAXTRACE]; int ntrace;
	char msg[4096];
	char *snapData, *snapSys, *snapMap;
	u8 fill;
	u64 *cache; u8 *cacheV; size_t cacheCap, cacheN;
	u64 outc[65536]; int nout; 
	long sampleOut[64]; int nSampleOut;
	int nracy; u64 maxSteps;
	int failThr;
	void (*endFn[16])(void *); void *endArg[16]; int nend;
	const char *scn; unsigned scnFlags; mc::body_t body;
	char repMsg[4096];
	u64 lastWritePc;
	u8 racy[RACYSZ];
	u8 sample[256]; int nsample;
};
#define R (*(Rt *)R_ADDR)
#define CUR (R.t[R.cur])

static void *mapFixed(uptr a, size_t n) {
	void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) _exit(97);
	return p;
}
static void *mapAny(size_t n) {
	void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) _exit(97);
	return p;
}
static bool rtMapped = false;
static void rtInit() {
	if (rtMapped) return;
	mapFixed(R_ADDR, sizeof(Rt));
	mapFixed(ARENA, ARENA_END - ARENA);
	mapFixed(AMAP, (ARENA_END - ARENA) / 8);
	mapFixed(STACKS, STACKS_END - STACKS);
	mapFixed(SH_ARENA, (ARENA_END - ARENA) / 8 * sizeof(Cell));
	mapFixed(SH_STACK, (STACKS_END - STACKS) / 8 * sizeof(Cell));
	mapFixed(SH_DATA, ((uptr)&_end - (uptr)&__data_start + 64) / 8 * sizeof(Cell));
	rtMapped = true;
	R.inited = true; R.cur = -1; R.sysPos = ARENA + ARENA_SZ * SYS; R.fill = 0xCD; R.epoch = 1;
	R.inHost = true;
}

INL u64 mix(u64 h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h; }
INL u64 mix2(u64 a, u64 b) { return mix(a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull); }

// ------------------------------------------------------------------ context switch
extern "C" void lsmc_switch(void **saveSp, void *toSp);
asm(R"(
.text
.globl lsmc_switch
.type lsmc_switch,@function
lsmc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size lsmc_switch,.-lsmc_switch
)");

static void toHost() __attribute__((noreturn));
static void toHost() {
	void *dummy;
	R.inHost = true;
	lsmc_switch(&dummy, R.hostSp);
	__builtin_unreachable();
}
static void resumeThread(int n) {
	// called in fiber context (or host with cur==-1)
	int from = R.cur;
	if (from == n) return;
	if (from >= 0) {
		Thr &f = R.t[from];
		f.err = errno;
		f.bp = (uptr)__builtin_frame_address(0);
		uptr sp = f.bp - 256;
		if (sp < f.minSp) f.minSp = sp;
	}
	R.cur = n;
	R.inHost = false;
	void **save = from >= 0 ? &R.t[from].sp : &R.hostSp;
	lsmc_switch(save, R.t[n].sp);
	if (R.cur >= 0) errno = R.t[R.cur].err;
}

// ------------------------------------------------------------------ violation
namespace mc { static void failv(const char *fmt, va_list ap) __attribute__((noreturn)); }
static void describeThreads();
static void symFrames(char *out, size_t n, uptr bp, uptr lo, uptr hi, uptr pc0) {
	size_t o = 0;
	if (pc0) o += snprintf(out + o, n - o, "%lx ", (unsigned long)pc0);
	int cnt = 0;
	while (bp >= lo && bp + 16 <= hi && cnt < 24 && o + 20 < n) {
		uptr nbp = ((uptr *)bp)[0], pc = ((uptr *)bp)[1];
		if (pc >= (uptr)&__executable_start && pc < (uptr)&etext) { o += snprintf(out + o, n - o, "%lx ", (unsigned long)pc); cnt++; }
		if (nbp <= bp) break;
		bp = nbp;
	}
}
static void mc::failv(const char *fmt, va_list ap) {
	if (!R.inExec || R.cur < 0) { vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); _exit(3); }
	R.violation = true;
	vsnprintf(R.msg, sizeof(R.msg), fmt, ap);
	if (R.verbose) {
		Thr &f = R.t[R.cur];
		f.bp = (uptr)__builtin_frame_address(0);
		describeThreads();
	}
	toHost();
}
void mc::fail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); failv(fmt, ap); }
#define FAIL(...) mc::fail(__VA_ARGS__)

static void describeThreads() {
	for (int i = 0; i < R.nthr; i++) {
		Thr &t = R.t[i];
		char buf[1024]; buf[0] = 0;
		if (t.st != FINISHED) symFrames(buf, sizeof buf, t.bp, STACKS + STACK_SZ * i, STACKS + STACK_SZ * (i + 1), 0);
		printf("THREAD %d%s state=%s op=%s frames=%s\n", i, i == R.cur ? " (current)" : "", stateName[t.st], t.curOp ? t.curOp : "-", buf);
	}
	fflush(stdout);
}

// ------------------------------------------------------------------ shadow
INL Cell *cellAt(uptr a) {
	uptr d = (uptr)&__data_start;
	Cell *c;
	if (a >= ARENA && a < ARENA_END) c = (Cell *)SH_ARENA + ((a - ARENA) >> 3);
	else if (a >= STACKS && a < STACKS_END) c = (Cell *)SH_STACK + ((a - STACKS) >> 3);
	else if (a >= d && a < (uptr)&_end) c = (Cell *)SH_DATA + ((a - d) >> 3);
	else return 0;
	if (c->epoch != R.epoch) {
		memset(c, 0, sizeof *c); c->epoch = R.epoch;
	}
	return c;
}
INL void addRacy(u32 pc) {
	uptr o = (uptr)pc - (uptr)&__executable_start;
	if (!pc || o >= RACYSZ) return;
	if (!(R.racy[o] & 1)) {
		if (R.racy[o] & 2) return;      // atomic pc: always a point
		R.racy[o] |= 1; R.nracy++; R.newRace = true;
		if (R.verbose) printf("RACY %x\n", pc);
	}
}
INL bool isRacy(uptr pc) { uptr o = pc - (uptr)&__executable_start; return o < RACYSZ && (R.racy[o] & 1); }
INL void markAtomic(uptr pc) { uptr o = pc - (uptr)&__executable_start; if (o < RACYSZ) R.racy[o] |= 2; }

static void NOINL checkStack(uptr a, uptr pc) {
	int o = (a - STACKS) / STACK_SZ;
	if (o == R.cur) return;
	Thr &t = R.t[o];
	if (t.st == UNUSED || t.st == FINISHED) FAIL("access to the stack of a finished thread (thread %d accesses stack of thread %d) pc=%lx", R.cur, o, (unsigned long)pc);
	if (a < (uptr)t.sp) FAIL("access to a dead stack frame (thread %d accesses stack of thread %d) pc=%lx", R.cur, o, (unsigned long)pc);
}
static void NOINL badHeap(uptr a, uptr pc, u8 s) {
	if (s == 2) FAIL("use after free: thread %d accesses freed memory pc=%lx", R.cur, (unsigned long)pc);
	FAIL("heap access out of bounds: thread %d pc=%lx addr=%lx", R.cur, (unsigned long)pc, (unsigned long)a);
}
INL void checkMem(uptr a, uptr pc) {
	if (a >= ARENA && a < ARENA_END) {
		u8 s = ((u8 *)AMAP)[(a - ARENA) >> 3];
		if (__builtin_expect(s != 1, 0)) badHeap(a, pc, s);
	} else if (a >= STACKS && a < STACKS_END) {
		if ((a - STACKS) / STACK_SZ != (uptr)R.cur) checkStack(a, pc);
	}
}
INL VC *syncOf(Cell *c) {
	if (!c) return 0;
	if (!c->sync) {
		if (R.nsync + 1 >= 16384) return 0;
		c->sync = ++R.nsync; memset(&R.sync[c->sync], 0, sizeof(VC));
	}
	return &R.sync[c->sync].vc;
}
INL void joinVC(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
INL void acquireCell(Cell *c) { if (c && c->sync) joinVC(CUR.vc, R.sync[c->sync].vc); }
INL void releaseCell(Cell *c) { VC *v = syncOf(c); if (v) { joinVC(*v, CUR.vc); CUR.vc.c[R.cur]++; } }

INL void raceCell(Cell *c, u8 mask, bool write, u32 pc) {
	int me = R.cur; Thr &t = R.t[me];
	if (c->wmask && c->wt != me && (c->wmask & mask) && c->wclk > t.vc.c[c->wt]) { addRacy(c->wpc); addRacy(pc); }
	if (write) {
		for (int i = 0; i < R.nthr; i++) if (i != me && c->r[i].clk > t.vc.c[i] && (c->r[i].mask & mask)) { addRacy(c->r[i].pc); addRacy(pc); }
		if (c->wt == me && c->wclk == t.vc.c[me]) c->wmask |= mask; else c->wmask = mask;
		c->wt = me; c->wclk = t.vc.c[me]; c->wpc = pc;
	} else {
		if (c->r[me].clk == t.vc.c[me]) c->r[me].mask |= mask; else c->r[me].mask = mask;
		c->r[me].clk = t.vc.c[me]; c->r[me].pc = pc;
	}
}

// ------------------------------------------------------------------ events and the scheduler
static void schedule();
static void wakeSpinners() {
	for (int i = 0; i < R.nthr; i++) if (i != R.cur && (R.t[i].st == B_SPIN)) R.t[i].woken = true;
}
INL void wakeYielders() {
	for (int i = 0; i < R.nthr; i++) if (i != R.cur && (R.t[i].st == B_YIELD)) R.t[i].woken = true;
}
static void commit(Cell *c, uptr addr, bool write, uptr pc, u64 val = 0) {
	Thr &t = CUR;
	u64 key = addr & ~7ull;
	u64 h = mix2(mix2(t.hist, pc ^ (write ? 0x5555000000000000ull : 0)), key);
	h = mix2(h, val);
	if (c) {
		h = mix2(h, c->lastw);
		if (write) { h = mix2(h, c->readsum); c->lastw = h; c->readsum = 0; }
		else c->readsum += h;
	}
	t.hist = h; R.fp += mix(h);
	if (write) { t.nspin = 0; wakeSpinners(); }
	wakeYielders();
}
static void noteStep(uptr pc, uptr addr, const char *op) {
	Thr &t = CUR; t.curPc = pc; t.curAddr = addr; t.curOp = op;
}
INL void point(uptr pc, uptr addr, const char *op) {
	noteStep(pc, addr, op);
	if (CUR.nopre) return;
	schedule();
}
static void record(const char *op, uptr pc, uptr addr) {
	if (R.replaying && R.ntrace < MAXTRACE) { Step &s = R.trace[R.ntrace++]; s.tid = R.cur; s.pc = pc; s.addr = addr; s.op = op; }
}

static bool enabled(int i) {
	Thr &t = R.t[i];
	switch (t.st) {
	case READY: return true;
	case B_SEM: return *(volatile int *)t.waitObj > 0 || (t.deadline && t.deadline <= R.clock);
	case B_JOIN: return R.t[t.joinTid].st == FINISHED;
	case B_GUARD: return ((volatile u8 *)t.waitObj)[1] == 0;
	case B_SPIN: case B_YIELD: return t.woken;
	case B_SLEEP: return t.deadline && t.deadline <= R.clock;
	}
	return false;
}
static bool timeoutable(int i) {
	Thr &t = R.t[i];
	return (t.st == B_SEM || t.st == B_SLEEP) && t.deadline && t.deadline > R.clock && !enabled(i);
}

static bool cacheCheck(int cur) { // true = prune
	u64 k = mix2(R.fp, (u64)(cur + 1));
	for (int i = 0; i < R.nthr; i++) k = mix2(k, R.t[i].st * 4 + (R.t[i].woken ? 1 : 0) + (R.t[i].nopre ? 2 : 0));
	k = mix2(k, R.clock);
	if (k == 0) k = 1;
	if (R.cacheN * 2 >= R.cacheCap) {
		size_t oc = R.cacheCap; u64 *ok = R.cache; u8 *ov = R.cacheV;
		size_t nc = oc ? oc * 2 : 1 << 16;
		R.cache = (u64 *)mapAny(nc * 8); R.cacheV = (u8 *)mapAny(nc);
		R.cacheCap = nc;
		for (size_t i = 0; i < oc; i++) if (ok[i]) {
			size_t p = ok[i] & (nc - 1); while (R.cache[p]) p = (p + 1) & (nc - 1);
			R.cache[p] = ok[i]; R.cacheV[p] = ov[i];
		}
		if (oc) { munmap(ok, oc * 8); munmap(ov, oc); }
	}
	size_t p = k & (R.cacheCap - 1);
	while (R.cache[p]) {
		if (R.cache[p] == k) {
			if (R.cacheV[p] <= R.used) return true;
			R.cacheV[p] = R.used; return false;
		}
		p = (p + 1) & (R.cacheCap - 1);
	}
	R.cache[p] = k; R.cacheV[p] = R.used; R.cacheN++;
	return false;
}
static void cacheClear() {
	if (R.cache) { munmap(R.cache, R.cacheCap * 8); munmap(R.cacheV, R.cacheCap); }
	R.cache = 0; R.cacheV = 0; R.cacheCap = 0; R.cacheN = 0;
}

// returns the index chosen at a node with n alternatives
static int node(int n, const u8 *cost, bool isChoice, int cacheCur) {
	if (R.pos < R.nnodes) {
		Node &nd = R.nodes[R.pos];
		if (R.replaying) { nd.n = n; nd.isChoice = isChoice; memcpy(nd.cost, cost, n); if (nd.idx >= n) { R.diverged = true; toHost(); } }
		else if (nd.n != n || nd.isChoice != isChoice || nd.used != R.used) { R.diverged = true; toHost(); }
		R.pos++;
		R.used += nd.cost[nd.idx];
		return nd.idx;
	}
	if (!R.replaying && cacheCur != -2 && cacheCheck(cacheCur)) { R.pruned = true; toHost(); }
	if (R.nnodes >= MAXNODES) { R.horizonHit = true; toHost(); }
	Node &nd = R.nodes[R.nnodes++];
	nd.n = n; nd.idx = 0; nd.used = R.used; nd.isChoice = isChoice; memcpy(nd.cost, cost, n);
	R.pos++;
	R.used += cost[0];
	return 0;
}

static void schedule() {
	R.steps++; R.totSteps++; R.ticks++;
	if (R.steps > R.maxSteps) FAIL("execution does not terminate within %lu steps (livelock)", (unsigned long)R.maxSteps);
	int cur = R.cur;
	u8 alt[MAXT * 2], cost[MAXT * 2]; int n = 0;
	bool curEn = enabled(cur);
	bool free = !curEn;
	if (curEn) { alt[n] = cur; cost[n++] = 0; }
	for (int i = 0; i < R.nthr; i++) if (i != cur && enabled(i)) { alt[n] = i; cost[n++] = free ? 0 : 1; }
	if (n == 0) {
		// nothing runs: time passes until the earliest deadline
		u64 best = ~0ull;
		for (int i = 0; i < R.nthr; i++) if (timeoutable(i) && R.t[i].deadline < best) best = R.t[i].deadline;
		if (best != ~0ull) {
			for (int i = 0; i < R.nthr; i++) if (timeoutable(i) && R.t[i].deadline == best) { alt[n] = i | 0x80; cost[n++] = 0; }
		} else {
			for (int i = 0; i < R.nthr; i++) if (R.t[i].st == B_SPIN || R.t[i].st == B_YIELD) { alt[n] = i; cost[n++] = 0; }
			if (n) { if (++R.forced > 2000) FAIL("livelock: only spinning threads remain"); }
		}
		if (n == 0) {
			if (R.verbose) { R.t[cur].bp = (uptr)__builtin_frame_address(0); }
			int left = 0; char buf[256]; int o = 0; buf[0] = 0;
			for (int i = 0; i < R.nthr; i++) if (R.t[i].st != FINISHED) { left++; o += snprintf(buf + o, sizeof(buf) - o, " t%d:%s", i, stateName[R.t[i].st]); }
			if (left) FAIL("deadlock:%s", buf);
			toHost();  // all finished: normal end
		}
	} else {
		for (int i = 0; i < R.nthr; i++) if (timeoutable(i)) { alt[n] = i | 0x80; cost[n++] = 1; }
	}
	int m = 0;
	for (int i = 0; i < n; i++) if (R.used + cost[i] <= R.bound) { alt[m] = alt[i]; cost[m++] = cost[i]; }
	n = m;
	int k = 0;
	if (n > 1 && !R.quiet) k = node(n, cost, false, curEn ? cur : -1);
	int tid = alt[k] & 0x7f;
	Thr &t = R.t[tid];
	if (alt[k] & 0x80) { if (t.deadline > R.clock) R.clock = t.deadline; t.timedOut = true; R.t[tid].curOp = "timeout"; }
	if (t.st == B_SPIN || t.st == B_YIELD) { t.st = READY; t.woken = false; t.nspin = 0; }
	if (R.replaying && R.ntrace < MAXTRACE) {
		Step &s = R.trace[R.ntrace++]; s.tid = tid; s.pc = t.curPc; s.addr = t.curAddr; s.op = t.curOp; s.flags = (n > 1) | (alt[k] & 0x80);
	}
	resumeThread(tid);
}
// block the current thread (its state was set); returns when it was scheduled again
static void blockNow() {
	if (CUR.nopre && CUR.st != READY) FAIL("harness error: blocking inside a no-preempt section");
	schedule();
}

// ------------------------------------------------------------------ plain accesses
INL u8 maskOf(uptr a, unsigned n) { unsigned o = a & 7; unsigned m = n >= 8 ? 0xff : ((1u << n) - 1); return (u8)(m << o); }

static void NOINL racyAccess(uptr a, unsigned n, bool write, uptr pc) {
	point(pc, a, write ? "write" : "read");
	checkMem(a, pc);
	Cell *c = cellAt(a);
	Thr &t = CUR;
	u64 val = 0;
	if (n <= 8 && (!write)) memcpy(&val, (void *)a, n);
	if (!write) {
		// spin detection
		for (int i = 0; i < t.nspin; i++) if (t.spin[i].pc == pc && t.spin[i].addr == a) {
			if (t.spin[i].val == val) {
				if (++t.spin[i].n >= 5 && !t.nopre) {
					t.st = B_SPIN; t.woken = false; noteStep(pc, a, "spin-read");
					schedule();
					memcpy(&val, (void *)a, n);
					c = cellAt(a);
				}
			} else { t.spin[i].val = val; t.spin[i].n = 1; }
			goto found;
		}
		{ int p = t.nspin < 12 ? t.nspin++ : (t.spinPos++ % 12); SpinRec &s = t.spin[p]; s.pc = pc; s.addr = a; s.val = val; s.n = 1; }
		found:;
	}
	if (c) {
		acquireCell(c);
		if (write) releaseCell(c);
	}
	commit(c, a, write, pc, val);
	if (((a & 7) + n) > 8) { Cell *c2 = cellAt(a + 8); if (c2) { acquireCell(c2); if (write) releaseCell(c2); } commit(c2, a + 8, write, pc, 0); }
}
INL void access(uptr a, unsigned n, bool write, uptr pc) {
	if (!rtMapped || !R.inExec || R.inHost) return;
	R.plain++;
	if (__builtin_expect(R.plain > 200000000ull, 0)) FAIL("execution does not terminate (memory access limit) pc=%lx", (unsigned long)pc);
	if (__builtin_expect(isRacy(pc), 0)) racyAccess(a, n, write, pc); else checkMem(a, pc);
	Cell *c = cellAt(a);
	if (!c) {
		if (a < 4096) FAIL("null pointer access pc=%lx", (unsigned long)pc);
		return;
	}
	raceCell(c, maskOf(a, n), write, (u32)pc);
	unsigned head = 8 - (a & 7);
	if (n > head) {
		for (uptr x = (a | 7) + 1; x < a + n; x += 8) {
			checkMem(x, pc);
			c = cellAt(x);
			if (c) raceCell(c, maskOf(x, (unsigned)(a + n - x)), write, (u32)pc);
		}
	}
}
INL void accessRange(uptr a, size_t n, bool write, uptr pc) {
	if (!n || !rtMapped || !R.inExec || R.inHost) return;
	R.plain++;
	if (__builtin_expect(isRacy(pc), 0)) {
		point(pc, a, write ? "write-range" : "read-range");
		for (uptr x = a & ~7ull; x < a + n; x += 8) {
			checkMem(x < a ? a : x, pc);
			Cell *c = cellAt(x);
			if (c) { acquireCell(c); if (write) releaseCell(c); }
			commit(c, x, write, pc, 0);
		}
	}
	for (uptr x = a; x < a + n; x = (x | 7) + 1) {
		checkMem(x, pc);
		Cell *c = cellAt(x);
		if (c) raceCell(c, maskOf(x, (unsigned)(a + n - x < 8 ? a + n - x : 8)), write, (u32)pc);
	}
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void *p) { access((uptr)p, n, false, RETPC); } \
void __tsan_write##n(void *p) { access((uptr)p, n, true, RETPC); } \
void __tsan_unaligned_read##n(void *p) { access((uptr)p, n, false, RETPC); } \
void __tsan_unaligned_write##n(void *p) { access((uptr)p, n, true, RETPC); } \
void __tsan_read_write##n(void *p) { access((uptr)p, n, false, RETPC); access((uptr)p, n, true, RETPC); } \
void __tsan_unaligned_read_write##n(void *p) { access((uptr)p, n, false, RETPC); access((uptr)p, n, true, RETPC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access((uptr)p, 8, true, RETPC); else access((uptr)p, 8, false, RETPC); }
void __tsan_vptr_read(void **p) { access((uptr)p, 8, false, RETPC); }
void __tsan_read_range(void *p, unsigned long n) { accessRange((uptr)p, n, false, RETPC); }
void __tsan_write_range(void *p, unsigned long n) { accessRange((uptr)p, n, true, RETPC); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { accessRange((uptr)s, n, false, RETPC); accessRange((uptr)d, n, true, RETPC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { accessRange((uptr)s, n, false, RETPC); accessRange((uptr)d, n, true, RETPC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { accessRange((uptr)d, n, true, RETPC); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
}

// ------------------------------------------------------------------ atomics
// mode: 0 load, 1 store, 2 rmw; spin check for pure reads (and failed CAS)
static bool NOINL spinCheck(uptr pc, uptr a, u64 val) { // returns true if we blocked (re-read needed)
	Thr &t = CUR;
	for (int i = 0; i < t.nspin; i++) if (t.spin[i].pc == pc && t.spin[i].addr == a) {
		if (t.spin[i].val == val) {
			if (++t.spin[i].n >= 5 && !t.nopre) {
				t.st = B_SPIN; t.woken = false; noteStep(pc, a, "spin-atomic");
				schedule();
				return true;
			}
		} else { t.spin[i].val = val; t.spin[i].n = 1; }
		return false;
	}
	int p = t.nspin < 12 ? t.nspin++ : (t.spinPos++ % 12);
	SpinRec &s = t.spin[p]; s.pc = pc; s.addr = a; s.val = val; s.n = 1;
	return false;
}
INL bool act() { return rtMapped && R.inExec && !R.inHost; }
static void NOINL atomPre(uptr a, uptr pc, const char *op) { markAtomic(pc); point(pc, a, op); checkMem(a, pc); R.plain++; if (a < 4096) FAIL("null pointer atomic access pc=%lx", (unsigned long)pc); }
static void NOINL atomPost(uptr a, unsigned n, bool wr, uptr pc, u64 val) {
	Cell *c = cellAt(a);
	acquireCell(c);
	if (wr) releaseCell(c);
	if (c) raceCell(c, maskOf(a, n), wr, (u32)pc);
	commit(c, a, wr, pc, val);
}
template<typename T> INL T aLoad(const volatile T *p, uptr pc) {
	if (!act()) return *p;
	atomPre((uptr)p, pc, "load");
	T v = *p;
	if (spinCheck(pc, (uptr)p, (u64)v)) { checkMem((uptr)p, pc); v = *p; }
	atomPost((uptr)p, sizeof(T), false, pc, (u64)v);
	return v;
}
template<typename T> INL void aStore(volatile T *p, T v, uptr pc) {
	if (!act()) { *p = v; return; }
	atomPre((uptr)p, pc, "store");
	*p = v;
	atomPost((uptr)p, sizeof(T), true, pc, (u64)v);
}
enum RmwOp { XCHG, ADD, SUB, AND, OR, XOR, NAND };
template<typename T> INL T aRmw(volatile T *p, T v, RmwOp op, uptr pc) {
	bool on = act();
	if (on) atomPre((uptr)p, pc, "rmw");
	T o = *p, nv = o;
	switch (op) { case XCHG: nv = v; break; case ADD: nv = o + v; break; case SUB: nv = o - v; break; case AND: nv = o & v; break; case OR: nv = o | v; break; case XOR: nv = o ^ v; break; case NAND: nv = ~(o & v); break; }
	*p = nv;
	if (on) atomPost((uptr)p, sizeof(T), true, pc, (u64)o);
	return o;
}
template<typename T> INL bool aCas(volatile T *p, T *exp, T v, uptr pc) {
	bool on = act();
	if (on) atomPre((uptr)p, pc, "cas");
	T e = *exp;
	if (on && *p != e) { T o = *p; if (spinCheck(pc, (uptr)p, (u64)o)) checkMem((uptr)p, pc); }
	if (*p == e) { *p = v; if (on) atomPost((uptr)p, sizeof(T), true, pc, (u64)e); return true; }
	T o = *p;
	if (on) atomPost((uptr)p, sizeof(T), false, pc, (u64)o);
	*exp = o;
	return false;
}
extern "C" {
#define ATOM(T, N) \
T __tsan_atomic##N##_load(const volatile T *p, int) { return aLoad<T>(p, RETPC); } \
void __tsan_atomic##N##_store(volatile T *p, T v, int) { aStore<T>(p, v, RETPC); } \
T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { return aRmw<T>(p, v, XCHG, RETPC); } \
T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { return aRmw<T>(p, v, ADD, RETPC); } \
T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { return aRmw<T>(p, v, SUB, RETPC); } \
T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { return aRmw<T>(p, v, AND, RETPC); } \
T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { return aRmw<T>(p, v, OR, RETPC); } \
T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { return aRmw<T>(p, v, XOR, RETPC); } \
T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int) { return aRmw<T>(p, v, NAND, RETPC); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { return aCas<T>(p, e, v, RETPC); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { return aCas<T>(p, e, v, RETPC); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int, int) { T x = e; aCas<T>(p, &x, v, RETPC); return x; }
ATOM(u8, 8) ATOM(u16, 16) ATOM(u32, 32) ATOM(u64, 64) ATOM(__uint128_t, 128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ heap
static const uptr HDR = 16;
static const u64 MAGIC = 0x4c534d4342554d50ull;
static void *heapAlloc(size_t n, bool zero, size_t align = 16) {
	rtInit();
	int id = (R.inExec && !R.inHost && R.cur >= 0) ? R.cur : SYS;
	uptr &pos = id == SYS ? R.sysPos : R.t[id].arenaPos;
	uptr lim = ARENA + ARENA_SZ * (id + 1);
	size_t rn = (n + 7) & ~7ull; if (!rn) rn = 8;
	uptr p = (pos + HDR + align - 1) & ~(uptr)(align - 1);
	if (n > ARENA_SZ || p + rn + 16 > lim) {
		if (id != SYS) { if (n > (ARENA_SZ / 4)) { errno = ENOMEM; return 0; } FAIL("harness error: heap arena exhausted"); }
		_exit(96);
	}
	((u64 *)p)[-2] = MAGIC; ((u64 *)p)[-1] = n;
	memset((u8 *)AMAP + ((p - ARENA) >> 3), 1, rn / 8);
	memset((void *)p, zero ? 0 : R.fill, rn);
	pos = p + rn;
	if (id != SYS) R.live++;
	return (void *)p;
}
static void heapFree(void *ptr, uptr pc) {
	if (!ptr) return;
	uptr p = (uptr)ptr;
	if (p < ARENA || p >= ARENA_END) { if (act()) FAIL("free of a pointer that is not a heap block pc=%lx", (unsigned long)pc); return; }
	u64 n = ((u64 *)p)[-1];
	size_t rn = (n + 7) & ~7ull; if (!rn) rn = 8;
	bool on = act();
	u8 *m = (u8 *)AMAP + ((p - ARENA) >> 3);
	if (on) {
		if (isRacy(pc)) {
			point(pc, p, "free");
		}
		if (((u64 *)p)[-2] != MAGIC || *m == 0) FAIL("free of an invalid pointer pc=%lx", (unsigned long)pc);
		if (*m == 2) FAIL("double free pc=%lx", (unsigned long)pc);
		bool r = isRacy(pc);
		for (uptr x = p; x < p + rn && x < p + 65536; x += 8) {
			Cell *c = cellAt(x);
			if (r) { acquireCell(c); releaseCell(c); commit(c, x, true, pc, 0); }
			raceCell(c, 0xff, true, (u32)pc);
		}
		R.live--;
		memset(m, 2, rn / 8);
		memset(ptr, 0xDD, rn);
	} else if (R.inExec && R.inHost) return;
	else if (*m == 1) memset(m, 2, rn / 8);
}
extern "C" {
void *malloc(size_t n) { return heapAlloc(n, false); }
void *calloc(size_t a, size_t b) { return heapAlloc(a * b, true); }
void free(void *p) { if (p) { rtInit(); heapFree(p, RETPC); } }
void *realloc(void *p, size_t n) {
	if (!p) return heapAlloc(n, false);
	size_t o = ((u64 *)p)[-1];
	void *q = heapAlloc(n, false);
	memcpy(q, p, o < n ? o : n);
	heapFree(p, RETPC);
	return q;
}
void *memalign(size_t al, size_t n) { return heapAlloc(n, false, al < 16 ? 16 : al); }
void *aligned_alloc(size_t al, size_t n) { return heapAlloc(n, false, al < 16 ? 16 : al); }
int posix_memalign(void **out, size_t al, size_t n) { *out = heapAlloc(n, false, al < 16 ? 16 : al); return 0; }
size_t malloc_usable_size(void *p) { return p ? ((u64 *)p)[-1] : 0; }
}
void *operator new(size_t n) { void *p = heapAlloc(n, false); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = heapAlloc(n, false); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return heapAlloc(n, false); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return heapAlloc(n, false); }
void operator delete(void *p) noexcept { heapFree(p, RETPC); }
void operator delete[](void *p) noexcept { heapFree(p, RETPC); }
void operator delete(void *p, size_t) noexcept { heapFree(p, RETPC); }
void operator delete[](void *p, size_t) noexcept { heapFree(p, RETPC); }

// ------------------------------------------------------------------ threads
static void threadMain() {
	// entered by lsmc_switch's ret
	Thr &t = CUR;
	errno = 0;
	try {
		if (t.hfn) t.hfn(t.parg);
		else if (t.pfn) t.pfn(t.parg);
		else R.body();
	} catch (std::exception &e) {
		FAIL("uncaught exception left a thread: %s", e.what());
	} catch (...) {
		FAIL("uncaught exception left a thread");
	}
	Thr &u = CUR;
	noteStep(0, 0, "exit");
	{ Cell *c = cellAt((uptr)&__data_start); (void)c; }
	u.nopre = 0;
	if (u.harness) { schedule(); }   // point before becoming joinable
	commit(0, 0x1000 + R.cur, true, 0x77, 0);
	u.st = FINISHED;
	schedule();
	__builtin_unreachable();
}
static int newThread() {
	if (R.nthr >= MAXT) FAIL("harness error: too many threads");
	int id = R.nthr++;
	Thr &t = R.t[id];
	uptr minSp = t.minSp, pos;
	uptr top = STACKS + STACK_SZ * (id + 1) - 64;
	if (minSp) { uptr lo = minSp - 16384; uptr base = STACKS + STACK_SZ * id; if (lo < base) lo = base; memset((void *)lo, R.fill, STACKS + STACK_SZ * (id + 1) - lo); }
	else memset((void *)(STACKS + STACK_SZ * id), R.fill, STACK_SZ);
	pos = ARENA + ARENA_SZ * id;
	memset(&t, 0, sizeof t);
	t.minSp = top; t.arenaPos = pos;
	uptr *sp = (uptr *)(top & ~15ull);
	*--sp = 0;                 // alignment / fake return address
	*--sp = (uptr)&threadMain;
	for (int i = 0; i < 6; i++) *--sp = 0;
	t.sp = sp; t.bp = 0;
	t.st = READY;
	t.vc.c[id] = 1;
	t.hist = mix2(0x1234, id);
	t.curOp = "start";
	return id;
}
static void inherit(int id) {
	Thr &t = R.t[id];
	joinVC(t.vc, CUR.vc); CUR.vc.c[R.cur]++;
	t.hist = mix2(CUR.hist, 0x99 + id);
	CUR.hist = mix2(CUR.hist, 0xAA);
	R.fp += mix(CUR.hist);
}
int mc::spawn_raw(thr_fn fn, void *arg) {
	::point(RETPC, 0, "spawn");
	int id = newThread();
	R.t[id].hfn = fn; R.t[id].parg = arg; R.t[id].harness = true;
	inherit(id);
	return id;
}
void mc::join(int tid) {
	noteStep(RETPC, 0, "join");
	CUR.st = B_JOIN; CUR.joinTid = tid;
	blockNow();
	CUR.st = READY;
	joinVC(CUR.vc, R.t[tid].vc);
	commit(0, 0x1000 + tid, false, 0x78, R.t[tid].hist);
}
int mc::self() { return R.cur; }
void *mc::scratch(size_t n) { void *p = heapAlloc(n, true); R.live--; return p; }
int mc::choose(int n) {
	if (n <= 1) return 0;
	u8 c[64]; memset(c, 0, sizeof c);
	int k = node(n, c, true, -2);
	commit(0, 0x2000, true, 0x79 + k, k);
	return k;
}
void mc::point() { if (act()) ::point(RETPC, 0, "point"); }
void mc::event(int code) {
	uptr a = (uptr)&R.nev;
	::point(RETPC, a, "event");
	// global order of events is observable: chain it
	R.fpOrder = mix2(R.fpOrder, mix2(code, R.cur));
	Thr &t = CUR; t.hist = mix2(t.hist, R.fpOrder); R.fp += mix(t.hist);
	wakeYielders();
	if (R.nev < MAXEV) { R.evThr[R.nev] = R.cur; R.evCode[R.nev] = code; R.nev++; }
}
int mc::eventCount() { return R.nev; }
int mc::eventAt(int i, int *th) { if (th) *th = R.evThr[i]; return R.evCode[i]; }
void mc::outcome(long v) { R.outcome = mix2(R.outcome, (u64)v); }
long mc::now_ms() { return (long)(R.clock / 1000000); }
void mc::nopreempt(int d) { if (act()) CUR.nopre += d; }
void mc::quiet(bool q) { R.quiet = q; }
size_t mc::live_blocks() { return R.live; }
bool mc::finished(int tid) { return R.t[tid].st == FINISHED; }
bool mc::blocked(int tid) { return !enabled(tid); }
void mc::failThreads(int n) { R.failThr = n; }
int mc::thread_count() { return R.nthr; }
void mc::at_end(void (*fn)(void *), void *arg) { R.endFn[R.nend] = fn; R.endArg[R.nend++] = arg; }
void mc::yield() {
	noteStep(RETPC, 0, "yield");
	if (CUR.nopre) return;
	CUR.st = B_YIELD; CUR.woken = false;
	schedule();
	CUR.st = READY;
}
extern "C" {
int pthread_create(pthread_t *out, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
	if (!act()) { fprintf(stderr, "pthread_create outside a scenario\n"); _exit(3); }
	point(RETPC, 0, "pthread_create");
	if (R.failThr > 0) { R.failThr--; return EAGAIN; }
	int id = newThread();
	R.t[id].pfn = fn; R.t[id].parg = arg;
	inherit(id);
	*out = (pthread_t)(id + 1);
	return 0;
}
pthread_t pthread_self(void) { return (pthread_t)(act() ? R.cur + 1 : 1); }
int pthread_join(pthread_t th, void **) { mc::join((int)th - 1); return 0; }
int pthread_detach(pthread_t) { return 0; }
int pthread_sigmask(int, const sigset_t *, sigset_t *) { return 0; }
int sigprocmask(int, const sigset_t *, sigset_t *) { return 0; }
int pthread_key_create(pthread_key_t *k, void (*)(void *)) { static int n = 0; *k = n++; return n > 16 ? EAGAIN : 0; }
int pthread_key_delete(pthread_key_t) { return 0; }
void *pthread_getspecific(pthread_key_t k) { return act() && k < 16 ? (void *)CUR.pthreadKeys[k] : 0; }
int pthread_setspecific(pthread_key_t k, const void *v) { if (act() && k < 16) CUR.pthreadKeys[k] = (u64)v; return 0; }
static int pthread_once_impl(pthread_once_t *o, void (*f)(void)) { if (!*o) { *o = 2; f(); } return 0; }
int pthread_once(pthread_once_t *o, void (*f)(void)) { return pthread_once_impl(o, f); }

// mutex / condition variable (used only by harness or future code): state in the first int
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset(m, 0, sizeof *m); *(int *)m = 0; ((int *)m)[1] = 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
static int mtxLock(pthread_mutex_t *m, uptr pc, bool tr) {
	if (!act()) return 0;
	uptr a = (uptr)m; int *w = (int *)m;  // w[0]=locked flag, w[1]=owner+1, w[2]=inverse flag for blocking
	point(pc, a, "mutex_lock"); checkMem(a, pc);
	bool rec = false;
	while (w[0]) {
		if (w[0] && w[1] == R.cur + 1 && rec) { break; }
		if (tr) { commit(cellAt(a), a, false, pc, 1); return EBUSY; }
		w[2] = 0; CUR.st = B_SEM; CUR.waitObj = (uptr)&w[2]; CUR.deadline = 0; noteStep(pc, a, "mutex_lock");
		blockNow(); CUR.st = READY;
	}
	w[0] = 1; w[1] = R.cur + 1; w[2] = 0;
	Cell *c = cellAt(a); acquireCell(c); releaseCell(c); commit(c, a, true, pc, 0);
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { return mtxLock(m, RETPC, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return mtxLock(m, RETPC, true); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
	if (!act()) return 0;
	uptr pc = RETPC, a = (uptr)m; int *w = (int *)m;
	point(pc, a, "mutex_unlock"); checkMem(a, pc);
	w[0] = 0; w[1] = 0; w[2] = 1;
	Cell *c = cellAt(a); acquireCell(c); releaseCell(c); commit(c, a, true, pc, 0);
	return 0;
}

// semaphores
static int *semv(sem_t *s) { return (int *)s; }
int sem_init(sem_t *s, int, unsigned v) { *semv(s) = (int)v; return 0; }
int sem_destroy(sem_t *s) { if (act()) { checkMem((uptr)s, RETPC); access((uptr)s, 4, true, RETPC); } return 0; }
static void semTake(sem_t *s, uptr pc) {
	--*semv(s);
	Cell *c = cellAt((uptr)s); acquireCell(c); releaseCell(c); 
	if (c) raceCell(c, 0xf, true, (u32)pc);
	commit(c, (uptr)s, true, pc, 1);
}
static int semWait(sem_t *s, u64 deadline, uptr pc) {
	if (!act()) { if (*semv(s) > 0) { --*semv(s); return 0; } fprintf(stderr, "sem_wait outside a scenario\n"); _exit(3); }
	markAtomic(pc);
	// blocking state is entered before the point: the wait is enabled exactly when the semaphore is positive
	checkMem((uptr)s, pc);
	noteStep(pc, (uptr)s, deadline ? "sem_timedwait" : "sem_wait");
	bool expired = deadline && deadline <= R.clock;
	if (CUR.nopre) {
		if (*semv(s) > 0) { semTake(s, pc); return 0; }
	}
	CUR.st = B_SEM; CUR.waitObj = (uptr)s; CUR.deadline = deadline; CUR.timedOut = false;
	blockNow();
	Thr &t = CUR; t.st = READY;
	checkMem((uptr)s, pc);
	if (*semv(s) > 0) { t.deadline = 0; semTake(s, pc); return 0; }
	// timed out
	t.deadline = 0;
	if (expired) R.clock += 1000000;  // time passes for a thread that spins on an expired timeout
	commit(cellAt((uptr)s), (uptr)s, false, pc, 0);
	commit(cellAt((uptr)&__data_start), (uptr)&R.clock, true, pc, R.clock);
	errno = ETIMEDOUT; t.err = ETIMEDOUT;
	return -1;
}
int sem_wait(sem_t *s) { return semWait(s, 0, RETPC); }
int sem_timedwait(sem_t *s, const struct timespec *ts) {
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { errno = EINVAL; if (act()) CUR.err = EINVAL; 
		if (*semv(s) <= 0) return -1; }
	u64 d = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; if (!d) d = 1;
	return semWait(s, d, RETPC);
}
int sem_trywait(sem_t *s) {
	if (!act()) { if (*semv(s) > 0) { --*semv(s); return 0; } errno = EAGAIN; return -1; }
	uptr pc = RETPC; markAtomic(pc);
	point(pc, (uptr)s, "sem_trywait"); checkMem((uptr)s, pc);
	if (*semv(s) > 0) { semTake(s, pc); return 0; }
	Cell *c = cellAt((uptr)s); acquireCell(c); if (c) raceCell(c, 0xf, false, (u32)pc);
	spinCheck(pc, (uptr)s, 0);
	commit(c, (uptr)s, false, pc, 0);
	errno = EAGAIN; CUR.err = EAGAIN;
	return -1;
}
int sem_getvalue(sem_t *s, int *v) {
	if (!act()) { *v = *semv(s); return 0; }
	uptr pc = RETPC; markAtomic(pc);
	point(pc, (uptr)s, "sem_getvalue"); checkMem((uptr)s, pc);
	*v = *semv(s);
	Cell *c = cellAt((uptr)s); acquireCell(c); if (c) raceCell(c, 0xf, false, (u32)pc);
	commit(c, (uptr)s, false, pc, *v);
	return 0;
}
int sem_post(sem_t *s) {
	if (!act()) { ++*semv(s); return 0; }
	uptr pc = RETPC; markAtomic(pc);
	point(pc, (uptr)s, "sem_post"); checkMem((uptr)s, pc);
	++*semv(s);
	Cell *c = cellAt((uptr)s); acquireCell(c); releaseCell(c);
	if (c) raceCell(c, 0xf, true, (u32)pc);
	commit(c, (uptr)s, true, pc, 2);
	return 0;
}

// time
static u64 baseClock() { return 1700000000ull * 1000000000ull; }
static void clockRead(uptr pc) {
	if (!act()) return;
	point(pc, (uptr)&R.clock, "clock");
	commit(cellAt((uptr)&__data_start), (uptr)&R.clock, false, pc, R.clock);
}
int gettimeofday(struct timeval *tv, void *) {
	if (!rtMapped || !R.inExec) { tv->tv_sec = 1700000000; tv->tv_usec = 0; return 0; }
	clockRead(RETPC);
	tv->tv_sec = R.clock / 1000000000ull; tv->tv_usec = R.clock % 1000000000ull / 1000; return 0;
}
int clock_gettime(clockid_t, struct timespec *ts) {
	if (!rtMapped || !R.inExec || R.inHost) { return syscall(SYS_clock_gettime, CLOCK_MONOTONIC, ts); }
	clockRead(RETPC);
	ts->tv_sec = R.clock / 1000000000ull; ts->tv_nsec = R.clock % 1000000000ull; return 0;
}
time_t time(time_t *t) {
	time_t v = 1700000000;
	if (rtMapped && R.inExec && !R.inHost) { clockRead(RETPC); v = R.clock / 1000000000ull; }
	if (t) *t = v;
	return v;
}
clock_t clock(void) { if (act()) { clockRead(RETPC); return R.clock / 1000; } return 0; }
static void sleepNs(u64 ns, uptr pc) {
	if (!act()) return;
	noteStep(pc, 0, "sleep");
	CUR.st = B_SLEEP; CUR.deadline = R.clock + ns; CUR.timedOut = false;
	if (!ns) { CUR.st = B_YIELD; CUR.woken = false; }
	blockNow();
	CUR.st = READY; CUR.deadline = 0;
	commit(cellAt((uptr)&__data_start), (uptr)&R.clock, true, pc, R.clock);
}
int usleep(useconds_t us) { sleepNs(us * 1000ull, RETPC); return 0; }
unsigned sleep(unsigned s) { sleepNs(s * 1000000000ull, RETPC); return 0; }
int nanosleep(const struct timespec *ts, struct timespec *) { sleepNs(ts->tv_sec * 1000000000ull + ts->tv_nsec, RETPC); return 0; }
int sched_yield(void) { if (act()) mc::yield(); return 0; }

// static initialisation guards
int __cxa_guard_acquire(u64 *g) {
	if (!act()) return *(u8 *)g == 0;
	uptr pc = RETPC; uptr a = (uptr)g;
	markAtomic(pc);
	point(pc, a, "static-init");
	u8 *b = (u8 *)g;
	if (b[0]) { Cell *c = cellAt(a); acquireCell(c); commit(c, a, false, pc, 1); return 0; }
	while (b[1]) {
		CUR.st = B_GUARD; CUR.waitObj = a; blockNow(); CUR.st = READY;
	}
	Cell *c = cellAt(a); acquireCell(c);
	if (b[0]) { commit(c, a, false, pc, 1); return 0; }
	b[1] = 1; commit(c, a, true, pc, 0);
	return 1;
}
void __cxa_guard_release(u64 *g) {
	u8 *b = (u8 *)g;
	if (!act()) { b[0] = 1; return; }
	uptr pc = RETPC; uptr a = (uptr)g; 
	point(pc, a, "static-init-done");
	b[0] = 1; b[1] = 0;
	Cell *c = cellAt(a); acquireCell(c); releaseCell(c); commit(c, a, true, pc, 0);
}
void __cxa_guard_abort(u64 *g) {
	u8 *b = (u8 *)g;
	if (!act()) { b[1] = 0; return; }
	uptr pc = RETPC; uptr a = (uptr)g;
	b[1] = 0;
	Cell *c = cellAt(a); acquireCell(c); releaseCell(c); commit(c, a, true, pc, 0);
}
int atexit(void (*)(void)) { return 0; }
int __cxa_atexit(void (*)(void *), void *, void *) { return 0; }
void *__cxa_get_globals(void) {
	static EhGlobals host;
	if (act()) return &CUR.eh;
	return &host;
}
void *__cxa_get_globals_fast(void) { return __cxa_get_globals(); }
struct EmuCtl { size_t size, align; uptr index; void *templ; };
void *__emutls_get_address(EmuCtl *c) {
	rtInit();
	static uptr next = 0;
	if (!c->index) c->index = ++next;
	static void *hostTls[128];
	void **slot = act() ? &CUR.tls[c->index & 127] : &hostTls[c->index & 127];
	if (!*slot) {
		bool on = act();
		*slot = heapAlloc(c->size, true);
		if (on) R.live--;
		if (c->templ) memcpy(*slot, c->templ, c->size);
	}
	return *slot;
}
void abort(void) {
	if (act()) FAIL("abort() called");
	_exit(98);
}
int sigaction(int, const struct sigaction *, struct sigaction *) { return 0; }
}
static int realSigaction(int sig, void (*h)(int, siginfo_t *, void *)) {
	struct ksa { void (*h)(int, siginfo_t *, void *); unsigned long flags; void (*rest)(void); unsigned long mask; } k;
	extern void lsmc_restorer(void) asm("lsmc_restorer");
	memset(&k, 0, sizeof k);
	k.h = h; k.flags = SA_SIGINFO | 0x04000000 | SA_ONSTACK | SA_NODEFER; k.rest = &lsmc_restorer;
	return syscall(SYS_rt_sigaction, sig, &k, 0, 8);
}
asm(".text\n.globl lsmc_restorer\nlsmc_restorer:\n movq $15,%rax\n syscall\n");

void mc::Sem::post() {
	uptr pc = RETPC, a = (uptr)&v; markAtomic(pc);
	::point(pc, a, "Sem.post"); checkMem(a, pc);
	v = v + 1;
	Cell *c = cellAt(a); acquireCell(c); releaseCell(c); commit(c, a, true, pc, 0);
}
void mc::Sem::wait() {
	uptr pc = RETPC, a = (uptr)&v; markAtomic(pc);
	noteStep(pc, a, "Sem.wait");
	CUR.st = B_SEM; CUR.waitObj = a; CUR.deadline = 0;
	blockNow();
	CUR.st = READY; v = v - 1;
	Cell *c = cellAt(a); acquireCell(c); releaseCell(c); commit(c, a, true, pc, 0);
}
bool mc::Sem::tryWait() {
	uptr pc = RETPC, a = (uptr)&v; markAtomic(pc);
	::point(pc, a, "Sem.tryWait");
	Cell *c = cellAt(a); acquireCell(c);
	if (v > 0) { v = v - 1; releaseCell(c); commit(c, a, true, pc, 0); return true; }
	commit(c, a, false, pc, 0); return false;
}

// ------------------------------------------------------------------ execution and search
static void snapshot() {
	size_t n = (uptr)&_end - (uptr)&__data_start;
	R.snapData = (char *)mapAny(n);
	memcpy(R.snapData, &__data_start, n);
	uptr base = ARENA + ARENA_SZ * SYS;
	R.sysSnapPos = R.sysPos;
	R.snapSys = (char *)mapAny(R.sysPos - base + 8);
	memcpy(R.snapSys, (void *)base, R.sysPos - base);
	R.snapMap = (char *)mapAny((R.sysPos - base) / 8 + 8);
	memcpy(R.snapMap, (u8 *)AMAP + ((base - ARENA) >> 3), (R.sysPos - base) / 8);
	R.haveSnap = true;
}
static void restore() {
	size_t n = (uptr)&_end - (uptr)&__data_start;
	memcpy(&__data_start, R.snapData, n);
	uptr base = ARENA + ARENA_SZ * SYS;
	memcpy((void *)base, R.snapSys, R.sysSnapPos - base);
	memcpy((u8 *)AMAP + ((base - ARENA) >> 3), R.snapMap, (R.sysSnapPos - base) / 8);
	for (int i = 0; i < MAXT; i++) if (R.t[i].arenaPos) {
		uptr b = ARENA + ARENA_SZ * i;
		memset((u8 *)AMAP + ((b - ARENA) >> 3), 0, (R.t[i].arenaPos - b) / 8 + 1);
	}
}
static void runOnce() {
	restore();
	R.epoch++;
	R.nthr = 0; R.cur = -1; R.clock = baseClock(); R.fp = 0; R.fpOrder = 0; R.steps = 0; R.plain = 0; R.forced = 0; R.live = 0;
	R.used = 0; R.pos = 0; R.nev = 0; R.outcome = 0; R.nsync = 0; R.ntrace = 0; R.violation = false; R.pruned = false; R.diverged = false;
	R.failThr = 0; R.nend = 0; R.msg[0] = 0; R.newRace = false; R.quiet = false;
	for (int i = 0; i < MAXT; i++) { R.t[i].st = UNUSED; }
	newThread();
	R.t[0].harness = true;
	R.inExec = true;
	resumeThread(0);
	// back in host
	R.inHost = true; R.cur = -1;
	if (!R.violation && !R.pruned && !R.diverged && !R.horizonHit) {
		if ((R.scnFlags & mc::F_LEAK) && R.live != 0) { R.violation = true; snprintf(R.msg, sizeof R.msg, "memory leak: %lu heap blocks still allocated at the end", (unsigned long)R.live); }
	}
	R.inExec = false;
	R.execs++;
	R.totPlain += R.plain;
}

struct ScnList { const char *name; int qb, tb; mc::body_t body; unsigned flags; };
static ScnList scns[256]; static int nscn = 0;
mc::Reg::Reg(const char *name, int qb, int tb, body_t body, unsigned flags) { ScnList s = {name, qb, tb, body, flags}; scns[nscn++] = s; }

static double realNow() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static double cpuNow() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static void jstr(const char *s) { putchar('"'); for (; *s; s++) { if (*s == '"' || *s == '\\') putchar('\\'); if ((u8)*s >= 32) putchar(*s); } putchar('"'); }

static volatile int segvCount = 0;
static void onSegv(int sig, siginfo_t *si, void *) {
	if (R.inExec && !R.inHost && R.cur >= 0) {
		R.violation = true;
		snprintf(R.msg, sizeof R.msg, "%s in thread %d", sig == SIGSEGV ? "SIGSEGV (invalid memory access)" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGBUS", R.cur);
		if (R.verbose) describeThreads();
		toHost();
	}
	const char m[] = "engine crashed outside of an execution\n"; (void)!write(2, m, sizeof m - 1);
	_exit(99);
}
static u64 lastTicks = 0; static int stuck = 0;
static void onAlarm(int, siginfo_t *, void *) {
	// .data is restored per execution, keep the counters in R
	if (R.inExec && !R.inHost && R.cur >= 0) {
		static const int LIM = 6;
		u64 now = R.totSteps * 1000003ull + R.execs;
		if (now == R.lastWritePc) { R.sample[255]++; } else { R.lastWritePc = now; R.sample[255] = 0; }
		if (R.sample[255] >= LIM) {
			R.violation = true;
			snprintf(R.msg, sizeof R.msg, "thread %d runs without reaching a scheduling point (hang)", R.cur);
			if (R.verbose) describeThreads();
			toHost();
		}
	}
}

static bool addOutcome(u64 o) {
	for (int i = 0; i < R.nout; i++) if (R.outc[i] == o) return false;
	if (R.nout < 65536) R.outc[R.nout++] = o;
	return true;
}

int main(int argc, char **argv) {
	rtInit();
	const char *only = 0, *replay = 0; bool thorough = false; int boundOverride = -1; double tlimit = 0; const char *fill = 0;
	const char *choices = 0; u64 maxSteps = 20000; bool list = false; int startBound = 0;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--list")) list = true;
		else if (!strcmp(argv[i], "--scenario")) only = argv[++i];
		else if (!strcmp(argv[i], "--thorough")) thorough = true;
		else if (!strcmp(argv[i], "--bound")) boundOverride = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--start")) startBound = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--time")) tlimit = atof(argv[++i]);
		else if (!strcmp(argv[i], "--fill")) fill = argv[++i];
		else if (!strcmp(argv[i], "--steps")) maxSteps = atol(argv[++i]);
		else if (!strcmp(argv[i], "--choices")) { replay = "x"; choices = argv[++i]; }
	}
	static char outbuf[1 << 16]; setvbuf(stdout, (char *)mapAny(1 << 16), _IOFBF, 1 << 16); (void)outbuf;
	if (list) { for (int i = 0; i < nscn; i++) printf("%s %d %d\n", scns[i].name, scns[i].qb, scns[i].tb); fflush(stdout); _exit(0); }
	int si = -1;
	for (int i = 0; i < nscn; i++) if (only && !strcmp(scns[i].name, only)) si = i;
	if (si < 0) { fprintf(stderr, "no such scenario\n"); _exit(2); }
	R.scn = scns[si].name; R.body = scns[si].body; R.scnFlags = scns[si].flags;
	int bmax = boundOverride >= 0 ? boundOverride : (thorough ? scns[si].tb : scns[si].qb);
	if (fill) R.fill = (u8)strtol(fill, 0, 0);
	R.maxSteps = maxSteps;
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 18; ss.ss_sp = mapAny(ss.ss_size); sigaltstack(&ss, 0);
	realSigaction(SIGSEGV, onSegv); realSigaction(SIGBUS, onSegv); realSigaction(SIGFPE, onSegv); realSigaction(SIGILL, onSegv);
	realSigaction(SIGPROF, onAlarm);
	struct itimerval it = {{2, 0}, {2, 0}}; setitimer(ITIMER_PROF, &it, 0);
	R.inHost = true;
	snapshot();
	double t0 = realNow();
	if (replay) {
		// choices: comma separated racy pcs, then ';', then choice indices
		R.replaying = true; R.bound = 1000;
		const char *p = choices; 
		int b = strtol(p, (char **)&p, 10); R.bound = b; if (*p == ';') p++;
		while (*p && *p != ';') { u32 pc = strtoul(p, (char **)&p, 16); R.racy[(uptr)pc - (uptr)&__executable_start] |= 1; if (*p == ',') p++; }
		if (*p == ';') p++;
		R.nnodes = 0;
		while (*p) { R.nodes[R.nnodes++].idx = strtol(p, (char **)&p, 10); if (*p == ',') p++; }
		R.verbose = true;
		runOnce();
		for (int i = 0; i < R.ntrace; i++) {
			Step &s = R.trace[i];
			printf("STEP t%d%s%s op=%s pc=%lx addr=%lx\n", s.tid, (s.flags & 1) ? " *" : "", (s.flags & 0x80) ? " TIMEOUT" : "", s.op ? s.op : "-", (unsigned long)s.pc, (unsigned long)s.addr);
		}
		for (int i = 0; i < R.nev; i++) printf("EVENT t%d code=%d\n", R.evThr[i], R.evCode[i]);
		printf("RESULT %s\n", R.diverged ? "DIVERGED" : R.violation ? R.msg : "ok");
		fflush(stdout);
		_exit(R.violation ? 1 : R.diverged ? 3 : 0);
	}
	bool capped = false; int doneBound = -1; int restarts = 0;
	u64 sumStates = 0;
	bool viol = false, engineErr = false;
	double cpu0 = cpuNow();
	for (int b = startBound; b <= bmax && !viol && !capped && !engineErr; b++) {
	again:
		R.bound = b; cacheClear(); R.nnodes = 0; R.nout = 0;
		u64 iter = 0;
		for (;;) {
			runOnce();
			if (R.diverged) { engineErr = true; break; }
			if (R.horizonHit) { engineErr = true; break; }
			if (R.newRace) { restarts++; goto again; }
			if (R.violation) { viol = true; break; }
			if (!R.pruned) { if (R.nend) for (int i = 0; i < R.nend; i++) R.endFn[i](R.endArg[i]); addOutcome(R.outcome);
				if (R.nsample == 0 && R.pos > 2 && b == bmax) { R.nsample = R.pos < 250 ? R.pos : 250; for (int i = 0; i < R.nsample; i++) R.sample[i] = R.nodes[i].idx; } }
			else R.prunedExecs++;
			// backtrack
			while (R.nnodes > 0) { Node &nd = R.nodes[R.nnodes - 1]; if (nd.idx + 1 < nd.n) { nd.idx++; break; } R.nnodes--; }
			if (R.nnodes == 0) break;
			if ((++iter & 63) == 0 && tlimit > 0 && cpuNow() - cpu0 > tlimit) { capped = true; break; }
		}
		if (!capped && !viol && !engineErr) { doneBound = b; sumStates = R.cacheN; }
		else if (capped) sumStates = R.cacheN > sumStates ? R.cacheN : sumStates;
	}
	bool replayOk = true;
	if (viol) {
		// replay the same schedule: it must fail the same way
		static char first[4096]; memcpy(R.repMsg, R.msg, sizeof R.msg); (void)first;
		int n = R.pos; u64 steps = R.steps; bool nr = R.newRace; (void)nr;
		R.nnodes = n; R.replaying = true;
		runOnce();
		replayOk = R.violation && !strcmp(R.msg, R.repMsg) && R.steps == steps;
		R.replaying = false;
		memcpy(R.msg, R.repMsg, sizeof R.msg);
	}
	printf("{\"scenario\":\"%s\",\"bound\":%d,\"completed_bound\":%d,\"capped\":%s,\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"pruned\":%lu,\"outcomes\":%d,\"racy_sites\":%d,\"restarts\":%d,\"wall\":%.2f",
		R.scn, bmax, doneBound, capped ? "true" : "false", (unsigned long)(sumStates ? sumStates : R.cacheN), (unsigned long)R.totSteps, (unsigned long)R.execs, (unsigned long)R.prunedExecs, R.nout, R.nracy, restarts, realNow() - t0);
	printf(",\"sample\":[");
	for (int i = 0; i < R.nsample; i++) printf("%s%d", i ? "," : "", R.sample[i]);
	printf("],\"engine_error\":%s,\"violation\":", engineErr ? (R.diverged ? "\"replay divergence\"" : "\"too many nodes\"") : "null");
	if (viol) {
		printf("{\"msg\":"); jstr(R.msg);
		printf(",\"replay_ok\":%s,\"choices\":\"%d;", replayOk ? "true" : "false", R.bound);
		bool f = true;
		for (u32 i = 0; i < RACYSZ && R.nracy; i++) if (R.racy[i] & 1) { printf("%s%lx", f ? "" : ",", (unsigned long)(i + (uptr)&__executable_start)); f = false; }
		printf(";");
		for (int i = 0; i < R.nnodes; i++) printf("%s%d", i ? "," : "", R.nodes[i].idx);
		printf("\"}");
	} else printf("null");
	printf("}\n");
	fflush(stdout);
	_exit(viol ? 1 : engineErr ? 3 : 0);
}
