#include "lslife.h"
#include "lightspeed/mt/rwlock.h"
#include "lightspeed/mt/timeout.h"
using namespace LightSpeed;
struct Rw { volatile int r, w; Rw():r(0),w(0) {}
	void chk() { MC_ASSERT(w <= 1 && (w == 0 || r == 0), "%d writers and %d readers hold the lock together", w, r); }
	void rin() { mc::NoPreempt _; r = r + 1; chk(); } void rout() { mc::NoPreempt _; chk(); r = r - 1; }
	void win() { mc::NoPreempt _; w = w + 1; chk(); } void wout() { mc::NoPreempt _; chk(); w = w - 1; } };
struct St { RWLock lk; Rw o; volatile int maxr; St():maxr(0) {} };
static void rd(St *s) { s->lk.lockRead(); s->o.rin(); mc::point(); if (s->o.r > s->maxr) s->maxr = s->o.r; s->o.rout(); s->lk.unlockRead(); }
static void wr(St *s) { s->lk.lockWrite(); s->o.win(); mc::point(); s->o.wout(); s->lk.unlockWrite(); }
static void trd(St *s) { if (s->lk.tryLockRead()) { mc::outcome(1); s->o.rin(); mc::point(); s->o.rout(); s->lk.unlockRead(); } else mc::outcome(2); }
static void twr(St *s) { if (s->lk.tryLockWrite()) { mc::outcome(3); s->o.win(); mc::point(); s->o.wout(); s->lk.unlockWrite(); } else mc::outcome(4); }
// through the split interfaces
static void rd2(St *s) { RWLock::ReadLock &l = s->lk; Synchronized<RWLock::ReadLock> _(l); s->o.rin(); mc::point(); s->o.rout(); }
static void wr2(St *s) { RWLock::WriteLock &l = s->lk; Synchronized<RWLock::WriteLock> _(l); s->o.win(); mc::point(); s->o.wout(); }
static void act(St *s, char c) { switch (c) { case 'r': rd(s); break; case 'w': wr(s); break; case 'R': trd(s); break; case 'W': twr(s); break; case 's': rd2(s); break; case 'x': wr2(s); break; } }
static void freeAgain(St &s) {
	MC_ASSERT(s.lk.tryLockWrite(), "the lock is not free for writing after everybody has left");
	s.lk.unlockWrite();
	MC_ASSERT(s.lk.tryLockRead(), "the lock is not free for reading after everybody has left");
	MC_ASSERT(s.lk.tryLockRead(), "two readers cannot hold the lock together");
	s.lk.unlockRead(); s.lk.unlockRead();
	wr(&s); rd(&s); wr(&s);
}
template<int N> static void mix(const char *prog[N]) {
	St s; LsPool<N> p;
	struct B { St *s; const char *const *prog; void operator()(int i) const { for (const char *c = prog[i]; *c; c++) act(s, *c); } } b = {&s, prog};
	p.run(b);
	MC_ASSERT(s.o.r == 0 && s.o.w == 0, "oracle");
	mc::outcome(10 + s.maxr);
	freeAgain(s);
}
#define MIX2(name, qb, tb, a, b) MC_SCENARIO(name, qb, tb) { const char *p[] = {a, b}; mix<2>(p); }
#define MIX3(name, qb, tb, a, b, c) MC_SCENARIO(name, qb, tb) { const char *p[] = {a, b, c}; mix<3>(p); }
MIX2(w_w, 3, 5, "ww", "ww")
MIX2(r_w, 3, 5, "rr", "ww")
MIX2(rw_wr, 3, 4, "rw", "wr")
MIX2(r_r, 3, 5, "rr", "rr")
MIX3(w_w_w, 2, 3, "w", "w", "w")
MIX3(r_w_r, 2, 3, "r", "w", "r")
MIX3(r_w_w, 2, 3, "r", "w", "w")
MIX3(r_w_rw, 1, 2, "rw", "wr", "wr")
MIX3(try_mix, 2, 3, "R", "w", "W")
MIX2(try_rw, 3, 5, "RW", "wr")
MIX3(split_ifc, 2, 3, "s", "x", "x")
// the lock is held, all kinds of waiters queue up, all are served
static void held(bool write, const char *a, const char *b, const char *c) {
	const char *prog[] = {a, b, c};
	St s; LsPool<3> p;
	struct B { St *s; const char *const *prog; void operator()(int i) const { for (const char *c = prog[i]; *c; c++) act(s, *c); } } b2 = {&s, prog};
	p.prepare(b2);
	if (write) s.lk.lockWrite(); else s.lk.lockRead();
	p.go_all(); mc::point();
	if (write) { s.o.win(); s.o.wout(); s.lk.unlockWrite(); } else { s.o.rin(); s.o.rout(); s.lk.unlockRead(); }
	p.wait_all(); p.finish();
	freeAgain(s);
}
MC_SCENARIO(held_write_rrw, 2, 2) { held(true, "r", "r", "w"); }
MC_SCENARIO(held_read_wrw, 2, 2) { held(false, "w", "r", "w"); }
// readers run together: two readers meet while both hold the lock
MC_SCENARIO(readers_share, 2, 4) {
	St s; LsPool<2> p; static mc::Sem *m[2]; mc::Sem a, b; m[0] = &a; m[1] = &b;
	struct B { St *s; void operator()(int i) const { s->lk.lockRead(); m[i]->post(); m[1 - i]->wait(); s->lk.unlockRead(); } } x = {&s};
	p.run(x); freeAgain(s);
}
// asynchronous requests on the level lock, cancelled at any moment
struct L { LevelLock lk; Rw o; };
static void lfree(L &s) {
	for (int i = 0; i < 2; i++) {
		MC_ASSERT(s.lk.tryLock(7), "the level lock is not free after everybody has left");
		MC_ASSERT(s.lk.tryLock(7), "the same level cannot be held twice");
		MC_ASSERT(!s.lk.tryLock(8), "two levels are held together");
		s.lk.unlock(); s.lk.unlock();
	}
	s.lk.lock(0); s.lk.unlock();
}
struct LBody { L *s; int cancel; int lvl[3]; void operator()(int i) const {
	if (cancel & (1 << i)) {
		LevelLock::Slot sl(getCurThreadSleepingObj(), lvl[i]);
		s->lk.lockAsync(sl); mc::point(); mc::outcome(sl.signaled);
		s->lk.cancelAsync(sl);
	} else if (cancel & (8 << i)) {
		LevelLock::Slot sl(getCurThreadSleepingObj(), lvl[i]);
		s->lk.lockAsync(sl);
		while (!sl.signaled) threadHalt();
		if (lvl[i]) s->o.win(); else s->o.rin();
		mc::point();
		if (lvl[i]) s->o.wout(); else s->o.rout();
		s->lk.unlock();
	} else {
		s->lk.lock(lvl[i]);
		if (lvl[i]) s->o.win(); else s->o.rin();
		mc::point();
		if (lvl[i]) s->o.wout(); else s->o.rout();
		s->lk.unlock();
	} } };
template<int N> static void lev(int cancel, int a, int b, int c) {
	L s; LsPool<N> p; LBody x = {&s, cancel, {a, b, c}};
	p.run(x); lfree(s);
}
MC_SCENARIO(level_async_2, 3, 4) { lev<2>(8, 1, 2, 0); }
MC_SCENARIO(level_async_3, 2, 3) { lev<3>(8+16, 0, 1, 0); }
MC_SCENARIO(level_cancel_2, 3, 4) { lev<2>(1, 1, 2, 0); }
MC_SCENARIO(level_cancel_both, 3, 4) { lev<2>(3, 1, 2, 0); }
MC_SCENARIO(level_cancel_3, 2, 3) { lev<3>(1, 1, 2, 3); }
MC_SCENARIO(level_cancel_two, 2, 3) { lev<3>(3, 1, 2, 3); }
// a cancelled writer no longer keeps the readers behind it waiting
MC_SCENARIO(level_cancel_unblocks, 2, 3) {
	L s; LsPool<1> p; static volatile int got; got = 0; static mc::Sem *in; mc::Sem i; in = &i;
	struct B { L *s; void operator()(int) const { s->lk.lock(0); got = 1; in->post(); s->lk.unlock(); } } b = {&s};
	p.prepare(b);
	s.lk.lock(0);
	LevelLock::Slot w(getCurThreadSleepingObj(), 5);
	s.lk.lockAsync(w);
	MC_ASSERT(!w.signaled, "a writer was admitted beside a reader");
	p.go_all(); mc::point();
	s.lk.cancelAsync(w);
	i.wait();             // the other reader gets in although this one is still inside
	s.lk.unlock(); p.wait_all(); p.finish(); lfree(s);
}
// sequences of asynchronous requests, cancels and unlocks against the queue model (deterministic, one thread)
MC_SCENARIO(level_sequences, 0, 0) {
	LevelLock lk; const int N = 4; int level[N] = {0, 0, 1, 2};
	char mem[N][sizeof(LevelLock::Slot)]; LevelLock::Slot *sl[N]; int st[N] = {0, 0, 0, 0};   // 0 idle, 1 waiting, 2 holding
	int q[N], qn = 0, cur = 0, cnt = 0;
	for (int k = 0; k < 6; k++) {
		int x = mc::choose(N);
		if (st[x] == 0) {
			sl[x] = new(mem[x]) LevelLock::Slot(getCurThreadSleepingObj(), level[x]);
			lk.lockAsync(*sl[x]);
			if (qn == 0 && (cnt == 0 || cur == level[x])) { st[x] = 2; cur = level[x]; cnt++; } else { st[x] = 1; q[qn++] = x; }
		} else {
			if (st[x] == 1) { int n = 0; for (int i = 0; i < qn; i++) if (q[i] != x) q[n++] = q[i]; qn = n; lk.cancelAsync(*sl[x]); }
			else { cnt--; if (mc::choose(2)) lk.unlock(); else lk.cancelAsync(*sl[x]); }
			st[x] = 0;
			while (qn && (cnt == 0 || level[q[0]] == cur)) { int y = q[0]; for (int i = 1; i < qn; i++) q[i-1] = q[i]; qn--; st[y] = 2; cur = level[y]; cnt++; }
		}
		for (int i = 0; i < N; i++) if (st[i]) MC_ASSERT(sl[i]->signaled == (st[i] == 2), "after %d operations request %d (level %d) %s", k + 1, i, level[i], st[i] == 2 ? "is not granted although nothing conflicts" : "is granted out of turn");
	}
}
MC_SCENARIO(waiter_disappears, 2, 3) {
	St s; LsMortal *m = new LsMortal;
	struct B { St *s; void operator()(int) const { wr(s); } } b = {&s};
	m->prepare(b);
	s.lk.lockWrite(); m->go_all(); mc::point(); s.lk.unlockWrite();
	m->finish(); delete m;
	freeAgain(s);
}
// ---- the same with stray wake-ups
MC_STRAY(held_write_rrw, 1, 2)
MC_STRAY(held_read_wrw, 1, 2)
MC_STRAY(readers_share, 1, 2)
MC_STRAY(level_async_2, 1, 2)
MC_STRAY(level_async_3, 1, 2)
MC_STRAY(level_cancel_2, 1, 2)
MC_STRAY(level_cancel_both, 1, 2)
MC_STRAY(level_cancel_3, 1, 2)
MC_STRAY(level_cancel_two, 1, 2)
MC_STRAY(level_cancel_unblocks, 1, 2)
MC_STRAY(waiter_disappears, 1, 2)
