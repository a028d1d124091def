#include "lslife.h"
#include "lightspeed/mt/semaphore.h"
#include "lightspeed/mt/timeout.h"
using namespace LightSpeed;
struct St { Semaphore s; volatile int cap, in, acquired; St(int n):s(n),cap(n),in(0),acquired(0) {}
	void enter() { mc::NoPreempt _; in = in + 1; acquired = acquired + 1; MC_ASSERT(in <= cap, "%d threads passed a semaphore of %d units", in, cap); }
	void leave() { mc::NoPreempt _; in = in - 1; }
	void drain(int n) { for (int i = 0; i < n; i++) MC_ASSERT(s.tryLock(), "a unit was lost: only %d of %d units are left", i, n); MC_ASSERT(!s.tryLock(), "there are more units than were put in"); for (int i = 0; i < n; i++) s.unlock(); }
};
// p plain, t timed, y try, a async, c async+cancel, x timed interruptible, i interruptible
static void act(St *s, char c) {
	switch (c) {
	case 'p': s->s.lock(); break;
	case 't': { long t0 = mc::now_ms(); if (!s->s.lock(Timeout(10))) { MC_ASSERT(mc::now_ms() >= t0 + 10, "a timed acquisition gave up before its time"); mc::outcome(1); return; } break; }
	case 'x': if (!s->s.lock(Timeout(10), SyncPt::interruptable)) { mc::outcome(2); return; } break;
	case 'i': if (!s->s.lock(SyncPt::interruptable)) { mc::outcome(6); return; } break;
	case 'y': if (!s->s.tryLock()) { mc::outcome(3); return; } break;
	case 'a': { Semaphore::Slot sl; s->s.lockAsync(sl); while (!sl) Thread::sleep(nil); break; }
	case 'c': { Semaphore::Slot sl; s->s.lockAsync(sl); mc::point(); mc::outcome(4 + (bool)sl); s->s.cancelLockAsync(sl); return; }
	}
	s->enter(); mc::point(); s->leave(); s->s.unlock();
}
template<int N> static void mix(int cap, const char *a, const char *b, const char *c = "") {
	const char *prog[] = {a, b, c};
	St s(cap); LsPool<N> p;
	struct B { St *s; const char *const *prog; void operator()(int i) const { for (const char *c = prog[i]; *c; c++) act(s, *c); } } x = {&s, prog};
	p.run(x);
	s.drain(cap);
}
#define MIX(name, qb, tb, n, cap, ...) MC_SCENARIO(name, qb, tb) { mix<n>(cap, __VA_ARGS__); }
MIX(plain_2x2, 3, 4, 2, 1, "pp", "pp")
MIX(plain_3, 2, 3, 3, 1, "p", "p", "p")
MIX(plain_3_cap2, 2, 3, 3, 2, "p", "p", "p")
MIX(timed_2, 3, 4, 2, 1, "p", "t")
MIX(timed_3, 2, 3, 3, 1, "p", "t", "p")
MIX(timed_both, 3, 3, 2, 1, "t", "t")
MIX(timed_interruptible, 2, 3, 2, 1, "x", "pt")
MIX(interruptible, 2, 3, 2, 1, "i", "p")
MIX(try_2, 3, 5, 2, 1, "yy", "pp")
MIX(async_2, 3, 4, 2, 1, "aa", "p")
MIX(async_3, 2, 3, 3, 1, "a", "a", "p")
MIX(cancel_2, 3, 4, 2, 1, "cc", "p")
MIX(cancel_3, 2, 3, 3, 1, "c", "p", "p")
MIX(cancel_cap2, 2, 3, 3, 2, "cc", "p", "p")
// producer/consumer: units come from releases only
MC_SCENARIO(producer_consumer, 2, 4) {
	St s(0); s.cap = 2; LsPool<3> p;
	struct B { St *s; void operator()(int i) const { if (i == 0) { s->s.unlock(); mc::point(); s->s.unlock(); } else { s->s.lock(); s->enter(); } } } b = {&s};
	p.run(b);
	MC_ASSERT(!s.s.tryLock(), "a unit was duplicated");
}
MC_SCENARIO(producer_timed, 2, 4) {
	St s(0); s.cap = 1; LsPool<3> p;
	struct B { St *s; void operator()(int i) const { if (i == 0) s->s.unlock(); else if (s->s.lock(Timeout(5))) s->enter(); } } b = {&s};
	p.run(b);
	mc::outcome(s.acquired);
	if (s.acquired == 0) s.drain(1); else MC_ASSERT(!s.s.tryLock(), "a unit was duplicated");
}
MC_SCENARIO(interrupted_by_finish, 2, 4) {
	St s(0); s.cap = 1; Thread t; mc::quiet(true);
	struct B { St *s; void operator()() const { if (s->s.lock(SyncPt::interruptOnExit)) s->enter(); else MC_ASSERT(Thread::canFinish(), "an interruptible acquisition failed without a finish request"); } } b = {&s};
	t.start(ThreadFunction::create(b)); mc::quiet(false);
	t.finish(); s.s.unlock(); t.join();
	if (s.acquired == 0) s.drain(1); else MC_ASSERT(!s.s.tryLock(), "a unit was duplicated");
}
MC_SCENARIO(waiter_disappears, 2, 3) {
	St s(1); LsMortal *m = new LsMortal;
	struct B { St *s; void operator()(int) const { act(s, 'p'); } } b = {&s};
	m->prepare(b); s.s.lock(); m->go_all(); mc::point(); s.s.unlock();
	m->finish(); delete m; s.drain(1);
}
// ---- the same with stray wake-ups
MC_STRAY(producer_consumer, 1, 2)
MC_STRAY(producer_timed, 1, 2)
MC_STRAY(interrupted_by_finish, 1, 2)
MC_STRAY(waiter_disappears, 1, 2)
