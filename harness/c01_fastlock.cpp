#include "lslife.h"
#include "cs.h"
#include "lightspeed/mt/fastlock.h"
using namespace LightSpeed;

struct St { FastLock lk; Cs cs; int order[8]; int n; St():n(0) {} };
struct LockBody { St *s; int rounds; void operator()(int i) const {
	for (int k = 0; k < rounds; k++) { s->lk.lock(); s->cs.run(); s->lk.unlock(); } } };
static void freeAgain(St &s) {
	MC_ASSERT(s.lk.tryLock(), "the lock is not free after everybody has unlocked it");
	s.cs.run();
	MC_ASSERT(!s.lk.tryLock(), "try-lock succeeded on a held lock");
	s.lk.unlock();
	s.lk.lock(); s.cs.run(); s.lk.unlock();
}

MC_SCENARIO(fastlock_2x2, 3, 5) {
	St s; LsPool<2> p; LockBody b = {&s, 2};
	p.run(b);
	MC_ASSERT(s.cs.total == 4, "critical sections lost");
	freeAgain(s);
}
MC_SCENARIO(fastlock_3x1, 3, 4) {
	St s; LsPool<3> p; LockBody b = {&s, 1};
	p.run(b);
	MC_ASSERT(s.cs.total == 3, "critical sections lost");
	freeAgain(s);
}
MC_SCENARIO(fastlock_3x2, 2, 3) {
	St s; LsPool<3> p; LockBody b = {&s, 2};
	p.run(b);
	MC_ASSERT(s.cs.total == 6, "critical sections lost");
}
MC_SCENARIO(fastlock_4x1, 1, 2) {
	St s; LsPool<4> p; LockBody b = {&s, 1};
	p.run(b);
	MC_ASSERT(s.cs.total == 4, "critical sections lost");
}
struct TryBody { St *s; void operator()(int i) const {
	if (i == 0) { for (int k = 0; k < 2; k++) if (s->lk.tryLock()) { s->cs.run(); s->lk.unlock(); mc::outcome(k); } }
	else { s->lk.lock(); s->cs.run(); s->lk.unlock(); } } };
MC_SCENARIO(trylock_3, 2, 3) {
	St s; LsPool<3> p; TryBody b = {&s};
	p.run(b);
	freeAgain(s);
}
MC_SCENARIO(trylock_2, 3, 5) {
	St s; LsPool<2> p; TryBody b = {&s};
	p.run(b);
	freeAgain(s);
}
struct AsyncBody { St *s; int n; void operator()(int i) const {
	if (i == 0) {
		for (int k = 0; k < n; k++) {
			{ FastLock::Async a(s->lk); mc::point(); }
			s->cs.run(); s->lk.unlock();
		}
	} else { s->lk.lock(); s->cs.run(); s->lk.unlock(); } } };
MC_SCENARIO(async_2, 3, 4) {
	St s; LsPool<2> p; AsyncBody b = {&s, 2};
	p.run(b);
	MC_ASSERT(s.cs.total == 3, "critical sections lost");
	freeAgain(s);
}
MC_SCENARIO(async_3, 2, 3) {
	St s; LsPool<3> p; AsyncBody b = {&s, 1};
	p.run(b);
	MC_ASSERT(s.cs.total == 3, "critical sections lost");
}
MC_SCENARIO(async_free_lock, 2, 3) {
	St s;
	{ FastLock::Async a(s.lk); MC_ASSERT(!s.lk.tryLock(), "try-lock succeeded although an asynchronous request owns the lock"); }
	s.cs.run(); s.lk.unlock();
	freeAgain(s);
}
// two pending async requests of different threads, both must be served
struct Async2Body { St *s; void operator()(int i) const {
	{ FastLock::Async a(s->lk); } s->cs.run(); s->lk.unlock(); } };
MC_SCENARIO(async_both, 2, 4) {
	St s; LsPool<2> p; Async2Body b = {&s};
	p.prepare(b);
	s.lk.lock(); p.go_all(); mc::point(); s.cs.run(); s.lk.unlock();
	p.wait_all(); p.finish();
	MC_ASSERT(s.cs.total == 3, "critical sections lost");
	freeAgain(s);
}
// the waiter ends and disappears right after it got the lock
struct OneBody { St *s; void operator()(int i) const { s->lk.lock(); s->cs.run(); s->lk.unlock(); } };
MC_SCENARIO(waiter_disappears, 2, 3) {
	St s; LsMortal *m = new LsMortal; OneBody b = {&s};
	m->prepare(b);
	s.lk.lock();
	m->go_all();
	mc::point();
	s.cs.run();
	s.lk.unlock();
	m->finish(); delete m;
	MC_ASSERT(s.cs.total == 2, "critical sections lost");
	freeAgain(s);
}

// ---- recursive variant
struct StR { FastLockR lk; Cs cs; };
struct RBody { StR *s; void operator()(int i) const {
	s->lk.lock();
	s->cs.enter();
	s->lk.lock();
	MC_ASSERT(s->lk.tryLock(), "try-lock by the holder failed");
	s->lk.unlock();
	MC_ASSERT(s->cs.inside == 1, "lost exclusion");
	s->lk.unlock();
	mc::point();
	s->cs.leave();
	s->lk.unlock();
} };
static void freeAgainR(StR &s) {
	MC_ASSERT(s.lk.tryLock(), "the recursive lock is not free after everybody has unlocked it");
	s.cs.run();
	s.lk.unlock();
	s.lk.unlock();   // superfluous unlock is ignored
	s.lk.lock(); s.cs.run(); s.lk.unlock();
}
MC_SCENARIO(recursive_2, 3, 4) {
	StR s; LsPool<2> p; RBody b = {&s};
	p.run(b);
	MC_ASSERT(s.cs.total == 2, "critical sections lost");
	freeAgainR(s);
}
MC_SCENARIO(recursive_3, 2, 3) {
	StR s; LsPool<3> p; RBody b = {&s};
	p.run(b);
	MC_ASSERT(s.cs.total == 3, "critical sections lost");
}
struct RTryBody { StR *s; void operator()(int i) const {
	if (i == 0) { s->lk.lock(); s->lk.lock(); s->cs.run(); s->lk.unlock(); mc::point(); s->cs.run(); s->lk.unlock(); }
	else for (int k = 0; k < 2; k++) if (s->lk.tryLock()) { s->cs.run(); s->lk.unlock(); mc::outcome(k); } 
} };
MC_SCENARIO(recursive_try, 3, 4) {
	StR s; LsPool<2> p; RTryBody b = {&s};
	p.run(b);
	freeAgainR(s);
}
// save/restore the recursion: the lock is completely released in between
struct RSaveBody { StR *s; bool tr; void operator()(int i) const {
	if (i == 0) {
		s->lk.lock(); s->lk.lock(); s->cs.enter(); s->cs.leave();
		natural n = s->lk.unlockSaveRecusion();
		MC_ASSERT(n == 2, "saved recursion is %d, not 2", (int)n);
		mc::point();
		bool ok;
		if (tr) { ok = s->lk.lockRestoreRecursion(n, true); }
		else { ok = s->lk.lockRestoreRecursion(n, false); MC_ASSERT(ok, "restoring the recursion failed"); }
		mc::outcome(ok);
		if (ok) { s->cs.run(); s->lk.unlock(); mc::point(); s->cs.run(); s->lk.unlock(); }
		else { s->lk.lock(); s->cs.run(); s->lk.unlock(); }
	} else { s->lk.lock(); s->cs.run(); s->lk.unlock(); }
} };
MC_SCENARIO(save_restore, 3, 4) {
	StR s; LsPool<2> p; RSaveBody b = {&s, false};
	p.run(b);
	freeAgainR(s);
}
MC_SCENARIO(save_restore_try, 3, 4) {
	StR s; LsPool<2> p; RSaveBody b = {&s, true};
	p.run(b);
	freeAgainR(s);
}
// after save the lock belongs to nobody: a try-lock of the former holder does not count as recursion
MC_SCENARIO(save_then_other, 2, 3) {
	StR s; LsPool<1> p;
	struct B { StR *s; void operator()(int) const { s->lk.lock(); s->cs.enter(); mc::point(); s->cs.leave(); s->lk.unlock(); } } b = {&s};
	p.prepare(b);
	s.lk.lock(); s.cs.run();
	natural n = s.lk.unlockSaveRecusion();
	p.go_all();
	if (s.lk.tryLock()) { s.cs.run(); s.lk.unlock(); mc::outcome(1); }
	s.lk.lockRestoreRecursion(n, false);
	s.cs.run(); s.lk.unlock();
	p.wait_all(); p.finish();
	freeAgainR(s);
}
// ---- the same with stray wake-ups
MC_STRAY(fastlock_2x2, 1, 2)
MC_STRAY(fastlock_3x1, 1, 2)
MC_STRAY(fastlock_3x2, 1, 2)
MC_STRAY(trylock_3, 1, 2)
MC_STRAY(trylock_2, 1, 2)
MC_STRAY(async_2, 1, 2)
MC_STRAY(async_3, 1, 2)
MC_STRAY(async_free_lock, 1, 2)
MC_STRAY(async_both, 1, 2)
MC_STRAY(waiter_disappears, 1, 2)
MC_STRAY(recursive_2, 1, 2)
MC_STRAY(recursive_3, 1, 2)
MC_STRAY(recursive_try, 1, 2)
MC_STRAY(save_restore, 1, 2)
MC_STRAY(save_restore_try, 1, 2)
MC_STRAY(save_then_other, 1, 2)
