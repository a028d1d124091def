#include "lslife.h"
#include "cs.h"
#include "lightspeed/mt/mutex.h"
#include "lightspeed/mt/timeout.h"
using namespace LightSpeed;
struct St { Mutex m; Cs cs; volatile int done[6]; St() { for (int i = 0; i < 6; i++) done[i] = 0; } };
static atomicValue me() { return ThreadId::current().asAtomic(); }
static void freeAgain(St &s) {
	MC_ASSERT(s.m.tryLock(), "the mutex is not free after everybody has unlocked it");
	s.cs.run(); s.m.unlock();
	MC_ASSERT(s.m.lock(Timeout(1)), "a timed lock of a free mutex failed");
	s.cs.run(); s.m.unlock();
}
// what: 0 plain, 1 timed, 2 try, 3 recursive, 4 async, 5 async + cancel
static void action(St *s, int what) {
	switch (what) {
	case 0: s->m.lock(); MC_ASSERT(s->m.getOwner() == me(), "the holder is not the owner"); s->cs.run(); s->m.unlock(); break;
	case 1: { long t0 = mc::now_ms();
		bool ok = s->m.lock(Timeout(20)); mc::outcome(ok);
		if (ok) { MC_ASSERT(s->m.getOwner() == me(), "the timed lock succeeded but the mutex is owned by somebody else"); s->cs.run(); s->m.unlock(); }
		else MC_ASSERT(mc::now_ms() >= t0 + 20, "a timed lock gave up before its time");
		break; }
	case 2: if (s->m.tryLock()) { mc::outcome(1); s->cs.run(); s->m.unlock(); } else mc::outcome(2); break;
	case 3: s->m.lock(); s->cs.enter(); s->m.lock(); MC_ASSERT(s->m.getTurns() == 2, "recursion counter is %d, not 2", (int)s->m.getTurns());
		s->m.unlock(); mc::point(); MC_ASSERT(s->m.getOwner() == me(), "the mutex was released by the inner unlock"); s->cs.leave(); s->m.unlock(); break;
	case 4: { Mutex::WaitPt::Slot sl; bool now = s->m.lockAsync(sl); mc::outcome(now);
		if (now) MC_ASSERT(sl, "an asynchronous lock was acquired at once but its slot is not signaled");
		Mutex::WaitPt::wait(sl, nil);
		MC_ASSERT(s->m.getOwner() == me(), "an asynchronous request was granted to somebody else"); s->cs.run(); s->m.unlock(); break; }
	case 5: { Mutex::WaitPt::Slot sl; s->m.lockAsync(sl); mc::point(); mc::outcome((bool)sl); s->m.cancelAsync(sl);
		MC_ASSERT(s->m.getOwner() != me(), "the mutex is still held after the request was cancelled"); break; }
	case 6: if (s->m.tryLock()) { s->cs.enter(); s->m.lock(); s->m.unlock(); mc::point(); MC_ASSERT(s->m.getOwner() == me(), "the mutex was released although it was locked once more than unlocked"); s->cs.leave(); s->m.unlock(); mc::outcome(1); } break;
	}
}
struct Mix { St *s; int a, b, c, n; void operator()(int i) const {
	for (int k = 0; k < n; k++) action(s, i == 0 ? a : i == 1 ? b : c); } };
template<int N> static void mix(int a, int b, int c, int n) {
	St s; LsPool<N> p; Mix x = {&s, a, b, c, n};
	p.run(x);
	freeAgain(s);
}
MC_SCENARIO(plain_2x2, 3, 4) { mix<2>(0, 0, 0, 2); }
MC_SCENARIO(plain_3, 2, 3) { mix<3>(0, 0, 0, 1); }
MC_SCENARIO(plain_3x2, 1, 2) { mix<3>(0, 0, 0, 2); }
MC_SCENARIO(plain_timed, 3, 4) { mix<2>(0, 1, 0, 1); }
MC_SCENARIO(timed_2, 3, 4) { mix<2>(1, 1, 0, 1); }
MC_SCENARIO(plain_plain_timed, 2, 3) { mix<3>(0, 0, 1, 1); }
MC_SCENARIO(timed_timed_plain, 2, 2) { mix<3>(1, 1, 0, 1); }
MC_SCENARIO(plain_try, 3, 5) { mix<2>(0, 2, 0, 2); }
MC_SCENARIO(try_3, 2, 3) { mix<3>(0, 2, 2, 1); }
MC_SCENARIO(recursive_plain, 3, 4) { mix<2>(3, 0, 0, 1); }
MC_SCENARIO(recursive_3, 2, 3) { mix<3>(3, 3, 3, 1); }
MC_SCENARIO(recursive_after_try, 3, 4) { mix<2>(6, 0, 0, 1); }
MC_SCENARIO(async_plain, 3, 4) { mix<2>(4, 0, 0, 1); }
MC_SCENARIO(async_2, 3, 4) { mix<2>(4, 4, 0, 1); }
MC_SCENARIO(async_3, 2, 3) { mix<3>(4, 4, 0, 1); }
MC_SCENARIO(cancel_plain, 3, 4) { mix<2>(5, 0, 0, 1); }
MC_SCENARIO(cancel_3, 2, 3) { mix<3>(5, 0, 0, 1); }
MC_SCENARIO(cancel_cancel_plain, 2, 3) { mix<3>(5, 5, 0, 1); }
MC_SCENARIO(async_timed_recursive, 2, 2) { mix<3>(4, 1, 3, 1); }
// the holder blocks two kinds of waiters for sure; they all must be served
struct Held { St *s; int a, b; void operator()(int i) const { action(s, i == 0 ? a : b); s->done[i] = 1; } };
static void held(int a, int b) {
	St s; LsPool<2> p; Held h = {&s, a, b};
	p.prepare(h);
	s.m.lock(); p.go_all();
	while (!mc::blocked(p.tids[0]) || !mc::blocked(p.tids[1])) mc::yield();
	s.cs.run(); s.m.unlock();
	p.wait_all(); p.finish();
	freeAgain(s);
}
MC_SCENARIO(held_plain_plain, 2, 4) { held(0, 0); }
MC_SCENARIO(held_plain_async, 2, 4) { held(0, 4); }
MC_SCENARIO(held_timed_plain, 2, 4) { held(1, 0); }
MC_SCENARIO(held_async_recursive, 2, 4) { held(4, 3); }
// request made while the requesting thread holds the mutex itself: recursion
MC_SCENARIO(async_by_holder, 2, 4) {
	St s; LsPool<1> p;
	struct B { St *s; void operator()(int) const { s->m.lock(); s->cs.run(); s->m.unlock(); } } b = {&s};
	p.prepare(b);
	s.m.lock(); p.go_all();
	Mutex::WaitPt::Slot sl; MC_ASSERT(s.m.lockAsync(sl) && sl, "an asynchronous request by the holder was not granted at once");
	s.cs.enter(); s.m.cancelAsync(sl);
	mc::point();
	MC_ASSERT(s.m.getOwner() == me(), "cancelling the inner request released the mutex");
	s.cs.leave(); s.m.unlock();
	p.wait_all(); p.finish();
	freeAgain(s);
}
// ownership is handed to another thread explicitly
MC_SCENARIO(set_owner, 2, 4) {
	St s; LsPool<2> p; static volatile atomicValue id; static mc::Sem *rdy, *go; mc::Sem r, g; rdy = &r; go = &g;
	struct B { St *s; void operator()(int i) const {
		if (i == 0) { id = me(); rdy->post(); go->wait(); MC_ASSERT(s->m.getOwner() == me(), "ownership was not transferred"); s->cs.run(); s->m.unlock(); }
		else { s->m.lock(); s->cs.run(); s->m.unlock(); } } } b = {&s};
	p.prepare(b);
	s.m.lock(); p.go_all(); r.wait();
	s.cs.run();
	MC_ASSERT(s.m.setOwner(id), "the holder could not hand over the mutex");
	MC_ASSERT(!s.m.setOwner(id), "a thread that does not own the mutex handed it over");
	g.post();
	p.wait_all(); p.finish();
	freeAgain(s);
}
MC_SCENARIO(waiter_disappears, 2, 3) {
	St s; LsMortal *m = new LsMortal;
	struct B { St *s; void operator()(int) const { action(s, 0); } } b = {&s};
	m->prepare(b);
	s.m.lock(); m->go_all(); mc::point(); s.cs.run(); s.m.unlock();
	m->finish(); delete m;
	freeAgain(s);
}
// ---- the same with stray wake-ups
MC_STRAY(plain_2x2, 1, 2)
MC_STRAY(plain_3, 1, 2)
MC_STRAY(plain_timed, 1, 2)
MC_STRAY(timed_2, 1, 2)
MC_STRAY(plain_plain_timed, 1, 2)
MC_STRAY(timed_timed_plain, 1, 2)
MC_STRAY(plain_try, 1, 2)
MC_STRAY(try_3, 1, 2)
MC_STRAY(recursive_plain, 1, 2)
MC_STRAY(recursive_3, 1, 2)
MC_STRAY(recursive_after_try, 1, 2)
MC_STRAY(async_plain, 1, 2)
MC_STRAY(async_2, 1, 2)
MC_STRAY(async_3, 1, 2)
MC_STRAY(cancel_plain, 1, 2)
MC_STRAY(cancel_3, 1, 2)
MC_STRAY(cancel_cancel_plain, 1, 2)
MC_STRAY(async_timed_recursive, 1, 2)
MC_STRAY(held_plain_plain, 1, 2)
MC_STRAY(held_plain_async, 1, 2)
MC_STRAY(held_timed_plain, 1, 2)
MC_STRAY(held_async_recursive, 1, 2)
MC_STRAY(async_by_holder, 1, 2)
MC_STRAY(set_owner, 1, 2)
MC_STRAY(waiter_disappears, 1, 2)
