#include "lslife.h"
#include "lightspeed/mt/gate.h"
#include "lightspeed/mt/notifier.h"
#include "lightspeed/mt/syncPt.h"
#include "lightspeed/mt/timeout.h"
using namespace LightSpeed;

struct St { Gate g; volatile int opened; volatile int passed[4];
	St(Gate::State s = Gate::stateClose):g(s),opened(0) { for (int i = 0; i < 4; i++) passed[i] = 0; }
	void open() { opened = opened + 1; g.open(); }
};

// ---- every waiter is released by the opening, none passes before
struct WaitBody { St *s; void operator()(int i) const {
	MC_ASSERT(s->g.wait(nil), "an infinite wait on the gate reported a timeout");
	MC_ASSERT(s->opened, "a thread passed a gate that was never opened");
	s->passed[i] = 1; } };
MC_SCENARIO(wait_open_2, 3, 4) {
	St s; LsPool<2> p; WaitBody b = {&s};
	p.prepare(b); p.go_all();
	mc::point();
	MC_ASSERT(!s.g.isOpened(), "the gate opened by itself");
	s.open();
	MC_ASSERT(s.g.isOpened(), "the gate is not open after it was opened");
	MC_ASSERT(s.g.wait(nil), "wait on an open gate failed");
	p.wait_all(); p.finish();
}
MC_SCENARIO(wait_open_3, 2, 3) {
	St s; LsPool<3> p; WaitBody b = {&s};
	p.prepare(b); p.go_all(); s.open(); p.wait_all(); p.finish();
}
MC_SCENARIO(two_openers, 2, 3) {
	St s; LsPool<3> p;
	struct B { St *s; void operator()(int i) const {
		if (i == 0) { MC_ASSERT(s->g.wait(nil), "infinite wait failed"); MC_ASSERT(s->opened, "a thread passed a gate that was never opened"); }
		else s->open(); } } b = {&s};
	p.run(b);
	MC_ASSERT(s.g.isOpened(), "gate not open");
}
// ---- an opening releases everybody who waits at that time, even if the gate is closed at once again
MC_SCENARIO(open_close_releases, 2, 4) {
	St s; LsPool<2> p; WaitBody b = {&s};
	p.prepare(b); p.go_all();
	while (!mc::blocked(p.tids[0]) || !mc::blocked(p.tids[1])) mc::yield();
	s.open(); s.g.close();
	p.wait_all();
	MC_ASSERT(!s.g.isOpened(), "gate open after close");
	p.finish();
	MC_ASSERT(!s.g.wait(Timeout(1)), "a wait on a closed gate succeeded");
	s.g.open(); MC_ASSERT(s.g.wait(Timeout(1)), "a wait on an open gate failed");
}
MC_SCENARIO(open_close_open, 2, 4) {
	St s; LsPool<2> p; WaitBody b = {&s};
	p.prepare(b); p.go_all();
	s.open(); s.g.close(); mc::point(); s.g.open();
	p.wait_all(); p.finish();
}
// ---- timed wait
struct TimedBody { St *s; void operator()(int i) const {
	long t0 = mc::now_ms();
	bool ok = s->g.wait(Timeout(50));
	mc::outcome(ok);
	if (ok) MC_ASSERT(s->opened, "a timed wait succeeded on a gate that was never opened");
	else MC_ASSERT(mc::now_ms() >= t0 + 50, "a timed wait failed %ld ms after it started although its timeout is 50 ms", mc::now_ms() - t0);
	s->passed[i] = ok ? 1 : 2; } };
MC_SCENARIO(timed_wait, 3, 5) {
	St s; LsPool<2> p; TimedBody b = {&s};
	p.prepare(b); p.go_all(); s.open(); p.wait_all(); p.finish();
	MC_ASSERT(s.g.wait(Timeout(50)), "timed wait on an open gate failed");
}
MC_SCENARIO(timed_and_plain, 3, 4) {
	St s; LsPool<2> p;
	struct B { St *s; void operator()(int i) const { if (i == 0) { TimedBody t = {s}; t(0); } else { WaitBody w = {s}; w(1); } } } b = {&s};
	p.prepare(b); p.go_all(); s.open(); p.wait_all(); p.finish();
	MC_ASSERT(s.passed[1] == 1, "the plain waiter was lost");
}
MC_SCENARIO(timed_never_opened, 2, 4) {
	St s; LsPool<2> p; TimedBody b = {&s};
	p.run(b);
	MC_ASSERT(s.passed[0] == 2 && s.passed[1] == 2, "a timed wait succeeded on a gate that was never opened");
	s.open();   // no slot of the expired waiters may still be queued
	MC_ASSERT(s.g.wait(nil), "wait on an open gate failed");
}
// ---- asynchronous waiting and cancelling
MC_SCENARIO(async_cancel, 3, 5) {
	St s; LsPool<1> p;
	struct B { St *s; void operator()(int) const {
		Gate::Slot sl;
		s->g.waitAsync(sl);
		mc::point();
		bool cancelled = s->g.cancelWaitAsync(sl);
		if (!cancelled) { MC_ASSERT(sl.isSignaled(), "cancelling reported failure, but the slot is not signaled"); MC_ASSERT(s->opened, "a slot was signaled on a gate that was never opened"); }
		mc::outcome(cancelled);
	} } b = {&s};
	p.prepare(b); p.go_all(); s.open(); p.wait_all(); p.finish();
}
MC_SCENARIO(async_two_gates, 2, 3) {
	St s1, s2; LsPool<2> p;
	struct B { St *s1, *s2; void operator()(int i) const {
		if (i == 1) { s1->open(); return; }
		Gate::Slot a, b;
		s1->g.waitAsync(a); s2->g.waitAsync(b);
		while (!a && !b) Thread::sleep(nil);
		MC_ASSERT(!a || s1->opened, "signal without opening");
		MC_ASSERT(!b || s2->opened, "signal without opening");
		mc::outcome(((bool)a) + 2 * ((bool)b));
		if (!a) s1->g.cancelWaitAsync(a);
		if (!b) s2->g.cancelWaitAsync(b);
	} } b = {&s1, &s2};
	p.prepare(b); p.go_all(); s2.open(); p.wait_all(); p.finish();
}
// ---- a wait that may be interrupted by finish()
MC_SCENARIO(interrupt_on_exit, 2, 4) {
	St s; Thread t; mc::quiet(true);
	struct B { St *s; void operator()() const {
		bool ok = s->g.wait(nil, SyncPt::interruptOnExit);
		MC_ASSERT(!ok || s->opened, "a wait succeeded on a gate that was never opened");
		MC_ASSERT(ok || Thread::canFinish(), "an interruptible wait failed although nobody asked the thread to finish");
		mc::outcome(ok); } } b = {&s};
	t.start(ThreadFunction::create(b)); mc::quiet(false);
	t.finish(); s.open(); t.join();
}
MC_SCENARIO(interruptable, 2, 4) {
	St s; Thread t; mc::quiet(true);
	struct B { St *s; void operator()() const {
		bool ok = s->g.wait(nil, SyncPt::interruptable);
		MC_ASSERT(!ok || s->opened, "a wait succeeded on a gate that was never opened");
		mc::outcome(ok); } } b = {&s};
	t.start(ThreadFunction::create(b)); mc::quiet(false);
	t.wakeUp(1); s.open(); t.join();
}
// ---- the waiter destroys the gate, or ends, as soon as it passes
MC_SCENARIO(waiter_destroys_gate, 3, 5) {
	St *s = new St; LsPool<1> p;
	struct B { St *s; void operator()(int) const { MC_ASSERT(s->g.wait(nil), "infinite wait failed"); delete s; } } b = {s};
	p.prepare(b); p.go_all(); s->open(); p.wait_all(); p.finish();
}
MC_SCENARIO(waiter_ends, 2, 3) {
	St s; LsMortal *m = new LsMortal; WaitBody b = {&s};
	m->prepare(b); m->go_all(); s.open(); m->finish(); delete m;
}

// ---- notifier
struct NSt { Notifier *n; mc::Sem ready; NSt():n(0) {} };
MC_SCENARIO(notifier, 3, 5) {
	NSt s; LsPool<1> p;
	struct B { NSt *s; void operator()(int) const {
		Notifier n; s->n = &n; s->ready.post();
		bool ok = n.wait(nil);
		MC_ASSERT(ok && n, "the infinite wait for a notification failed");
		MC_ASSERT(n.reason == 42, "the reason of the notification is %d, not 42", (int)n.reason);
		n.reset(); MC_ASSERT(!n, "still signaled after reset");
		s->ready.post();
		MC_ASSERT(n.wait(nil), "second wait failed");
		MC_ASSERT(n.reason == 43, "the reason of the second notification is %d, not 43", (int)n.reason);
	} } b = {&s};
	p.prepare(b); p.go_all(); s.ready.wait(); s.n->wakeUp(42); s.ready.wait(); s.n->wakeUp(43); p.wait_all(); p.finish();
}
MC_SCENARIO(notifier_timed, 3, 5) {
	NSt s; LsPool<1> p; mc::Sem rel;
	struct B { NSt *s; mc::Sem *rel; void operator()(int) const {
		Notifier n; s->n = &n; s->ready.post();
		long t0 = mc::now_ms();
		bool ok = n.wait(Timeout(20));
		MC_ASSERT(ok == (bool)n || n, "wait reports success without a notification");
		if (!ok) MC_ASSERT(mc::now_ms() >= t0 + 20, "wait timed out before its time");
		mc::outcome(ok);
		rel->wait();   // keep the notifier until the other thread is done
	} } b = {&s, &rel};
	p.prepare(b); p.go_all(); s.ready.wait(); s.n->wakeUp(42); rel.post(); p.wait_all(); p.finish();
}
// the notified thread ends and is destroyed
MC_SCENARIO(notifier_thread_ends, 2, 4) {
	NSt s; LsMortal *m = new LsMortal;
	struct B { NSt *s; void operator()(int) const { Notifier n; s->n = &n; s->ready.post(); n.wait(nil); } } b = {&s};
	m->prepare(b); m->go_all(); s.ready.wait(); s.n->wakeUp(1); m->finish(); delete m;
}
MC_SCENARIO(notifier_wait_exit, 2, 4) {
	NSt s; Thread t; mc::quiet(true);
	struct B { NSt *s; void operator()() const {
		Notifier n; bool ok = n.wait(nil, true);
		MC_ASSERT(!ok && Thread::canFinish(), "wait for a notification that never came succeeded"); } } b = {&s};
	t.start(ThreadFunction::create(b)); mc::quiet(false);
	t.finish(); t.join();
}

// ---- synchronisation point: each notification reaches exactly one waiting slot
struct PSt { SyncPt sp; volatile int got[4]; volatile int order[4]; volatile int n; PSt(SyncPt::Order o = SyncPt::queue):sp(o),n(0) { for (int i = 0; i < 4; i++) got[i] = 0; } };
struct PBody { PSt *s; void operator()(int i) const {
	SyncPt::Slot sl;
	MC_ASSERT(s->sp.add(sl), "a fresh slot was refused");
	MC_ASSERT(!s->sp.add(sl) || true, "slot added twice");
	MC_ASSERT(SyncPt::wait(sl, nil), "infinite wait failed");
	s->got[i] = 1; } };
MC_SCENARIO(syncpt_one_each, 2, 4) {
	PSt s; LsPool<2> p; PBody b = {&s};
	p.prepare(b); p.go_all();
	int n = 0;
	for (int i = 0; i < 2; i++) { while (!s.sp.notifyOne()) mc::yield(); n++; }
	p.wait_all();
	MC_ASSERT(!s.sp.notifyOne() && !s.sp.notifyAll() && s.sp.empty(), "a slot stayed in the queue");
	p.finish();
}
MC_SCENARIO(syncpt_notify_vs_remove, 3, 5) {
	PSt s; LsPool<2> p; static volatile int signaled; signaled = 0;
	struct B { PSt *s; void operator()(int i) const {
		SyncPt::Slot sl; s->sp.add(sl);
		if (!SyncPt::wait(sl, Timeout(5))) {
			if (s->sp.remove(sl)) { MC_ASSERT(!sl.isSignaled(), "a slot was removed and signaled"); return; }
			MC_ASSERT(sl.isSignaled(), "remove reported that the slot was notified, but it is not signaled");
		}
		s->got[i] = 1;
	} } b = {&s};
	p.prepare(b); p.go_all();
	int n = s.sp.notifyOne(); n += s.sp.notifyOne();
	p.wait_all();
	MC_ASSERT(n == s.got[0] + s.got[1], "%d notifications were delivered but %d slots were signaled", n, s.got[0] + s.got[1]);
	mc::outcome(n);
	MC_ASSERT(!s.sp.notifyOne(), "a slot stayed in the queue");
	p.finish();
}
MC_SCENARIO(syncpt_all_vs_remove, 3, 4) {
	PSt s; LsPool<2> p;
	struct B { PSt *s; void operator()(int i) const {
		SyncPt::Slot sl; s->sp.add(sl);
		bool removed = s->sp.remove(sl);
		MC_ASSERT(removed != sl.isSignaled(), "removed=%d signaled=%d", removed, sl.isSignaled());
		mc::outcome(removed); } } b = {&s};
	p.prepare(b); p.go_all(); s.sp.notifyAll(); p.wait_all();
	MC_ASSERT(s.sp.empty(), "a slot stayed in the queue");
	p.finish();
}
// sequence: order of notification and slot reuse (choices are enumerated exhaustively)
static void slotSeq(SyncPt::Order order, int len) {
	SyncPt sp(order); const int N = 3;
	SyncPt::Slot sl[N]; int q[N]; int qn = 0; bool sig[N] = {false, false, false};
	for (int k = 0; k < len; k++) {
		int op = mc::choose(2 + 3 * N);
		if (op == 0 || op == 1) {
			bool r = op == 0 ? sp.notifyOne() : sp.notifyAll();
			MC_ASSERT(r == (qn > 0), "notify returned %d with %d waiting slots", r, qn);
			while (qn) {
				int x;
				if (order == SyncPt::queue || op == 1) { x = q[0]; for (int i = 1; i < qn; i++) q[i-1] = q[i]; qn--; }
				else x = q[--qn];
				sig[x] = true;
				if (op == 0) break;
			}
		} else {
			int x = (op - 2) % N, what = (op - 2) / N; bool in = false; int pos = -1;
			for (int i = 0; i < qn; i++) if (q[i] == x) { in = true; pos = i; }
			if (what == 0) {
				if (sig[x]) continue;   // a signaled slot must be reset first
				bool r = sp.add(sl[x]);
				MC_ASSERT(r == !in, "add of %s slot returned %d", in ? "an already registered" : "a free", r);
				if (r) q[qn++] = x;
			} else if (what == 1) {
				bool r = sp.remove(sl[x]);
				if (in) { MC_ASSERT(r, "a registered slot could not be removed"); for (int i = pos + 1; i < qn; i++) q[i-1] = q[i]; qn--; }
				else if (sig[x]) MC_ASSERT(!r, "a notified slot was reported as removed");
			} else {
				bool r = sl[x].reset();
				MC_ASSERT(r == sig[x], "reset of %s slot returned %d", sig[x] ? "a signaled" : "an unsignaled", r);
				sig[x] = false;
			}
		}
		for (int i = 0; i < N; i++) MC_ASSERT(sl[i].isSignaled() == sig[i], "slot %d is %ssignaled after %d operations", i, sig[i] ? "not " : "", k + 1);
		MC_ASSERT(sp.empty() == (qn == 0), "empty() is wrong");
	}
}
MC_SCENARIO(slot_sequences_queue, 0, 0) { slotSeq(SyncPt::queue, 5); }
MC_SCENARIO(slot_sequences_stack, 0, 0) { slotSeq(SyncPt::stack, 5); }
// ---- synchronisation point with values: every waiting slot gets a value exactly once
struct VSt { SyncPtT<int> sp; volatile int sum; VSt():sum(0) {} };
MC_SCENARIO(syncptT_values, 2, 4) {
	VSt s; LsPool<2> p;
	struct B { VSt *s; void operator()(int) const { SyncPtT<int>::Slot sl(0); s->sp.add(sl); MC_ASSERT(SyncPt::wait(sl, nil), "infinite wait failed");
		MC_ASSERT(sl.value == 7 || sl.value == 9, "the slot was notified with %d", sl.value); mc::NoPreempt _; s->sum = s->sum + sl.value; } } b = {&s};
	p.prepare(b); p.go_all();
	while (!s.sp.notifyOne(7)) mc::yield();
	while (!s.sp.notifyAll(9)) mc::yield();
	p.wait_all(); p.finish();
	MC_ASSERT(s.sum == 16, "the values delivered sum up to %d, not 16", s.sum);
}
MC_SCENARIO(syncptT_all, 2, 4) {
	VSt s; LsPool<2> p;
	struct B { VSt *s; void operator()(int) const { SyncPtT<int>::Slot sl(0); s->sp.add(sl); if (!SyncPt::wait(sl, Timeout(5)) && s->sp.remove(sl)) return;
		MC_ASSERT(sl.isSignaled() && sl.value == 9, "the slot was notified with %d", sl.value); mc::NoPreempt _; s->sum = s->sum + 1; } } b = {&s};
	p.prepare(b); p.go_all();
	bool any = s.sp.notifyAll(9);
	p.wait_all();
	MC_ASSERT(any == (s.sum > 0), "notifyAll returned %d but %d slots were notified", any, s.sum); mc::outcome(s.sum);
	p.finish();
}
// ---- the same with stray wake-ups
MC_STRAY(wait_open_2, 1, 2)
MC_STRAY(wait_open_3, 1, 2)
MC_STRAY(two_openers, 1, 2)
MC_STRAY(open_close_releases, 1, 2)
MC_STRAY(open_close_open, 1, 2)
MC_STRAY(timed_wait, 1, 2)
MC_STRAY(timed_and_plain, 1, 2)
MC_STRAY(timed_never_opened, 1, 2)
MC_STRAY(async_cancel, 1, 2)
MC_STRAY(async_two_gates, 1, 2)
MC_STRAY(interrupt_on_exit, 1, 2)
MC_STRAY(interruptable, 1, 2)
MC_STRAY(waiter_destroys_gate, 1, 2)
MC_STRAY(waiter_ends, 1, 2)
MC_STRAY(notifier, 1, 2)
MC_STRAY(notifier_timed, 1, 2)
MC_STRAY(notifier_thread_ends, 1, 2)
MC_STRAY(notifier_wait_exit, 1, 2)
MC_STRAY(syncpt_one_each, 1, 2)
MC_STRAY(syncpt_notify_vs_remove, 1, 2)
MC_STRAY(syncpt_all_vs_remove, 1, 2)
MC_STRAY(syncptT_values, 1, 2)
MC_STRAY(syncptT_all, 1, 2)
