// C12: dispatcher
#include "lslife.h"
#include "lightspeed/mt/dispatcher.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/queue.tcc"
#include "lightspeed/base/actions/idispatcher.tcc"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/mt/exceptions/threadException.h"
using namespace LightSpeed;
static StdAlloc AL;      // no pooling: every block is tracked by the engine
typedef Future<int> F; typedef Promise<int> P;
static int codeOf(const PException &e) { mc::NoPreempt _; if (dynamic_cast<CanceledException *>(e.get())) return -1; if (dynamic_cast<ErrorMessageException *>(e.get())) return -2; return -3; }
enum { MX = 8 };
// everything that happened, in order
struct Log {
	volatile int ran[MX], rej[MX], gone[MX], order[MX], n, tid;
	Log() : n(0), tid(-1) { for (int i = 0; i < MX; i++) ran[i] = rej[i] = gone[i] = 0; }
	void onRun(int i) { mc::NoPreempt _; MC_ASSERT(!ran[i] && !rej[i], "action %d is run again (run %d, rejected %d)", i, ran[i], rej[i]); ran[i] = 1; order[n] = i; n = n + 1; if (tid < 0) tid = mc::self(); MC_ASSERT(tid == mc::self(), "an action ran on the wrong thread"); }
	void onReject(int i) { mc::NoPreempt _; MC_ASSERT(!ran[i] && !rej[i], "action %d is rejected (run %d, rejected %d)", i, ran[i], rej[i]); rej[i] = 1; }
	void onGone(int i) { mc::NoPreempt _; MC_ASSERT(!gone[i], "action %d destroyed twice", i); MC_ASSERT(ran[i] || rej[i], "action %d was dropped: destroyed, but neither run nor rejected", i); gone[i] = 1; }
	int pos(int i) { for (int k = 0; k < n; k++) if (order[k] == i) return k; return -1; }
	// actions [a,b) must have been settled; run ones in order, before the rejected ones
	void check(int a, int b) { int last = -1; bool rj = false; for (int i = a; i < b; i++) { MC_ASSERT(ran[i] + rej[i] == 1 && gone[i], "action %d: run %d, rejected %d, destroyed %d", i, ran[i], rej[i], gone[i]); if (rej[i]) rj = true; else { MC_ASSERT(!rj, "action %d ran although an earlier action of the same thread was rejected", i); MC_ASSERT(pos(i) > last, "action %d ran out of order", i); last = pos(i); } } }
	int mask() { int m = 0; for (int i = 0; i < MX; i++) m |= ran[i] << i; return m; }
};
struct Act : public IDispatcher::AbstractAction {
	Log &l; int i; Dispatcher *q; mc::Sem *s; Dispatcher *again; int j;
	Act(Log &l, int i, Dispatcher *quit = 0, mc::Sem *s = 0) : l(l), i(i), q(quit), s(s), again(0), j(0) {}
	virtual void run() throw() { l.onRun(i); if (s) s->post(); if (again) again->dispatch(new(AL) Act(l, j)); if (q) q->quit(); }
	virtual void reject() throw() { l.onReject(i); if (again) again->dispatch(new(AL) Act(l, j)); }
	~Act() throw() { l.onGone(i); }
};
struct D : public Dispatcher { bool isRunning() { return !running.isOpened(); } };
struct Run { Dispatcher *d; void operator()(int) const { d->run(); } };
struct Push { Dispatcher *d; Log *l; int a, b; void operator()(int) const { for (int i = a; i < b; i++) d->dispatch(new(AL) Act(*l, i)); } };
struct Nothing { void operator()(int) const {} };

MC_SCENARIO(push_quit, 3, 5) {
	// action 0 shows that the dispatcher runs; then push and stop
	Log l; D *d = new D; mc::Sem s; d->dispatch(new(AL) Act(l, 0, 0, &s)); Run r = {d}; LsPool<1> p; p.prepare(r); p.go_all(); s.wait();
	Push u = {d, &l, 1, 3}; u(0); d->quit(); d->join(); l.check(0, 3); mc::outcome(l.mask()); p.wait_all(); p.finish(); delete d; l.check(0, 3);
}
MC_SCENARIO(push_quit_destroy, 4, 5) {
	// the dispatcher is destroyed while the dispatching thread leaves
	Log l; D *d = new D; mc::Sem s; d->dispatch(new(AL) Act(l, 0, 0, &s)); Run r = {d}; LsPool<1> p; p.prepare(r); p.go_all(); s.wait();
	d->dispatch(new(AL) Act(l, 1)); d->quit(); delete d; l.check(0, 2); mc::outcome(l.mask()); p.wait_all(); p.finish();
}
MC_SCENARIO(push_quit_mortal, 3, 4) {
	// the dispatching thread ends at once: nobody may wake it up after that
	Log l; D d; mc::Sem s; d.dispatch(new(AL) Act(l, 0, 0, &s)); Run r = {&d}; LsMortal m; m.prepare(r); m.go_all(); s.wait();
	d.quit(); d.dispatch(new(AL) Act(l, 1)); d.quit(); m.finish(); d.join(); mc::outcome(l.mask()); l.check(0, 1);
}
MC_SCENARIO(two_producers, 2, 3) {
	// the last action of either producer stops the dispatcher when it is the last one
	Log l; D d; Run r = {&d}; Push u = {&d, &l, 0, 2}; Push w = {&d, &l, 2, 4}; LsPool<2> p; p.prepareOne(0, r); p.prepareOne(1, u); p.go_all(); w(0); 
	// all four must be run without any further event
	while (l.n < 4) { mc::Sem t; mc::yield(); }
	d.quit(); p.wait_all(); p.finish(); l.check(0, 2); l.check(2, 4); MC_ASSERT(l.n == 4, "only %d of 4 actions were run", l.n); mc::outcome(l.pos(0) * 100 + l.pos(2) * 10 + l.pos(1));
}
MC_SCENARIO(quit_inside, 3, 4) {
	// an action ends the dispatcher while another thread pushes
	Log l; D *d = new D; Run r = {d}; Push u = {d, &l, 1, 3}; LsPool<2> p; d->dispatch(new(AL) Act(l, 0, d)); p.prepareOne(0, r); p.prepareOne(1, u); p.go_all(); p.wait_all(); p.finish(); delete d; l.check(0, 1); l.check(1, 3); mc::outcome(l.mask());
}
MC_SCENARIO(quit_both, 2, 3) { Log l; D d; mc::Sem s; d.dispatch(new(AL) Act(l, 0, &d, &s)); Run r = {&d}; LsPool<1> p; p.prepare(r); p.go_all(); s.wait(); d.quit(); d.join(); p.wait_all(); p.finish(); l.check(0, 1); }
MC_SCENARIO(join_two, 2, 3) { Log l; D d; mc::Sem s; d.dispatch(new(AL) Act(l, 0, 0, &s)); Run r = {&d}; struct J { D *d; Log *l; void operator()(int) const { d->join(); } } j = {&d, &l}; LsPool<2> p; p.prepareOne(0, r); p.prepareOne(1, j); p.go_all(); s.wait(); d.dispatch(new(AL) Act(l, 1)); d.quit(); d.join(); l.check(0, 2); p.wait_all(); p.finish(); mc::outcome(l.mask()); }
MC_SCENARIO(again, 1, 2) {
	// a dispatcher can be run again, actions queued between are kept for the second run
	Log l; D d; for (int i = 0; i < 3; i++) d.dispatch(new(AL) Act(l, i, i == 1 ? &d : 0)); MC_ASSERT(!d.isRunning() && l.n == 0, "an action ran too early"); LsPool<1> p; Run r = {&d}; p.run(r); MC_ASSERT(l.n == 2 && l.rej[2] && l.gone[2], "first run: %d actions run, third %s", l.n, l.rej[2] ? "rejected" : "pending");
	d.dispatch(new(AL) Act(l, 3)); d.dispatch(new(AL) Act(l, 4, &d)); l.tid = -1; LsPool<1> p2; p2.run(r); MC_ASSERT(l.n == 4, "second run ran %d actions", l.n - 2); l.check(0, 3); l.check(3, 5);
}
MC_SCENARIO(busy, 1, 3) {
	// a dispatcher is run by one thread at a time
	Log l; D d; d.dispatch(new(AL) Act(l, 0)); struct R { D *d; volatile int *busy; void operator()(int) const { try { d->run(); } catch (ThreadBusyException &) { *busy = *busy + 1; d->quit(); } } }; volatile int b = 0; R r = {&d, &b}; LsPool<2> p; p.run(r); MC_ASSERT(b == 1, "%d threads were refused", b); l.check(0, 1); mc::outcome(l.mask());
}
MC_SCENARIO(never_run, 1, 1) { Log l; { D d; for (int i = 0; i < 3; i++) d.dispatch(new(AL) Act(l, i)); } for (int i = 0; i < 3; i++) MC_ASSERT(l.rej[i] == 1 && l.gone[i] == 1, "action %d was dropped with the dispatcher", i); }
MC_SCENARIO(dispatch_inside, 1, 2) { Log l; D d; Act *a = new(AL) Act(l, 0); a->again = &d; a->j = 2; d.dispatch(a); d.dispatch(new(AL) Act(l, 1, 0)); Act *q = new(AL) Act(l, 3); q->again = &d; q->j = 4; d.dispatch(q); d.dispatch(new(AL) Act(l, 5, &d)); LsPool<1> p; Run r = {&d}; p.run(r); MC_ASSERT(l.pos(0) == 0 && l.pos(1) == 1 && l.pos(3) == 2 && l.pos(5) == 3, "order"); MC_ASSERT(l.rej[2] && l.rej[4] && l.gone[2] && l.gone[4], "actions after quit"); }
MC_SCENARIO(dispatch_in_reject, 1, 2) { Log l; { D d; Act *a = new(AL) Act(l, 1); a->again = &d; a->j = 2; d.dispatch(new(AL) Act(l, 0, &d)); d.dispatch(a); LsPool<1> p; Run r = {&d}; p.run(r); MC_ASSERT(l.ran[0] && l.rej[1], "run/reject"); } MC_ASSERT(l.rej[2] && l.gone[2], "an action dispatched while the queue was being rejected was lost"); }
// ---- functions and futures
struct Fnc { Log *l; int i; Dispatcher *q; int operator()() const { l->onRun(i); if (q) q->quit(); return 10 + i; } };
struct Thr { Log *l; int i; int operator()() const { l->onRun(i); throw ErrorMessageException(THISLOCATION, "t"); } };
struct Act0 { Log *l; int i; Dispatcher *q; void operator()() const { l->onRun(i); if (q) q->quit(); } };
static int get(F &f) { int x; try { x = f.wait(Timeout(nil)); } catch (CanceledException &) { x = -1; } catch (ErrorMessageException &) { x = -2; } return x; }
struct Obs : public F::IObserver { volatile int calls, r, tid; Obs() : calls(0), r(0), tid(-1) {} void got(int x) { mc::NoPreempt _; MC_ASSERT(calls == 0, "an observer was called twice"); calls = calls + 1; r = x; tid = mc::self(); } virtual void resolve(const int &v) throw() { got(v); } virtual void resolve(const PException &e) throw() { got(codeOf(e)); } };
struct ObsV : public Future<void>::IObserver { volatile int calls, r, tid; ObsV() : calls(0), r(0), tid(-1) {} void got(int x) { mc::NoPreempt _; MC_ASSERT(calls == 0, "an observer was called twice"); calls = calls + 1; r = x; tid = mc::self(); } virtual void resolve() throw() { got(1); } virtual void resolve(const PException &e) throw() { got(codeOf(e)); } };
MC_SCENARIO(fn_future, 3, 4) {
	Log l; D *d = new D; Run r = {d}; LsPool<1> p; p.prepare(r); F f(AL), g(AL), h(AL); Obs o; g.addObserver(&o); Fnc a = {&l, 0, 0}, c = {&l, 2, 0}; Thr b = {&l, 1}; { P pa = f.getPromise(); ((IDispatcher *)d)->dispatch(a, pa); } p.go_all(); { P pg = g.getPromise(), ph = h.getPromise(); ((IDispatcher *)d)->dispatch(b, pg); MC_ASSERT(get(f) == 10, "value"); ((IDispatcher *)d)->dispatch(c, ph); } d->quit(); d->join(); int x = get(g), y = get(h); MC_ASSERT((x == -2 && l.ran[1]) || (x == -1 && !l.ran[1]), "second future: %d, ran %d", x, l.ran[1]); MC_ASSERT(o.calls == 1 && o.r == x, "observer: %d calls, %d, not %d", o.calls, o.r, x); MC_ASSERT((y == 12 && l.ran[2]) || (y == -1 && !l.ran[2]), "third future: %d, ran %d", y, l.ran[2]); mc::outcome(x * 100 + y); p.wait_all(); p.finish(); delete d;
}
MC_SCENARIO(fn_plain, 1, 2) { Log l; { D d; Act0 a = {&l, 0, 0}, b = {&l, 1, &d}, c = {&l, 2, 0}; IDispatcher &i = d; i.dispatch(a); i.dispatch(b); i.dispatch(c); LsPool<1> p; Run r = {&d}; p.run(r); } MC_ASSERT(l.n == 2 && l.order[0] == 0 && l.order[1] == 1, "%d functions were run", l.n); }
MC_SCENARIO(promise_void, 1, 3) { Log l; D d; Future<void> f(AL), g(AL); ObsV o, o2; f.addObserver(&o); g.addObserver(&o2); d.IDispatcher::dispatch(f.getPromise()); d.dispatch(new(AL) Act(l, 0, &d)); d.IDispatcher::dispatch(g.getPromise()); LsPool<1> p; Run r = {&d}; p.run(r); MC_ASSERT(o.calls == 1 && o.r == 1 && o.tid == l.tid, "first promise: %d calls, %d", o.calls, o.r); MC_ASSERT(o2.calls == 1 && o2.r == -1, "second promise: %d calls, %d", o2.calls, o2.r); }
MC_SCENARIO(promise_value, 1, 3) { Log l; D d; F f(AL), g(AL); Obs o, o2; f.addObserver(&o); g.addObserver(&o2); IDispatcher &i = d; i.dispatch(f.getPromise(), 5); d.dispatch(new(AL) Act(l, 0, &d)); i.dispatch(g.getPromise(), 6); LsPool<1> p; Run r = {&d}; p.run(r); MC_ASSERT(o.calls == 1 && o.r == 5 && o.tid == l.tid, "first promise: %d calls, %d", o.calls, o.r); MC_ASSERT(o2.calls == 1 && o2.r == -1, "second promise: %d calls, %d", o2.calls, o2.r); }
MC_SCENARIO(forward_future, 3, 4) {
	// the observers of the forwarded future are notified in the dispatching thread
	Log l; D d; F src(AL), dst(AL); Obs o; dst.addObserver(&o); mc::Sem s; int how = mc::choose(2); int when = mc::choose(2); d.dispatch(new(AL) Act(l, 0, 0, &s)); Run r = {&d}; LsPool<1> p; p.prepare(r); p.go_all(); s.wait(); { P sp = src.getPromise(); if (when) { if (how) sp.resolve(7); else sp.reject(ErrorMessageException(THISLOCATION, "e")); } d.IDispatcher::dispatchFuture(src, dst.getPromise()); if (!when) { if (how) sp.resolve(7); else sp.reject(ErrorMessageException(THISLOCATION, "e")); } }
	int x = get(dst); MC_ASSERT(x == (how ? 7 : -2), "the forwarded value is %d", x); d.quit(); d.join(); p.wait_all(); p.finish(); MC_ASSERT(o.calls == 1 && o.r == x && o.tid == l.tid, "observer: %d calls, %d", o.calls, o.r);
}
// ---- idle processing
struct DI : public Dispatcher { natural cnts[8]; int n, stopAt; DI() : n(0), stopAt(3) {} virtual Timeout onIdle(natural c) { cnts[n++] = c; if (n == stopAt) needstop = true; return Timeout(natural(10)); } bool held() { return !lock.tryLock(); } };
MC_SCENARIO(idle, 1, 3) {
	// with no work the idle counter grows; an action resets it
	Log l; DI d; Run r = {&d}; Push u = {&d, &l, 0, 1}; long t0 = mc::now_ms(); LsPool<2> p; p.prepareOne(0, r); p.prepareOne(1, u); p.go_all(); p.wait_all(); p.finish(); MC_ASSERT(d.n == 3, "%d idle calls", d.n); MC_ASSERT(d.cnts[0] == 0, "first idle call has the number %d", (int)d.cnts[0]); for (int i = 1; i < 3; i++) MC_ASSERT(d.cnts[i] == d.cnts[i - 1] + 1 || (d.cnts[i] == 0 && l.ran[0]), "idle numbers %d, %d", (int)d.cnts[i - 1], (int)d.cnts[i]); if (!l.ran[0]) MC_ASSERT(mc::now_ms() - t0 >= 20, "the idle calls came early"); mc::outcome(d.cnts[1] * 10 + d.cnts[2]);
}
// ---- the same with stray wake-ups
MC_STRAY(push_quit, 1, 2)
MC_STRAY(push_quit_destroy, 2, 3)
MC_STRAY(push_quit_mortal, 1, 2)
MC_STRAY(two_producers, 1, 2)
MC_STRAY(quit_inside, 1, 2)
MC_STRAY(quit_both, 1, 2)
MC_STRAY(join_two, 1, 2)
MC_STRAY(fn_future, 1, 2)
MC_STRAY(forward_future, 1, 2)
