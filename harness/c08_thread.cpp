// C08: Thread start / run / finish / join / attach / hooks
#include "lslife.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/sync/threadVar.h"
#include "lightspeed/mt/threadHook.h"
#include "lightspeed/mt/timeout.h"
#include "lightspeed/mt/exceptions/threadException.h"
#include <stdexcept>
#include <new>
using namespace LightSpeed;

struct St { volatile int runs, inside, flag, ended; mc::Sem hold; Thread *seen;
	St():runs(0),inside(0),flag(0),ended(0),seen(0) {} };
struct Count { St *s; void operator()() const { { mc::NoPreempt _; s->runs = s->runs + 1; s->inside = s->inside + 1; } mc::point(); { mc::NoPreempt _; s->inside = s->inside - 1; s->ended = s->ended + 1; } } };
template<typename F> static void go(Thread &t, const F &f) { t.start(ThreadFunction::create(f)); }
#define STARTED(t, s, n) do { MC_ASSERT((s).ended == (n) && (s).inside == 0, "join returned although the function has not completed (%d of %d)", (s).ended, (n)); MC_ASSERT((s).runs == (n), "the function ran %d times instead of %d", (s).runs, (n)); \
	MC_ASSERT(!(t).isRunning(), "joined thread is reported as running"); } while (0)

MC_SCENARIO(start_join, 4, 8) { St s; Thread t; MC_ASSERT(!t.isRunning(), "new thread is running"); Count c = {&s}; go(t, c); t.join(); STARTED(t, s, 1); t.join(); }
MC_SCENARIO(start_destroy, 4, 8) { St s; { Thread t; Count c = {&s}; go(t, c); } MC_ASSERT(s.ended == 1 && s.runs == 1, "the thread was destroyed before its function completed"); }
MC_SCENARIO(start_stop, 4, 8) { St s; Thread t; Count c = {&s}; go(t, c); t.stop(); STARTED(t, s, 1); }
MC_SCENARIO(never_started, 1, 2) { Thread t; t.join(); t.finish(); t.wakeUp(); t.stop(); }
MC_SCENARIO(restart, 3, 5) { St s; Thread t; Count c = {&s}; for (int i = 1; i <= 2; i++) { go(t, c); t.join(); STARTED(t, s, i); } }
MC_SCENARIO(running_flag, 3, 5) {
	struct B { St *s; void operator()() const { MC_ASSERT(Thread::current().isRunning(), "a thread doesn't see itself running"); s->seen = Thread::currentPtr(); s->hold.wait(); s->runs = 1; } };
	St s; Thread t; B b = {&s}; go(t, b);
	MC_ASSERT(t.isRunning(), "a started thread is not running");
	s.hold.post(); t.join(); MC_ASSERT(!t.isRunning() && s.runs, "wrong state after join");
	MC_ASSERT(s.seen == &t, "the current thread inside of the function is not the started thread");
}
// ---- starting a running thread
struct Held { St *s; void operator()() const { { mc::NoPreempt _; s->runs = s->runs + 1; } s->hold.wait(); s->ended = s->ended + 1; } };
MC_SCENARIO(start_running, 3, 5) {
	St s; Thread t; Held h = {&s}; go(t, h);
	bool refused = false; try { go(t, h); } catch (const ThreadBusyException &) { refused = true; }
	MC_ASSERT(refused, "a running thread was started again");
	MC_ASSERT(t.isRunning(), "the refused start broke the running thread");
	s.hold.post(); t.join(); STARTED(t, s, 1);
}
MC_SCENARIO(start_race, 2, 4) {
	struct B { St *s; Thread *t; mc::Sem *done; void operator()(int) const { Held h = {s}; try { go(*t, h); mc::NoPreempt _; s->flag = s->flag + 1; } catch (const ThreadBusyException &) { mc::outcome(1); } done->post(); } };
	St s; Thread t; mc::Sem done; B b = {&s, &t, &done}; LsPool<2> p; p.prepare(b); p.go_all();
	done.wait(); done.wait(); MC_ASSERT(s.flag == 1, "%d of two concurrent starts succeeded", s.flag);
	s.hold.post(); t.join(); STARTED(t, s, 1); p.wait_all(); p.finish();
}
// ---- several threads join the same thread; a thread is destroyed as soon as it is joined
MC_SCENARIO(two_joins, 2, 3) {
	struct J { St *s; Thread *t; void operator()(int) const { t->join(); MC_ASSERT(s->ended == 1, "join returned too early"); } };
	St s; Thread t; Held h = {&s}; go(t, h); J j = {&s, &t}; LsPool<2> p; p.prepare(j); p.go_all(); s.hold.post(); p.wait_all(); p.finish(); STARTED(t, s, 1);
}
MC_SCENARIO(join_and_delete, 4, 8) { struct B { St *s; void operator()(int) const { s->ended = 1; } }; St s; LsMortal m; B b = {&s}; m.prepare(b); m.go_all(); m.finish(); MC_ASSERT(s.ended, "not run"); }
MC_SCENARIO(poll_and_restart, 3, 5) {
	// restart without join, as soon as the thread is reported as not running
	St s; Thread t; Count c = {&s}; go(t, c); while (t.isRunning()) mc::yield();
	for (;;) { try { go(t, c); break; } catch (const ThreadBusyException &) { mc::yield(); } }
	t.join(); STARTED(t, s, 2);
}
MC_SCENARIO(nested, 3, 4) {
	// a thread starts and joins another one
	struct B { St *s; void operator()() const { Thread u; Count c = {s}; go(u, c); u.join(); STARTED(u, *s, 1); } };
	St s; Thread t; B b = {&s}; go(t, b); t.join(); MC_ASSERT(s.ended == 1, "nested thread not joined");
}
MC_SCENARIO(two_threads, 3, 4) { St a, b; Thread t, u; Count c = {&a}, d = {&b}; go(t, c); go(u, d); u.join(); STARTED(u, b, 1); t.join(); STARTED(t, a, 1); }
// ---- finish request
struct UntilFinish { St *s; void operator()() const { while (!Thread::canFinish()) Thread::sleep(nil); MC_ASSERT(Thread::current().isFinishing(), "isFinishing differs from canFinish"); s->ended = s->ended + 1; } };
MC_SCENARIO(finish_wakes, 4, 8) { St s; Thread t; UntilFinish f = {&s}; go(t, f); MC_ASSERT(!t.isFinishing(), "not asked to finish yet"); t.finish(); MC_ASSERT(t.isFinishing(), "the finish request is not visible at the thread object"); MC_ASSERT(!Thread::canFinish(), "the finish flag was set for another thread"); t.join(); MC_ASSERT(s.ended == 1, "not finished"); }
MC_SCENARIO(stop_destructor, 4, 8) { St s; { Thread t; UntilFinish f = {&s}; go(t, f); } MC_ASSERT(s.ended == 1, "not finished"); }
MC_SCENARIO(finish_two, 2, 4) { struct J { Thread *t; void operator()(int) const { t->finish(); } }; St s; Thread t; UntilFinish f = {&s}; go(t, f); J j = {&t}; LsPool<2> p; p.prepare(j); p.go_all(); t.join(); p.wait_all(); p.finish(); MC_ASSERT(s.ended == 1, "not finished"); }
MC_SCENARIO(finish_restart, 3, 5) { St s; Thread t; UntilFinish f = {&s}; for (int i = 1; i <= 2; i++) { go(t, f); MC_ASSERT(t.isRunning() && !t.isFinishing(), "a restarted thread has an old finish request"); t.stop(); MC_ASSERT(s.ended == i, "not finished"); } }
MC_SCENARIO(finish_before_sleep, 4, 8) { struct B { St *s; void operator()() const { Thread::sleep(nil); MC_ASSERT(Thread::canFinish(), "woken for no reason"); s->ended = 1; } }; St s; Thread t; B b = {&s}; go(t, b); t.stop(); MC_ASSERT(s.ended, "not finished"); }
// ---- wake-up and sleep
MC_SCENARIO(wake_flag, 4, 8) { struct B { St *s; void operator()() const { while (!__atomic_load_n(&s->flag, __ATOMIC_ACQUIRE)) Thread::sleep(nil); s->ended = 1; } }; St s; Thread t; B b = {&s}; go(t, b); __atomic_store_n(&s.flag, 1, __ATOMIC_RELEASE); t.wakeUp(); t.join(); MC_ASSERT(s.ended, "?"); }
MC_SCENARIO(wake_two_wakers, 3, 4) {
	struct W { St *s; Thread *t; void operator()(int) const { __atomic_fetch_add(&s->flag, 1, __ATOMIC_ACQ_REL); t->wakeUp(); } };
	struct B { St *s; void operator()() const { for (int n = 0; n < 2; ) { int f = __atomic_load_n(&s->flag, __ATOMIC_ACQUIRE); if (f > n) { n = f; continue; } Thread::sleep(nil); } s->ended = 1; } };
	St s; Thread t; B b = {&s}; go(t, b); W w = {&s, &t}; LsPool<2> p; p.prepare(w); p.go_all(); t.join(); p.wait_all(); p.finish(); MC_ASSERT(s.ended, "?");
}
MC_SCENARIO(timed_sleep, 3, 5) {
	struct B { St *s; void operator()() const { long t0 = mc::now_ms(); natural r = 5; bool to = Thread::sleep(Timeout(100), r); mc::outcome(to);
		if (to) { MC_ASSERT(mc::now_ms() - t0 >= 100, "sleep reported a timeout after %ld ms of 100", mc::now_ms() - t0); }
		else { MC_ASSERT(s->flag, "the sleep was interrupted by nobody"); MC_ASSERT(r == 77, "the reason of the interruption was not delivered (got %d)", (int)r); } s->ended = 1; } };
	St s; Thread t; B b = {&s}; go(t, b); s.flag = 1; t.wakeUp(77); t.join(); MC_ASSERT(s.ended, "?");
}
MC_SCENARIO(timed_sleep_alone, 2, 3) { struct B { St *s; void operator()() const { long t0 = mc::now_ms(); MC_ASSERT(Thread::sleep(Timeout(100)), "sleep interrupted by nobody"); MC_ASSERT(mc::now_ms() - t0 >= 100, "slept %ld ms of 100", mc::now_ms() - t0); s->ended = 1; } }; St s; Thread t; B b = {&s}; go(t, b); t.join(); MC_ASSERT(s.ended, "?"); }
MC_SCENARIO(deep_sleep, 3, 5) {
	// a wake-up that arrives during a deep sleep doesn't end it and is not lost
	struct B { St *s; void operator()() const { long t0 = mc::now_ms(); Thread::deepSleep(Timeout(100)); MC_ASSERT(mc::now_ms() - t0 >= 100, "deep sleep took %ld ms of 100", mc::now_ms() - t0);
		while (!__atomic_load_n(&s->flag, __ATOMIC_ACQUIRE)) Thread::sleep(nil); s->ended = 1; } };
	St s; Thread t; B b = {&s}; go(t, b); __atomic_store_n(&s.flag, 1, __ATOMIC_RELEASE); t.wakeUp(); t.join(); MC_ASSERT(s.ended, "?");
}
MC_SCENARIO(deep_sleep_pending, 3, 5) {
	struct B { St *s; void operator()() const { Thread::deepSleep(Timeout(100)); natural r = 0; MC_ASSERT(!Thread::sleep(nil, r), "?"); s->ended = 1; } };
	St s; Thread t; B b = {&s}; go(t, b); t.wakeUp(7); t.join(); MC_ASSERT(s.ended, "?");
}
MC_SCENARIO(wake_after_exit, 3, 6) {
	// the sleeping object outlives the thread
	struct W { RefCntPtr<IThreadSleeper> sl; void operator()(int) const { sl->wakeUp(1); } };
	St s; LsPool<1> p; { Thread t; Held h = {&s}; go(t, h); W w = {t.getSafeSleepingObject()}; p.prepare(w); p.go_all(); s.hold.post(); t.join(); } p.wait_all(); p.finish();
}
// ---- exceptions
struct Throwing { St *s; int kind; void operator()() const { { mc::NoPreempt _; s->runs = s->runs + 1; s->ended = s->ended + 1; } if (kind == 0) throw 1; if (kind == 1) throw std::runtime_error("x"); throw ThreadBusyException(THISLOCATION); } };
template<int K> static void exc() { St s; Thread t; Throwing f = {&s, K}; go(t, f); t.join(); STARTED(t, s, 1); }
MC_SCENARIO(exception_int, 3, 6) { exc<0>(); }
MC_SCENARIO(exception_std, 3, 6) { exc<1>(); }
MC_SCENARIO(exception_ls, 3, 6) { exc<2>(); }
MC_SCENARIO(exception_delete, 4, 8) { struct B { void operator()(int) const { throw 1; } }; LsMortal m; B b; m.prepare(b); m.go_all(); m.finish(); }
MC_SCENARIO(exception_restart, 3, 5) { St s; Thread t; Throwing f = {&s, 0}; go(t, f); t.join(); STARTED(t, s, 1); s.hold.post(); Count c = {&s}; go(t, c); t.join(); STARTED(t, s, 2); }
// ---- thread variables are destroyed before join returns, exactly once
struct Tv { St *s; Tv(St *s):s(s) {} ~Tv() { mc::NoPreempt _; s->ended = s->ended + 1; } };
template<int K> static void tvs() { struct B { St *s; ThreadVar<Tv> *v; void operator()() const { v->set(ITLSTable::getInstance(), new Tv(s), &deleteFunction<Tv>); if (K) throw 1; } }; St s; ThreadVar<Tv> v; { Thread t; B b = {&s, &v}; go(t, b); t.join(); MC_ASSERT(s.ended == 1, "the thread variable was destroyed %d times before join returned", s.ended); } MC_ASSERT(s.ended == 1, "%d", s.ended); }
MC_SCENARIO(threadvar, 3, 6) { tvs<0>(); }
MC_SCENARIO(threadvar_exception, 3, 6) { tvs<1>(); }
// ---- start that fails
MC_SCENARIO(start_fails, 2, 3) {
	St s; { Thread t; Count c = {&s}; bool thrown = false; mc::failThreads(1);
	try { go(t, c); } catch (const UnableToStartThreadException &) { thrown = true; }
	MC_ASSERT(thrown, "failed start not reported"); MC_ASSERT(!t.isRunning(), "a thread that was not started is reported as running");
	t.join(); go(t, c); t.join(); STARTED(t, s, 1); mc::failThreads(1); try { go(t, c); MC_ASSERT(false, "?"); } catch (const UnableToStartThreadException &) {} }
}
// ---- self destruction
MC_SCENARIO(self_delete, 3, 6) {
	struct B { St *s; Thread *t; void operator()() const { s->hold.wait(); delete t; MC_ASSERT(Thread::currentPtr() == 0, "a destroyed thread is still the current one"); s->ended = 1; } };
	St s; Thread *t = new Thread; B b = {&s, t}; go(*t, b); s.hold.post(); while (!s.ended) mc::yield();
}
// ---- hooks
struct Hook: AbstractThreadHook { St *s; int id; volatile int init, exit, exc; bool throwInit; Thread *th; Hook(St *s, int id = 1, bool thr = false):s(s),id(id),init(0),exit(0),exc(0),throwInit(thr),th(0) {}
	virtual void onThreadInit(Thread &t) { mc::NoPreempt _; if (throwInit) throw 5; init = init + 1; s->flag = s->flag * 10 + id; th = &t; }
	virtual void onThreadExit(Thread &t) { mc::NoPreempt _; exit = exit + 1; s->flag = s->flag * 10 + id; MC_ASSERT(!th || &t == th, "the exit hook got another thread"); }
	virtual void onThreadException(Thread &t) throw() { mc::NoPreempt _; exc = exc + 1; s->flag = s->flag * 10 + id + 4; } };
MC_SCENARIO(hooks, 2, 4) { St s; Thread::getMaster(); Hook h(&s), g(&s, 2); h.install(); g.install(); MC_ASSERT(h.isInstalled(), "?"); { Thread t; Count c = {&s}; go(t, c); t.join(); STARTED(t, s, 1); MC_ASSERT(s.flag == 1221, "the hooks were called in the wrong order or not once: %d", s.flag); } h.uninstall(); MC_ASSERT(!h.isInstalled() && g.isInstalled(), "?"); g.uninstall(); { Thread t; Count c = {&s}; go(t, c); t.join(); } MC_ASSERT(s.flag == 1221, "a hook was called after it was uninstalled: %d", s.flag); }
MC_SCENARIO(hooks_exception, 2, 4) { St s; Thread::getMaster(); Hook h(&s), g(&s, 2); h.install(); g.install(); Thread t; Throwing c = {&s, 0}; go(t, c); t.join(); STARTED(t, s, 1); MC_ASSERT(s.flag == 1265, "hooks: %d", s.flag); }
MC_SCENARIO(hooks_init_fails, 2, 4) {
	for (int which = 0; which < 3; which++) { St s; Thread::getMaster(); Hook a(&s, 1, which == 0), b(&s, 2, which == 1), c(&s, 3, which == 2); a.install(); b.install(); c.install();
	{ Thread t; Count f = {&s}; go(t, f); t.join(); MC_ASSERT(s.runs == 0 && !t.isRunning(), "the function ran although the thread was not initialized"); }
	MC_ASSERT(a.exc == (which > 0) && b.exc == (which > 1) && c.exc == 0, "onThreadException was called on other hooks than on the initialized ones (%d %d %d)", a.exc, b.exc, c.exc);
	MC_ASSERT(a.exit + b.exit + c.exit == 0, "exit hooks called"); }
}
MC_SCENARIO(hooks_race, 2, 3) {
	// hooks installed and removed while threads start and end
	struct I { Hook *h; void operator()(int) const { h->install(); MC_ASSERT(h->isInstalled(), "not installed"); h->uninstall(); MC_ASSERT(!h->isInstalled(), "still installed"); } };
	St s; Hook h(&s), g(&s, 2); struct Q { Hook *h, *g; void operator()(int i) const { I x = {i ? h : g}; x(i); } } q = {&h, &g}; LsPool<2> p; p.prepare(q); p.go_all(); p.wait_all(); p.finish();
	h.install(); g.install(); h.uninstall(); g.uninstall(); MC_ASSERT(!h.isInstalled() && !g.isInstalled(), "?");
}
MC_SCENARIO(hooks_race_threads, 2, 3) {
	St s; Hook h(&s); struct I { Hook *h; void operator()(int) const { h->install(); h->uninstall(); } } b = {&h}; LsPool<1> p; p.prepare(b); p.go_all(); { struct E { void operator()() const {} }; E e; h.th = 0; Thread t; struct Q: Hook { Q(St*s):Hook(s) {} }; go(t, e); t.join(); } p.wait_all(); p.finish();
}
MC_SCENARIO(self_delete_hooks, 2, 3) {
	struct B { St *s; Thread *t; void operator()() const { s->hold.wait(); delete t; s->ended = 1; } };
	St s; Thread::getMaster(); Hook h(&s); h.install(); Thread *t = new Thread; B b = {&s, t}; go(*t, b); s.hold.post(); while (!s.ended) mc::yield(); while (mc::thread_count() > 1 && !mc::finished(1)) mc::yield(); h.uninstall();
	MC_ASSERT(h.init == 1 && h.exit + h.exc == 1, "init %d exit %d exception %d", h.init, h.exit, h.exc);
}
// ---- attached threads
MC_SCENARIO(attach, 3, 5) {
	struct B { St *s; Thread *t; void operator()() const { MC_ASSERT(Thread::currentPtr() == 0, "foreign thread has a thread object");
		{ Thread a; MC_ASSERT(a.attach(false), "attach failed"); MC_ASSERT(Thread::currentPtr() == &a, "attached thread is not current"); MC_ASSERT(a.isRunning(), "attached thread is not running");
		  Thread b; MC_ASSERT(!b.attach(false), "attached twice"); MC_ASSERT(!b.isRunning(), "?");
		  s->seen = &a; s->hold.wait(); while (!Thread::canFinish()) Thread::sleep(nil); s->seen = 0; s->ended = 1; }
		MC_ASSERT(Thread::currentPtr() == 0, "detached thread has a thread object"); } };
	Thread::getMaster(); St s; B b = {&s, 0}; int id = mc::spawn(b); while (!s.seen) mc::yield(); Thread *a = s.seen; a->finish(); s.hold.post(); mc::join(id); MC_ASSERT(s.ended, "?");
}
MC_SCENARIO(attach_kept, 2, 4) {
	struct B { St *s; void operator()() const {
		for (int i = 0; i < 2; i++) { Thread a; MC_ASSERT(a.attach(true), "attach failed"); MC_ASSERT(Thread::currentPtr() == &a, "attached thread is not current"); MC_ASSERT(a.getThreadId() == ThreadId::current(), "wrong thread id"); MC_ASSERT(Thread::sleep(Timeout(1)), "interrupted"); }
		MC_ASSERT(Thread::currentPtr() == 0, "?"); } };
	Thread::getMaster(); St s; B b = {&s}; int id = mc::spawn(b); mc::join(id);
}
MC_SCENARIO(attach_two, 2, 3) {
	struct B { St *s; bool keep; void operator()() const { for (int i = 0; i < 2; i++) { Thread a; MC_ASSERT(a.attach(keep), "attach failed"); MC_ASSERT(Thread::currentPtr() == &a, "?"); } } };
	Thread::getMaster(); St s; B b = {&s, true}, c = {&s, false}; int i = mc::spawn(b), j = mc::spawn(c); mc::join(i); mc::join(j);
}
// ---- the same with stray wake-ups
MC_STRAY(start_join, 2, 3)
MC_STRAY(start_destroy, 2, 3)
MC_STRAY(start_stop, 2, 3)
MC_STRAY(restart, 1, 2)
MC_STRAY(running_flag, 1, 2)
MC_STRAY(start_running, 1, 2)
MC_STRAY(start_race, 1, 2)
MC_STRAY(two_joins, 1, 2)
MC_STRAY(join_and_delete, 2, 3)
MC_STRAY(poll_and_restart, 1, 2)
MC_STRAY(nested, 1, 2)
MC_STRAY(two_threads, 1, 2)
MC_STRAY(finish_wakes, 2, 3)
MC_STRAY(stop_destructor, 2, 3)
MC_STRAY(finish_two, 1, 2)
MC_STRAY(finish_restart, 1, 2)
MC_STRAY(finish_before_sleep, 2, 3)
MC_STRAY(wake_flag, 2, 3)
MC_STRAY(wake_two_wakers, 1, 2)
MC_STRAY(timed_sleep, 1, 2)
MC_STRAY(timed_sleep_alone, 1, 2)
MC_STRAY(deep_sleep, 1, 2)
MC_STRAY(deep_sleep_pending, 1, 2)
MC_STRAY(wake_after_exit, 1, 2)
MC_STRAY(exception_int, 1, 2)
MC_STRAY(exception_std, 1, 2)
MC_STRAY(exception_ls, 1, 2)
MC_STRAY(exception_delete, 2, 3)
MC_STRAY(exception_restart, 1, 2)
MC_STRAY(threadvar, 1, 2)
MC_STRAY(threadvar_exception, 1, 2)
MC_STRAY(start_fails, 1, 2)
MC_STRAY(self_delete, 1, 2)
MC_STRAY(hooks, 1, 2)
MC_STRAY(hooks_exception, 1, 2)
MC_STRAY(hooks_init_fails, 1, 2)
MC_STRAY(hooks_race, 1, 2)
MC_STRAY(hooks_race_threads, 1, 2)
MC_STRAY(self_delete_hooks, 1, 2)
MC_STRAY(attach, 1, 2)
MC_STRAY(attach_kept, 1, 2)
MC_STRAY(attach_two, 1, 2)
