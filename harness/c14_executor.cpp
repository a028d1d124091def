// C14: executors
#include "lslife.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/queue.tcc"
#include "lightspeed/base/actions/queueExecutor.h"
#include "lightspeed/base/actions/parallelExecutor.h"
#include "lightspeed/base/actions/InfParallelExecutor.h"
#include "lightspeed/base/actions/directExecutor.h"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/mt/exceptions/timeoutException.h"
#include "lightspeed/mt/exceptions/threadException.h"
using namespace LightSpeed;
enum { MX = 6 };
struct Log {
	volatile int ran[MX], fin[MX], copies[MX], order[MX], tid[MX], n, act, maxAct, mainTid;
	Log() : n(0), act(0), maxAct(0), mainTid(mc::self()) { for (int i = 0; i < MX; i++) ran[i] = fin[i] = copies[i] = 0; }
	void begin(int i) { mc::NoPreempt _; MC_ASSERT(!ran[i], "task %d is run again", i); ran[i] = 1; order[n] = i; tid[i] = mc::self(); n = n + 1; act = act + 1; if (act > maxAct) maxAct = act; }
	void end(int i) { mc::NoPreempt _; fin[i] = 1; act = act - 1; }
	int pos(int i) { for (int k = 0; k < n; k++) if (order[k] == i) return k; return -1; }
	void check(int a, int b) { for (int i = a; i < b; i++) MC_ASSERT(ran[i] && fin[i], "task %d: started %d, ended %d", i, ran[i], fin[i]); }
	void gone(int a, int b) { for (int i = a; i < b; i++) { MC_ASSERT(copies[i] == 0, "%d copies of task %d are left", copies[i], i); MC_ASSERT(ran[i] == fin[i], "task %d did not end", i); } }
	int mask() { int m = 0; for (int i = 0; i < MX; i++) m |= ran[i] << i; return m; }
	int hash() { int m = 0; for (int i = 0; i < n; i++) m = m * 10 + order[i] + 1; return m; }
};
// a task: tells s that it started, waits for w, executes another one when it is destroyed
struct Task {
	Log *l; int i; mc::Sem *s, *w, *e; IExecutor *again; int j; bool thr;
	Task(Log *l, int i, mc::Sem *s = 0, mc::Sem *w = 0, mc::Sem *e = 0) : l(l), i(i), s(s), w(w), e(e), again(0), j(0), thr(false) { inc(1); }
	Task(const Task &o) : l(o.l), i(o.i), s(o.s), w(o.w), e(o.e), again(o.again), j(o.j), thr(o.thr) { inc(1); }
	void inc(int k) { mc::NoPreempt _; l->copies[i] = l->copies[i] + k; }
	~Task() { inc(-1); if (again && l->copies[i] == 0) { IExecutor *a = again; again = 0; Task t(l, j); a->execute(IExecutor::ExecAction::create(t)); } }
	void operator()() const { l->begin(i); if (s) s->post(); if (w) w->wait(); if (thr) { l->end(i); throw ErrorMessageException(THISLOCATION, "t"); } l->end(i); if (e) e->post(); }
};
static void exec(IExecutor &x, const Task &t) { x.execute(IExecutor::ExecAction::create(t)); }
// ---- queue executor
struct Serve { QueueExecutor *q; void operator()(int) const { q->serve(); } };
struct ServeC { QueueExecutor *q; volatile int *exc; void operator()(int) const { try { q->serve(); } catch (ErrorMessageException &) { mc::NoPreempt _; *exc = *exc + 1; } } };
MC_SCENARIO(q_run, 3, 5) { Log l; QueueExecutor q; mc::Sem e; Serve s = {&q}; LsPool<1> p; p.prepare(s); p.go_all(); for (int i = 0; i < 2; i++) exec(q, Task(&l, i, 0, 0, &e)); e.wait(); e.wait(); q.join(); p.wait_all(); p.finish(); l.check(0, 2); l.gone(0, 2); MC_ASSERT(l.hash() == 12 && !q.isRunning(), "order %d", l.hash()); }
MC_SCENARIO(q_stop_early, 3, 5) { Log l; { QueueExecutor q; Serve s = {&q}; LsPool<1> p; p.prepare(s); p.go_all(); for (int i = 0; i < 2; i++) exec(q, Task(&l, i)); q.join(); l.gone(0, 2); int m = l.mask(); MC_ASSERT(m == 0 || m == 1 || m == 3, "tasks run: %d", m); mc::outcome(m); exec(q, Task(&l, 3)); p.wait_all(); p.finish(); MC_ASSERT(l.mask() == m, "a task was run after the executor was stopped"); } l.gone(0, 4); }
MC_SCENARIO(q_destroy, 3, 5) { Log l; QueueExecutor *q = new QueueExecutor; mc::Sem st; Serve s = {q}; LsPool<1> p; p.prepare(s); exec(*q, Task(&l, 0, &st)); p.go_all(); st.wait(); exec(*q, Task(&l, 1)); delete q; l.check(0, 1); l.gone(0, 2); mc::outcome(l.mask()); p.wait_all(); p.finish(); }
MC_SCENARIO(q_destroy_mortal, 2, 3) { Log l; QueueExecutor *q = new QueueExecutor; mc::Sem st; Serve s = {q}; LsMortal p; p.prepare(s); exec(*q, Task(&l, 0, &st)); p.go_all(); st.wait(); delete q; l.check(0, 1); l.gone(0, 1); p.finish(); }
MC_SCENARIO(q_two_workers, 2, 3) { Log l; QueueExecutor q; mc::Sem e; Serve s = {&q}; LsPool<2> p; p.prepare(s); p.go_all(); for (int i = 0; i < 2; i++) exec(q, Task(&l, i, 0, 0, &e)); for (int i = 0; i < 2; i++) e.wait(); q.join(); p.wait_all(); p.finish(); l.check(0, 2); l.gone(0, 2); MC_ASSERT(!q.isRunning(), "still running"); mc::outcome(l.maxAct); }
MC_SCENARIO(q_two_workers3, 1, 2) { Log l; QueueExecutor q; mc::Sem e; Serve s = {&q}; LsPool<2> p; p.prepare(s); p.go_all(); for (int i = 0; i < 3; i++) exec(q, Task(&l, i, 0, 0, &e)); for (int i = 0; i < 3; i++) e.wait(); q.join(); p.wait_all(); p.finish(); l.check(0, 3); l.gone(0, 3); MC_ASSERT(!q.isRunning(), "still running"); mc::outcome(l.maxAct); }
MC_SCENARIO(q_two_needed, 2, 3) { Log l; QueueExecutor q; mc::Sem e, x; Serve s = {&q}; LsPool<2> p; p.prepare(s); p.go_all(); exec(q, Task(&l, 0, 0, &x, &e)); exec(q, Task(&l, 1, &x, 0, &e)); e.wait(); e.wait(); q.join(); p.wait_all(); p.finish(); l.check(0, 2); }
MC_SCENARIO(q_two_callers, 2, 3) { Log l; QueueExecutor q; mc::Sem e; Serve s = {&q}; struct C { QueueExecutor *q; Log *l; mc::Sem *e; void operator()(int) const { for (int i = 2; i < 4; i++) exec(*q, Task(l, i, 0, 0, e)); } } c = {&q, &l, &e}; LsPool<2> p; p.prepareOne(0, s); p.prepareOne(1, c); p.go_all(); for (int i = 0; i < 2; i++) exec(q, Task(&l, i, 0, 0, &e)); for (int i = 0; i < 4; i++) e.wait(); q.join(); p.wait_all(); p.finish(); l.check(0, 4); MC_ASSERT(l.pos(0) < l.pos(1) && l.pos(2) < l.pos(3), "order %d", l.hash()); mc::outcome(l.hash()); }
MC_SCENARIO(q_never_served, 1, 1) { Log l; { QueueExecutor q; exec(q, Task(&l, 0)); MC_ASSERT(!q.isRunning() && l.n == 0, "run"); MC_ASSERT(q.stopAll(0), "nothing runs, but stopAll timed out"); q.join(); } l.gone(0, 1); MC_ASSERT(l.n == 0, "run"); }
MC_SCENARIO(q_again_destroyed, 2, 3) { Log l; { QueueExecutor q; mc::Sem e; Serve s = {&q}; LsPool<1> p; p.prepare(s); { Task t(&l, 0, 0, 0, &e); t.again = &q; t.j = 1; exec(q, t); } { Task t(&l, 2); t.again = &q; t.j = 3; exec(q, t); } p.go_all(); e.wait(); q.join(); p.wait_all(); p.finish(); mc::outcome(l.mask()); l.check(0, 1); } l.gone(0, 4); }
MC_SCENARIO(q_exception, 2, 3) { Log l; QueueExecutor q; mc::Sem e; volatile int ex = 0; ServeC s = {&q, &ex}; LsPool<2> p; p.prepare(s); p.go_all(); { Task t(&l, 0); t.thr = true; exec(q, t); } exec(q, Task(&l, 1, 0, 0, &e)); e.wait(); q.join(); p.wait_all(); p.finish(); l.check(0, 2); l.gone(0, 2); MC_ASSERT(ex == 1 && !q.isRunning(), "exception seen by %d workers", ex); }
MC_SCENARIO(q_reset, 1, 2) { Log l; QueueExecutor q; for (int k = 0; k < 2; k++) { mc::Sem e; Serve s = {&q}; LsPool<1> p; p.prepare(s); exec(q, Task(&l, k, 0, 0, &e)); p.go_all(); e.wait(); q.join(); p.wait_all(); p.finish(); exec(q, Task(&l, 3)); q.reset(); } l.check(0, 2); l.gone(0, 4); MC_ASSERT(l.n == 2, "run"); }
MC_SCENARIO(q_stop_timeout, 2, 3) { Log l; QueueExecutor q; mc::Sem st, w; Serve s = {&q}; LsPool<1> p; p.prepare(s); exec(q, Task(&l, 0, &st, &w)); p.go_all(); st.wait(); long t0 = mc::now_ms(); struct C { QueueExecutor *q; bool *r; void operator()(int) const { *r = q->stopAll(10); } }; bool r = true; C c = {&q, &r}; LsPool<1> p2; p2.run(c); MC_ASSERT(!r && mc::now_ms() >= t0 + 10, "stopAll did not time out"); MC_ASSERT(q.isRunning(), "isRunning"); w.post(); q.join(); l.check(0, 1); p.wait_all(); p.finish(); }
MC_SCENARIO(q_stop_two, 1, 2) { Log l; QueueExecutor q; mc::Sem st; Serve s = {&q}; LsPool<3> p; struct C { QueueExecutor *q; void operator()(int) const { q->join(); } } c = {&q}; p.prepareOne(0, s); p.prepareOne(1, s); p.prepareOne(2, c); exec(q, Task(&l, 0, &st)); p.go_all(); q.join(); p.wait_all(); p.finish(); l.gone(0, 1); mc::outcome(l.mask()); }
// ---- parallel executor
typedef ParallelExecutor PE;
MC_SCENARIO(p_one, 2, 3) { Log l; { PE x(1); for (int i = 0; i < 2; i++) exec(x, Task(&l, i)); MC_ASSERT(x.getThreadCount() == 1, "%d threads", (int)x.getThreadCount()); } l.check(0, 2); l.gone(0, 2); MC_ASSERT(l.hash() == 12 && l.tid[0] == l.tid[1] && l.tid[0] != l.mainTid, "order %d", l.hash()); }
MC_SCENARIO(p_two, 2, 3) { Log l; { PE x(2); for (int i = 0; i < 3; i++) exec(x, Task(&l, i)); MC_ASSERT(x.getThreadCount() <= 2, "%d threads", (int)x.getThreadCount()); } l.check(0, 3); l.gone(0, 3); MC_ASSERT(l.maxAct <= 2, "%d tasks at once", l.maxAct); mc::outcome(l.maxAct); }
MC_SCENARIO(p_two_needed, 2, 3) { Log l; mc::Sem x1, x2; { PE x(2); exec(x, Task(&l, 0, &x1, &x2)); exec(x, Task(&l, 1, &x2, &x1)); } l.check(0, 2); l.gone(0, 2); }
MC_SCENARIO(p_two_callers, 2, 3) { Log l; { PE x(1); struct C { PE *x; Log *l; void operator()(int) const { exec(*x, Task(l, 1)); } } c = {&x, &l}; LsPool<1> p; p.prepare(c); p.go_all(); exec(x, Task(&l, 0)); p.wait_all(); p.finish(); } l.check(0, 2); l.gone(0, 2); mc::outcome(l.hash()); }
MC_SCENARIO(p_idle_timeout, 2, 3) { Log l; { PE x(1, naturalNull, 0, 10); mc::Sem e; exec(x, Task(&l, 0, 0, 0, &e)); e.wait(); Thread::sleep(Timeout(10)); exec(x, Task(&l, 1)); mc::outcome(l.tid[0] == l.tid[1]); } l.check(0, 2); l.gone(0, 2); MC_ASSERT(l.maxAct == 1, "%d tasks at once", l.maxAct); }
MC_SCENARIO(p_idle_two, 2, 3) { Log l; { PE x(2, naturalNull, 0, 10); exec(x, Task(&l, 0)); exec(x, Task(&l, 1)); Thread::sleep(Timeout(10)); exec(x, Task(&l, 2)); MC_ASSERT(x.getThreadCount() <= 2, "%d threads", (int)x.getThreadCount()); } l.check(0, 3); l.gone(0, 3); MC_ASSERT(l.maxAct <= 2, "%d tasks at once", l.maxAct); }
MC_SCENARIO(p_busy_timeout, 3, 4) { Log l; { PE x(1); mc::Sem w, st; exec(x, Task(&l, 0, &st, &w)); st.wait(); x.setWaitTimeout(10); bool ex = false; long t0 = mc::now_ms(); try { exec(x, Task(&l, 1)); } catch (TimeoutException &) { ex = true; } MC_ASSERT(ex && mc::now_ms() >= t0 + 10, "no timeout"); MC_ASSERT(l.copies[1] == 0, "copies of the refused task are left"); w.post(); x.setWaitTimeout(naturalNull); exec(x, Task(&l, 2)); } MC_ASSERT(!l.ran[1], "a refused task was run"); l.check(0, 1); l.check(2, 3); l.gone(0, 3); }
MC_SCENARIO(p_maybe_timeout, 2, 3) { Log l; bool ex = false; { PE x(1); mc::Sem w; exec(x, Task(&l, 0, 0, &w)); x.setWaitTimeout(10); struct C { mc::Sem *w; void operator()(int) const { w->post(); } } c = {&w}; LsPool<1> p; p.prepare(c); p.go_all(); try { exec(x, Task(&l, 1)); } catch (TimeoutException &) { ex = true; } p.wait_all(); p.finish(); } MC_ASSERT(ex != (bool)l.ran[1], "task 1: refused %d, run %d", ex, l.ran[1]); l.check(0, 1); l.gone(0, 2); mc::outcome(ex); }
MC_SCENARIO(p_new_thread_timeout, 2, 3) { Log l; { PE x(2, naturalNull, 10); mc::Sem a, b; exec(x, Task(&l, 0, 0, &a)); exec(x, Task(&l, 1, &a)); } l.check(0, 2); l.gone(0, 2); mc::outcome(l.tid[0] == l.tid[1]); }
MC_SCENARIO(p_stop_again, 3, 4) { Log l; { PE x(1); exec(x, Task(&l, 0)); MC_ASSERT(x.stopAll(naturalNull), "stopAll"); l.check(0, 1); MC_ASSERT(x.getThreadCount() == 0, "%d threads after stopAll", (int)x.getThreadCount()); MC_ASSERT(!x.isRunning(), "running after stopAll"); exec(x, Task(&l, 1)); } l.check(0, 2); l.gone(0, 2); }
MC_SCENARIO(p_stop_timeout, 3, 4) { Log l; { PE x(1); mc::Sem st, w; exec(x, Task(&l, 0, &st, &w)); st.wait(); MC_ASSERT(!x.stopAll(10), "stopAll did not time out"); w.post(); exec(x, Task(&l, 1)); } l.check(0, 2); l.gone(0, 2); }
MC_SCENARIO(p_lower, 2, 3) { Log l; { PE x(2); mc::Sem a, b; exec(x, Task(&l, 0, 0, &a)); exec(x, Task(&l, 1, &b, 0)); b.wait(); x.setMaxThreadCount(1); a.post(); for (int i = 2; i < 4; i++) exec(x, Task(&l, i)); } l.check(0, 4); l.gone(0, 4); MC_ASSERT(l.maxAct <= 2, "%d tasks at once", l.maxAct); }
MC_SCENARIO(p_spawn, 2, 3) { Log l; { PE x(2); x.spawnThreads(); MC_ASSERT(x.getThreadCount() == 2, "%d threads", (int)x.getThreadCount()); exec(x, Task(&l, 0)); MC_ASSERT(x.stopAll(naturalNull) && x.getThreadCount() == 0, "stop"); x.spawnThreads(1); MC_ASSERT(x.getThreadCount() == 1, "%d threads", (int)x.getThreadCount()); exec(x, Task(&l, 1)); } l.check(0, 2); l.gone(0, 2); }
MC_SCENARIO(p_no_thread, 2, 3) { Log l; { PE x(2); mc::Sem w, st; bool first = mc::choose(2) == 0; if (!first) { exec(x, Task(&l, 0, &st, &w)); st.wait(); } mc::failThreads(1); bool ex = false; try { exec(x, Task(&l, 1)); } catch (Exception &) { ex = true; } MC_ASSERT(ex != (bool)l.ran[1], "task 1: refused %d, run %d", ex, l.ran[1]); MC_ASSERT(ex, "thread creation did not fail"); MC_ASSERT(l.copies[1] == 0, "copies"); if (!first) w.post(); mc::failThreads(0); exec(x, Task(&l, 2)); } l.check(2, 3); MC_ASSERT(!l.ran[1], "a refused task was run later"); l.gone(0, 3); }
MC_SCENARIO(p_copy, 1, 1) { Log l; { PE a(2, 50, 5, 20); PE x(a); MC_ASSERT(x.getMaxThreadCount() == 2 && x.getWaitTimeout() == 50 && x.getNewThreadTimeout() == 5 && x.getIdleTimeout() == 20, "copied setup"); exec(x, Task(&l, 0)); } l.check(0, 1); }
// ---- unlimited executor
typedef InfParallelExecutor IE;
MC_SCENARIO(i_run, 2, 3) { Log l; { IE x; MC_ASSERT(!x.isRunning(), "runs"); mc::Sem a, b; exec(x, Task(&l, 0, &a, &b)); exec(x, Task(&l, 1, &b, &a)); x.join(); l.check(0, 2); MC_ASSERT(!x.isRunning(), "still running after join"); exec(x, Task(&l, 2)); } l.check(0, 3); l.gone(0, 3); }
MC_SCENARIO(i_stop_timeout, 2, 3) { Log l; { IE x; mc::Sem st, w; exec(x, Task(&l, 0, &st, &w)); st.wait(); MC_ASSERT(x.isRunning(), "does not run"); MC_ASSERT(!x.stopAll(10), "stopAll did not time out"); w.post(); MC_ASSERT(x.stopAll(naturalNull), "stopAll"); l.check(0, 1); MC_ASSERT(!x.isRunning(), "still running"); } l.gone(0, 1); }
MC_SCENARIO(i_destroy, 3, 4) { Log l; { IE x; for (int i = 0; i < 2; i++) exec(x, Task(&l, i)); } l.check(0, 2); l.gone(0, 2); mc::outcome(l.hash()); }
MC_SCENARIO(i_no_thread, 1, 1) { Log l; { IE x; mc::failThreads(1); bool ex = false; try { exec(x, Task(&l, 0)); } catch (Exception &) { ex = true; } MC_ASSERT(ex, "no exception"); mc::failThreads(0); x.join(); exec(x, Task(&l, 1)); } l.check(1, 2); MC_ASSERT(!l.ran[0], "run"); l.gone(0, 2); }
MC_SCENARIO(direct, 1, 1) { Log l; DirectExecutor d; MC_ASSERT(!d.isRunning(), "run"); exec(d, Task(&l, 0)); MC_ASSERT(l.tid[0] == l.mainTid, "thread"); Task t(&l, 1); t.thr = true; bool ex = false; try { exec(d, t); } catch (ErrorMessageException &) { ex = true; } MC_ASSERT(ex && !d.isRunning(), "exception"); l.check(0, 2); }
// ---- the same with stray wake-ups
MC_STRAY(q_run, 1, 2)
MC_STRAY(q_stop_early, 1, 2)
MC_STRAY(q_destroy, 1, 2)
MC_STRAY(q_destroy_mortal, 1, 2)
MC_STRAY(q_two_workers, 1, 2)
MC_STRAY(q_two_needed, 1, 2)
MC_STRAY(q_two_callers, 1, 2)
MC_STRAY(q_again_destroyed, 1, 2)
MC_STRAY(q_exception, 1, 2)
MC_STRAY(q_stop_timeout, 1, 2)
MC_STRAY(p_one, 1, 2)
MC_STRAY(p_two, 1, 2)
MC_STRAY(p_two_needed, 1, 2)
MC_STRAY(p_two_callers, 1, 2)
MC_STRAY(p_idle_timeout, 1, 2)
MC_STRAY(p_idle_two, 1, 2)
MC_STRAY(p_busy_timeout, 1, 2)
MC_STRAY(p_maybe_timeout, 1, 2)
MC_STRAY(p_new_thread_timeout, 1, 2)
MC_STRAY(p_stop_again, 1, 2)
MC_STRAY(p_stop_timeout, 1, 2)
MC_STRAY(p_lower, 1, 2)
MC_STRAY(p_spawn, 1, 2)
MC_STRAY(p_no_thread, 1, 2)
MC_STRAY(i_run, 1, 2)
MC_STRAY(i_stop_timeout, 1, 2)
MC_STRAY(i_destroy, 1, 2)
