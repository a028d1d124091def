// C19: schedulers
#include "lslife.h"
#include "lightspeed/mt/scheduler.h"
#include "lightspeed/mt/msgthread.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/queue.tcc"
#include "lightspeed/base/containers/sort.tcc"
#include "lightspeed/base/actions/idispatcher.tcc"
#include "lightspeed/base/actions/msgQueue.h"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/mt/exceptions/threadException.h"
using namespace LightSpeed;
typedef Promise<void> PV; typedef Future<void> FV;
enum { MX = 8 };
struct Ev { natural due, hi; volatile int ran, canceled; volatile bool in; bool known; int seq; mc::Sem *s; Ev():due(0), hi(0), ran(0), canceled(0), in(false), known(false), seq(-1), s(0) {} };
static Ev ev[MX]; static int seqNo, runTid; static bool closed;
static void reset() { for (int i = 0; i < MX; i++) ev[i] = Ev(); seqNo = 0; runTid = -1; closed = false; }
static void know() { for (int k = 0; k < MX; k++) ev[k].known = ev[k].in; }
static void fired(Ev *e) { mc::NoPreempt _; natural now = mc::now_ms(); MC_ASSERT(!e->ran && !e->canceled, "an event ran again"); MC_ASSERT(now >= e->due, "an event ran %d ms before its time", (int)(e->due - now)); MC_ASSERT(!closed, "an event ran after the scheduler was gone");
	if (runTid < 0) runTid = mc::self(); MC_ASSERT(runTid == mc::self(), "an event ran on another thread");
	for (int k = 0; k < MX; k++) if (ev[k].known && !ev[k].ran && !ev[k].canceled) MC_ASSERT(ev[k].hi >= e->due, "event %d ran although the earlier event %d waits", (int)(e - ev), k); e->seq = seqNo++; e->ran = 1; }
static void canceled(Ev *e) { mc::NoPreempt _; MC_ASSERT(!e->ran && !e->canceled, "an event was rejected after it was settled"); e->canceled = 1; }
static void settled(int n, bool allRan = false) { for (int i = 0; i < n; i++) { MC_ASSERT(ev[i].ran + ev[i].canceled == 1, "event %d: ran %d, canceled %d", i, ev[i].ran, ev[i].canceled); if (allRan) MC_ASSERT(ev[i].ran, "event %d did not run", i); mc::outcome(ev[i].ran ? ev[i].seq : 9); } }
// ---- Scheduler: a dispatcher that resolves promises in time
static void plan(Scheduler &s, int i, natural delay, int next = -1, natural nextDelay = 0, bool quit = false, bool atOnce = false);
struct Obs: public FV::IObserver { Scheduler &s; Ev *e; int next; natural nd; bool q; bool atOnce; Obs(Scheduler &s, Ev *e, int n, natural nd, bool q, bool a):s(s), e(e), next(n), nd(nd), q(q), atOnce(a) {}
	void resolve() throw() { fired(e); mc::Sem *sm = e->s; if (next >= 0) plan(s, next, nd); if (q) s.quit(); { mc::NoPreempt _; know(); } if (sm) sm->post(); }
	void resolve(const PException &) throw() { canceled(e); } };
struct Holder { Obs *o; FV *f; }; static Holder hold[MX];
static void plan(Scheduler &s, int i, natural delay, int next, natural nd, bool quit, bool atOnce) { hold[i].o = new Obs(s, &ev[i], next, nd, quit, atOnce); hold[i].f = new FV(); PV *p = new PV(hold[i].f->getPromise()); hold[i].f->addObserver(hold[i].o);
	SysTime t = SysTime::now() + SysTime(0, 0, 0, 0, delay); ev[i].due = ev[i].hi = t.msecs(); s.schedule(Timeout(t), *p); delete p; ev[i].in = true; }
static void drop() { for (int i = 0; i < MX; i++) { delete hold[i].f; delete hold[i].o; hold[i].f = 0; hold[i].o = 0; } }
struct Run { Scheduler *d; void operator()(int) const { d->run(); } };
struct Sch: public Scheduler { };
struct Plan { Scheduler *d; int a, b; natural t; int step; void operator()(int) const { for (int i = a; i < b; i++) plan(*d, i, (natural)((integer)t + step * (i - a))); } };
static void waitStarted(Scheduler *d, mc::Sem &s) { struct A: public IDispatcher::AbstractAction { mc::Sem *s; virtual void run() throw() { s->post(); } virtual void reject() throw() {} }; static StdAlloc al; A *a = new(al) A; a->s = &s; d->dispatch(a); s.wait(); }
// n events planned by the main thread (before: how many before the thread runs), all of them must run
static void all(int n, int before, natural t, int step) { reset(); Scheduler *d = new Scheduler; mc::Sem st, s; for (int i = 0; i < n; i++) ev[i].s = &s; Plan m = {d, 0, before, t, step}; m(0); know(); Run r = {d}; LsPool<1> p; p.prepare(r); p.go_all(); waitStarted(d, st); Plan m2 = {d, before, n, (natural)((integer)t + step * before), step}; m2(0); for (int i = 0; i < n; i++) s.wait(); d->quit(); d->join(); closed = true; settled(n, true); p.wait_all(); p.finish(); delete d; settled(n, true); drop(); }
MC_SCENARIO(one, 3, 4) { all(1, 0, 10, 0); }
MC_SCENARIO(one_at_once, 3, 4) { all(1, 0, 0, 0); }
MC_SCENARIO(two_rising, 3, 3) { all(2, 0, 10, 10); }
MC_SCENARIO(two_falling, 3, 3) { all(2, 0, 20, -10); }
MC_SCENARIO(two_equal, 3, 3) { all(2, 0, 10, 0); }
MC_SCENARIO(three_before, 2, 2) { all(3, 3, 30, -10); }
MC_SCENARIO(three_falling, 2, 2) { all(3, 1, 30, -10); }
MC_SCENARIO(four_mixed, 1, 2) { all(4, 2, 20, -5); }
MC_SCENARIO(two_planners, 2, 2) { reset(); Scheduler *d = new Scheduler; mc::Sem s; for (int i = 0; i < 3; i++) ev[i].s = &s; Run r = {d}; Plan u = {d, 0, 1, 10, 0}, w = {d, 1, 3, 15, -10}; LsPool<2> p; p.prepareOne(0, r); p.prepareOne(1, u); p.go_all(); w(0); for (int i = 0; i < 3; i++) s.wait(); d->quit(); p.wait_all(); p.finish(); settled(3, true); delete d; drop(); }
MC_SCENARIO(from_event, 3, 3) { reset(); Scheduler *d = new Scheduler; mc::Sem s; ev[1].s = &s; ev[2].s = &s; plan(*d, 0, 5, 1, 10); plan(*d, 2, 8); know(); Run r = {d}; LsPool<1> p; p.prepare(r); p.go_all(); s.wait(); s.wait(); d->quit(); d->join(); settled(3, true); p.wait_all(); p.finish(); delete d; drop(); }
MC_SCENARIO(quit_from_event, 4, 6) { reset(); Scheduler *d = new Scheduler; plan(*d, 0, 5, -1, 0, true); plan(*d, 1, 10); know(); Run r = {d}; LsPool<1> p; p.prepare(r); p.go_all(); p.wait_all(); closed = true; MC_ASSERT(ev[0].ran && !ev[1].ran && !ev[1].canceled, "the first event ended the dispatching: %d %d", ev[0].ran, ev[1].ran); delete d; settled(2); MC_ASSERT(ev[1].canceled, "not canceled"); p.finish(); drop(); }
// ---- shutdown with pending events: canceled, or run before
static void shut(int n, natural t, bool waitFirst, bool del) { reset(); Scheduler *d = new Scheduler; mc::Sem st, s; if (waitFirst) ev[0].s = &s; Run r = {d}; LsPool<1> p; p.prepare(r); p.go_all(); waitStarted(d, st); Plan m = {d, 0, n, t, 10}; m(0); if (waitFirst) s.wait(); d->quit(); if (!del) d->join(); delete d; closed = true; settled(n); p.wait_all(); p.finish(); drop(); }
MC_SCENARIO(quit_pending, 3, 4) { shut(1, 10, false, false); }
MC_SCENARIO(quit_pending_two, 2, 3) { shut(2, 0, true, false); }
MC_SCENARIO(destroy_pending, 3, 4) { shut(1, 10, false, true); }
MC_SCENARIO(destroy_pending_at_once, 3, 4) { shut(1, 0, false, true); }
MC_SCENARIO(destroy_pending_two, 2, 3) { shut(2, 0, true, true); }
MC_SCENARIO(never_run, 1, 2) { reset(); Scheduler *d = new Scheduler; plan(*d, 0, 5); plan(*d, 1, 0); delete d; closed = true; settled(2); MC_ASSERT(ev[0].canceled && ev[1].canceled, "not canceled"); drop(); }
MC_SCENARIO(infinite, 1, 1) { reset(); Scheduler d; FV f; bool ex = false; try { d.schedule(nil, f.getPromise()); } catch (InvalidParamException &) { ex = true; } MC_ASSERT(ex, "an event without time was accepted"); }
// ---- SchedulerThread
struct Fn { int i; void operator()() const { fired(&ev[i]); { mc::NoPreempt _; know(); } if (ev[i].s) ev[i].s->post(); } }; struct Rj { int i; void operator()() const { canceled(&ev[i]); } };
struct ST: public SchedulerThread { ST() {} void at(int i, natural delay) { Fn f = {i}; Rj r = {i}; ev[i].due = SysTime::now().msecs() + delay; scheduleFnCall(f, r, delay); mc::NoPreempt _; ev[i].hi = SysTime::now().msecs() + delay; /* the thread reads the clock itself: its time of the event lies between the two */ ev[i].in = true; } };
struct TPlan { ST *d; int a, b; natural t; int step; void operator()(int) const { for (int i = a; i < b; i++) d->at(i, (natural)((integer)t + step * (i - a))); } };
static void thr(int n, natural t, int step, bool waitAll) { reset(); ST *d = new ST; mc::Sem s; if (waitAll) for (int i = 0; i < n; i++) ev[i].s = &s; TPlan m = {d, 0, n, t, step}; m(0); if (waitAll) for (int i = 0; i < n; i++) s.wait(); delete d; closed = true; settled(n, waitAll); }
MC_SCENARIO(thread_one, 3, 4) { thr(1, 10, 0, true); }
MC_SCENARIO(thread_at_once, 3, 4) { thr(1, 0, 0, true); }
MC_SCENARIO(thread_long, 2, 3) { thr(2, 2500, -1000, true); }
MC_SCENARIO(thread_falling, 2, 3) { thr(2, 20, -10, true); }
MC_SCENARIO(thread_rising, 2, 3) { thr(3, 10, 10, true); }
MC_SCENARIO(thread_pending, 2, 3) { thr(2, 10, 10, false); }
MC_SCENARIO(thread_two_planners, 2, 2) { reset(); ST *d = new ST; mc::Sem s; for (int i = 0; i < 3; i++) ev[i].s = &s; TPlan u = {d, 0, 1, 10, 0}, w = {d, 1, 3, 15, -10}; LsPool<1> p; p.prepare(u); p.go_all(); w(0); for (int i = 0; i < 3; i++) s.wait(); p.wait_all(); p.finish(); delete d; settled(3, true); }
// ---- the queue of the thread by itself: every sequence of planning, time steps and pumping
struct Q: public OldScheduler { natural t; Q():t(1) {} natural getCurTime() const { return t; } void notify() {} bool pump() { return pumpMessage(); } natural wait() { return getWaitTime(); } };
static Q *qq; static int order[64], norder; static natural qdue[16]; static bool qrej[16]; static natural qmade[16];
struct QF { int i; void operator()() const { MC_ASSERT(qq->t >= qdue[i], "event %d ran at %d, planned for %d", i, (int)qq->t, (int)qdue[i]); order[norder++] = i; } }; struct QR { int i; void operator()() const { MC_ASSERT(!qrej[i], "rejected twice"); qrej[i] = true; } };
static void hist(int depth, natural t0) { Q *q = new Q; q->t = t0; qq = q; norder = 0; int n = 0; bool pend[16] = {0}; mc::quiet(true); for (int i = 0; i < 16; i++) qrej[i] = false;
	for (int k = 0; k < depth; k++) { int c = mc::choose(6); switch (c) {
		case 0: case 1: case 2: { QF f = {n}; QR r = {n}; natural d = c == 0 ? 0 : c == 1 ? 2 : 3; qdue[n] = q->t + d; qmade[n] = k; q->scheduleFnCall(f, r, d); pend[n++] = true; break; }
		case 3: q->t++; break;
		case 4: q->t += 3; break;
		case 5: { int best = -1; for (int i = 0; i < n; i++) if (pend[i] && (best < 0 || (integer)(qdue[i] - qdue[best]) < 0)) best = i; int was = norder; natural w = q->wait(); if (best < 0) MC_ASSERT(w == naturalNull, "empty, but waits %d", (int)w); else { integer e = (integer)(qdue[best] - q->t); if (e < 0) e = 0; MC_ASSERT((integer)w == e, "wait time %d instead of %d", (int)w, (int)e); }
			bool ok = q->pump(); bool exp = best >= 0 && (integer)(q->t - qdue[best]) >= 0; MC_ASSERT(ok == exp && norder == was + exp, "pump returned %d, expected %d", ok, exp); if (exp) { MC_ASSERT(order[was] == best, "event %d ran instead of %d", order[was], best); pend[best] = false; } break; } } }
	delete q; mc::quiet(false); for (int i = 0; i < n; i++) MC_ASSERT(qrej[i] == pend[i], "event %d: rejected %d, pending %d", i, qrej[i], pend[i]); }
MC_SCENARIO(queue_histories, 0, 0) { hist(6, 5); }
// ---- the same with stray wake-ups
MC_STRAY(one, 1, 2)
MC_STRAY(one_at_once, 1, 2)
MC_STRAY(two_rising, 1, 2)
MC_STRAY(two_falling, 1, 2)
MC_STRAY(two_equal, 1, 2)
MC_STRAY(three_before, 1, 2)
MC_STRAY(three_falling, 1, 2)
MC_STRAY(two_planners, 1, 2)
MC_STRAY(from_event, 1, 2)
MC_STRAY(quit_from_event, 2, 3)
MC_STRAY(quit_pending, 1, 2)
MC_STRAY(quit_pending_two, 1, 2)
MC_STRAY(destroy_pending, 1, 2)
MC_STRAY(destroy_pending_at_once, 1, 2)
MC_STRAY(destroy_pending_two, 1, 2)
MC_STRAY(thread_one, 1, 2)
MC_STRAY(thread_at_once, 1, 2)
MC_STRAY(thread_long, 1, 2)
MC_STRAY(thread_falling, 1, 2)
MC_STRAY(thread_rising, 1, 2)
MC_STRAY(thread_pending, 1, 2)
MC_STRAY(thread_two_planners, 1, 2)
