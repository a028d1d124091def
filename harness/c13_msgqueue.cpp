// C13: message queues, message threads and asynchronous procedure calls
#include "lslife.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/actions/msgQueue.h"
#include "lightspeed/base/actions/message.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/mt/msgthread.h"
#include "lightspeed/mt/apcthread.h"
using namespace LightSpeed;
enum { MX = 10 };
struct Log {
	volatile int ran[MX], rej[MX], gone[MX], order[MX], n, tid;
	Log() : n(0), tid(-1) { for (int i = 0; i < MX; i++) ran[i] = rej[i] = gone[i] = 0; }
	void onRun(int i) { mc::NoPreempt _; MC_ASSERT(!ran[i] && !rej[i] && !gone[i], "message %d is run again (run %d, rejected %d, done %d)", i, ran[i], rej[i], gone[i]); ran[i] = 1; order[n] = i; n = n + 1; if (tid < 0) tid = mc::self(); MC_ASSERT(tid == mc::self(), "a message ran on the wrong thread"); }
	void onReject(int i) { mc::NoPreempt _; MC_ASSERT(!ran[i] && !rej[i] && !gone[i], "message %d is rejected (run %d, rejected %d, done %d)", i, ran[i], rej[i], gone[i]); rej[i] = 1; }
	void onGone(int i) { mc::NoPreempt _; MC_ASSERT(!gone[i], "message %d finished twice", i); MC_ASSERT(ran[i] || rej[i], "message %d was dropped: finished, but neither run nor rejected", i); gone[i] = 1; }
	int pos(int i) { for (int k = 0; k < n; k++) if (order[k] == i) return k; return -1; }
	void check(int a, int b) { for (int i = a; i < b; i++) MC_ASSERT(ran[i] + rej[i] == 1 && gone[i], "message %d: run %d, rejected %d, done %d", i, ran[i], rej[i], gone[i]); }
	int hash() { int m = 0; for (int i = 0; i < n; i++) m = m * 10 + order[i] + 1; return m; }
};
struct Msg : public MsgQueue::AbstractMsg {
	Log &l; int i; mc::Sem *s; Msg(Log &l, int i, mc::Sem *s = 0) : l(l), i(i), s(s) {}
	virtual void run() throw() { l.onRun(i); if (s) s->post(); } virtual void reject() throw() { l.onReject(i); } virtual void done() throw() { l.onGone(i); delete this; }
};
struct Q : public MsgQueue {
	mc::Sem s; Q() {} bool pump() { return pumpMessage(); } virtual void notify() { s.post(); } void wflush() { wtFlush(); }
	using MsgQueue::queueLen;
};
// the working thread: pumps until it was told to finish
struct Pump { Q *q; void operator()(int) const { while (!Thread::canFinish()) { q->s.wait(); while (!Thread::canFinish() && q->pump()) {} } } };
struct PumpN { Q *q; int n; void operator()(int) const { int k = 0; while (k < n) { q->s.wait(); while (k < n && q->pump()) k++; } } };
struct Post { Q *q; Log *l; int a, b, prio; void operator()(int) const { for (int i = a; i < b; i++) { Msg *m = new Msg(*l, i); if (i >= prio) q->postPriorityMessage(m); else q->postMessage(m); } } };
MC_SCENARIO_F(post_pump, 4, 6, 0) { Log l; Q q; PumpN p = {&q, 3}; Post a = {&q, &l, 0, 3, 9}; LsPool<1> t; t.prepare(p); t.go_all(); a(0); t.wait_all(); t.finish(); l.check(0, 3); MC_ASSERT(l.hash() == 123, "order %d", l.hash()); MC_ASSERT(q.empty() && q.length() == 0 && !q.isRunning(), "queue is not empty: %d", (int)q.length()); }
MC_SCENARIO(two_producers, 3, 4) { Log l; Q q; PumpN p = {&q, 4}; Post a = {&q, &l, 0, 2, 9}, b = {&q, &l, 2, 4, 9}; LsPool<2> t; t.prepareOne(0, p); t.prepareOne(1, b); t.go_all(); a(0); t.wait_all(); t.finish(); l.check(0, 4); MC_ASSERT(l.pos(0) < l.pos(1) && l.pos(2) < l.pos(3), "order %d", l.hash()); mc::outcome(l.hash()); MC_ASSERT(q.empty() && q.length() == 0, "length"); }
MC_SCENARIO(priority_and_plain, 3, 4) { Log l; Q q; PumpN p = {&q, 4}; Post a = {&q, &l, 0, 2, 9}, b = {&q, &l, 2, 4, 0}; LsPool<2> t; t.prepareOne(0, p); t.prepareOne(1, b); t.go_all(); a(0); t.wait_all(); t.finish(); l.check(0, 4); MC_ASSERT(l.pos(0) < l.pos(1), "order %d", l.hash()); mc::outcome(l.hash()); MC_ASSERT(q.empty() && q.length() == 0, "length"); }
MC_SCENARIO(two_priority, 3, 4) { Log l; Q q; PumpN p = {&q, 4}; Post a = {&q, &l, 0, 2, 0}, b = {&q, &l, 2, 4, 0}; LsPool<2> t; t.prepareOne(0, p); t.prepareOne(1, b); t.go_all(); a(0); t.wait_all(); t.finish(); l.check(0, 4); mc::outcome(l.hash()); }
MC_SCENARIO(priority_overtakes, 3, 5) {
	// three normal messages are pending; a priority message is posted while they are pumped: it overtakes everything pending when the post returns
	Log l; Q q; PumpN p = {&q, 4}; Post a = {&q, &l, 0, 3, 9}; a(0); struct B { Q *q; Log *l; volatile int *left; void operator()(int) const { q->postPriorityMessage(new Msg(*l, 3)); mc::NoPreempt _; *left = l->n; } }; volatile int left = 0; B b = {&q, &l, &left}; LsPool<2> t; t.prepareOne(0, p); t.prepareOne(1, b); t.go_all(); t.wait_all(); t.finish(); l.check(0, 4); MC_ASSERT(l.pos(0) < l.pos(1) && l.pos(1) < l.pos(2), "order"); 
	// at most the message being fetched may still come before it
	MC_ASSERT(l.pos(3) <= left + 1, "priority message posted after %d messages were run was run as the %d.", left, l.pos(3)); mc::outcome(l.hash());
}
MC_SCENARIO(len_never_negative, 3, 5) { Log l; Q q; PumpN p = {&q, 2}; Post a = {&q, &l, 0, 1, 9}, b = {&q, &l, 1, 2, 0}; LsPool<2> t; t.prepareOne(0, p); struct B { Q *q; Post p; void operator()(int) const { p(0); MC_ASSERT((int)q->queueLen >= 0 && (int)q->queueLen <= 2, "queue length is %d", (int)q->queueLen); } } bb = {&q, b}; t.prepareOne(1, bb); t.go_all(); a(0); MC_ASSERT((int)q.queueLen >= 0 && (int)q.queueLen <= 2, "queue length is %d", (int)q.queueLen); t.wait_all(); t.finish(); MC_ASSERT(q.length() == 0, "length"); l.check(0, 2); }
// ---- synchronous requests
MC_SCENARIO(sync_to_queue, 4, 5) { Log l; Q q; Post a = {&q, &l, 0, 2, 9}; Pump p = {&q}; LsPool<1> t; t.prepare(p); t.go_all(); a(0); q.syncToQueue(); l.check(0, 2); MC_ASSERT(l.hash() == 12, "syncToQueue returned before the messages were run"); q.finish(); t.wait_all(); t.finish(); }
MC_SCENARIO(wait_current, 3, 4) { Log l; Q q; Post a = {&q, &l, 0, 2, 9}; Pump p = {&q}; LsPool<1> t; t.prepare(p); t.go_all(); a(0); int cur = -1; { mc::NoPreempt _; for (int i = 0; i < 2; i++) if (l.ran[i] && !l.gone[i]) cur = i; } q.waitForFinishMsg(); MC_ASSERT(cur < 0 || l.gone[cur], "message %d is still being processed", cur); mc::outcome(l.hash()); q.syncToQueue(); l.check(0, 2); q.finish(); t.wait_all(); t.finish(); }
MC_SCENARIO(flush, 4, 5) { Log l; Q q; Post a = {&q, &l, 0, 3, 2}; Pump p = {&q}; LsPool<1> t; t.prepare(p); t.go_all(); a(0); q.flush(); l.check(0, 3); mc::outcome(l.hash()); MC_ASSERT(q.empty() && q.length() == 0, "not empty after flush"); q.finish(); t.wait_all(); t.finish(); }
MC_SCENARIO(finish, 3, 4) { Log l; Q *q = new Q; Post a = {q, &l, 0, 2, 9}; Pump p = {q}; LsPool<2> t; t.prepareOne(0, p); Post b = {q, &l, 2, 4, 9}; t.prepareOne(1, b); t.go_all(); a(0); q->finish(); l.check(0, 2); t.wait_all(); t.finish(); delete q; l.check(0, 4); mc::outcome(l.hash()); }
MC_SCENARIO(cancel, 3, 4) {
	// after cancelMessage returned the message was run or rejected, all others are untouched
	Log l; Q q; Pump p = {&q}; LsPool<1> t; t.prepare(p); Msg *m[3]; for (int i = 0; i < 3; i++) m[i] = new Msg(l, i); int k = mc::choose(3); t.go_all(); for (int i = 0; i < 3; i++) q.postMessage(m[i]); q.cancelMessage(m[k]); MC_ASSERT(l.ran[k] + l.rej[k] == 1 && l.gone[k], "cancelled message %d: run %d, rejected %d, done %d", k, l.ran[k], l.rej[k], l.gone[k]); q.syncToQueue(); l.check(0, 3); for (int i = 0; i < 3; i++) MC_ASSERT(i == k || l.ran[i], "message %d was rejected", i); mc::outcome(l.hash()); q.finish(); t.wait_all(); t.finish();
}
MC_SCENARIO(cancel_async, 3, 4) { Log l; Q q; Pump p = {&q}; LsPool<1> t; t.prepare(p); Msg *m[3]; for (int i = 0; i < 3; i++) m[i] = new Msg(l, i); int k = mc::choose(3); t.go_all(); for (int i = 0; i < 3; i++) q.postMessage(m[i]); q.cancelMessage(m[k], true); q.syncToQueue(); l.check(0, 3); for (int i = 0; i < 3; i++) MC_ASSERT(i == k || l.ran[i], "message %d was rejected", i); mc::outcome(l.hash()); q.finish(); t.wait_all(); t.finish(); }
MC_SCENARIO(sync_two_threads, 3, 4) { Log l; Q q; Pump p = {&q}; struct S { Q *q; Log *l; int i; mc::Sem *d; void operator()(int) const { q->postMessage(new Msg(*l, i)); q->syncToQueue(); l->check(i, i + 1); d->post(); } }; mc::Sem d; S a = {&q, &l, 0, &d}, b = {&q, &l, 1, &d}; LsPool<2> t; t.prepareOne(0, p); t.prepareOne(1, b); t.go_all(); a(0); mc::outcome(l.hash()); d.wait(); d.wait(); q.finish(); t.wait_all(); t.finish(); }
// a sender that ends right after its synchronous request
MC_SCENARIO(sync_mortal, 3, 4) { Log l; Q q; Pump p = {&q}; struct S { Q *q; Log *l; int i; void operator()(int) const { q->postMessage(new Msg(*l, i)); q->syncToQueue(); l->check(i, i + 1); } }; S a = {&q, &l, 0}; LsMortal m; m.prepare(a); LsPool<1> t; t.prepare(p); t.go_all(); m.go_all(); m.finish(); q.finish(); t.wait_all(); t.finish(); l.check(0, 1); }
MC_SCENARIO(flush_message_again, 1, 1) { Log l; LsPool<1> t; struct B { Log *l; void operator()(int) const { Q q; MsgQueue::FlushMsg f; for (int i = 0; i < 2; i++) { Post a = {&q, l, i, i + 1, 9}; a(0); q.postPriorityMessage(&f); MC_ASSERT(!f && !f.isRejected(), "the message is signaled before it is processed, round %d", i); MC_ASSERT(q.pump() && !!f && !q.pump(), "round %d", i); } } } b = {&l}; t.run(b); l.check(0, 2); MC_ASSERT(l.rej[0] && l.rej[1], "not rejected"); }
MC_SCENARIO(destroyed_pending, 1, 1) { Log l; { Q q; q.postMessage(0); q.postPriorityMessage(0); MC_ASSERT(q.empty() && q.length() == 0, "nothing was posted"); Post a = {&q, &l, 0, 3, 2}; a(0); } l.check(0, 3); for (int i = 0; i < 3; i++) MC_ASSERT(l.rej[i], "message %d was not rejected", i); }
struct Fn { Log *l; int i; void operator()() const { l->onRun(i); } };
struct Rj { Log *l; int i; void operator()() const { l->onReject(i); } };
MC_SCENARIO(functions, 1, 1) { Log l; LsPool<1> t; struct B { Log *l; void operator()(int) const { Q q; MC_ASSERT(q.getCurrentMessage() == 0, "current message of a new queue"); Fn a = {l, 0}, b = {l, 1}, c = {l, 2}; Rj rb = {l, 1}, rd = {l, 3}; Fn d = {l, 3}; q.postFnCall(a); q.postFnCall(b, rb); Message<void> m(c); q.execute(IExecutor::ExecAction(c)); while (q.pump()) {} MC_ASSERT(l->hash() == 123, "order %d", l->hash()); q.postFnCall(d, rd); q.wflush(); MC_ASSERT(l->rej[3] == 1, "reject function"); MC_ASSERT(q.getCurrentMessage() == 0, "current message"); Q q2(q); MC_ASSERT(q2.empty() && q2.length() == 0 && q2.getCurrentMessage() == 0 && !q2.pump(), "copied queue"); } } b = {&l}; t.run(b); }
// ---- all sequences of operations of one thread against the reference model
static void sequences(int depth) {
	Log l; LsPool<1> t; struct B { Log *l; int depth; void operator()(int) const {
		mc::quiet(true); Q q; int prio[MX], np = 0, norm[MX], nn = 0, cnt = 0, runs = 0, rj = 0; Msg *ptr[MX];
		for (int s = 0; s < depth; s++) {
			int op = mc::choose(6); if (s == depth - 1 && op < 2) op = 2;
			if (op == 0 && cnt < MX) { q.postMessage(ptr[cnt] = new Msg(*l, cnt)); norm[nn++] = cnt++; }
			else if (op == 1 && cnt < MX) { q.postPriorityMessage(ptr[cnt] = new Msg(*l, cnt)); prio[np++] = cnt++; }
			else if (op == 2) { bool r = q.pump(); MC_ASSERT(r == (np + nn > 0), "pump returned %d with %d messages", r, np + nn); if (r) { int e = np ? prio[--np] : norm[0]; if (e == norm[0] && !l->rej[e] && nn && norm[0] == e) { for (int i = 1; i < nn; i++) norm[i - 1] = norm[i]; nn--; } MC_ASSERT(l->n == runs + 1 && l->order[runs] == e && l->gone[e], "message %d was run, expected %d", l->n > runs ? l->order[runs] : -1, e); runs++; } }
			else if (op == 3 && np + nn) { // cancel any pending message: the worker does it when it gets to the request
				int k = mc::choose(np + nn); int id = k < np ? prio[k] : norm[k - np]; q.cancelMessage(ptr[id], true); q.pump(); MC_ASSERT(l->rej[id] && l->gone[id] && l->n == runs, "message %d was not cancelled", id); rj++; if (k < np) { for (int i = k + 1; i < np; i++) prio[i - 1] = prio[i]; np--; } else { k -= np; for (int i = k + 1; i < nn; i++) norm[i - 1] = norm[i]; nn--; } }
			else if (op == 4) { q.wflush(); for (int i = 0; i < cnt; i++) MC_ASSERT(l->gone[i], "message %d survived the flush", i); MC_ASSERT(l->n == runs, "flush ran a message"); np = nn = 0; }
			else if (op == 5) { MsgQueue::FlushMsg f; q.postPriorityMessage(&f); q.pump(); MC_ASSERT(f, "flush did not notify"); MC_ASSERT(!f.isRejected(), "flush was rejected"); MC_ASSERT(l->n == runs, "flush ran a message"); for (int i = 0; i < cnt; i++) MC_ASSERT(l->gone[i], "message %d survived the flush", i); np = nn = 0; }
			MC_ASSERT((int)q.length() == np + nn && q.empty() == (np + nn == 0) && q.isRunning() == (np + nn > 0), "%d messages, expected %d", (int)q.length(), np + nn);
		}
		mc::outcome(l->hash()); mc::quiet(false);
	} } b = {&l, depth}; t.run(b);
}
MC_SCENARIO(sequences5, 0, 0) { sequences(6); }
// ---- MsgThread: starts with the first message
struct MT : public MsgThread { volatile int idles; MT() : idles(0) {} virtual natural onIdle(natural c) { idles = idles + 1; return naturalNull; } ~MT() { stop(); } };
MC_SCENARIO(msgthread_auto, 3, 4) { Log l; mc::Sem s; MT *t = new MT; t->postMessage(new Msg(l, 0)); t->postMessage(new Msg(l, 1, &s)); s.wait(); delete t; l.check(0, 2); MC_ASSERT(l.hash() == 12 && l.tid != 0, "order"); }
MC_SCENARIO(msgthread_destroy, 3, 4) { Log l; MsgThread *t = new MsgThread; t->postMessage(new Msg(l, 0)); delete t; l.check(0, 1); mc::outcome(l.n); }
MC_SCENARIO(msgthread_two, 2, 3) { Log l; mc::Sem s; MT *t = new MT; struct A { MT *t; Log *l; mc::Sem *s; void operator()(int) const { t->postMessage(new Msg(*l, 1, s)); } } a = {t, &l, &s}; LsPool<1> p; p.prepare(a); p.go_all(); t->postMessage(new Msg(l, 0, &s)); s.wait(); s.wait(); p.wait_all(); p.finish(); delete t; l.check(0, 2); MC_ASSERT(l.n == 2, "run"); mc::outcome(l.hash()); }
MC_SCENARIO(msgthread_sync, 3, 4) { Log l; LsPool<1> p; struct A { Log *l; void operator()(int) const { MT t; t.postMessage(new Msg(*l, 0)); t.syncToQueue(); l->check(0, 1); t.postPriorityMessage(new Msg(*l, 1)); ((MsgQueue &)t).finish(); l->check(1, 2); } } a = {&l}; p.run(a); mc::outcome(l.hash()); }
MC_SCENARIO(msgthread_manual, 2, 3) { Log l; mc::Sem s; MT t; t.setManualStart(true); t.postMessage(new Msg(l, 0, &s)); MC_ASSERT(!((Thread &)t).isRunning() && l.n == 0, "thread started"); t.setManualStart(false); t.postMessage(new Msg(l, 1, &s)); s.wait(); s.wait(); MC_ASSERT(l.hash() == 12, "order"); t.stop(); l.check(0, 2); }
// ---- APC
struct Apc : public AbstractAPC { Log *l; int i; IAPCServer *again; Apc *nx; mc::Sem *s; Apc() : again(0), nx(0), s(0) {} void set(Log *l, int i) { this->l = l; this->i = i; } virtual void run() throw() { l->onRun(i); if (again) again->execute(nx); if (s) s->post(); } virtual void rejected() throw() { l->onReject(i); } };
struct ApcPush { AbstractAPCServer *s; Apc *a; int n; int *wake; void operator()(int) const { for (int i = 0; i < n; i++) if (s->execute(a + i)) { mc::NoPreempt _; *wake = *wake + 1; } } };
MC_SCENARIO(apc_serial, 1, 1) { Log l; AbstractAPCServer s; Apc a[4]; for (int i = 0; i < 4; i++) a[i].set(&l, i); MC_ASSERT(!s.anyAPC(), "any"); MC_ASSERT(s.execute(a), "first call should be notified"); MC_ASSERT(!s.execute(a + 1) && !s.execute(a + 2), "next calls need not be notified"); MC_ASSERT(s.anyAPC() && l.n == 0, "any"); s.executeQueue(); MC_ASSERT(l.hash() == 123 && !s.anyAPC(), "order %d", l.hash()); s.executeQueue(); MC_ASSERT(l.n == 3 && s.execute(a + 3), "notify"); s.executeQueue(); MC_ASSERT(l.n == 4, "again"); }
MC_SCENARIO(apc_reject, 1, 1) { Log l; Apc a[3]; for (int i = 0; i < 3; i++) a[i].set(&l, i); { AbstractAPCServer s; s.execute(a); s.execute(a + 1); s.rejectAll(); MC_ASSERT(l.rej[0] && l.rej[1] && !s.anyAPC(), "rejectAll"); s.execute(a + 2); } MC_ASSERT(l.rej[2] == 1 && l.n == 0, "rejected by the destructor"); }
MC_SCENARIO(apc_concurrent, 4, 6) { Log l; AbstractAPCServer s; Apc a[4]; for (int i = 0; i < 4; i++) a[i].set(&l, i); int w = 0, w2 = 0; ApcPush x = {&s, a, 2, &w}, y = {&s, a + 2, 2, &w2}; struct E { AbstractAPCServer *s; void operator()(int) const { s->executeQueue(); s->executeQueue(); } } e = {&s}; LsPool<2> p; p.prepareOne(0, x); p.prepareOne(1, y); p.go_all(); e(0); p.wait_all(); int k = l.n; MC_ASSERT(w + w2 >= 1, "nobody was told to notify"); e(0); (void)k; p.finish(); MC_ASSERT(l.n == 4 && l.pos(0) < l.pos(1) && l.pos(2) < l.pos(3), "order %d", l.hash()); mc::outcome(l.hash()); }
MC_SCENARIO(apc_again, 1, 1) { Log l; AbstractAPCServer s; Apc a[3]; for (int i = 0; i < 3; i++) a[i].set(&l, i); a[0].again = &s; a[0].nx = a + 2; s.execute(a); s.execute(a + 1); s.executeQueue(); s.executeQueue(); MC_ASSERT(l.hash() == 123, "order %d", l.hash()); }
struct AT : public APCThread { using APCThread::apc_enabled; };
struct Sleeper { volatile bool *stop; void operator()() const { while (!*stop) Thread::sleep(nil); } };
MC_SCENARIO(apc_thread, 3, 5) { Log l; Apc a[3]; for (int i = 0; i < 3; i++) a[i].set(&l, i); { AT t; volatile bool stop = false; Sleeper sl = {&stop}; mc::Sem s; a[1].s = &s; t.queueAPC(a); t.start(ThreadFunction::create(sl)); t.queueAPC(a + 1); s.wait(); MC_ASSERT(l.hash() == 12, "order %d", l.hash()); MC_ASSERT(l.tid != 0, "thread"); stop = true; t.wakeUp(); t.join(); t.queueAPC(a + 2); MC_ASSERT(!l.rej[2], "rejected too early"); } MC_ASSERT(l.rej[2], "a call queued after the end was not rejected"); }
MC_SCENARIO(apc_thread_two, 3, 4) { Log l; Apc a[2]; for (int i = 0; i < 2; i++) a[i].set(&l, i); { AT t; volatile bool stop = false; Sleeper sl = {&stop}; mc::Sem s; a[0].s = a[1].s = &s; struct P { AT *t; Apc *a; void operator()(int) const { t->queueAPC(a); } } p = {&t, a + 1}; LsPool<1> q; q.prepare(p); mc::quiet(true); t.start(ThreadFunction::create(sl)); mc::quiet(false); q.go_all(); t.queueAPC(a); s.wait(); s.wait(); stop = true; t.wakeUp(); q.wait_all(); q.finish(); t.join(); } MC_ASSERT(l.n == 2 && l.tid != 0, "run"); mc::outcome(l.hash()); }
struct Dis { AT *t; Log *l; mc::Sem *go, *in; void operator()() const { t->enableAPC(false); in->post(); go->wait(); natural r = 0; bool x = Thread::sleep(Timeout(10), r); MC_ASSERT(l->n == 0, "a call ran although they are disabled"); (void)x; t->enableAPC(true); Thread::sleep(Timeout(10)); MC_ASSERT(l->n == 1, "the call did not run after calls were enabled"); } };
MC_SCENARIO(apc_disabled, 2, 3) { Log l; Apc a[1]; a[0].set(&l, 0); AT t; mc::Sem go, in; Dis d = {&t, &l, &go, &in}; t.start(ThreadFunction::create(d)); in.wait(); t.queueAPC(a); go.post(); t.join(); MC_ASSERT(l.n == 1, "run"); }
// ---- the same with stray wake-ups
MC_STRAY(post_pump, 2, 3)
MC_STRAY(two_producers, 1, 2)
MC_STRAY(priority_and_plain, 1, 2)
MC_STRAY(two_priority, 1, 2)
MC_STRAY(priority_overtakes, 1, 2)
MC_STRAY(len_never_negative, 1, 2)
MC_STRAY(sync_to_queue, 2, 3)
MC_STRAY(wait_current, 1, 2)
MC_STRAY(flush, 2, 3)
MC_STRAY(finish, 1, 2)
MC_STRAY(cancel, 1, 2)
MC_STRAY(cancel_async, 1, 2)
MC_STRAY(sync_two_threads, 1, 2)
MC_STRAY(sync_mortal, 1, 2)
MC_STRAY(msgthread_auto, 1, 2)
MC_STRAY(msgthread_destroy, 1, 2)
MC_STRAY(msgthread_two, 1, 2)
MC_STRAY(msgthread_sync, 1, 2)
MC_STRAY(msgthread_manual, 1, 2)
MC_STRAY(apc_concurrent, 2, 3)
MC_STRAY(apc_thread, 1, 2)
MC_STRAY(apc_thread_two, 1, 2)
MC_STRAY(apc_disabled, 1, 2)
