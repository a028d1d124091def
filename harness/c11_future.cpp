// C11: futures and promises
#include "lslife.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/actions/promise.tcc"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/base/memory/stdAlloc.h"
using namespace LightSpeed;
typedef Future<int> F; typedef Promise<int> P; typedef IPromiseControl C;
static StdAlloc AL;      // no pooling: every block is tracked by the engine
static int codeOf(const PException &e) {
	mc::NoPreempt _;
	if (dynamic_cast<CanceledException *>(e.get())) return -1;
	if (dynamic_cast<ErrorMessageException *>(e.get())) return -2;
	return -3;
}
#define WAITCODE(expr, r) try { r = (expr); } catch (CanceledException &) { r = -1; } catch (ErrorMessageException &) { r = -2; } catch (TimeoutException &) { r = -4; }
static PException err() { return PException(new ErrorMessageException(THISLOCATION, "x")); }
// an observer that must be called at most once
struct Obs : public F::IObserver {
	volatile int calls, r; Obs *next; F *f; int act;
	Obs() : calls(0), r(0), next(0), f(0), act(0) {}
	void got(int x) { { mc::NoPreempt _; MC_ASSERT(calls == 0, "an observer was called twice (%d, then %d)", r, x); calls = calls + 1; r = x; }
		if (act == 1) f->addObserver(next); else if (act == 2) next->calls = 100 * f->removeObserver(next); else if (act == 3) f->cancel(); else if (act == 4) f->getPromise().resolve(77); }
	virtual void resolve(const int &v) throw() { got(v); }
	virtual void resolve(const PException &e) throw() { got(codeOf(e)); }
};
struct Resolve { mutable P p; int v; Resolve(F &f, int v) : p(f.getPromise()), v(v) {} void operator()(int) const { if (v > 0) p.resolve(v); else if (v == -2) p.reject(err()); else if (v == -3) p.reject(ErrorMessageException(THISLOCATION, "y")); } };
struct Wait { F f; int *r; Wait(F f, int *r) : f(f), r(r) {} void operator()(int i) const { int x; WAITCODE(f.wait(Timeout(nil)), x); r[i] = x; } };
struct WaitT { F f; int *r; int ms; WaitT(F f, int *r, int ms) : f(f), r(r), ms(ms) {} void operator()(int i) const {
	long t0 = mc::now_ms(); int x; WAITCODE(f.wait(Timeout((natural)ms)), x); if (x == -4) MC_ASSERT(mc::now_ms() - t0 >= ms, "the timeout came early"); r[i] = x; } };
// a thread that resolves and ends at once; its promise (last reference) dies with it
template<typename Fn> struct Once { Fn *fn; Once(Fn *fn) : fn(fn) {} void operator()(int) const { (*fn)(0); delete fn; } };
template<typename Fn> Once<Fn> once(Fn *f) { return Once<Fn>(f); }
// what the future reports once it is resolved must be stable
static int peek(F &f) { int x = -9; try { const int *v = f.tryGetValue(); x = v ? *v : 0; } catch (CanceledException &) { x = -1; } catch (ErrorMessageException &) { x = -2; } return x; }
static int settled(F &f) { MC_ASSERT(f.getState() == C::stateResolved, "the future is not resolved (state %d)", (int)f.getState()); MC_ASSERT(f.hasPromise() && f.getControlInterface()->resolved(), "resolved() is false"); int x = peek(f); const int *q = f.tryGetValueNoThrow(); MC_ASSERT((q != 0) == (x > 0) && (!q || *q == x), "tryGetValueNoThrow"); int w; WAITCODE(f.wait(Timeout(0)), w); MC_ASSERT(w == x, "wait says %d and tryGetValue %d", w, x); Obs o; f.addObserver(&o); MC_ASSERT(o.calls == 1 && o.r == x, "late observer got %d, expected %d", o.r, x); Obs o2; MC_ASSERT(f.tryObserver(&o2) && o2.calls == 1 && o2.r == x, "tryObserver"); MC_ASSERT(!f.removeObserver(&o), "removed an observer that was not there"); mc::outcome(x); return x; }

MC_SCENARIO(wait_resolve, 5, 6) { int r[2] = {}; F f(AL); LsPool<1> p; Wait w(f, r); p.prepare(w); Resolve *s = new Resolve(f, 5); p.go_all(); (*s)(0); delete s; p.wait_all(); p.finish(); MC_ASSERT(r[0] == 5, "wait returned %d", r[0]); MC_ASSERT(settled(f) == 5, "value"); }
MC_SCENARIO(wait_reject, 2, 4) { int r[2] = {}; F f(AL); LsPool<1> p; Wait w(f, r); p.prepare(w); int k = -2 - mc::choose(2); Resolve *s = new Resolve(f, k); p.go_all(); (*s)(0); delete s; p.wait_all(); p.finish(); MC_ASSERT(r[0] == -2, "wait returned %d", r[0]); MC_ASSERT(settled(f) == -2, "value"); }
MC_SCENARIO(wait_resolve_two, 2, 3) { int r[2] = {}; F f(AL); LsPool<2> p; Wait w(f, r); p.prepare(w); Resolve s(f, 5); p.go_all(); s(0); p.wait_all(); p.finish(); MC_ASSERT(r[0] == 5 && r[1] == 5, "wait returned %d,%d", r[0], r[1]); settled(f); }
MC_SCENARIO(wait_mortal, 3, 4) {
	// the waiting thread ends as soon as it has the value, the resolving thread is still around
	int r[2] = {}; F f(AL); LsMortal m; Wait w(f, r); m.prepare(w); Resolve s(f, 5); m.go_all(); s(0); m.finish(); MC_ASSERT(r[0] == 5, "wait returned %d", r[0]); settled(f);
}
MC_SCENARIO(wait_drop, 3, 5) { int r[2] = {}; F f(AL); LsPool<1> p; Wait w(f, r); p.prepare(w); P *a = new P(f.getPromise()); p.go_all(); delete a; p.wait_all(); p.finish(); MC_ASSERT(r[0] == -1, "wait returned %d, expected the cancel exception", r[0]); MC_ASSERT(settled(f) == -1, "value"); }
MC_SCENARIO(drop_two_copies, 3, 4) {
	int r[2] = {}; F f(AL); Obs o; f.addObserver(&o); P *a = new P(f.getPromise()), *b = new P(*a);
	struct D { P *b; void operator()(int) const { delete b; } } d = {b}; LsPool<2> p; Wait w(f, r); p.prepareOne(0, w); p.prepareOne(1, d); p.go_all(); delete a; p.wait_all(); p.finish();
	MC_ASSERT(r[0] == -1 && o.calls == 1 && o.r == -1, "wait %d, observer %d calls", r[0], o.calls); settled(f);
}
MC_SCENARIO(wait_timeout, 5, 6) { int r[2] = {}; F f(AL); LsPool<1> p; WaitT w(f, r, 10); p.prepare(w); Resolve s(f, 5); p.go_all(); s(0); p.wait_all(); p.finish(); MC_ASSERT(r[0] == 5 || r[0] == -4, "wait returned %d", r[0]); mc::outcome(r[0]); settled(f); }
MC_SCENARIO(wait_timeout_mortal, 2, 3) { int r[2] = {}; F f(AL); LsMortal m; WaitT w(f, r, 10); m.prepare(w); Resolve s(f, 5); m.go_all(); s(0); m.finish(); MC_ASSERT(r[0] == 5 || r[0] == -4, "wait returned %d", r[0]); mc::outcome(r[0]); settled(f); }
MC_SCENARIO(timeout_alone, 2, 4) { int r[2] = {}; F f(AL); P p = f.getPromise(); LsPool<1> q; WaitT w(f, r, 10); q.run(w); MC_ASSERT(r[0] == -4, "an unresolved future was waited for successfully: %d", r[0]); p.resolve(3); MC_ASSERT(settled(f) == 3, "value"); }
struct Pre { F f; int e; Pre(F f, int e):f(f),e(e) {} void operator()(int) const { F g(f); MC_ASSERT(peek(g) == 0, "a value out of nowhere"); int x; WAITCODE(g.wait(Timeout(0)), x); MC_ASSERT(x == -4, "wait with no time returned %d", x); } };
MC_SCENARIO(unresolved, 1, 1) { F f(AL); MC_ASSERT(!f.hasPromise(), "has promise"); P p = f.getPromise(); MC_ASSERT(f.hasPromise() && f.getState() == C::stateNotResolved && !f.getControlInterface()->resolved(), "state"); Pre w(f, 0); LsPool<1> q; q.run(w); F n(nil), n2(nil); MC_ASSERT(!n.isInitialized() && f.isInitialized() && n == nil && f != nil, "nil future"); n = f; n2 = f; MC_ASSERT(n == n2 && n == f, "copies differ"); p.resolve(1); p.resolve(2); p.reject(err()); MC_ASSERT(peek(n) == 1, "copy has another value"); P p2 = f.getPromise(); p2.resolve(5); MC_ASSERT(settled(f) == 1, "value changed"); f.clear(AL); MC_ASSERT(f.getState() == C::stateNotResolved && peek(n) == 1, "clear"); }
static void twoResolvers(int v1, int v2, bool late) {
	F f(AL); Obs a, b, c; f.addObserver(&a); f.addObserver(&b); Resolve *s1 = new Resolve(f, v1), *s2 = new Resolve(f, v2);
	struct L { F f; Obs *c; int *pk; void operator()(int) const { F g(f); *pk = peek(g); g.addObserver(c); } }; int pk = 0; L l = {f, &c, &pk};
	LsPool<2> p; p.prepareOne(0, once(s2)); if (late) p.prepareOne(1, l); else { struct N { void operator()(int) const {} } n; p.prepareOne(1, n); }
	p.go_all(); (*s1)(0); delete s1; p.wait_all(); p.finish(); if (!late) f.addObserver(&c);
	int v = settled(f); MC_ASSERT(v == v1 || v == v2, "value is %d", v); MC_ASSERT(a.calls == 1 && b.calls == 1 && c.calls == 1, "observers were called %d, %d, %d times", a.calls, b.calls, c.calls); MC_ASSERT(a.r == v && b.r == v && c.r == v, "observers got %d, %d, %d, the value is %d", a.r, b.r, c.r, v); MC_ASSERT(pk == 0 || pk == v, "the value changed from %d to %d", pk, v);
}
MC_SCENARIO(resolve_resolve, 3, 5) { twoResolvers(1, 2, false); }
MC_SCENARIO(resolve_reject, 3, 4) { twoResolvers(1, -2, false); }
MC_SCENARIO(resolve_resolve_observe, 2, 3) { twoResolvers(1, 2, true); }
MC_SCENARIO(resolve_reject_observe, 2, 3) { twoResolvers(-2, 1, true); }
MC_SCENARIO(resolve_observe, 4, 6) { F f(AL); Obs a, b, c; f.addObserver(&a); struct L { F f; Obs *b, *c; void operator()(int) const { F g(f); g.addObserver(b); g.addObserver(c); } } l = {f, &b, &c}; LsPool<1> p; p.prepare(l); Resolve s(f, 4); p.go_all(); s(0); p.wait_all(); p.finish(); MC_ASSERT(a.calls == 1 && b.calls == 1 && c.calls == 1 && a.r == 4 && b.r == 4 && c.r == 4, "observers"); settled(f); }
MC_SCENARIO(resolve_remove, 4, 6) { F f(AL); Obs o[3]; for (int i = 0; i < 3; i++) f.addObserver(&o[i]); int k = mc::choose(3); bool rm = false; struct L { F f; Obs *b; bool *rm; void operator()(int) const { F g(f); *rm = g.removeObserver(b); } } l = {f, &o[k], &rm}; LsPool<1> p; p.prepare(l); Resolve s(f, 4); p.go_all(); s(0); p.wait_all(); p.finish(); for (int i = 0; i < 3; i++) MC_ASSERT(o[i].calls == (i == k && rm ? 0 : 1), "observer %d called %d times (removed: %d)", i, o[i].calls, i == k && rm); mc::outcome(rm); settled(f); }
MC_SCENARIO(resolve_cancel, 3, 4) {
	// cancel sends an exception to the observers that are registered, the future can still be resolved
	F f(AL); Obs a, b, c; f.addObserver(&a); f.addObserver(&b); struct L { F f; Obs *c; int how; void operator()(int) const { F g(f); if (how) g.cancel(); else g.cancel(err()); g.addObserver(c); } } l = {f, &c, mc::choose(2)}; LsPool<1> p; p.prepare(l); Resolve s(f, 4); p.go_all(); s(0); p.wait_all(); p.finish();
	MC_ASSERT(a.calls == 1 && b.calls == 1 && c.calls == 1, "observers were called %d, %d, %d times", a.calls, b.calls, c.calls); int e = l.how ? -1 : -2; MC_ASSERT((a.r == 4 || a.r == e) && (b.r == 4 || b.r == e) && c.r == 4, "observers got %d, %d, %d", a.r, b.r, c.r); mc::outcome(a.r * 10 + b.r); MC_ASSERT(settled(f) == 4, "value");
}
MC_SCENARIO(wait_cancel, 3, 4) { int r[2] = {}; F f(AL); P pr = f.getPromise(); struct L { F f; void operator()(int) const { F g(f); g.cancel(); } } l = {f}; LsPool<2> p; WaitT w(f, r, 10); p.prepareOne(0, w); p.prepareOne(1, l); p.go_all(); p.wait_all(); p.finish(); MC_ASSERT(r[0] == -1 || r[0] == -4, "wait returned %d", r[0]); mc::outcome(r[0]); MC_ASSERT(f.getState() == C::stateNotResolved, "cancelled future is resolved"); pr.resolve(7); MC_ASSERT(settled(f) == 7, "value"); }
// ---- chains
static int addOne(const int &x) { return x + 1; }
static int thrower(const int &) { throw ErrorMessageException(THISLOCATION, "t"); }
static PException retExc(const int &) { return err(); }
static int fromExc(const PException &e) { return 50 + (codeOf(e) == -1); }
static int excThrows(const PException &e) { e->throwAgain(THISLOCATION); return 0; }
struct CallCnt { volatile int *n; CallCnt(volatile int *n):n(n) {} void operator()(const int &x) const { mc::NoPreempt _; n[0] = n[0] + 1; n[1] = x; } void operator()(const PException &e) const { mc::NoPreempt _; n[2] = n[2] + 1; n[3] = codeOf(e); } };
struct FutRet { F inner; F operator()(const int &) const { return inner; } };
static double half(const int &x) { return x / 2.0; }
static void chain(bool reject) {
	// the chain is built while the future is resolved by another thread
	F f(AL), inner(AL); volatile int cnt[4] = {}; Resolve *s = new Resolve(f, reject ? -2 : 4), *si = new Resolve(inner, 30); int kind = mc::choose(12);
	LsPool<1> p; struct R { Resolve *s, *si; void operator()(int) const { (*s)(0); delete s; (*si)(0); delete si; } } rr = {s, si}; p.prepare(rr); p.go_all();
	F g(nil); int e = 0;
	switch (kind) {
	case 0: g = f.then(addOne); e = reject ? -2 : 5; break;
	case 1: g = f.then(thrower); e = -2; break;
	case 2: g = f.then(retExc); e = -2; break;
	case 3: g = f.onException(fromExc); e = reject ? 50 : 4; break;
	case 4: g = f.onException(excThrows); e = reject ? -2 : 4; break;
	case 5: g = f.then(addOne, fromExc); e = reject ? 50 : 5; break;
	case 6: g = f.thenCall(CallCnt(cnt)); e = reject ? -2 : 4; break;
	case 7: g = f.thenCall(CallCnt(cnt), CallCnt(cnt)); e = reject ? -2 : 4; break;
	case 8: g = f.onExceptionCall(CallCnt(cnt)); e = reject ? -2 : 4; break;
	case 9: { FutRet fr = {inner}; g = f.then(fr); e = reject ? -2 : 30; } break;
	case 10: g = f.isolate(); e = reject ? -2 : 4; break;
	case 11: { F h(AL); f.then(h.getPromise()); g = h; e = reject ? -2 : 4; } break;
	}
	Obs o; g.addObserver(&o); p.wait_all(); p.finish(); MC_ASSERT(o.calls == 1 && o.r == e, "chain %d ends with %d (%d calls), expected %d", kind, o.r, o.calls, e); MC_ASSERT(settled(g) == e, "chain %d", kind);
	if (kind == 6) MC_ASSERT(cnt[0] == !reject && (reject || cnt[1] == 4) && cnt[2] == 0, "thenCall: %d calls", cnt[0]);
	if (kind == 7) MC_ASSERT(cnt[0] == !reject && cnt[2] == reject, "thenCall: %d, %d calls", cnt[0], cnt[2]);
	if (kind == 8) MC_ASSERT(cnt[0] == 0 && cnt[2] == reject, "onExceptionCall: %d calls", cnt[2]);
}
MC_SCENARIO(chain_value, 2, 3) { chain(false); }
MC_SCENARIO(chain_exception, 2, 3) { chain(true); }
MC_SCENARIO(chain_types, 2, 2) {
	// every operator of a chain on an already resolved or a later resolved future, for values and exceptions
	F f(AL); bool early = mc::choose(2); bool rej = mc::choose(2); Resolve *s = new Resolve(f, rej ? -2 : 4); if (early) { (*s)(0); }
	volatile int calls = 0; volatile double d = 0; volatile int exc = 0;
	(f >> [](const int &v) { return v * 3; } >> [](int v) { return v / 8.0; } >> [&](double v) { d = v; calls = calls + 1; }) >> futureCatch([&](const PException &) { exc = exc + 1; });
	Future<double> h = Future<double>::transform(f, half); Future<void> v = Future<void>::transform(f); volatile int vc = 0; v.thenCall([&]() { vc = vc + 1; });
	volatile int iv = 0; F k = f >> futureCatch([](const PException &e) { return fromExc(e); });
	Future<void> vv = v >> [&]() { iv = iv + 1; };
	struct VO : public Future<void>::IObserver { int n, e; VO():n(0),e(0) {} virtual void resolve() throw() { n++; } virtual void resolve(const PException &) throw() { e++; } } vo; vv.addObserver(&vo);
	if (!early) (*s)(0);
	delete s;
	if (!rej) { MC_ASSERT(calls == 1 && d == 1.5 && exc == 0, "chained lambdas: %d calls", calls); MC_ASSERT(h.getValue() == 2.0, "transform"); MC_ASSERT(vc == 1 && iv == 1 && vo.n == 1 && vo.e == 0, "transform to void"); MC_ASSERT(peek(k) == 4, "futureCatch changed the value"); v.wait(Timeout(0)); }
	else { MC_ASSERT(calls == 0 && exc == 1, "chained catch: %d calls", exc); MC_ASSERT(vc == 0 && iv == 0 && vo.n == 0 && vo.e == 1, "transform to void"); MC_ASSERT(peek(k) == 50, "futureCatch gave %d", peek(k)); bool th = false; try { h.getValue(); } catch (ErrorMessageException &) { th = true; } MC_ASSERT(th, "transform lost the exception"); }
	mc::outcome(early * 2 + rej);
}
MC_SCENARIO(then_wake, 2, 4) {
	F f(AL); struct W { F f; bool rej; void operator()(int) const { F g(f); g.thenWake(*Thread::current().getSafeSleepingObject(), 11, 12); while (f.getState() == C::stateNotResolved) threadSleep(nil); } } w = {f, (bool)mc::choose(2)}; LsPool<1> p; p.prepare(w); Resolve s(f, w.rej ? -2 : 4); p.go_all(); s(0); p.wait_all(); p.finish(); settled(f);
}
MC_SCENARIO(resolve_by_future, 2, 3) {
	// the promise is resolved by another future
	F f(AL), g(AL); int r[2] = {}; Resolve *s = new Resolve(g, mc::choose(2) ? 8 : -2); struct L { mutable P p; F g; L(P p, F g):p(p),g(g) {} void operator()(int) const { p.resolve(g); } }; L *l = new L(f.getPromise(), g); int e = s->v;
	LsPool<2> p; p.prepareOne(0, Wait(f, r)); p.prepareOne(1, once(l)); p.go_all(); (*s)(0); delete s; p.wait_all(); p.finish(); MC_ASSERT(r[0] == e, "wait returned %d, expected %d", r[0], e); settled(f);
}
// ---- combined futures
MC_SCENARIO(any_of, 3, 4) {
	F a(AL), b(AL); int k = mc::choose(3); Resolve *s1 = new Resolve(a, k == 1 ? -2 : 1), *s2 = new Resolve(b, k == 2 ? -2 : 2); Future<Variant> v = a || b; struct VO : public Future<Variant>::IObserver { volatile int n, r; VO():n(0),r(0) {} virtual void resolve(const Variant &x) throw() { mc::NoPreempt _; n = n + 1; r = x.getValue<int>(); } virtual void resolve(const PException &e) throw() { n = n + 1; r = codeOf(e); } } o; v.addObserver(&o);
	LsPool<1> p; p.prepareOne(0, once(s2)); p.go_all(); (*s1)(0); delete s1; p.wait_all(); p.finish(); MC_ASSERT(o.n == 1, "the combined future notified its observer %d times", o.n); MC_ASSERT(o.r == (k == 1 ? -2 : 1) || o.r == (k == 2 ? -2 : 2), "got %d", o.r); mc::outcome(o.r);
}
MC_SCENARIO(all_of, 3, 4) {
	F a(AL), b(AL); int k = mc::choose(3); Resolve *s1 = new Resolve(a, k == 1 ? -2 : 1), *s2 = new Resolve(b, k == 2 ? -2 : 2); Future<VariantPair> v = a && b; struct VO : public Future<VariantPair>::IObserver { volatile int n, r; VO():n(0),r(0) {} virtual void resolve(const VariantPair &x) throw() { mc::NoPreempt _; n = n + 1; int p = x.first.getValue<int>(), q = x.second.getValue<int>(); r = p * 10 + q; } virtual void resolve(const PException &e) throw() { n = n + 1; r = codeOf(e); } } o; v.addObserver(&o);
	LsPool<1> p; p.prepareOne(0, once(s2)); p.go_all(); (*s1)(0); delete s1; p.wait_all(); p.finish(); MC_ASSERT(o.n == 1, "the combined future notified its observer %d times", o.n); MC_ASSERT(o.r == (k ? -2 : 12), "got %d", o.r); mc::outcome(o.r);
}
// ---- lifetime: the last references go away while the promise is resolved
MC_SCENARIO(drop_future_resolve, 4, 6) {
	F *f = new F(AL); Obs a; f->addObserver(&a); Resolve *s = new Resolve(*f, 4); struct D { F *f; void operator()(int) const { f->hasPromise(); delete f; } } d = {f}; LsPool<1> p; p.prepare(d); p.go_all(); (*s)(0); delete s; p.wait_all(); p.finish(); MC_ASSERT(a.calls == 1 && a.r == 4, "observer called %d times", a.calls);
}
MC_SCENARIO(promise_copies, 3, 5) {
	// copies of a promise are made, assigned and dropped by two threads; one of them resolves
	F f(AL), g(AL); Obs a, b; f.addObserver(&a); g.addObserver(&b); P *pf = new P(f.getPromise()), *pg = new P(g.getPromise());
	struct D { P *pf; void operator()(int) const { P c(*pf); delete pf; P d(c); d = c; } } d = {new P(*pf)}; LsPool<1> p; p.prepare(d); p.go_all();
	*pg = *pf; MC_ASSERT(b.calls == 1 && b.r == -1, "the promise dropped by assignment notified its observer %d times", b.calls); MC_ASSERT(settled(g) == -1, "dropped");
	MC_ASSERT(a.calls == 0, "the observer was called early"); delete pf; MC_ASSERT(f.getState() == C::stateNotResolved, "resolved while a promise is left"); if (mc::choose(2)) { pg->resolve(6); delete pg; p.wait_all(); p.finish(); MC_ASSERT(settled(f) == 6 && a.calls == 1 && a.r == 6, "value"); }
	else { delete pg; p.wait_all(); p.finish(); MC_ASSERT(settled(f) == -1 && a.calls == 1 && a.r == -1, "value"); }
}
MC_SCENARIO(auto_cancel, 3, 5) {
	// the last auto-cancel reference goes away while the promise is being resolved: each observer is called once, and the destructor waits for a running resolution
	F *f = new F(AL); Obs a; f->addObserver(&a); FutureAutoCancel<int> *c = new FutureAutoCancel<int>(*f); Resolve *s = new Resolve(*f, mc::choose(2) ? 4 : -2); int e = s->v; delete f; LsPool<1> p; p.prepare(once(s)); p.go_all(); delete c; MC_ASSERT(a.calls == 1, "the observer was called %d times before the future was gone", a.calls); p.wait_all(); p.finish(); MC_ASSERT(a.calls == 1 && (a.r == e || a.r == -1), "got %d", a.r); mc::outcome(a.r);
}
MC_SCENARIO(no_promise, 1, 1) { Obs a; { F f(AL); f.addObserver(&a); Obs b; f.addObserver(&b); MC_ASSERT(f.removeObserver(&b), "not removed"); MC_ASSERT(!f.removeObserver(&b), "removed twice"); MC_ASSERT(a.calls == 0, "called early"); } MC_ASSERT(a.calls == 1 && a.r == -1, "an observer of a future that vanished was called %d times", a.calls); }
// ---- observers that act on the future
MC_SCENARIO(reentrant, 2, 3) {
	F f(AL); Obs a, b, c, d; a.f = &f; a.act = mc::choose(5); a.next = &c; if (a.act == 2) a.next = &b; f.addObserver(&a); f.addObserver(&b); struct L { F f; Obs *d; void operator()(int) const { F g(f); g.addObserver(d); } } l = {f, &d}; LsPool<1> p; p.prepare(l); Resolve s(f, 4); p.go_all(); s(0); p.wait_all(); p.finish();
	MC_ASSERT(a.calls == 1 && a.r == 4, "first observer"); MC_ASSERT(d.calls == 1, "concurrent observer called %d times", d.calls); if (a.act != 3) MC_ASSERT(d.r == 4, "concurrent observer got %d", d.r);
	if (a.act == 1) MC_ASSERT(c.calls == 1 && c.r == 4, "an observer added by an observer was called %d times", c.calls); else MC_ASSERT(c.calls == 0, "?");
	if (a.act == 2) MC_ASSERT(b.calls == 100, "an observer removed by an observer was called"); else MC_ASSERT(b.calls == 1 && (b.r == 4 || a.act == 3), "second observer");
	MC_ASSERT(settled(f) == 4, "value");
}
MC_SCENARIO(observer_order, 0, 0) {
	// every sequence of 6 additions and removals of 5 observers: the others are called in the order of registration
	F f(AL); static int seq; seq = 0; struct O : public F::IObserver { int at, n; O():at(0),n(0) {} virtual void resolve(const int &) throw() { n++; at = ++seq; } virtual void resolve(const PException &) throw() {} } o[6]; int reg[8], n = 0;
	for (int i = 0; i < 4; i++) { reg[n++] = i; f.addObserver(&o[i]); }
	for (int i = 0; i < 4; i++) { int k = mc::choose(6), at = -1; for (int j = 0; j < n; j++) if (reg[j] == k) at = j; if (at < 0) { reg[n++] = k; f.addObserver(&o[k]); } else { MC_ASSERT(f.removeObserver(&o[k]), "a registered observer is not found"); for (int j = at; j + 1 < n; j++) reg[j] = reg[j + 1]; n--; } }
	f.getPromise().resolve(1); for (int j = 0; j < n; j++) MC_ASSERT(o[reg[j]].n == 1 && o[reg[j]].at == j + 1, "observer %d was called as number %d, expected %d", reg[j], o[reg[j]].at, j + 1); MC_ASSERT(seq == n, "%d calls, expected %d", seq, n); mc::outcome(n);
}
// ---- the same with stray wake-ups
MC_STRAY(wait_resolve, 3, 4)
MC_STRAY(wait_reject, 1, 2)
MC_STRAY(wait_resolve_two, 1, 2)
MC_STRAY(wait_mortal, 1, 2)
MC_STRAY(wait_drop, 1, 2)
MC_STRAY(drop_two_copies, 1, 2)
MC_STRAY(wait_timeout, 3, 4)
MC_STRAY(wait_timeout_mortal, 1, 2)
MC_STRAY(timeout_alone, 1, 2)
MC_STRAY(resolve_resolve, 1, 2)
MC_STRAY(resolve_reject, 1, 2)
MC_STRAY(resolve_resolve_observe, 1, 2)
MC_STRAY(resolve_reject_observe, 1, 2)
MC_STRAY(resolve_observe, 2, 3)
MC_STRAY(resolve_remove, 2, 3)
MC_STRAY(resolve_cancel, 1, 2)
MC_STRAY(wait_cancel, 1, 2)
MC_STRAY(chain_value, 1, 2)
MC_STRAY(chain_exception, 1, 2)
MC_STRAY(chain_types, 1, 2)
MC_STRAY(then_wake, 1, 2)
MC_STRAY(resolve_by_future, 1, 2)
MC_STRAY(any_of, 1, 2)
MC_STRAY(all_of, 1, 2)
MC_STRAY(drop_future_resolve, 2, 3)
MC_STRAY(promise_copies, 1, 2)
MC_STRAY(auto_cancel, 1, 2)
MC_STRAY(reentrant, 1, 2)
