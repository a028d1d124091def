// C09: weak references
#include "lslife.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/memory/weakref.h"
using namespace LightSpeed;
struct Obj { volatile int alive, users; Obj():alive(1),users(0) {} };
struct St { Obj o, o2; WeakRefTarget<Obj> *t; volatile int gone; St():gone(0) { t = new WeakRefTarget<Obj>(&o); } ~St() { delete t; }
	void withdraw() { t->setNull(); kill(o); }
	void kill(Obj &x) { mc::NoPreempt _; MC_ASSERT(x.users == 0, "the owner went on while %d holders use the object", x.users); x.alive = 0; gone = 1; } };
static bool use(St *s, WeakRef<Obj> r) {
	bool wasGone = s->gone; WeakRefPtr<Obj> p = r.lock();
	if (p.get() == 0) { mc::outcome(0); return false; }
	MC_ASSERT(!wasGone, "a reference withdrawn before was locked");
	{ mc::NoPreempt _; MC_ASSERT(p.get() == &s->o, "locked another object"); MC_ASSERT(p->alive, "locked object is dead"); p->users = p->users + 1; }
	mc::point();
	{ mc::NoPreempt _; MC_ASSERT(p->alive, "object died while it was locked"); p->users = p->users - 1; } mc::outcome(1);
	return true;
}
struct Lk { St *s; WeakRef<Obj> r; int n; Lk(St *s, int n = 1):s(s),r(*s->t),n(n) {} void operator()(int) const { for (int i = 0; i < n; i++) use(s, r); } };
MC_SCENARIO(lock_withdraw, 4, 6) { St s; LsPool<1> p; Lk b(&s); p.prepare(b); p.go_all(); s.withdraw(); p.wait_all(); p.finish(); }
MC_SCENARIO(lock_withdraw_mortal, 3, 5) {
	// the owner is a thread that ends right after it withdrew the object
	St s; struct W { St *s; void operator()(int) const { s->withdraw(); } } w = {&s}; Lk b(&s); LsPool<1> p; LsMortal m; m.prepare(w); p.prepare(b); p.go_all(); m.go_all(); p.wait_all(); m.finish(); p.finish();
}
MC_SCENARIO(two_lockers, 2, 4) { St s; LsPool<2> p; Lk b(&s); p.prepare(b); p.go_all(); s.withdraw(); p.wait_all(); p.finish(); }
MC_SCENARIO(lock_twice, 3, 5) { St s; LsPool<1> p; Lk b(&s, 2); p.prepare(b); p.go_all(); s.withdraw(); p.wait_all(); p.finish(); }
MC_SCENARIO(two_lockers_mortal, 2, 2) { St s; struct W { St *s; void operator()(int) const { s->withdraw(); } } w = {&s}; Lk b(&s); LsPool<2> p; LsMortal m; m.prepare(w); p.prepare(b); p.go_all(); m.go_all(); p.wait_all(); m.finish(); p.finish(); }
MC_SCENARIO(destroy_target, 3, 5) { St s; LsPool<1> p; Lk b(&s); p.prepare(b); p.go_all(); { delete s.t; s.t = 0; s.kill(s.o); } p.wait_all(); p.finish(); }
// ---- copies of locked references and of weak references
struct Cp { St *s; WeakRef<Obj> r; Cp(St *s):s(s),r(*s->t) {} void operator()(int) const {
	WeakRef<Obj> *c = new WeakRef<Obj>(r); WeakRefPtr<Obj> *a = new WeakRefPtr<Obj>(c->lock()); delete c;
	WeakRefPtr<Obj> b(*a); MC_ASSERT(b.get() == 0 || a->get() == b.get(), "the copy points elsewhere");
	if (b.get()) { mc::NoPreempt _; MC_ASSERT(b->alive, "dead object"); b->users = b->users + 1; }
	delete a; mc::point();
	if (b.get()) { mc::NoPreempt _; MC_ASSERT(b->alive, "dead object"); b->users = b->users - 1; } } };
MC_SCENARIO(copy_locked, 3, 4) { St s; LsPool<1> p; Cp b(&s); p.prepare(b); p.go_all(); s.withdraw(); p.wait_all(); p.finish(); }
MC_SCENARIO(copy_locked_two, 2, 3) { St s; LsPool<2> p; Cp b(&s); p.prepare(b); p.go_all(); s.withdraw(); p.wait_all(); p.finish(); }
struct As { St *s; WeakRef<Obj> r; As(St *s):s(s),r(*s->t) {} void operator()(int) const {
	Obj other; WeakRefTarget<Obj> ot(&other); WeakRefPtr<Obj> a = WeakRef<Obj>(ot).lock(); { WeakRefPtr<Obj> b = r.lock(); a = b; MC_ASSERT(a.get() == b.get() || a.get() == 0, "the assigned reference points elsewhere"); } ot.setNull();
	if (a.get()) { mc::NoPreempt _; MC_ASSERT(a->alive, "dead object"); a->users = a->users + 1; } mc::point(); if (a.get()) { mc::NoPreempt _; MC_ASSERT(a->alive, "dead object"); a->users = a->users - 1; } } };
MC_SCENARIO(assign_locked, 2, 4) { St s; LsPool<1> p; As b(&s); p.prepare(b); p.go_all(); s.withdraw(); p.wait_all(); p.finish(); }
// ---- nothing to refer to
MC_SCENARIO(nothing, 1, 1) {
	WeakRef<Obj> r;
	WeakRefTarget<Obj> t(0); WeakRef<Obj> q(t); MC_ASSERT(q.lock().get() == 0, "a reference to null was locked"); t.setNull(); t.setNull(); MC_ASSERT(q.lock().get() == 0, "?");
	r = q; MC_ASSERT(r.lock().get() == 0, "?");
}
MC_SCENARIO(histories, 0, 0) {
	// one thread: every sequence of 5 operations over two objects and two references
	Obj o[2]; WeakRefTarget<Obj> *t = new WeakRefTarget<Obj>(&o[0]); WeakRef<Obj> r[2]; r[0] = *t; r[1] = *t; int cur = 0, gen = 0, rg[2] = {0, 0}, tgt[8]; bool dead[8]; tgt[0] = 0; dead[0] = false; bool isNull = false;
	for (int k = 0; k < 5; k++) { switch (mc::choose(6)) {
	case 0: r[0] = *t; rg[0] = isNull ? -1 : gen; break;
	case 1: r[1] = r[0]; rg[1] = rg[0]; break;
	case 2: t->setNull(); if (!isNull) dead[gen] = true; isNull = true; break;
	case 3: case 4: { if (!isNull) dead[gen] = true; cur = 1 - cur; *t = &o[cur]; gen++; tgt[gen] = cur; dead[gen] = false; isNull = false; } break;
	case 5: { if (!isNull) dead[gen] = true; *t = 0; isNull = true; } break; }
	for (int i = 0; i < 2; i++) { Obj *e = rg[i] < 0 || dead[rg[i]] ? 0 : &o[tgt[rg[i]]]; WeakRefPtr<Obj> p = r[i].lock(); WeakRefPtr<Obj> p2 = r[i].lock(); MC_ASSERT(p.get() == e && p2.get() == e, "reference %d resolves wrongly", i); } }
	delete t; for (int i = 0; i < 2; i++) MC_ASSERT(r[i].lock().get() == 0, "object outlived its owner");
}
MC_SCENARIO(reassign, 2, 4) {
	// the target is moved to another object while a reference to the first one is being locked
	St s; struct R { St *s; void operator()(int) const { *s->t = &s->o2; s->kill(s->o); WeakRef<Obj> n(*s->t); WeakRefPtr<Obj> q = n.lock(); MC_ASSERT(q.get() == &s->o2, "the new object can't be locked"); } } w = {&s};
	Lk b(&s); LsPool<2> p; p.prepareOne(0, b); p.prepareOne(1, w); p.go_all(); p.wait_all(); p.finish();
}
MC_SCENARIO(null_shared, 2, 4) {
	// all withdrawn references share one null record
	struct N { void operator()(int) const { WeakRefTarget<Obj> t(0); WeakRef<Obj> r(t); MC_ASSERT(r.lock().get() == 0, "?"); } } n; LsPool<2> p; p.run(n);
}
// ---- the same with stray wake-ups
MC_STRAY(lock_withdraw, 2, 3)
MC_STRAY(lock_withdraw_mortal, 1, 2)
MC_STRAY(two_lockers, 1, 2)
MC_STRAY(lock_twice, 1, 2)
MC_STRAY(two_lockers_mortal, 1, 2)
MC_STRAY(destroy_target, 1, 2)
MC_STRAY(copy_locked, 1, 2)
MC_STRAY(copy_locked_two, 1, 2)
MC_STRAY(assign_locked, 1, 2)
MC_STRAY(reassign, 1, 2)
MC_STRAY(null_shared, 1, 2)
