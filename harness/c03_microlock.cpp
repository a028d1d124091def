#include "lslife.h"
#include "cs.h"
#include "lightspeed/mt/microlock.h"
#include "lightspeed/mt/spinlock.h"
using namespace LightSpeed;
struct St { MicroLock lk; Cs cs; };
struct Body { St *s; int rounds; void operator()(int) const { for (int k = 0; k < rounds; k++) { Synchronized<MicroLock> _(s->lk); s->cs.run(); } } };
template<int N> static void run(int rounds) {
	St s; LsPool<N> p; Body b = {&s, rounds};
	p.run(b);
	MC_ASSERT(s.cs.total == N * rounds, "critical sections lost");
	{ Synchronized<MicroLock> _(s.lk); s.cs.run(); }
	{ Synchronized<MicroLock> _(s.lk); s.cs.run(); }
}
MC_SCENARIO(micro_2, 4, 6) { run<2>(1); }
MC_SCENARIO(micro_2x2, 3, 5) { run<2>(2); }
MC_SCENARIO(micro_3, 3, 4) { run<3>(1); }
MC_SCENARIO(micro_3x2, 2, 3) { run<3>(2); }
MC_SCENARIO(micro_4, 1, 2) { run<4>(1); }
MC_SCENARIO(waiter_disappears, 2, 4) {
	St s; LsMortal *m = new LsMortal; Body b = {&s, 1};
	m->prepare(b);
	{ Synchronized<MicroLock> _(s.lk); m->go_all(); mc::point(); s.cs.run(); }
	m->finish(); delete m;
	MC_ASSERT(s.cs.total == 2, "critical sections lost");
}
// two locks, nested in the same order
struct Two { St *a, *b; void operator()(int) const { Synchronized<MicroLock> x(a->lk); a->cs.enter(); { Synchronized<MicroLock> y(b->lk); b->cs.run(); } a->cs.leave(); } };
MC_SCENARIO(micro_nested, 2, 3) { St a, b; LsPool<2> p; Two t = {&a, &b}; p.run(t); MC_ASSERT(a.cs.total == 2 && b.cs.total == 2, "lost"); }

// ---- spin lock
struct Sp { SpinLock lk; Cs cs; };
struct SpBody { Sp *s; int n; void operator()(int i) const { for (int k = 0; k < n; k++) {
	if (i == 1) { if (!s->lk.tryLock(2)) { mc::outcome(1); continue; } } else s->lk.lock();
	MC_ASSERT(s->lk.isOwned() && !s->lk.isUnlocked(), "the holder does not own the spin lock");
	s->cs.run(); s->lk.unlock(); MC_ASSERT(!s->lk.isOwned(), "still owned after unlock"); } } };
MC_SCENARIO(spin_2x2, 3, 4) { Sp s; LsPool<2> p; SpBody b = {&s, 2}; p.run(b); MC_ASSERT(s.lk.isUnlocked() && s.lk.tryLock(), "the spin lock is not free at the end"); s.lk.unlock(); }
MC_SCENARIO(spin_3, 2, 3) { Sp s; LsPool<3> p; SpBody b = {&s, 1}; p.run(b); MC_ASSERT(s.lk.isUnlocked(), "the spin lock is not free at the end"); }
struct SpR { SpinLockRecursive lk; Cs cs; };
struct SpRBody { SpR *s; void operator()(int) const { s->lk.lock(); s->cs.enter(); s->lk.lock(); MC_ASSERT(s->lk.tryLock(), "recursive try-lock failed"); s->lk.unlock(); s->lk.unlock(); mc::point();
	MC_ASSERT(s->lk.isOwned(), "the inner unlock released the lock"); s->cs.leave(); s->lk.unlock(); } };
MC_SCENARIO(spin_recursive_2, 3, 4) { SpR s; LsPool<2> p; SpRBody b = {&s}; p.run(b); MC_ASSERT(s.lk.isUnlocked(), "the recursive spin lock is not free at the end"); }
MC_SCENARIO(spin_recursive_3, 2, 3) { SpR s; LsPool<3> p; SpRBody b = {&s}; p.run(b); MC_ASSERT(s.lk.isUnlocked(), "the recursive spin lock is not free at the end"); }
// unlocking a lock that belongs to somebody else does nothing
MC_SCENARIO(spin_foreign_unlock, 3, 4) {
	SpR s; LsPool<2> p;
	struct B { SpR *s; void operator()(int i) const { if (i == 1) { s->lk.unlock(); } else { s->lk.lock(); s->cs.enter(); mc::point(); MC_ASSERT(s->lk.isOwned(), "somebody else unlocked the lock"); s->cs.leave(); s->lk.unlock(); } } } b = {&s};
	p.run(b);
}
// ownership transfer
MC_SCENARIO(spin_give, 2, 4) {
	Sp s; LsPool<1> p; static volatile atomicValue id; static mc::Sem *rdy, *go; mc::Sem r, g; rdy = &r; go = &g;
	struct B { Sp *s; void operator()(int) const { id = ThreadId::current().asAtomic(); rdy->post(); go->wait(); MC_ASSERT(s->lk.isOwned(), "the given lock is not owned by the receiver"); s->cs.run(); s->lk.unlock(); } } b = {&s};
	p.prepare(b); p.go_all(); r.wait(); s.lk.lock(); s.cs.run();
	MC_ASSERT(s.lk.give(ThreadId(id)), "the owner could not give the lock away");
	MC_ASSERT(!s.lk.give(ThreadId(id)), "a lock was given away twice");
	g.post(); p.wait_all(); p.finish();
	MC_ASSERT(s.lk.isUnlocked(), "not free at the end");
}
// ---- the same with stray wake-ups
MC_STRAY(micro_2, 2, 3)
MC_STRAY(micro_2x2, 1, 2)
MC_STRAY(micro_3, 1, 2)
MC_STRAY(micro_3x2, 1, 2)
MC_STRAY(waiter_disappears, 1, 2)
MC_STRAY(micro_nested, 1, 2)
MC_STRAY(spin_2x2, 1, 2)
MC_STRAY(spin_3, 1, 2)
MC_STRAY(spin_recursive_2, 1, 2)
MC_STRAY(spin_recursive_3, 1, 2)
MC_STRAY(spin_foreign_unlock, 1, 2)
MC_STRAY(spin_give, 1, 2)
