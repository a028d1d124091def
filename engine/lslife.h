// A LightSpeed thread whose Thread object is joined and deleted by another thread as soon as it has ended:
// whoever still touches the thread (its sleeper) afterwards is caught by the engine.
#ifndef LSLIFE_H_
#define LSLIFE_H_
#include "lsthreads.h"
struct LsMortal {
	LightSpeed::Thread *t; mc::Sem go; LsPool<1> joiner;
	LsMortal():t(new LightSpeed::Thread) {}
	template<typename F> struct Body { LsMortal *m; F f; void operator()() const { m->go.wait(); F g(f); lsStrayHere(); g(0); } };
	struct Join { LsMortal *m; void operator()(int) const { m->t->join(); delete m->t; m->t = 0; } };
	template<typename F> void prepare(const F &f) {
		mc::quiet(true);
		Body<F> b = {this, f}; t->start(LightSpeed::ThreadFunction::create(b));
		Join j = {this}; joiner.prepare(j);
		mc::quiet(false);
	}
	void go_all() { mc::quiet(true); go.post(); joiner.go[0].post(); mc::quiet(false); }
	void finish() { joiner.wait_all(); joiner.finish(); }
};
#endif
