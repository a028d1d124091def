// LightSpeed threads under lsmc: start/finish in the deterministic (quiet) mode, explore only the body.
#ifndef LSTHREADS_H_
#define LSTHREADS_H_
#include "lsmc.h"
#include "lightspeed/mt/thread.h"
#include "lightspeed/base/actions/message.h"

// MC_STRAY(name,...): scenario `name` again, every thread starts with a wake-up pending that nobody asked for
// (any thread may be woken for no reason; whoever waits has to check what it waits for)
inline bool &lsStray() { static bool s = false; return s; }
inline void lsStrayHere() { if (lsStray()) { mc::quiet(true); LightSpeed::getCurThreadSleepingObj()->wakeUp(0); mc::quiet(false); } }
#define MC_STRAY(name, qb, tb) MC_SCENARIO_F(name##_stray, qb, tb, 0) { lsStray() = true; name(); }

template<int N>
struct LsPool {
	LightSpeed::Thread th[N];
	mc::Sem go[N], done, park;
	int tids[N];
	template<typename F> struct Body {
		LsPool *p; int i; F f;
		void operator()() const {
			p->tids[i] = mc::self();
			p->go[i].wait();
			F g(f);
			lsStrayHere();
			g(i);
			p->done.post();
			p->park.wait();
		}
	};
	// start all threads (each parks until run())
	template<typename F> void prepare(const F &f) {
		mc::quiet(true);
		for (int i = 0; i < N; i++) {
			Body<F> b = {this, i, f};
			th[i].start(LightSpeed::ThreadFunction::create(b));
		}
		mc::quiet(false);
	}
	template<typename F> void prepareOne(int i, const F &f) {
		mc::quiet(true);
		Body<F> b = {this, i, f};
		th[i].start(LightSpeed::ThreadFunction::create(b));
		mc::quiet(false);
	}
	void go_all() { lsStrayHere(); mc::quiet(true); for (int i = 0; i < N; i++) go[i].post(); mc::quiet(false); }
	void wait_all() {
		for (int i = 0; i < N; i++) done.wait();
	}
	void finish() {
		mc::quiet(true);
		for (int i = 0; i < N; i++) park.post();
		for (int i = 0; i < N; i++) th[i].join();
		mc::quiet(false);
	}
	template<typename F> void run(const F &f) {
		prepare(f); go_all(); wait_all(); finish();
	}
	// fully exited threads (stack gone) while others keep running
	void exitThread() {}
};
#endif
