// lsmc: stateless model checker for the real LightSpeed code.
// Harness-side API (see rt.cpp for the scheduler).
#ifndef LSMC_H_
#define LSMC_H_
#include <stddef.h>
#include <stdint.h>

namespace mc {

typedef void (*body_t)();
enum Flags { F_NONE = 0, F_LEAK = 1 };

// A scenario is a small closed driver; the engine explores every schedule of it with at most
// `qb` (quick) / `tb` (thorough) deviations (preemptions or early timeouts).
struct Reg { Reg(const char *name, int qb, int tb, body_t body, unsigned flags); };
#define MC_SCENARIO_F(name, qb, tb, flags) static void name(); \
	static ::mc::Reg mc_reg_##name(#name, qb, tb, &name, flags); static void name()
#define MC_SCENARIO(name, qb, tb) MC_SCENARIO_F(name, qb, tb, 0)

typedef void (*thr_fn)(void *);
int spawn_raw(thr_fn fn, void *arg);
void join(int tid);              // wait for one harness thread
int self();

template<typename F> struct SpawnTramp { static void run(void *p) { F *f = (F *)p; (*f)(); } };
void *scratch(size_t n);         // memory that lives until the execution ends
template<typename F> inline int spawn(const F &f) {
	void *m = scratch(sizeof(F));
	F *c = new(m) F(f);
	return spawn_raw(&SpawnTramp<F>::run, c);
}

void fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
int choose(int n);               // data nondeterminism: every value 0..n-1 is explored
void point();                    // explicit scheduling point
void event(int code);            // ordered, visible harness event (its position in the global order is part of the state)
int eventCount();
int eventAt(int i, int *thread);
void outcome(long v);            // contributes to the outcome of this execution (distinct outcomes are counted)
long now_ms();                   // virtual time
void nopreempt(int delta);       // >0: the current thread runs without scheduling points
void quiet(bool q);             // true: deterministic default schedule, no branching (set-up / tear-down)
size_t live_blocks();            // heap blocks allocated in this execution and not freed
bool blocked(int tid);           // thread is blocked or finished (only valid as an oracle helper)
bool finished(int tid);
int thread_count();
void failThreads(int n);         // the next n pthread_create calls fail
void yield();                    // let others run first

// Runs as soon as an execution has ended normally (all threads finished).
void at_end(void (*fn)(void *), void *arg);

// A flag with real blocking semantics for harness synchronisation.
struct Sem {
	volatile int v;
	explicit Sem(int i = 0) : v(i) {}
	void post();
	void wait();
	bool tryWait();
};

struct NoPreempt { NoPreempt() { nopreempt(1); } ~NoPreempt() { nopreempt(-1); } };
}
#include <new>
#define MC_ASSERT(c, ...) do { if (!(c)) ::mc::fail(__VA_ARGS__); } while (0)
#endif
