// C41: fibers: every short program of start / wakeUp / sleep / stop / checkState / exit / exception over two or three fibers
#include "lightspeed/base/types.h"
#include "lightspeed/base/exceptions/exception.h"
#include "lightspeed/base/exceptions/errorMessageException.h"
#include "lightspeed/base/exceptions/stdexception.h"
#include "lightspeed/base/actions/message.h"
#include "lightspeed/mt/fiber.h"
#include "seq.h"
#include <ucontext.h>
#include <pthread.h>
#include <stdexcept>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#include <dlfcn.h>
using namespace LightSpeed;
// the sanitizer has to know the stacks: announce every switch to it
static void *mainBottom; static size_t mainSize; static const ucontext_t *entering;
static void onStack(const ucontext_t *u) { if (!mainBottom) { pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &mainBottom, &mainSize); pthread_attr_destroy(&a); } bool m = !u || u->uc_stack.ss_size == 0; __sanitizer_start_switch_fiber(0, m ? mainBottom : u->uc_stack.ss_sp, m ? mainSize : u->uc_stack.ss_size); __sanitizer_finish_switch_fiber(0, 0, 0); }
extern "C" int swapcontext(ucontext_t *from, const ucontext_t *to) { typedef int (*F)(ucontext_t *, const ucontext_t *); static F real = (F)dlvsym(RTLD_NEXT, "swapcontext", "GLIBC_2.2.5"); entering = to; int r = real(from, to); onStack(from); return r; }

static const int MAXF = 4;
enum Where { wNone, wSleep, wWake };
struct FM { bool active, stop, known; int exc, caller; natural reason; Where in; FM():active(false), stop(false), known(true), exc(0), caller(-1), reason(0), in(wNone) {} };
static FM *fm; static Fiber *fb[MAXF]; static int nf, cur, left_, steps; static bool restarted;
// blocks of the size of a fiber's stack
static int stacks; static void onMalloc(const volatile void *, size_t n) { if (n >= 524288 && n < 530000) stacks++; } static void onFree(const volatile void *p) { if (p) { size_t n = __sanitizer_get_allocated_size(p); if (n >= 524288 && n < 530000) stacks--; } }
static int bodies, destroyed;
struct Witness { int i; Witness(int i):i(i) { bodies++; } ~Witness() { destroyed++; } };
static natural nextReason; static bool nobody;
static const char *nm(int i) { static const char *n[] = {"main", "A", "B", "C"}; return n[i]; }
static void here(int me) { SQ_ASSERT(cur == me, "%s runs instead of %s", nm(me), nm(cur)); Fiber *p = Fiber::currentPtr(); SQ_ASSERT(me ? p == fb[me] : p ? p->isMaster() : nobody, "the current fiber is wrong in %s", nm(me)); for (int i = 1; i <= nf; i++) if (fb[i] && !fm[i].exc) SQ_ASSERT(fb[i]->checkState() == fm[i].active, "%s is %sactive", nm(i), fm[i].active ? "not " : ""); }

struct Boom { int i; };
struct Body { int i; Body(int i):i(i) {} void operator()() const; };
static void go(int me, int t, Where w) { fm[me].in = w; cur = t; if (w == wSleep) fm[t].known = false; }
static void wake(int me, int t) { fm[t].caller = me; go(me, t, wWake); fm[t].known = true; fm[t].reason = nextReason; }
static void finish(int me) { fm[me].active = false; fm[me].stop = false; cur = 0; fm[0].known = false; }
static void program(int me);
static void program(int me) {
	unsigned char canary[64]; for (int i = 0; i < 64; i++) canary[i] = (unsigned char)(me * 64 + i);
	while (left_ > 0) {
		struct { int cur, left, nobody; FM f[MAXF]; } st; memset(&st, 0, sizeof st); st.cur = cur; st.left = left_; st.nobody = nobody; for (int i = 0; i <= nf; i++) { FM &m = st.f[i]; m.active = fm[i].active; m.stop = fm[i].stop; m.exc = fm[i].exc; m.caller = fm[i].caller; m.in = fm[i].in; } if (sq::seen(sq::hash(&st, sizeof st))) { left_ = 0; break; }
		left_--; int k = sq::choose(me ? 6 : 4), t = 0; Fiber *self = Fiber::currentPtr();
		if (k >= 1 && k <= 3) { t = sq::choose(nf + 1); }
		switch (k) {
		case 0: { int c = fm[me].caller; if (c < 0 || !fm[c].active) c = 0; sq::op("%s: sleep", nm(me)); bool moves = c != me; if (fm[me].stop) { sq::op("(stop requested)"); } else if (moves) go(me, c, wSleep); if (!self && !Fiber::currentPtr()) { bool t = false; try { Fiber::sleep(); } catch (const Exception &) { t = true; } SQ_ASSERT(t, "sleep without fibers"); break; } natural r = Fiber::sleep(); SQ_ASSERT(!fm[me].stop, "sleep returns in the stopped fiber %s", nm(me)); if (moves && fm[me].known) SQ_ASSERT(r == fm[me].reason, "sleep returns reason %lu instead of %lu", (unsigned long)r, (unsigned long)fm[me].reason); break; }
		case 1: { nextReason += 3; sq::op("%s: wake %s", nm(me), nm(t)); Fiber *f = t ? fb[t] : fb[1]->getMaster(); if (!f) break; if (t != me && fm[t].active) wake(me, t); f->wakeUp(nextReason); break; }
		case 2: { if (t == 0) { t = sq::choose(nf) + 1; if (t == me) break; sq::op("%s: check %s", nm(me), nm(t)); if (me == 0 && fm[t].exc) { bool got = false; try { fb[t]->checkState(); } catch (const ErrorMessageException &) { got = fm[t].exc == 1; } catch (const StdException &) { got = fm[t].exc == 2; } catch (const UnknownException &) { got = fm[t].exc == 3; } SQ_ASSERT(got, "the exception of %s is lost", nm(t)); fm[t].exc = 0; } SQ_ASSERT(fb[t]->checkState() == fm[t].active, "%s is %sactive", nm(t), fm[t].active ? "not " : ""); break; }
			if (t == me) break; sq::op("%s: stop %s", nm(me), nm(t)); if (fm[t].active) { fm[t].stop = true; nextReason = 0; wake(me, t); } fb[t]->stop(); break; }
		case 3: { if (t == 0 || fm[t].active) break; sq::op("%s: start %s", nm(me), nm(t)); nobody = false; fm[t].active = true; fm[t].stop = false; fm[t].in = wNone; nextReason = 0; wake(me, t); Body b(t); fb[t]->start(Action(b).ifc()); break; }
		case 4: sq::op("%s: return", nm(me)); return;
		case 5: { int x = sq::choose(3); sq::op("%s: throw %d", nm(me), x); fm[me].exc = x + 1; if (x == 0) throw ErrorMessageException(THISLOCATION, "boom"); else if (x == 1) throw std::runtime_error("boom"); else { Boom b = {me}; throw b; } }
		}
		fm[me].in = wNone; here(me); SQ_ASSERT(Fiber::currentPtr() == self || me == 0, "another current fiber"); for (int i = 0; i < 64; i++) SQ_ASSERT(canary[i] == (unsigned char)(me * 64 + i), "the stack of %s is changed", nm(me));
	}
}
void Body::operator()() const { onStack(entering); here(i); Witness w(i); SQ_ASSERT(fb[i]->getCaller() == (fm[i].caller > 0 ? fb[fm[i].caller] : fb[i]->getMaster()), "the caller of %s is wrong", nm(i)); try { program(i); } catch (Fiber::StopFiberException) { here(i); SQ_ASSERT(fm[i].stop, "%s is stopped without request", nm(i)); finish(i); throw; } catch (...) { here(i); finish(i); throw; } sq::op("%s ends", nm(i)); here(i); finish(i); }
static void run(int n) {
	nobody = sq::choose(2); if (!nobody) SQ_ASSERT(Fiber::createMasterFiber().isMaster() && &Fiber::createMasterFiber() == Fiber::currentPtr(), "createMasterFiber"); onStack(0); FM f[MAXF]; fm = f; nf = n; cur = 0; nextReason = 0; bodies = destroyed = 0; f[0].active = true; left_ = sq::depth(); static bool hooked = __sanitizer_install_malloc_and_free_hooks(&onMalloc, &onFree); (void)hooked; stacks = 0;
	for (int i = 1; i <= n; i++) fb[i] = new Fiber;
	program(0);
	left_ = 0; std::string o; for (int i = 0; i <= n; i++) { o += char('0' + f[i].active + 2 * !!f[i].exc); } sq::outcome(o);
	for (int i = n; i > 0; i--) { sq::op("main: destroy %s", nm(i)); if (f[i].active) { f[i].stop = true; nextReason = 0; wake(0, i); } delete fb[i]; fb[i] = 0; SQ_ASSERT(cur == 0, "main runs instead of %s", nm(cur)); SQ_ASSERT(!f[i].active, "%s was not stopped", nm(i)); }
	SQ_ASSERT(bodies == destroyed, "%d of %d fibers did not clean up", bodies - destroyed, bodies);
	SQ_ASSERT(Fiber::destroyMasterFiber(), "the master fiber is not destroyed"); SQ_ASSERT(Fiber::currentPtr() == 0, "a fiber remains"); Fiber *m = &Fiber::createMasterFiber(); SQ_ASSERT(Fiber::currentPtr() == m && m->isMaster() && Fiber::destroyMasterFiber(), "the master fiber cannot be created again"); SQ_ASSERT(stacks == 0, "%d stacks remain", stacks);
}
SQ_SCENARIO(one, 9, 14) { run(1); }
SQ_SCENARIO(two, 7, 9) { run(2); }
SQ_SCENARIO(three, 6, 7) { run(3); }
