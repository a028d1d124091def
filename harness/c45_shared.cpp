// C45: one exception with its reasons used by several threads
#include "lslife.h"
#include "lightspeed/base/exceptions/exception.h"
#include "lightspeed/base/exceptions/exceptionMsg.h"
using namespace LightSpeed;
namespace { volatile int live;
struct Num: public Exception { int n; Num(const ProgramLocation &l, int n):Exception(l), n(n) { cnt(1); } Num(const Num &o):Exception(o), n(o.n) { cnt(1); } ~Num() throw() { cnt(-1); } static void cnt(int d) { mc::NoPreempt _; live = live + d; } LIGHTSPEED_EXCEPTIONFINAL; protected: void message(ExceptionMsg &m) const { m("num"); } };
static const ProgramLocation loc("place.cpp", 1, "f");
static PException num(int n) { return PException(new Num(loc, n)); }
// digits of the chain
static int chain(const Exception &e) { int r = 0, k = 0; for (const Exception *p = &e; p; p = p->getReason()) { MC_ASSERT(++k < 8, "the chain of reasons has no end"); r = r * 10 + static_cast<const Num *>(p)->n; } return r; }
static PException root(int reasons) { PException e = num(1); if (reasons > 0) e->setReason(num(2)); if (reasons > 1) e->appendReason(num(3)); return e; }
struct Rethrow { PException *e; int want, app; void operator()(int i) const {
	bool caught = false;
	try { e[i]->throwAgain(); } catch (Exception &x) { caught = true; MC_ASSERT(chain(x) == want, "the thrown exception has other reasons"); 
		if (app > i) { x.appendReason(num(5 + i)); MC_ASSERT(chain(x) == want * 10 + 5 + i, "the reason was not appended to this exception only"); } }
	MC_ASSERT(caught, "nothing was thrown"); e[i] = nil; } };
static void threads(int reasons, int app) { live = 0; mc::quiet(true); { PException e[3]; PException r = root(reasons); for (int i = 0; i < 3; i++) e[i] = r; int want = chain(*r); LsPool<2> p; Rethrow b = { e, want, app }; p.prepare(b); r = nil; mc::quiet(false);
	p.go_all(); MC_ASSERT(chain(*e[2]) == want, "the exception has other reasons"); p.wait_all(); MC_ASSERT(chain(*e[2]) == want, "the original has other reasons"); mc::quiet(true); p.finish(); } MC_ASSERT(live == 0, "exceptions were not destroyed"); mc::quiet(false); }
}
MC_SCENARIO(rethrow_plain, 4, 6) { threads(0, 0); }
MC_SCENARIO(rethrow_reasons, 3, 5) { threads(2, 0); }
MC_SCENARIO(append_one, 3, 5) { threads(2, 1); }
MC_SCENARIO(append_both, 3, 5) { threads(1, 2); }
MC_SCENARIO(append_both_long, 3, 4) { threads(2, 2); }
// the last owner drops the exception while its copy is being changed
struct Last { PException *e; void operator()(int i) const { if (i == 0) { PException y; try { e[0]->throwAgain(); } catch (...) { y = Exception::getCurrentException(); } e[0] = nil; y->appendReason(num(7)); MC_ASSERT(chain(*y) == 1237, "other reasons"); } else { PException y((Exception *)e[1]->clone()); e[1] = nil; *y << PException(num(8)); MC_ASSERT(chain(*y) == 1238, "other reasons"); } } };
MC_SCENARIO(last_owner, 3, 4) { live = 0; mc::quiet(true); { PException e[2]; e[0] = e[1] = root(2); LsPool<2> p; Last b = { e }; p.prepare(b); mc::quiet(false); p.go_all(); p.wait_all(); mc::quiet(true); p.finish(); } MC_ASSERT(live == 0, "exceptions were not destroyed"); mc::quiet(false); }
