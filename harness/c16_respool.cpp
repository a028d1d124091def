// C16: resource pool
#include "lsthreads.h"
#include "lightspeed/base/containers/resourcePool.h"
#include "lightspeed/mt/exceptions/timeoutException.h"
#include "lightspeed/base/containers/autoArray.tcc"
using namespace LightSpeed;
static int live, made, maxLive, failMake; static bool limitDown;
struct Res: public AbstractResource { volatile int user; bool stale; Res():user(0), stale(false) { mc::NoPreempt _; live++; made++; if (live > maxLive) maxLive = live; } ~Res() { mc::NoPreempt _; MC_ASSERT(user == 0, "a resource in use was destroyed"); live--; }
	bool expired() const { return stale || AbstractResource::expired(); } };
struct Pool: public AbstractResourcePool { Pool(natural l, natural rt, natural wt):AbstractResourcePool(l, rt, wt) { mc::NoPreempt _; live = made = maxLive = failMake = 0; }
	AbstractResource *createResource() { mc::point(); if (failMake) { failMake--; throw 42; } return new Res; } const char *getResourceName() const { return "res"; } };
static const natural LONG = naturalNull;
// one use of a resource: 0 got, 1 timeout, 2 creation failed
static int use(Pool &p, bool stale = false) { natural t0 = mc::now_ms();
	try { ResourcePtr<Res> r(p); { mc::NoPreempt _; MC_ASSERT(r->user == 0, "the resource has two users"); r->user = 1; MC_ASSERT(limitDown || live <= (int)p.getLimit(), "%d resources exist, limit %d", live, (int)p.getLimit()); }
		ResourcePtr<Res> c(r); mc::point(); mc::NoPreempt _; MC_ASSERT(c.get() == r.get(), "a copy refers to another resource"); MC_ASSERT(r->user == 1, "?"); r->user = 0; if (stale) r->stale = true; return 0; }
	catch (TimeoutException &) { MC_ASSERT(mc::now_ms() - t0 >= p.waitTimeout, "timeout after %d ms", (int)(mc::now_ms() - t0)); return 1; } catch (int) { return 2; } }
struct U { Pool *p; int n; bool stale; int *res; void operator()(int i) const { for (int k = 0; k < n; k++) { int r = use(*p, stale && k == 0); if (res) res[i] = r; mc::outcome(r); } } };
static void noneLeft(Pool *p, int lim) { if (lim >= 0) MC_ASSERT((int)p->getLimit() == lim, "limit");
	MC_ASSERT(live + (int)p->getCurLimit() == (int)p->getLimit(), "%d exist, %d more allowed, limit is %d", live, (int)p->getCurLimit(), (int)p->getLimit()); delete p; MC_ASSERT(live == 0, "%d resources left after the pool is gone", live); }
template<int N> static void plain(int limit, int n, bool stale, natural rt = LONG) { limitDown = false; Pool *p = new Pool(limit, rt, LONG); U u = {p, n, stale, 0}; LsPool<N> t; t.prepare(u); t.go_all(); int r = use(*p); MC_ASSERT(r == 0, "request failed"); t.wait_all(); t.finish(); MC_ASSERT(maxLive <= limit, "%d resources existed, limit %d", maxLive, limit); mc::outcome(100 + made); noneLeft(p, limit); }
MC_SCENARIO(limit1_two, 5, 8) { plain<1>(1, 1, false); }
MC_SCENARIO(limit1_two_twice, 4, 6) { plain<1>(1, 2, false); }
MC_SCENARIO(limit1_three, 3, 4) { plain<2>(1, 1, false); }
MC_SCENARIO(limit2_three, 2, 3) { plain<2>(2, 1, false); }
MC_SCENARIO(limit2_four, 1, 2) { plain<3>(2, 1, false); }
MC_SCENARIO(expired_given_on, 4, 6) { plain<1>(1, 2, true); }
MC_SCENARIO(expired_three, 2, 3) { plain<2>(1, 1, true); }
MC_SCENARIO(no_cache, 4, 5) { plain<1>(1, 2, false, 0); }
// ---- timeouts
template<int N> static void timed(int limit, natural wt) { limitDown = false; Pool *p = new Pool(limit, LONG, wt); int res[4] = {0}; U u = {p, 1, false, res}; LsPool<N> t; t.prepare(u); t.go_all(); mc::outcome(use(*p)); t.wait_all(); t.finish(); MC_ASSERT(maxLive <= limit, "%d existed", maxLive); noneLeft(p, limit); }
MC_SCENARIO(timeout_two, 4, 6) { timed<1>(1, 10); }
MC_SCENARIO(timeout_three, 2, 3) { timed<2>(1, 10); }
MC_SCENARIO(timeout_zero, 4, 6) { timed<1>(1, 0); }
MC_SCENARIO(timeout_zero_limit2, 2, 3) { timed<2>(2, 0); }
MC_SCENARIO(timeout_alone, 2, 3) { limitDown = false; Pool *p = new Pool(1, LONG, 50); { ResourcePtr<Res> a(*p); MC_ASSERT(use(*p) == 1, "a second user got the resource"); } MC_ASSERT(use(*p) == 0, "not returned"); noneLeft(p, 1); }
// ---- creation fails: the failure is reported to one request, the others go on
template<int N> static void fails(int limit, int f) { limitDown = false; Pool *p = new Pool(limit, LONG, LONG); failMake = f; int res[4] = {0}; U u = {p, 1, false, res}; LsPool<N> t; t.prepare(u); t.go_all(); int r = use(*p); t.wait_all(); t.finish(); int c = r == 2; for (int i = 0; i < N; i++) { MC_ASSERT(res[i] != 1, "timeout"); c += res[i] == 2; } MC_ASSERT(r != 1 && c == f - failMake, "%d failures reported, %d happened", c, f - failMake); noneLeft(p, limit); }
MC_SCENARIO(create_fails, 4, 6) { fails<1>(1, 1); }
MC_SCENARIO(create_fails_three, 2, 3) { fails<2>(1, 1); }
MC_SCENARIO(create_fails_twice, 2, 2) { fails<2>(2, 2); }
// ---- changing the limit
struct L { Pool *p; int to; void operator()(int i) const { if (i == 0) p->setLimit(to); else mc::outcome(use(*p)); } };
template<int N> static void relimit(int from, int to, natural wt) { limitDown = to < from; Pool *p = new Pool(from, LONG, wt); L l = {p, to}; LsPool<N> t; t.prepare(l); t.go_all(); int r = use(*p); t.wait_all(); t.finish(); if (to > 0 && wt == LONG) MC_ASSERT(r == 0, "failed"); noneLeft(p, to); }
MC_SCENARIO(raise_from_0, 4, 6) { relimit<1>(0, 1, LONG); }
MC_SCENARIO(raise_from_0_two, 2, 3) { relimit<2>(0, 2, LONG); }
MC_SCENARIO(raise_0_1_two, 2, 3) { relimit<2>(0, 1, LONG); }
MC_SCENARIO(raise_1_3, 1, 2) { relimit<3>(1, 3, LONG); }
MC_SCENARIO(lower_2_1, 2, 3) { relimit<2>(2, 1, LONG); }
MC_SCENARIO(lower_3_1, 1, 2) { relimit<3>(3, 1, LONG); }
MC_SCENARIO(lower_1_0, 4, 6) { relimit<1>(1, 0, 10); }
// ---- one thread: every sequence of acquire / return / expire / limit changes
MC_SCENARIO(histories, 0, 0) {
	limitDown = true; Pool *p = new Pool(1, LONG, 5); int lim = 1; ResourcePtr<Res> *h[3] = {0, 0, 0}; int used = 0; mc::quiet(true);
	for (int k = 0; k < 6; k++) { switch (mc::choose(5)) {
		case 0: { int s = h[0] ? h[1] ? 2 : 1 : 0; if (h[s]) break; natural t0 = mc::now_ms(); bool idle = p->pool != 0; int was = live; try { h[s] = new ResourcePtr<Res>(*p); MC_ASSERT((*h[s])->user == 0, "two users"); MC_ASSERT(idle || was < lim, "got a resource above the limit"); (*h[s])->user = 1; used++; } catch (TimeoutException &) { MC_ASSERT(!idle && was >= lim, "timeout, %d exist, limit %d", was, lim); MC_ASSERT(mc::now_ms() - t0 >= 5, "too early"); } break; }
		case 1: case 2: { int s = h[2] ? 2 : h[1] ? 1 : 0; if (!h[s]) break; (*h[s])->user = 0; if (mc::choose(2)) (*h[s])->stale = true; delete h[s]; h[s] = 0; used--; break; }
		case 3: lim = mc::choose(3); p->setLimit(lim); MC_ASSERT((int)p->getLimit() == lim, "limit not set"); break;
		case 4: { int s = h[2] ? 2 : h[1] ? 1 : 0; if (!h[s] || s == 2) break; h[s + 1] = 0; ResourcePtr<Res> *c = new ResourcePtr<Res>(*h[s]); delete h[s]; h[s] = c; MC_ASSERT((*c)->user == 1, "the resource was returned while a copy is left"); break; } }
		MC_ASSERT(live + (integer)p->getCurLimit() == (integer)p->getLimit(), "%d exist, %d more allowed, limit is %d", live, (int)p->getCurLimit(), (int)p->getLimit()); }
	for (int i = 0; i < 3; i++) if (h[i]) { (*h[i])->user = 0; delete h[i]; }
	mc::quiet(false); noneLeft(p, lim);
}
// ---- the same with stray wake-ups
MC_STRAY(limit1_two, 3, 4)
MC_STRAY(limit1_two_twice, 2, 3)
MC_STRAY(limit1_three, 1, 2)
MC_STRAY(limit2_three, 1, 2)
MC_STRAY(expired_given_on, 2, 3)
MC_STRAY(expired_three, 1, 2)
MC_STRAY(no_cache, 2, 3)
MC_STRAY(timeout_two, 2, 3)
MC_STRAY(timeout_three, 1, 2)
MC_STRAY(timeout_zero, 2, 3)
MC_STRAY(timeout_zero_limit2, 1, 2)
MC_STRAY(timeout_alone, 1, 2)
MC_STRAY(create_fails, 2, 3)
MC_STRAY(create_fails_three, 1, 2)
MC_STRAY(create_fails_twice, 1, 2)
MC_STRAY(raise_from_0, 2, 3)
MC_STRAY(raise_from_0_two, 1, 2)
MC_STRAY(raise_0_1_two, 1, 2)
MC_STRAY(lower_2_1, 1, 2)
MC_STRAY(lower_1_0, 2, 3)
