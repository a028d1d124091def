// C15: singletons: concurrent first use, throwing constructors, destruction at exit, use after it
#include "lsthreads.h"
#include "lightspeed/base/memory/singleton.h"
using namespace LightSpeed;
static int ctor[4], dtor[4], order[16], norder, failN[4];
template<int K> struct Sg { volatile int a, b; int no;
	Sg():a(0), b(0) { mc::point(); if (failN[K]) { failN[K]--; throw 42; } { mc::NoPreempt _; ctor[K]++; no = ctor[K]; } a = K + 1; b = K + 1; }
	~Sg() { mc::NoPreempt _; dtor[K]++; order[norder++] = K; a = b = -1; } };
template<int K> static Sg<K> *get() { Sg<K> &x = Singleton<Sg<K> >::getInstance(); mc::NoPreempt _; MC_ASSERT(x.a == K + 1 && x.b == K + 1, "the instance of %d is not fully constructed", K); return &x; }
static Sg<0> *volatile got[4];
struct One { int n; void operator()(int i) const { for (int k = 0; k < n; k++) { Sg<0> *x = get<0>(); MC_ASSERT(!got[i] || got[i] == x, "the instance changed"); got[i] = x; } } };
static void reset() { for (int i = 0; i < 4; i++) ctor[i] = dtor[i] = failN[i] = 0; norder = 0; }
static void atExit() { mc::quiet(true); LightSpeed::_intr::SingletonChunkBase::SingletonAtExit(); mc::quiet(false); for (int i = 0; i < 4; i++) MC_ASSERT(ctor[i] == dtor[i], "singleton %d constructed %d times, destroyed %d times at exit", i, ctor[i], dtor[i]); }
template<int N> static void first(int n) { reset(); LsPool<N> p; One o = {n}; p.prepare(o); p.go_all(); Sg<0> *m = get<0>(); p.wait_all(); p.finish(); MC_ASSERT(ctor[0] == 1, "constructed %d times", ctor[0]);
	for (int i = 0; i < N; i++) MC_ASSERT(got[i] == m, "another instance"); atExit(); }
MC_SCENARIO(first_use_2, 8, 16) { first<1>(2); }
MC_SCENARIO(first_use_3, 4, 6) { first<2>(1); }
MC_SCENARIO(first_use_4, 2, 3) { first<3>(1); }
// ---- different singletons at the same time: each one is registered for destruction
struct Mix { void operator()(int i) const { switch (i) { case 0: get<1>(); break; case 1: get<2>(); break; case 2: get<3>(); } } };
template<int N> static void several() { reset(); LsPool<N> p; Mix o; p.prepare(o); p.go_all(); get<0>(); p.wait_all(); p.finish(); for (int i = 0; i <= N; i++) MC_ASSERT(ctor[i] == 1, "%d constructed %d times", i, ctor[i]); atExit(); }
MC_SCENARIO(two_singletons, 6, 16) { several<1>(); }
MC_SCENARIO(three_singletons, 4, 8) { several<2>(); }
MC_SCENARIO(four_singletons, 3, 6) { several<3>(); }
struct Both { void operator()(int) const { get<1>(); get<0>(); } };
MC_SCENARIO(crossed, 6, 16) { reset(); LsPool<1> p; Both o; p.prepare(o); p.go_all(); get<0>(); get<1>(); p.wait_all(); p.finish(); MC_ASSERT(ctor[0] == 1 && ctor[1] == 1, "constructed %d and %d times", ctor[0], ctor[1]); atExit(); }
// ---- a constructor that throws lets another thread (or a later call) construct it
struct Thr { void operator()(int) const { for (;;) { try { get<0>(); return; } catch (int) { mc::outcome(1); } } } };
template<int N> static void failing(int f) { reset(); failN[0] = f; LsPool<N> p; Thr o; p.prepare(o); p.go_all(); o(0); p.wait_all(); p.finish(); MC_ASSERT(ctor[0] == 1, "constructed %d times", ctor[0]); atExit(); }
MC_SCENARIO(constructor_throws, 6, 12) { failing<1>(1); }
MC_SCENARIO(constructor_throws_twice, 3, 5) { failing<2>(2); }
// ---- singletons that use another singleton
struct Outer { Sg<2> *in; Outer():in(get<2>()) {} ~Outer() { MC_ASSERT(in->a == 3, "destroyed before the singleton that uses it"); mc::outcome(5); } };
struct Ne { void operator()(int) const { MC_ASSERT(Singleton<Outer>::getInstance().in->a == 3, "?"); } };
MC_SCENARIO(nested, 6, 12) { reset(); LsPool<1> p; Ne o; p.prepare(o); p.go_all(); get<2>(); o(0); p.wait_all(); p.finish(); atExit(); }
// ---- with a parameter, and instances told apart by the tag
struct Par { int v; Par(const int &x):v(x) { mc::NoPreempt _; ctor[3]++; } ~Par() { dtor[3]++; } };
extern const char tagA = 0, tagB = 0; char tA = 0, tB = 0;
static volatile int parV[2];
struct Pr { void operator()(int i) const { parV[i] = Singleton<Par>::getInstance(i + 1).v; } };
MC_SCENARIO(parameter, 6, 12) { reset(); LsPool<1> p; Pr o; p.prepare(o); p.go_all(); o(1); p.wait_all(); p.finish(); MC_ASSERT(parV[0] == parV[1] && (parV[0] == 1 || parV[0] == 2) && ctor[3] == 1, "%d %d", parV[0], parV[1]); mc::outcome(parV[0]); atExit(); }
MC_SCENARIO(tags, 1, 2) { reset(); Sg<1> *a = &Singleton<Sg<1>, false, &tA>::getInstance(), *b = &Singleton<Sg<1>, false, &tB>::getInstance(), *c = &Singleton<Sg<1>, true, &tB>::getInstance(); MC_ASSERT(a != b && b != c && a != c && ctor[1] == 3, "shared"); ctor[1]--; /* never destroyed */ atExit(); }
// ---- destruction order, use after destruction, again after exit
struct Late { int g; Late():g(0) { mc::NoPreempt _; ctor[3]++; } ~Late() { dtor[3]++; get<0>(); } };
MC_SCENARIO(used_in_destructor, 1, 1) { // the destructor of an older singleton uses one that is gone already: it is made again and destroyed too
	reset(); Singleton<Late>::getInstance(); get<0>(); get<1>(); atExit(); MC_ASSERT(ctor[0] == 2 && ctor[1] == 1, "%d %d", ctor[0], ctor[1]); MC_ASSERT(norder == 3 && order[0] == 1 && order[1] == 0 && order[2] == 0, "order of destruction"); }
MC_SCENARIO(histories, 0, 0) { // every sequence of 5: first use of one of three singletons, or the exit handler
	reset(); int live[3] = {0, 0, 0}, stack[8], n = 0; mc::quiet(true);
	for (int k = 0; k < 5; k++) { int c = mc::choose(4), was = norder; switch (c) { case 0: get<0>(); break; case 1: get<1>(); break; case 2: get<2>(); break;
		case 3: LightSpeed::_intr::SingletonChunkBase::SingletonAtExit(); MC_ASSERT(norder - was == n, "%d destroyed, %d existed", norder - was, n); for (int i = 0; i < n; i++) MC_ASSERT(order[was + i] == stack[n - 1 - i], "not in reverse order of creation"); n = 0; live[0] = live[1] = live[2] = 0; }
		if (c < 3) { if (!live[c]) { live[c] = 1; stack[n++] = c; } } 
		for (int i = 0; i < 3; i++) MC_ASSERT(ctor[i] - dtor[i] == live[i], "singleton %d: constructed %d, destroyed %d", i, ctor[i], dtor[i]); }
	mc::quiet(false);
}
// ---- the same with stray wake-ups
MC_STRAY(first_use_2, 6, 7)
MC_STRAY(first_use_3, 2, 3)
MC_STRAY(first_use_4, 1, 2)
MC_STRAY(two_singletons, 4, 5)
MC_STRAY(three_singletons, 2, 3)
MC_STRAY(four_singletons, 1, 2)
MC_STRAY(crossed, 4, 5)
MC_STRAY(constructor_throws, 4, 5)
MC_STRAY(constructor_throws_twice, 1, 2)
MC_STRAY(nested, 4, 5)
MC_STRAY(parameter, 4, 5)
