// C18: thread variables
#include "lslife.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/sync/threadVar.h"
#include "lightspeed/base/sync/tlsalloc.h"
using namespace LightSpeed;
static int vlive, vmade, vdead; static int deadBy[64], madeBy[64];
struct Val { int v, no, me; Val(int v = 0):v(v) { mk(); } Val(const Val &o):v(o.v) { mk(); } ~Val() { mc::NoPreempt _; MC_ASSERT(no >= 0 && no < 64 && deadBy[no] < 0, "a value was destroyed twice"); deadBy[no] = mc::self(); vlive--; no = -1; v = -1; }
	void mk() { mc::NoPreempt _; no = vmade++; me = mc::self(); deadBy[no] = -1; madeBy[no] = me; vlive++; } };
static void reset() { vlive = vmade = 0; }
struct TV: public ThreadVar<Val> { natural idx() { return index; } };
static ITLSTable &tls() { return ITLSTable::getInstance(); }
static int get(ThreadVar<Val> &t) { Val *v = t[tls()]; return v ? v->v : -1; }
static void expect(ThreadVar<Val> &t, int v, const char *w) { int g = get(t); MC_ASSERT(g == v, "%s: the thread reads %d instead of %d", w, g, v); }
static void destroyedHere(int from) { for (int i = from; i < vmade; i++) MC_ASSERT(deadBy[i] == madeBy[i], "value %d of thread %d: destroyed by %d", i, madeBy[i], deadBy[i]); }
// makes room in the tables of threads started later: n free indexes below one that is in use
struct Room { TV *top; Room(int n) { TV *t[8]; for (int i = 0; i < n; i++) t[i] = new TV; top = new TV; for (int i = 0; i < n; i++) delete t[i]; } ~Room() { delete top; } };
// ---- each thread has its own value, gone with the thread
struct Own { TV *a, *b; int k; void operator()(int i) const { expect(*a, -1, "start"); expect(*b, -1, "start"); a->setValue(tls(), Val(10 + i)); mc::point(); b->setValue(tls(), Val(20 + i)); expect(*a, 10 + i, "first"); a->setValue(tls(), Val(30 + i)); mc::point(); expect(*a, 30 + i, "replaced"); expect(*b, 20 + i, "second"); if (k) { b->unset(tls()); expect(*b, -1, "unset"); mc::point(); expect(*a, 30 + i, "the other"); } } };
template<int N> static void own(int k) { reset(); TV a, b; { LsPool<N> t; Own o = {&a, &b, k}; t.prepare(o); t.go_all(); o(9); t.wait_all(); t.finish(); } MC_ASSERT(vlive == (k ? 1 : 2), "%d values left after the threads ended", vlive); expect(a, 39, "main"); a.unset(tls()); b.unset(tls()); MC_ASSERT(vlive == 0, "%d values left", vlive); destroyedHere(0); }
MC_SCENARIO(own_values, 2, 4) { own<1>(0); }
MC_SCENARIO(own_values_unset, 2, 4) { own<1>(1); }
MC_SCENARIO(own_values_three, 1, 2) { own<2>(1); }
// ---- a thread that ends on its own: values are destroyed before join() returns
struct Leave { TV *a; void operator()(int) const { a->setValue(tls(), Val(1)); } };
MC_SCENARIO(ends, 4, 6) { reset(); TV a; LsMortal m; Leave l = {&a}; m.prepare(l); m.go_all(); m.finish(); MC_ASSERT(vlive == 0, "the value outlived its thread"); destroyedHere(0); }
struct Plain { TV *a; void operator()() const { a->setValue(tls(), Val(7)); } };
MC_SCENARIO(start_join, 3, 4) { reset(); TV a; { Thread t; Plain p = {&a}; t.start(ThreadFunction::create(p)); t.join(); MC_ASSERT(vlive == 0, "the value outlived its thread"); t.start(ThreadFunction::create(p)); t.join(); } MC_ASSERT(vlive == 0, "left"); destroyedHere(0); }
// ---- variables are created and released by several threads at once
static int inUse[16];
struct Churn { int n; void operator()(int i) const { for (int k = 0; k < n; k++) { TV *a = new TV, *b = new TV; natural x = a->idx(), y = b->idx(); { mc::NoPreempt _; MC_ASSERT(x != y && x < 16 && y < 16 && !inUse[x] && !inUse[y], "two variables share one slot (%d, %d)", (int)x, (int)y); inUse[x] = inUse[y] = 1; }
	expect(*a, -1, "new"); expect(*b, -1, "new"); a->setValue(tls(), Val(i)); b->setValue(tls(), Val(50 + i)); expect(*a, i, "first"); expect(*b, 50 + i, "second"); a->unset(tls()); expect(*b, 50 + i, "second"); b->unset(tls());
	{ mc::NoPreempt _; inUse[x] = 0; } if (k & 1) { delete a; { mc::NoPreempt _; inUse[y] = 0; } delete b; } else { { mc::NoPreempt _; inUse[y] = 0; } delete b; delete a; } } } };
template<int N> static void churn(int n, int room) { reset(); for (int i = 0; i < 16; i++) inUse[i] = 0; Room r(room); inUse[r.top->idx()] = 1; { LsPool<N> t; Churn c = {n}; t.prepare(c); t.go_all(); c(9); t.wait_all(); t.finish(); } MC_ASSERT(vlive == 0, "left"); destroyedHere(0); }
MC_SCENARIO(churn, 4, 5) { churn<1>(1, 5); }
MC_SCENARIO(churn_twice, 3, 4) { churn<1>(2, 5); }
MC_SCENARIO(churn_three, 1, 2) { churn<2>(1, 7); }
// ---- a thread starts while variables are created and released
struct Starter { TV *a; void operator()(int) const { Thread t; Plain p = {a}; t.start(ThreadFunction::create(p)); t.join(); } };
MC_SCENARIO(start_while_created, 3, 4) { reset(); TV a; LsPool<1> t; Starter s = {&a}; t.prepare(s); t.go_all(); { TV x, y; x.setValue(tls(), Val(3)); y.setValue(tls(), Val(4)); expect(x, 3, "x"); y.unset(tls()); x.unset(tls()); } t.wait_all(); t.finish(); MC_ASSERT(vlive == 0, "left"); destroyedHere(0); }
// ---- a variable unknown when the thread started: it is refused without harm or works
struct Late { TV **v; void operator()(int i) const { TV *x = *v; try { x->setValue(tls(), Val(5)); expect(*x, 5, "late"); mc::outcome(1); } catch (Exception &) { mc::outcome(0); MC_ASSERT(vlive == 0, "the refused value was not destroyed"); } } };
MC_SCENARIO(created_later, 1, 2) { reset(); TV a, *l = 0; { LsPool<1> t; Late f = {&l}; t.prepare(f); l = new TV; t.go_all(); t.wait_all(); t.finish(); } MC_ASSERT(vlive == 0, "left"); delete l; }
// ---- destructors that use thread variables again
static TV *again1, *again2; static int redo;
struct Re { static void del(void *p) { delete (Val *)p; if (redo-- > 0) again2->set(tls(), new Val(9), &del2); } static void del2(void *p) { delete (Val *)p; if (redo-- > 0) again1->set(tls(), new Val(8), &del); } };
struct ReDo { int n; bool rev; void operator()(int) const { again1->set(tls(), new Val(1), &Re::del); } };
template<bool rev> static void redoing(int n) { reset(); TV a, b; again1 = rev ? &b : &a; again2 = rev ? &a : &b; redo = n; { LsPool<1> t; ReDo f = {n}; t.prepare(f); t.go_all(); t.wait_all(); t.finish(); } MC_ASSERT(vlive == 0, "%d values set by destructors left", vlive); MC_ASSERT(vmade == 1 + n, "%d", vmade); destroyedHere(0); }
MC_SCENARIO(destructor_sets, 1, 2) { redoing<false>(1); }
MC_SCENARIO(destructor_sets_lower, 1, 2) { redoing<true>(1); }
MC_SCENARIO(destructor_sets_more, 1, 2) { redoing<true>(4); }
// ---- initialised on first use
struct Ini { ThreadVarInit<Val> *v; ThreadVarInitDefault<Val> *d; void operator()(int i) const { Val &x = (*v)[tls()]; MC_ASSERT(x.v == 77, "not initialised"); x.v = i; mc::point(); MC_ASSERT((*v)[tls()].v == i && &(*v)[tls()] == &x, "another value"); MC_ASSERT((*d)[tls()].v == 0, "?"); (*d)[tls()].v = i + 1; v->initOnce(tls()); MC_ASSERT((*v)[tls()].v == i, "initialised again"); v->init(tls()); MC_ASSERT((*v)[tls()].v == 77, "not initialised again"); MC_ASSERT((*d)[tls()].v == i + 1, "the other changed"); } };
MC_SCENARIO(initialised, 2, 3) { reset(); ThreadVarInit<Val> v(Val(77)); ThreadVarInitDefault<Val> d; int base = vmade; { LsPool<1> t; Ini f = {&v, &d}; t.prepare(f); t.go_all(); f(5); t.wait_all(); t.finish(); } v.unset(tls()); d.unset(tls()); MC_ASSERT(vlive == 1, "%d left", vlive); destroyedHere(base); }
// ---- a thread not started by the library, attached for a while
struct At { TV *a, *b; void operator()() const { int from; { Thread t; MC_ASSERT(t.attach(false), "not attached"); expect(*a, -1, "start"); a->setValue(tls(), Val(4)); { mc::NoPreempt _; from = vmade - 1; } mc::point(); b->set(tls(), 0); expect(*a, 4, "attached"); } MC_ASSERT(deadBy[from] == mc::self(), "the value was not destroyed on detach"); } };
MC_SCENARIO(attached, 4, 8) { reset(); Thread::getMaster(); TV a, b; At r = {&a, &b}; int t = mc::spawn(r); a.setValue(tls(), Val(1)); expect(a, 1, "main"); expect(b, -1, "main"); mc::join(t); expect(a, 1, "main"); a.unset(tls()); MC_ASSERT(vlive == 0, "%d left", vlive); }
// ---- one thread: every sequence over three variables, two tables
MC_SCENARIO(histories, 0, 0) {
	reset(); mc::quiet(true); { TLSTable<> tab[2]; ITLSTable *T[2] = {&tab[0], &tab[1]}; TV *v[3] = {0, 0, 0}; int m[2][3], raw[2][3]; static Val ext[2] = {Val(100), Val(101)}; int base = vlive;
	int seq = 0; for (int k = 0; k < 5; k++) { int c = mc::choose(7), i = mc::choose(3); int owned = 0; switch (c) {
		case 0: if (!v[i]) { v[i] = new TV; for (int t = 0; t < 2; t++) m[t][i] = -1, raw[t][i] = 0; } else { for (int t = 0; t < 2; t++) v[i]->unset(*T[t]); delete v[i]; v[i] = 0; } break;
		case 1: case 2: if (v[i]) { v[i]->setValue(*T[c - 1], Val(++seq)); m[c - 1][i] = seq; raw[c - 1][i] = 0; } break;
		case 3: if (v[i]) { v[i]->set(*T[0], &ext[0]); m[0][i] = 100; raw[0][i] = 1; } break;
		case 4: if (v[i]) { v[i]->unset(*T[0]); m[0][i] = -1; } break;
		case 5: if (i < 2) { T[i]->clear(); for (int j = 0; j < 3; j++) m[i][j] = -1; } break;
		case 6: if (i == 0) { tab[1].clear(); tab[0].moveTo(tab[1]); for (int j = 0; j < 3; j++) if (v[j]) { m[1][j] = m[0][j]; raw[1][j] = raw[0][j]; m[0][j] = -1; } } break; }
		for (int t = 0; t < 2; t++) for (int j = 0; j < 3; j++) if (v[j]) { Val *p = (*v[j])[*T[t]]; MC_ASSERT((p ? p->v : -1) == m[t][j], "variable %d in table %d holds %d instead of %d", j, t, p ? p->v : -1, m[t][j]); if (m[t][j] >= 0 && !raw[t][j]) owned++; }
		MC_ASSERT(vlive - base == owned, "%d values exist, %d set", vlive - base, owned); for (int j = 0; j < 3; j++) for (int l = 0; l < j; l++) if (v[j] && v[l]) MC_ASSERT(v[j]->idx() != v[l]->idx(), "shared slot"); }
	for (int i = 0; i < 3; i++) delete v[i]; base = vlive - base; }
	mc::quiet(false);
}
// a replaced value whose destructor sets a variable with a higher index in the same table
MC_SCENARIO(set_in_destructor, 1, 1) { reset(); TV a, b; struct D { static void del(void *p) { delete (Val *)p; again2->setValue(tls(), Val(3)); } }; again2 = &b; tls().setVar(a.idx(), new Val(1), &D::del); tls().setVar(a.idx(), new Val(2), &deleteFunction<Val>); expect(a, 2, "replaced"); expect(b, 3, "set by the destructor"); a.unset(tls()); b.unset(tls()); MC_ASSERT(vlive == 0, "left"); }
