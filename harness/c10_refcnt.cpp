// C10: reference counted pointers, shared pointers, strings shared by threads
#include "lslife.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/memory/refCntPtr.h"
#include "lightspeed/base/memory/sharedPtr.h"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/convertString.h"
using namespace LightSpeed;
static volatile int made, gone;
struct Obj: RefCntObj { volatile int alive; RefCntPtr<Obj> next; Obj():alive(1) { mc::NoPreempt _; made = made + 1; } Obj(const Obj &o):RefCntObj(o),alive(1) { mc::NoPreempt _; made = made + 1; }
	~Obj() { mc::NoPreempt _; MC_ASSERT(alive, "object destroyed twice"); alive = 0; gone = gone + 1; } };
typedef RefCntPtr<Obj> P;
static void ok(const P &p) { mc::NoPreempt _; if (p != nil) MC_ASSERT(p->alive, "a pointer refers to a destroyed object"); }
static void start() { made = gone = 0; }
static void all() { MC_ASSERT(made == gone, "%d objects were created but %d destroyed", made, gone); }
// ---- several threads copy and drop a pointer to the same object
struct Cp { P p; void operator()(int) { P a(p); p = nil; ok(a); mc::point(); ok(a); } };
struct CpConst { mutable P p; const char *prog; CpConst(const P &p, const char *prog):p(p),prog(prog) {} void operator()(int) const {
	P a; P b; for (const char *c = prog; *c; c++) { switch (*c) {
	case 'c': a = p; break; case 'd': p = nil; break; case 'x': a = nil; break; case 'b': b = a; break; case 's': a = a; break; case 'y': b.clear(); break;
	case 'm': b = static_cast<P &&>(a); break; case 'M': a = P(static_cast<P &&>(p)); break; case 'n': a = new Obj; break; case 'r': if (a != nil) { a.manualAddRef(); a.manualRelease(); } break; case 'i': mc::outcome(a.isShared()); break; }
	ok(a); ok(b); ok(p); } } };
static void run2(const char *x, const char *y, const char *z = 0) {
	start(); { P p(new Obj); CpConst a(p, x), b(p, y), c(p, z ? z : ""); if (z) { LsPool<3> q; q.prepareOne(0, a); q.prepareOne(1, b); q.prepareOne(2, c); a.p = b.p = c.p = nil; q.go_all(); mc::point(); ok(p); p = nil; q.wait_all(); q.finish(); }
	else { LsPool<2> q; q.prepareOne(0, a); q.prepareOne(1, b); a.p = b.p = c.p = nil; q.go_all(); ok(p); p = nil; q.wait_all(); q.finish(); } } all(); }
#define RUN2(n, qb, tb, ...) MC_SCENARIO(n, qb, tb) { run2(__VA_ARGS__); }
RUN2(copy_drop, 4, 6, "cd", "d")
RUN2(copy_both, 4, 6, "cdx", "cdx")
RUN2(assign, 3, 5, "cbdx", "dcb")
RUN2(moves, 3, 5, "Mmy", "cmd")
RUN2(self_assign, 3, 5, "csd", "csx")
RUN2(replace, 3, 5, "cdnb", "cdb")
RUN2(manual, 3, 5, "cdr", "cdi")
RUN2(three, 2, 4, "cd", "dcx", "cdx")
// ---- chains: assigning the successor to the pointer that holds the predecessor
MC_SCENARIO_F(chain_walk, 0, 0, mc::F_LEAK) {
	start(); int mv = mc::choose(2); { P head(new Obj); head->next = new Obj; head->next->next = new Obj; int n = 0; while (head != nil) { ok(head); n++; if (mv) head = static_cast<P &&>(head->next); else head = head->next; } MC_ASSERT(n == 3, "walked %d of 3 elements", n); } all();
}
MC_SCENARIO(chain_threads, 3, 4) {
	start(); { P head(new Obj); head->next = new Obj; head->next->next = new Obj;
	struct W { mutable P h; void operator()(int) const { int n = 0; while (h != nil) { ok(h); h = h->next; n++; } MC_ASSERT(n == 3, "walked %d of 3", n); } }; W w = {head}; LsPool<2> q; q.prepare(w); w.h = nil; head = nil; q.go_all(); q.wait_all(); q.finish(); } all();
}
// ---- copying the object itself gives an independent counter
MC_SCENARIO_F(copy_object, 0, 0, mc::F_LEAK) {
	start(); { P a(new Obj), b(a); P c(new Obj(*a)); MC_ASSERT(!c.isShared(), "a new copy of a shared object is reported as shared"); MC_ASSERT(a.isShared(), "?"); { P d = c; MC_ASSERT(c.isShared(), "?"); } MC_ASSERT(!c.isShared(), "?"); *c = *a; MC_ASSERT(!c.isShared() && a.isShared(), "assigning the object changed the counter"); b = nil; MC_ASSERT(!a.isShared(), "?"); ok(a); ok(c); } all();
}
MC_SCENARIO_F(detach_attach, 0, 0, mc::F_LEAK) {
	start(); { P a(new Obj); Obj *o = a.detach(); MC_ASSERT(a == nil, "detached pointer still points"); MC_ASSERT(gone == 0, "detach destroyed the object"); a.attach(o); ok(a); P b = a; MC_ASSERT(b.isShared(), "?"); b.attach(new Obj); ok(a); ok(b); a.clear(); MC_ASSERT(a == nil && gone == 1, "clear"); b.create(); MC_ASSERT(gone == 2, "create must release the old object"); } all();
}
MC_SCENARIO_F(sequences, 0, 0, mc::F_LEAK) {
	start(); { P p[3]; Obj *m[3] = {0, 0, 0}; int live = 0;
	for (int k = 0; k < 5; k++) { int op = mc::choose(14), i, j; Obj *drop = 0;
		if (op < 6) { static const int I[] = {0,0,1,1,2,2}, J[] = {1,2,0,2,0,1}; i = I[op]; j = J[op]; p[i] = p[j]; m[i] = m[j]; }
		else if (op < 8) { i = op - 6; p[i] = new Obj; m[i] = p[i].get(); }
		else if (op < 10) { i = op - 8; p[i] = nil; m[i] = 0; }
		else if (op < 12) { i = op - 10; j = i + 1; p[i] = static_cast<P &&>(p[j]); m[i] = m[j]; m[j] = 0; }
		else if (op == 12) { p[0] = p[0]; } else { P t(static_cast<P &&>(p[0])); MC_ASSERT(p[0] == nil, "moved pointer not empty"); p[1] = t; m[1] = m[0]; m[0] = 0; }
		int n = 0; for (i = 0; i < 3; i++) { MC_ASSERT(p[i].get() == m[i], "pointer %d is wrong", i); ok(p[i]); bool sh = false, first = m[i] != 0; for (j = 0; j < 3; j++) if (j != i && m[j] == m[i] && m[i]) { sh = true; if (j < i) first = false; } MC_ASSERT(p[i].isShared() == sh, "isShared is wrong"); if (first) n++; }
		MC_ASSERT(made - gone == n, "%d objects exist, %d are referenced", made - gone, n); } } all();
}
// ---- SharedPtr: the last of the pointers that share an object destroys it
struct Sh { volatile int alive; SharedPtr<Sh> next; Sh():alive(1) { made = made + 1; } ~Sh() { MC_ASSERT(alive, "object destroyed twice"); alive = 0; gone = gone + 1; } };
typedef SharedPtr<Sh> S;
MC_SCENARIO_F(shared_sequences, 0, 0, mc::F_LEAK) {
	start(); { S p[3]; Sh *m[3] = {0, 0, 0};
	for (int k = 0; k < 5; k++) { int op = mc::choose(13), i, j;
		if (op < 6) { static const int I[] = {0,0,1,1,2,2}, J[] = {1,2,0,2,0,1}; i = I[op]; j = J[op]; p[i] = p[j]; m[i] = m[j]; }
		else if (op < 8) { i = op - 6; p[i] = S(new Sh); m[i] = p[i].get(); }
		else if (op < 10) { i = op - 8; p[i] = nil; m[i] = 0; }
		else if (op == 10) { p[0] = p[0]; } else if (op == 11) { S t(p[0]); p[1] = t; m[1] = m[0]; } else { S t(p[1]); S u(t); p[2] = u; m[2] = m[1]; }
		int n = 0; for (i = 0; i < 3; i++) { MC_ASSERT(p[i].get() == m[i], "pointer %d is wrong", i); if (m[i]) MC_ASSERT(p[i]->alive, "dangling pointer"); bool sh = false, first = m[i] != 0; natural cnt = 1; for (j = 0; j < 3; j++) if (j != i && m[j] == m[i] && m[i]) { sh = true; cnt++; if (j < i) first = false; } if (m[i]) { MC_ASSERT(p[i].isShared() == sh, "isShared is wrong"); MC_ASSERT(p[i].count() == cnt, "count is %d instead of %d", (int)p[i].count(), (int)cnt); } if (first) n++; }
		MC_ASSERT(made - gone == n, "%d objects exist, %d are referenced", made - gone, n); } } all();
}
MC_SCENARIO_F(shared_chain, 0, 0, mc::F_LEAK) { start(); { S head(new Sh); head->next = S(new Sh); head->next->next = S(new Sh); int n = 0; while (head != nil) { MC_ASSERT(head->alive, "dead"); n++; head = head->next; } MC_ASSERT(n == 3, "%d", n); } all(); }
MC_SCENARIO_F(shared_static, 0, 0, mc::F_LEAK) { start(); { Sh a, b; { SharedStaticPtr<Sh> s(&a); S p(s), q(p); s = &b; MC_ASSERT(p.get() == &b && q.get() == &b, "redirect"); } } all(); }
// ---- strings handed to other threads
struct Str { mutable StringA s; const char *want; int kind; Str(StringA s, const char *w, int kind):s(s),want(w),kind(kind) {} void operator()(int) const { StringA a = kind == 1 ? StringA(s.getMT()) : s; s = nil; MC_ASSERT(a == ConstStrA(want), "the string changed"); StringA b = a; a = nil;
	if (kind == 2) { b.isolate(); char *d = b.data(); d[0] = 'Z'; MC_ASSERT(b.head(1) == ConstStrA("Z") && b.offset(1) == ConstStrA(want + 1), "own copy is wrong"); } else MC_ASSERT(b == ConstStrA(want), "the copy changed"); } };
static void other() {}
template<int A, int B> static void strs() { mc::quiet(true); { Thread t; t.start(ThreadFunction::create(&other)); t.join(); } mc::quiet(false); size_t base = mc::live_blocks(); { StringA s(ConstStrA("hello world")); Str a(s, "hello world", A), b(s, "hello world", B); LsPool<2> q; q.prepareOne(0, a); q.prepareOne(1, b); a.s = b.s = nil; q.go_all(); MC_ASSERT(s == ConstStrA("hello world"), "the string changed"); s = nil; q.wait_all(); q.finish(); } MC_ASSERT(mc::live_blocks() == base, "%d heap blocks of strings were not freed", (int)(mc::live_blocks() - base)); }
MC_SCENARIO(string_copy, 3, 5) { strs<0, 0>(); }
MC_SCENARIO(string_mt, 3, 5) { strs<0, 1>(); }
MC_SCENARIO(string_isolate, 3, 5) { strs<0, 2>(); }
MC_SCENARIO(string_isolate_both, 3, 5) { strs<2, 2>(); }
