// C17: pool allocator
#include "lsthreads.h"
#include "lightspeed/base/memory/stdAlloc.h"
#include "lightspeed/base/memory/poolalloc.h"
#include "lightspeed/base/memory/rtAlloc.h"
using namespace LightSpeed;
struct Blk { char *p; int n, tag; };
static Blk tab[16]; static int ntab, tagSeq;
static void check(const Blk &b) { for (int i = 0; i < b.n; i++) MC_ASSERT(b.p[i] == (char)b.tag, "contents of a block in use changed (byte %d of %d)", i, b.n); }
struct Mem { // allocation with bookkeeping
	Blk b; int slot; IRuntimeAlloc *own;
	void get(IRuntimeAlloc &a, int n, bool owner) { own = &a; char *p = (char *)(owner ? a.alloc(n, own) : a.alloc(n));
		{ mc::NoPreempt _; MC_ASSERT(p != 0 && ((natural)p & 7) == 0, "misaligned block"); for (int i = 0; i < 16; i++) if (tab[i].p) MC_ASSERT(p + n <= tab[i].p || tab[i].p + tab[i].n <= p, "block overlaps another block in use");
			for (slot = 0; tab[slot].p; slot++) {} b.p = p; b.n = n; b.tag = ++tagSeq; for (int i = 0; i < n; i++) p[i] = (char)b.tag; tab[slot] = b; }
	}
	void put() { { mc::NoPreempt _; check(b); tab[slot].p = 0; } own->dealloc(b.p, b.n); }
};
static void reset() { for (int i = 0; i < 16; i++) tab[i].p = 0; tagSeq = 0; }
static IRuntimeAlloc *A;
struct W { const int *sz; int n; bool hold; void operator()(int i) const { Mem m[4]; for (int k = 0; k < n; k++) { m[k].get(*A, sz[i * n + k], (i + k) & 1); if (!hold) m[k].put(); } if (hold) for (int k = 0; k < n; k++) m[k].put(); } };
template<typename P, int N> static void run(const int *sz, int n, bool hold, const int *pre = 0, int npre = 0) { reset(); LsPool<N> t; W w = {sz + n, n, hold}; t.prepare(w); size_t base = mc::live_blocks(); P *a = new P; A = a; { mc::quiet(true); Mem m[4]; for (int i = 0; i < npre; i++) m[i].get(*a, pre[i], false); for (int i = 0; i < npre; i++) m[i].put(); mc::quiet(false); }
	t.go_all(); W m = {sz, n, hold}; m(0); t.wait_all(); delete a; MC_ASSERT(mc::live_blocks() == base, "%d blocks not released", (int)(mc::live_blocks() - base)); t.finish(); }
static const int eq[] = {8, 8, 8, 8, 8, 8, 8, 8}, mix[] = {8, 24, 24, 8, 16, 24, 8, 40}, mix2[] = {24, 8, 8, 40, 32, 16}, pre3[] = {8, 8, 8}, pre2[] = {8, 24};
typedef PoolAlloc PA;
MC_SCENARIO(same_size, 5, 7) { run<PA, 1>(eq, 2, false); }
MC_SCENARIO(same_size_hold, 5, 7) { run<PA, 1>(eq, 2, true); }
MC_SCENARIO(same_size_recycled, 5, 7) { run<PA, 1>(eq, 2, false, pre3, 3); }
MC_SCENARIO(same_size_three, 3, 3) { run<PA, 2>(eq, 2, false, pre3, 3); }
MC_SCENARIO(mixed, 5, 7) { run<PA, 1>(mix, 2, false); }
MC_SCENARIO(mixed_hold, 5, 7) { run<PA, 1>(mix, 2, true); }
MC_SCENARIO(mixed_recycled, 4, 5) { run<PA, 1>(mix, 2, false, pre3, 3); }
MC_SCENARIO(mixed_recycled_hold, 4, 5) { run<PA, 1>(mix2, 2, true, pre3, 3); }
MC_SCENARIO(mixed_three, 2, 3) { run<PA, 2>(mix, 1, false, pre3, 3); }
MC_SCENARIO(mixed_three_twice, 1, 2) { run<PA, 2>(mix, 2, false, pre2, 2); }
MC_SCENARIO(mixed_four, 1, 2) { run<PA, 3>(mix, 1, false, pre3, 3); }
// ---- growing requests: a block is never smaller than requested
static const int grow[] = {64, 16, 16, 32, 8, 32};
MC_SCENARIO(growing, 5, 7) { run<PA, 1>(grow, 2, true); }
MC_SCENARIO(growing_three, 3, 3) { run<PA, 2>(grow, 1, true); }
MC_SCENARIO(growing_three_two, 2, 2) { run<PA, 2>(grow, 2, true); }
// ---- a block freed by another thread than the one that allocated it
struct Hand { Mem *m; int n; void operator()(int) const { for (int i = 0; i < n; i++) m[i].put(); Mem x; x.get(*A, 8, true); x.put(); } };
MC_SCENARIO(freed_by_another, 5, 7) { reset(); Mem m[2]; LsPool<1> t; Hand h = {m, 2}; t.prepare(h); size_t base = mc::live_blocks(); PA *a = new PA; A = a; m[0].get(*a, 8, false); m[1].get(*a, 16, true); t.go_all(); Mem y; y.get(*a, 8, false); Mem z; z.get(*a, 16, true); y.put(); z.put(); t.wait_all(); delete a; MC_ASSERT(mc::live_blocks() == base, "not released"); t.finish(); }
// ---- the owner gives the allocator up while blocks are in use: the last block takes the cache with it
MC_SCENARIO(released_while_used, 6, 10) { reset(); Mem m[2]; LsPool<1> t; Hand h = {m, 1}; struct R { Mem *m; void operator()(int) const { m->put(); } } r = {m}; t.prepare(r); PA *a = new PA; A = a; { mc::quiet(true); m[0].get(*a, 8, true); m[1].get(*a, 8, true); Mem x; x.get(*a, 8, true); x.put(); mc::quiet(false); } t.go_all(); m[1].put(); a->release(); t.wait_all(); mc::outcome(1); t.finish(); size_t was = mc::live_blocks(); a->freeExtra(); MC_ASSERT(mc::live_blocks() == was, "blocks stay cached after the last one was freed"); }
// ---- the allocator with size classes
typedef MultiPoolAlloc MP;
static const int classes[] = {16, 17, 33, 1025, 8, 1024, 64, 512};
MC_SCENARIO(size_classes, 4, 5) { run<MP, 1>(classes, 4, true); }
MC_SCENARIO(size_classes_mixed, 4, 5) { run<MP, 1>(mix, 2, false, pre3, 3); }
template<typename P> static void hist(const int *sizes, int ns, int depth) {
	reset(); size_t base = mc::live_blocks(); P *a = new P; Mem m[4]; bool used[4] = {0}; mc::quiet(true);
	for (int k = 0; k < depth; k++) { int c = mc::choose(ns + 3), s; if (c < ns) { for (s = 0; s < 3 && used[s]; s++) {} if (s == 3) continue; m[s].get(*a, sizes[c], k & 1); used[s] = true; } else { s = c - ns; if (!used[s]) continue; m[s].put(); used[s] = false; } for (int i = 0; i < 3; i++) if (used[i]) check(m[i].b); }
	for (int i = 0; i < 3; i++) if (used[i]) m[i].put(); delete a; mc::quiet(false); MC_ASSERT(mc::live_blocks() == base, "blocks not released"); }
static const int hs[] = {1, 8, 24, 40};
MC_SCENARIO(histories, 0, 0) { hist<PA>(hs, 3, 6); }
static const int hm[] = {0, 16, 17, 1025};
MC_SCENARIO(histories_classes, 0, 0) { hist<MP>(hm, 4, 5); }
