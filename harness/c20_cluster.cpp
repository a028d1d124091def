// C20: cluster allocator: every history of allocations and releases
#include "lightspeed/base/memory/clusterAlloc.h"
#include "lightspeed/base/containers/avltreenode.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/exception.h"
#include "sqitem.h"
#include <stdlib.h>
#include <string.h>
#include <map>
using namespace LightSpeed;
// the allocator below: counts what is outstanding, checks the sizes it gets back, can refuse
struct Base: public IRuntimeAlloc {
	std::map<void *, natural> out; natural bytes; bool canFail; Base():bytes(0), canFail(false) {}
	virtual void *alloc(natural sz) { if (canFail && sq::deviate(2)) { sq::op("the memory is refused"); throw std::bad_alloc(); } void *p = malloc(sz); memset(p, 0xEE, sz); out[p] = sz; bytes += sz; return p; }
	virtual void *alloc(natural sz, IRuntimeAlloc *&o) { o = this; return alloc(sz); }
	virtual void dealloc(void *p, natural sz) { SQ_ASSERT(out.count(p), "memory is returned that was not obtained"); SQ_ASSERT(out[p] == sz, "%lu bytes are returned, %lu were obtained", (unsigned long)sz, (unsigned long)out[p]); bytes -= sz; out.erase(p); memset(p, 0xDD, sz); free(p); }
	virtual natural getObjectSize() const { return sizeof(*this); }
	virtual IRuntimeAlloc *clone(IRuntimeAlloc &a) const { return const_cast<Base *>(this); }
	virtual IRuntimeAlloc *clone() const { return const_cast<Base *>(this); }
};
struct Blk { unsigned char *p; natural sz; unsigned char fill; IRuntimeAlloc *owner; };
typedef std::vector<Blk> L;
static unsigned char fillNo;
static void check(const L &l, Base &b) {
	for (size_t i = 0; i < l.size(); i++) {
		for (natural k = 0; k < l[i].sz; k++) SQ_ASSERT(l[i].p[k] == l[i].fill, "byte %lu of a block of %lu bytes has changed", (unsigned long)k, (unsigned long)l[i].sz);
		natural al = 8; while (al > l[i].sz && al > 1) al /= 2;
		SQ_ASSERT(((natural)l[i].p & (al - 1)) == 0, "a block of %lu bytes is not aligned to %lu", (unsigned long)l[i].sz, (unsigned long)al);
		bool in = false; for (std::map<void *, natural>::iterator it = b.out.begin(); it != b.out.end(); ++it) if ((unsigned char *)it->first <= l[i].p && l[i].p + l[i].sz <= (unsigned char *)it->first + it->second) in = true;
		SQ_ASSERT(in, "a block lies outside the memory that was obtained for it");
		for (size_t j = 0; j < i; j++) SQ_ASSERT(l[i].p + (l[i].sz ? l[i].sz : 1) <= l[j].p || l[j].p + (l[j].sz ? l[j].sz : 1) <= l[i].p, "two blocks overlap");
	}
}
static void hist(const natural *sizes, int nsz, bool owners, int faults) {
	sq::setDeviations(faults); fillNo = 1; Base b; b.canFail = faults > 0; L l; int D = sq::depth();
	{ ClusterAlloc a(b);
		for (int i = 0; i < D; i++) {
			int k = sq::choose(nsz + (int)l.size() * (owners ? 2 : 1));
			if (k < nsz) { Blk x; x.sz = sizes[k]; x.fill = ++fillNo; x.owner = 0; sq::op("alloc(%lu)", (unsigned long)sizes[k]);
				try { x.p = (unsigned char *)a.alloc(sizes[k], x.owner); } catch (std::bad_alloc &) { check(l, b); continue; }
				SQ_ASSERT(x.p && x.owner, "no block"); memset(x.p, x.fill, x.sz); l.push_back(x); }
			else { k -= nsz; int j = owners ? k / 2 : k; sq::op(owners && k % 2 ? "owner->dealloc(#%d)" : "dealloc(#%d)", j); memset(l[j].p, 0x55, l[j].sz); if (owners && k % 2) l[j].owner->dealloc(l[j].p, l[j].sz); else a.dealloc(l[j].p, l[j].sz); l.erase(l.begin() + j); }
			check(l, b);
		}
		// everything is returned: the memory is available again; the same blocks fit into what is kept
		L was = l; while (!l.empty()) { size_t j = sq::depth() % 2 ? l.size() - 1 : 0; a.dealloc(l[j].p, l[j].sz); l.erase(l.begin() + j); check(l, b); }
		b.canFail = false; sq::op("all are returned");
		natural kept = b.bytes; { Blk x; x.p = (unsigned char *)a.alloc(sizes[0], x.owner); a.dealloc(x.p, sizes[0]); } SQ_ASSERT(D == 0 || was.empty() || was[0].sz != sizes[0] || b.bytes <= kept, "a free block was not reused");
		bool ex = false; try { a.clear(); } catch (const Exception &) { ex = true; } SQ_ASSERT(!ex, "a leak is reported although all blocks were returned");
		SQ_ASSERT(b.out.empty(), "%lu bytes are kept after clear", (unsigned long)b.bytes);
		void *p = a.alloc(sizes[0]); a.dealloc(p, sizes[0]);
	}
	SQ_ASSERT(b.out.empty(), "%lu bytes are kept after destruction", (unsigned long)b.bytes);
	sq::outcome(sq::hash(&fillNo, 1));
}
static const natural s200[] = {200}, s40[] = {40}, s72[] = {72, 3}, sMix[] = {1, 3, 0}, sMid[] = {5, 12, 100};
SQ_SCENARIO(big, 13, 14) { hist(s200, 1, false, 0); }
SQ_SCENARIO(middle, 13, 14) { hist(s40, 1, false, 0); }
SQ_SCENARIO(big_owner, 9, 10) { hist(s200, 1, true, 0); }
SQ_SCENARIO(two_sizes, 8, 9) { hist(s72, 2, true, 0); }
SQ_SCENARIO(tiny_sizes, 7, 8) { hist(sMix, 3, true, 0); }
SQ_SCENARIO(odd_sizes, 7, 8) { hist(sMid, 3, true, 0); }
SQ_SCENARIO(refused, 9, 11) { hist(s200, 1, false, 1 + sq::thorough()); }
SQ_SCENARIO(refused_two_sizes, 7, 9) { hist(s72, 2, false, 1 + sq::thorough()); }
// every size on its own: a handful of blocks, returned in both orders
SQ_SCENARIO(sizes, 300, 2000) { natural s = sq::choose(sq::depth()); int n = 1 + sq::choose(5), m = sq::choose(3); sq::op("%d blocks of %lu, order %d", n, (unsigned long)s, m); Base b; { ClusterAlloc a(b); L l; fillNo = 1; for (int i = 0; i < n; i++) { Blk x; x.sz = s; x.fill = ++fillNo; x.p = (unsigned char *)a.alloc(s, x.owner); memset(x.p, x.fill, s); l.push_back(x); check(l, b); }
	while (!l.empty()) { size_t j = m == 0 ? 0 : m == 1 ? l.size() - 1 : l.size() / 2; if (m == 2) l[j].owner->dealloc(l[j].p, s); else a.dealloc(l[j].p, s); l.erase(l.begin() + j); check(l, b); }
	bool ex = false; try { a.clear(); } catch (const Exception &) { ex = true; } SQ_ASSERT(!ex, "a leak is reported"); } SQ_ASSERT(b.out.empty(), "memory is kept"); }
// a cluster filled to its largest number of blocks
SQ_SCENARIO(many, 900, 3000) { natural s = 1 + sq::choose(3); int n = sq::choose(3), m = sq::choose(3); n = n == 0 ? sq::depth() : n == 1 ? 254 : 330; sq::op("%d blocks of %lu, order %d", n, (unsigned long)s, m); Base b; { ClusterAlloc a(b); L l; for (int r = 0; r < 2; r++) { for (int i = 0; i < n; i++) { Blk x; x.sz = s; x.fill = (unsigned char)(i * 7 + r); x.p = (unsigned char *)a.alloc(s, x.owner); memset(x.p, x.fill, s); l.push_back(x); } if (n < 400) check(l, b);
		std::set<unsigned char *> u; for (int i = 0; i < n; i++) SQ_ASSERT(u.insert(l[i].p).second, "a block is given out twice");
		for (int i = 0; i < n; i++) { for (natural k = 0; k < s; k++) SQ_ASSERT(l[i].p[k] == l[i].fill, "block %d has changed", i); }
		for (int i = 0; i < n; i++) { int j = m == 0 ? i : m == 1 ? n - 1 - i : (i * 7) % n; if (m == 2 && n % 7 == 0) j = i; for (natural k = 0; k < s; k++) SQ_ASSERT(l[j].p[k] == l[j].fill, "block %d has changed", j); if (i % 2) l[j].owner->dealloc(l[j].p, s); else a.dealloc(l[j].p, s); } l.clear(); } } SQ_ASSERT(b.out.empty(), "memory is kept"); }
// blocks left over are reported, and only these
SQ_SCENARIO(leaks, 4, 5) { Base b; int D = sq::depth(), left = 0; { ClusterAlloc a(b); std::vector<void *> l; for (int i = 0; i < D; i++) l.push_back(a.alloc(i % 2 ? 40 : 200)); for (int i = 0; i < D; i++) if (sq::choose(2)) { sq::op("return #%d", i); a.dealloc(l[i], i % 2 ? 40 : 200); } else left++; bool ex = false; try { a.clear(); } catch (const MemoryLeakException &) { ex = true; } SQ_ASSERT(ex == (left > 0), "%d blocks were left, a leak is %sreported", left, ex ? "" : "not "); } SQ_ASSERT(b.out.empty(), "memory is kept"); }
