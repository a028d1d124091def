// C23: heap sort, priority queue, sorting filter, named enumerations
#include <typeinfo>
#include <algorithm>
#include <functional>
#include "lightspeed/base/constructor.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/sort.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/priorityQueue.tcc"
#include "lightspeed/base/iter/sortFilter.tcc"
#include "lightspeed/base/memory/staticAlloc.h"
#include "lightspeed/base/memory/smallAlloc.h"
#include "lightspeed/base/namedEnum.tcc"
#include "sqitem.h"
using namespace LightSpeed;
typedef std::vector<int> V;
struct KeyLess { bool operator()(const Itm &a, const Itm &b) const { return a.get() / 10 < b.get() / 10; } };      // items are key*10+serial
struct Greater { bool operator()(const Itm &a, const Itm &b) const { return a.get() > b.get(); } };
template<typename A> V vals(const A &a) { V r; for (natural i = 0; i < a.length(); i++) r.push_back(a[i].get()); return r; }
static bool isPerm(V a, V b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }

SQ_SCENARIO(heapsort_arrays, 7, 8) {
	size_t base = Itm::live().size();
	{
		int n = sq::choose(sq::depth() + 1), K = n >= 7 ? 3 : 4;
		AutoArray<Itm> a; V m;
		for (int i = 0; i < n; i++) { int k = sq::choose(K); m.push_back(k * 10 + i); a.add(Itm(k * 10 + i)); }
		sq::op("heap sort %s", showv(m).c_str());
		HeapSort<AutoArray<Itm>, KeyLess> h(a);
		h.sort();
		V r = vals(a);
		SQ_ASSERT(isPerm(r, m), "sorting %s gives %s, which is no permutation", showv(m).c_str(), showv(r).c_str());
		for (int i = 1; i < n; i++) SQ_ASSERT(r[i - 1] / 10 <= r[i] / 10, "sorting %s gives %s", showv(m).c_str(), showv(r).c_str());
		SQ_ASSERT(h.empty() && h.getSize() == 0, "the heap is not empty after sorting");
		h.sort();
		V r2 = vals(a); for (int i = 1; i < n; i++) SQ_ASSERT(r2[i - 1] / 10 <= r2[i] / 10, "sorting again %s gives %s", showv(r).c_str(), showv(r2).c_str());
		sq::outcome(sq::hash(r.data(), r.size() * sizeof(int), n));
	}
	Itm::noneLeft(base);
}
SQ_SCENARIO(heapsort_large, 1, 1) {
	// regular patterns: every length up to 70 in ascending, descending, organ pipe, saw and constant order
	int n = sq::choose(70), p = sq::choose(6);
	std::vector<int> m; for (int i = 0; i < n; i++) m.push_back(p == 0 ? i : p == 1 ? n - i : p == 2 ? std::min(i, n - i) : p == 3 ? i % 7 : p == 4 ? 5 : (i * 37) % 64);
	AutoArray<int> a; for (int i = 0; i < n; i++) a.add(m[i]);
	sq::op("sort %d items, pattern %d", n, p);
	if (sq::choose(2)) { HeapSort<AutoArray<int>, std::greater<int> > h(a); h.makeHeap(); SQ_ASSERT((int)h.getSize() == n, "heap size"); h.sortHeap(); std::sort(m.begin(), m.end(), std::greater<int>()); }
	else { HeapSort<AutoArray<int> > h(a); h.sort(); std::sort(m.begin(), m.end()); }
	for (int i = 0; i < n; i++) SQ_ASSERT(a[i] == m[i], "item %d of %d is %d, expected %d (pattern %d)", i, n, a[i], m[i], p);
	sq::outcome(n * 6 + p);
}
// taking any item out of a larger heap: the item moved to its place may have to rise as well as to sink
SQ_SCENARIO(heap_pop_at, 8, 10) {
	int n = sq::choose(sq::depth()) + 1, k = n > 7 ? 2 : 3; size_t base = Itm::live().size();
	{ AutoArray<Itm> a; V in; for (int i = 0; i < n; i++) { int v = sq::choose(k); in.push_back(v); a.add(Itm(v)); } HeapSort<AutoArray<Itm> > h(a); h.makeHeap(); sq::op("heap of %s", showv(in).c_str());
	for (int r = 0; r < 2 && !in.empty(); r++) { natural at = sq::choose(in.size()); int v = a[at].get(); sq::op("pop(%lu)", (unsigned long)at); SQ_ASSERT(h.pop(at), "pop(at) refused"); SQ_ASSERT(a[in.size() - 1].get() == v, "pop(at) moved %d behind the heap instead of %d", a[in.size() - 1].get(), v); in.erase(std::find(in.begin(), in.end(), v)); }
	V s(in); std::sort(s.begin(), s.end(), std::greater<int>()); for (size_t j = 0; j < s.size(); j++) { SQ_ASSERT(h.top().get() == s[j], "item %lu is %d, expected %s", (unsigned long)j, h.top().get(), showv(s).c_str()); h.pop(); } SQ_ASSERT(h.empty(), "heap is not empty"); sq::outcome(n); }
	Itm::noneLeft(base);
}
// the heap interface: the first getSize() items are the heap, the rest are not
SQ_SCENARIO(heap_ops, 7, 9) {
	size_t base = Itm::live().size();
	{
		AutoArray<Itm> a; HeapSort<AutoArray<Itm> > h(a); V in, out;     // in: multiset in the heap; out: items after the heap
		int D = sq::depth();
		for (int i = 0; i < D; i++) {
			int k = sq::choose(5);
			switch (k) {
			case 0: { int v = sq::choose(4); sq::op("add and push %d", v); if (a.length() != in.size() || a.length() > 6) sq::skip(); a.add(Itm(v)); SQ_ASSERT(h.push(), "push refused"); in.push_back(v); } break;
			case 1: { sq::op("pop"); bool r = h.pop(); SQ_ASSERT(r == !in.empty(), "pop reported %d", r); if (r) { V::iterator x = std::max_element(in.begin(), in.end()); out.insert(out.begin(), *x); in.erase(x); } } break;
			case 2: { if (in.empty()) sq::skip(); natural at = sq::choose(in.size()); sq::op("pop(%lu)", (unsigned long)at); int v = a[at].get(); SQ_ASSERT(h.pop(at), "pop(at) refused"); in.erase(std::find(in.begin(), in.end(), v)); out.insert(out.begin(), v); } break;
			case 3: { if (out.empty()) sq::skip(); sq::op("drop the item after the heap"); if (a.length() != in.size() + out.size()) sq::fail("length"); a.trunc(out.size()); out.clear(); } break;
			case 4: { if (out.empty()) sq::skip(); sq::op("push the item after the heap"); SQ_ASSERT(h.push(), "push refused"); in.push_back(out.front()); out.erase(out.begin()); } break;
			}
			SQ_ASSERT(h.getSize() == in.size() && h.empty() == in.empty(), "heap size %lu, expected %lu", (unsigned long)h.getSize(), (unsigned long)in.size());
			V r = vals(a); SQ_ASSERT(r.size() == in.size() + out.size(), "items were lost");
			V hin(r.begin(), r.begin() + in.size()), hout(r.begin() + in.size(), r.end());
			SQ_ASSERT(isPerm(hin, in), "heap holds %s, expected %s", showv(hin).c_str(), showv(in).c_str());
			SQ_ASSERT(hout == out, "popped items are %s, expected %s", showv(hout).c_str(), showv(out).c_str());
			if (!in.empty()) { int mx = *std::max_element(in.begin(), in.end()); SQ_ASSERT(h.top().get() == mx, "top is %d, expected %d", h.top().get(), mx); for (int x = 0; x < 4; x++) SQ_ASSERT(h.isBetter(Itm(x)) == (x > mx), "isBetter(%d)", x); }
			// draining a copy yields the order
			{ AutoArray<Itm> b(a); HeapSort<AutoArray<Itm> > g(b); g.setSize(in.size()); V s(in); std::sort(s.begin(), s.end(), std::greater<int>()); for (size_t j = 0; j < s.size(); j++) { SQ_ASSERT(g.top().get() == s[j], "draining: item %lu is %d, expected %s", (unsigned long)j, g.top().get(), showv(s).c_str()); g.pop(); } SQ_ASSERT(!g.pop(), "pop of an empty heap reported success"); }
			int sz = in.size(); if (sq::seen(sq::hash(r.data(), r.size() * sizeof(int), i * 100 + sz))) sq::skip();
		}
		sq::outcome(in.size());
	}
	Itm::noneLeft(base);
}
template<typename Q, typename L> void pqBody(L less) {
	size_t base = Itm::live().size();
	{
		Q q; V m; int D = sq::depth(), serial = 0;
		for (int i = 0; i < D; i++) {
			int k = sq::choose(7);
			switch (k) {
			case 0: { int v = sq::choose(4); if (m.size() >= 6) sq::skip(); sq::op("push %d", v); q.push(Itm(v)); m.push_back(v); } break;
			case 1: sq::op("pop"); q.pop(); if (!m.empty()) m.erase(std::max_element(m.begin(), m.end(), less)); break;
			case 2: sq::op("clear"); q.clear(); m.clear(); break;
			case 3: { sq::op("copy, drain the copy"); Q c(q); V s(m); std::sort(s.begin(), s.end(), less); while (!s.empty()) { SQ_ASSERT(!c.empty() && c.length() == s.size(), "length of a copy"); SQ_ASSERT(c.top().get() == s.back(), "copy: top is %d, expected %d of %s", c.top().get(), s.back(), showv(s).c_str()); c.pop(); s.pop_back(); } SQ_ASSERT(c.empty() && c.length() == 0, "a drained copy is not empty"); } break;
			case 4: { sq::op("continue with a copy"); Q c(q); c.push(Itm(2)); m.push_back(2); q.clear(); q = c; c.clear(); c.push(Itm(9)); } break;
			case 5: { if (m.empty() || m.size() >= 6) sq::skip(); sq::op("push(top())"); int v = *std::max_element(m.begin(), m.end(), less); const Q &cq = q; q.push(cq.top()); m.push_back(v); } break;
			case 6: sq::op("q=q"); q = *&q; break;
			}
			(void)serial;
			SQ_ASSERT(q.length() == m.size() && q.empty() == m.empty(), "length %lu, expected %lu", (unsigned long)q.length(), (unsigned long)m.size());
			if (!m.empty()) { int mx = *std::max_element(m.begin(), m.end(), less); const Q &cq = q; SQ_ASSERT(cq.top().get() == mx && q.top().get() == mx, "top is %d, expected %d", cq.top().get(), mx); }
			// the queue drained at this point gives the elements in order
			{ Q c(q); V s(m), got; std::sort(s.begin(), s.end(), less); std::reverse(s.begin(), s.end()); while (!c.empty() && got.size() <= s.size()) { got.push_back(c.top().get()); c.pop(); } SQ_ASSERT(got == s, "the queue yields %s, expected %s", showv(got).c_str(), showv(s).c_str()); }
		}
		sq::outcome(m.size());
	}
	Itm::noneLeft(base);
}
static bool lessI(int a, int b) { return a < b; }
static bool grI(int a, int b) { return a > b; }
SQ_SCENARIO(priority_queue_less, 5, 6) { pqBody<PriorityQueue<Itm> >(lessI); }
SQ_SCENARIO(priority_queue_greater, 5, 6) { pqBody<PriorityQueue<Itm, Greater> >(grI); }
SQ_SCENARIO(priority_queue_smallalloc, 5, 6) { pqBody<PriorityQueue<Itm, std::less<Itm>, SmallAlloc<2> > >(lessI); }

template<typename F> void filterBody(size_t cap) {
	size_t base = Itm::live().size();
	{
		F f; V m; int D = sq::depth();
		for (int i = 0; i < D; i++) {
			int k = sq::choose(4);
			switch (k) {
			case 0: { int v = sq::choose(4); sq::op("input %d", v); if (!f.needItems()) sq::skip(); f.input(Itm(v)); m.push_back(v); } break;
			case 1: { sq::op("output"); if (m.empty()) { SQ_ASSERT(!f.hasItems(), "an empty filter has items"); bool th = false; try { f.output(); } catch (IteratorNoMoreItems &) { th = true; } SQ_ASSERT(th, "output of an empty filter does not throw"); break; }
				SQ_ASSERT(f.hasItems(), "items are lost"); int v; { Itm o(f.output()); v = o.get(); } V::iterator x = std::max_element(m.begin(), m.end()); SQ_ASSERT(v == *x, "output is %d, expected %d of %s", v, *x, showv(m).c_str()); m.erase(x); } break;
			case 2: { sq::op("copy"); F g(f); V s(m); std::sort(s.begin(), s.end()); while (!s.empty()) { SQ_ASSERT(g.hasItems(), "copy lost items"); Itm o(g.output()); SQ_ASSERT(o.get() == s.back(), "copy: output is %d, expected %d", o.get(), s.back()); s.pop_back(); } SQ_ASSERT(!g.hasItems(), "copy has more items"); } break;
			case 3: { sq::op("assign"); F g; g.input(Itm(7)); g = f; V s(m); std::sort(s.begin(), s.end()); while (!s.empty()) { SQ_ASSERT(g.hasItems(), "assigned filter lost items"); Itm o(g.output()); SQ_ASSERT(o.get() == s.back(), "assigned: output is %d, expected %d", o.get(), s.back()); s.pop_back(); } SQ_ASSERT(!g.hasItems(), "assigned filter has more items"); } break;
			}
			SQ_ASSERT(f.hasItems() == !m.empty(), "hasItems() is %d with %lu items", f.hasItems(), (unsigned long)m.size());
			SQ_ASSERT(m.size() <= cap || !f.needItems(), "the filter over a full buffer wants more");
		}
		sq::outcome(m.size());
	}
	Itm::noneLeft(base);
}
SQ_SCENARIO(sort_filter, 6, 8) { filterBody<SortFilter<Itm> >(1000); }
SQ_SCENARIO(sort_filter_limited, 7, 8) { filterBody<SortFilter<Itm, std::less<Itm>, StaticAlloc<2> > >(2); }

enum E { e0 = -3, e1 = 0, e2 = 5, e3 = 6, e4 = 700 };
namespace LightSpeed { template class NamedEnum<E>; }
SQ_SCENARIO(named_enum, 1, 1) {
	static const char *names[5] = {"alpha", "beta", "be", "", "Zeta"}; static const E vals[5] = {e0, e1, e2, e3, e4};
	int pn[5], pv[5]; bool un[5] = {}, uv[5] = {};
	for (int i = 0; i < 5; i++) { pn[i] = sq::choose(5); if (un[pn[i]]) sq::skip(); un[pn[i]] = true; }
	for (int i = 0; i < 5; i++) { pv[i] = sq::choose(5); if (uv[pv[i]]) sq::skip(); uv[pv[i]] = true; }
	NamedEnumDef<E> d[5] = {{vals[pv[0]], names[pn[0]]}, {vals[pv[1]], names[pn[1]]}, {vals[pv[2]], names[pn[2]]}, {vals[pv[3]], names[pn[3]]}, {vals[pv[4]], names[pn[4]]}};
	NamedEnum<E> ne(d);
	for (int i = 0; i < 5; i++) {
		E r; SQ_ASSERT(ne.find(names[pn[i]], r) && r == vals[pv[i]], "name '%s' not found", names[pn[i]]);
		SQ_ASSERT(ne[ConstStrA(names[pn[i]])] == vals[pv[i]], "name '%s' not found", names[pn[i]]);
		SQ_ASSERT(ne[vals[pv[i]]] == ConstStrA(names[pn[i]]), "value %d not found", vals[pv[i]]);
	}
	E r; SQ_ASSERT(!ne.find("alph", r) && !ne.find("gamma", r), "an unknown name is found"); SQ_ASSERT(ne[(E)3].empty(), "an unknown value is found");
	bool th = false; try { ne[ConstStrA("x")]; } catch (UnknownEnumName &) { th = true; } SQ_ASSERT(th, "an unknown name does not throw");
	sq::outcome(pn[0] * 5 + pv[0]);
}
