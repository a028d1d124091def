// C22: sequence containers against a reference vector
#include <typeinfo>
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/deque.tcc"
#include "lightspeed/base/containers/queue.tcc"
#include "lightspeed/base/containers/stack.tcc"
#include "lightspeed/base/containers/linkedList.h"
#include "lightspeed/base/memory/staticAlloc.h"
#include "lightspeed/base/memory/smallAlloc.h"
#include "lightspeed/base/containers/optional.h"
#include "sqitem.h"
using namespace LightSpeed;
typedef std::vector<int> V;
static int nextVal;

// ---------------------------------------------------------------- AutoArray
template<typename A> void sameArr(A &a, const V &m, const char *what) {
	const A &c = a;
	SQ_ASSERT(a.length() == m.size(), "%s: length %lu, expected %s", what, (unsigned long)a.length(), showv(m).c_str());
	SQ_ASSERT(a.empty() == m.empty(), "%s: empty() is wrong", what);
	for (size_t i = 0; i < m.size(); i++) {
		SQ_ASSERT(c[i].get() == m[i] && a(i).get() == m[i] && c.data()[i].get() == m[i], "%s: item %lu is %d, expected %s", what, (unsigned long)i, c[i].get(), showv(m).c_str());
	}
	size_t i = 0;
	for (typename A::Iterator it = c.getFwIter(); it.hasItems(); i++) { SQ_ASSERT(i < m.size(), "%s: forward iteration does not end", what); int p = it.peek().get(); SQ_ASSERT(p == m[i] && it.getNext().get() == m[i], "%s: forward iteration", what); }
	SQ_ASSERT(i == m.size(), "%s: forward iteration ends at %lu", what, (unsigned long)i);
	i = 0;
	for (typename A::Iterator it = c.getBkIter(); it.hasItems(); i++) { SQ_ASSERT(i < m.size(), "%s: backward iteration does not end", what); SQ_ASSERT(it.getNext().get() == m[m.size() - 1 - i], "%s: backward iteration", what); }
	SQ_ASSERT(i == m.size(), "%s: backward iteration ends at %lu", what, (unsigned long)i);
}
static uint64_t hv(const V &m, uint64_t s) { V n; for (size_t i = 0; i < m.size(); i++) n.push_back(m[i]); return sq::hash(n.data(), n.size() * sizeof(int), s); }
template<typename A, int CAP> void arrBody() {
	nextVal = 1; size_t base = Itm::live().size();
	{
		A a; V m;
		int D = sq::depth();
		for (int i = 0; i < D; i++) {
			int k = sq::choose(21);
			size_t n = m.size();
			int v = nextVal++;
			bool thrown = false; V before = m;
			try {
			switch (k) {
			case 0: sq::op("add(%d)", v); m.push_back(v); a.add(Itm(v)); break;
			case 1: sq::op("add(%d,2)", v); m.push_back(v); m.push_back(v); a.add(Itm(v), 2); break;
			case 2: { int p = sq::choose(n + 1); sq::op("insert(%d,%d)", p, v); m.insert(m.begin() + p, v); a.insert(p, Itm(v)); } break;
			case 3: { int p = sq::choose(n + 1); sq::op("insert(%d,%d,2)", p, v); m.insert(m.begin() + p, 2, v); a.insert(p, Itm(v), 2); } break;
			case 4: { if (!n) sq::skip(); int p = sq::choose(n); sq::op("erase(%d)", p); m.erase(m.begin() + p); a.erase(p); } break;
			case 5: { if (!n) sq::skip(); int p = sq::choose(n + 1); int c = sq::choose(3); natural cnt = c == 2 ? naturalNull : c + 1; sq::op("erase(%d,%ld)", p, (long)cnt);
				size_t e = c == 2 ? n : p + c + 1 > (int)n ? n : p + c + 1; m.erase(m.begin() + p, m.begin() + e); a.erase(p, cnt); } break;
			case 6: { int c = sq::choose(3); sq::op("trunc(%d)", c + 1); size_t q = n > (size_t)c + 1 ? n - c - 1 : 0; m.resize(q); a.trunc(c + 1); } break;
			case 7: sq::op("clear"); m.clear(); a.clear(); break;
			case 8: { int c = sq::choose(3); sq::op("resize(%d)", (int)n + c - 1); if (!n && !c) sq::skip(); m.resize(n + c - 1, 0); a.resize(n + c - 1); } break;
			case 9: sq::op("resize(%d,%d)", (int)n + 2, v); m.resize(n + 2, v); a.resize(n + 2, Itm(v)); break;
			case 10: sq::op("reserve(%d)", (int)n + 3); a.reserve(n + 3); break;
			case 11: sq::op("freeExtra"); a.freeExtra(); break;
			case 12: { if (!n) sq::skip(); int p = sq::choose(n); sq::op("add(a[%d])", p); m.push_back(m[p]); a.add(a[p]); } break;
			case 13: { if (!n) sq::skip(); int p = sq::choose(n), q = sq::choose(n + 1); sq::op("insert(%d,a[%d])", q, p); int x = m[p]; m.insert(m.begin() + q, x); a.insert(q, a[p]); } break;
			case 14: { sq::op("a=a"); a = *&a; } break;
			case 15: { sq::op("copy and assign back"); A b(a); sameArr(b, m, "copy"); A c; c.add(Itm(77)); c = a; sameArr(c, m, "assigned copy"); if (n) { a(0) = Itm(v); sameArr(b, m, "copy after the original changed"); m[0] = v; } else { b.add(Itm(v)); } } break;
			case 16: { sq::op("swap"); A b; b.add(Itm(v)); V mb; mb.push_back(v); b.swap(a); m.swap(mb); sameArr(b, mb, "swapped"); } break;
			case 17: { A b; b.add(Itm(v)); b.add(Itm(v + 1000)); int p = sq::choose(n + 1); sq::op("insertArray(%d,2)", p); m.insert(m.begin() + p, v); m.insert(m.begin() + p + 1, v + 1000); a.insertArray(p, b); } break;
			case 19: { if (n > 3) sq::skip(); sq::op("append(itself)"); V c = m; m.insert(m.end(), c.begin(), c.end()); a.append(a); } break;
			case 20: { A b; int p = sq::choose(n + 1); sq::op("insertArray(%d, nothing)", p); a.insertArray(p, b); a.insert(p, Itm(v), 0); } break;
			case 18: { A b; b.add(Itm(v)); b.add(Itm(v + 1000)); sq::op("append(2)"); m.push_back(v); m.push_back(v + 1000); a.append(b); } break;
			}
			} catch (Exception &) { thrown = true; }
			if (thrown) { SQ_ASSERT(CAP && (m.size() > CAP || (k == 10 && n + 3 > CAP)), "allocator limit reported below the limit"); m = before; if (k != 0 && k != 2) sq::skip(); }
			sameArr(a, m, "array");
			// the values are fresh tokens and equal to the model's: length and capacity alone decide what can follow
			if (sq::seen((n = m.size(), n * 1000003 + a.getAllocatedSize() * 64 + i))) sq::skip();
		}
		sq::outcome(hv(m, 0));
	}
	Itm::noneLeft(base);
}
SQ_SCENARIO(autoarray, 8, 11) { arrBody<AutoArray<Itm>, 0>(); }
SQ_SCENARIO(autoarray_static, 6, 10) { arrBody<AutoArray<Itm, StaticAlloc<4> >, 4>(); }
SQ_SCENARIO(autoarray_small, 6, 9) { arrBody<AutoArray<Itm, SmallAlloc<3> >, 0>(); }

// reserved insertion: a write iterator that is filled partly closes the gap
SQ_SCENARIO(autoarray_insert_iter, 4, 5) {
	int n = sq::choose(sq::depth()), at = sq::choose(n + 1), room = sq::choose(4), fill = sq::choose(room + 1);
	size_t base = Itm::live().size();
	{
		AutoArray<Itm> a; V m;
		for (int i = 0; i < n; i++) { a.add(Itm(i)); m.push_back(i); }
		sq::op("n=%d at=%d room=%d fill=%d", n, at, room, fill);
		{ AutoArray<Itm>::WriteInsertIter w = a.getInsertIterator(at, room); for (int i = 0; i < fill; i++) { SQ_ASSERT(w.hasItems(), "insert iterator is full too early"); w.write(Itm(100 + i)); m.insert(m.begin() + at + i, 100 + i); } SQ_ASSERT(w.hasItems() == (fill < room), "hasItems of the insert iterator"); }
		sameArr(a, m, "array after partial insertion");
		sq::outcome(hv(m, 0));
	}
	Itm::noneLeft(base);
}
SQ_SCENARIO(autoarray_pod, 4, 5) { // primitive elements are moved bitwise
	AutoArray<short> a; std::vector<short> m; short nv = 1;
	for (int i = 0; i < sq::depth(); i++) {
		size_t n = m.size(); short v = nv++;
		switch (sq::choose(6)) {
		case 0: sq::op("add %d", v); a.add(v); m.push_back(v); break;
		case 1: { int p = sq::choose(n + 1), c = sq::choose(3); sq::op("insert %d x%d", p, c + 1); a.insert(p, v, c + 1); m.insert(m.begin() + p, c + 1, v); } break;
		case 2: { if (!n) sq::skip(); int p = sq::choose(n); sq::op("erase %d", p); a.erase(p); m.erase(m.begin() + p); } break;
		case 3: sq::op("resize +3"); a.resize(n + 3, v); m.resize(n + 3, v); break;
		case 4: { if (!n) sq::skip(); int p = sq::choose(n), q = sq::choose(n + 1); sq::op("insert(%d,a[%d],3)", q, p); short x = m[p]; m.insert(m.begin() + q, 3, x); a.insert(q, a[p], 3); } break;
		case 5: { sq::op("add(a[0],3)"); if (!n) sq::skip(); short x = m[0]; m.insert(m.end(), 3, x); a.add(a[0], 3); } break;
		}
		SQ_ASSERT(a.length() == m.size(), "length");
		for (size_t j = 0; j < m.size(); j++) SQ_ASSERT(a[j] == m[j], "item %lu is %d expected %d", (unsigned long)j, a[j], m[j]);
	}
	sq::outcome(sq::hash(m.data(), m.size() * 2));
}
// ---------------------------------------------------------------- Deque, Queue, Stack
// index 0 is the "back" end, the last index the "front" end
static void sameDeq(Deque<Itm> &d, const V &m) {
	const Deque<Itm> &c = d;
	SQ_ASSERT(d.length() == m.size(), "deque length %lu, expected %s", (unsigned long)d.length(), showv(m).c_str());
	SQ_ASSERT(d.empty() == m.empty(), "deque empty() is wrong");
	for (size_t i = 0; i < m.size(); i++) SQ_ASSERT(c[i].get() == m[i] && d(i).get() == m[i], "deque item %lu is %d, expected %s", (unsigned long)i, c[i].get(), showv(m).c_str());
	if (!m.empty()) SQ_ASSERT(c.getBack().get() == m[0] && d.getBack().get() == m[0] && c.getFront().get() == m.back() && d.getFront().get() == m.back(), "deque ends");
	else { bool t = false; try { d.getBack(); } catch (Exception &) { t = true; } SQ_ASSERT(t, "reading the back of an empty deque"); t = false; try { d.popFront(); } catch (Exception &) { t = true; } SQ_ASSERT(t, "pop of an empty deque"); }
	bool t = false; try { c.at(m.size()); } catch (Exception &) { t = true; } SQ_ASSERT(t, "index past the end of a deque is accepted");
}
SQ_SCENARIO(deque, 9, 12) {
	nextVal = 1; size_t base = Itm::live().size();
	{
		struct DQ : Deque<Itm> { size_t cap() { return memBlock.getSize(); } } d; V m;
		for (int i = 0; i < sq::depth(); i++) {
			size_t n = m.size(); int v = nextVal++; int k = sq::choose(12);
			switch (k) {
			case 0: sq::op("pushFront %d", v); d.pushFront(Itm(v)); m.push_back(v); break;
			case 1: sq::op("pushBack %d", v); d.pushBack(Itm(v)); m.insert(m.begin(), v); break;
			case 2: if (!n) sq::skip(); sq::op("popFront"); d.popFront(); m.pop_back(); break;
			case 3: if (!n) sq::skip(); sq::op("popBack"); d.popBack(); m.erase(m.begin()); break;
			case 4: sq::op("reserve"); d.reserve(n + 2); break;
			case 5: sq::op("clear"); d.clear(); m.clear(); break;
			case 6: if (!n) sq::skip(); sq::op("pushFront(front)"); m.push_back(m.back()); d.pushFront(d.getFront()); break;
			case 7: if (!n) sq::skip(); sq::op("pushBack(front)"); m.insert(m.begin(), m.back()); d.pushBack(d.getFront()); break;
			case 8: { if (!n) sq::skip(); int p = sq::choose(n); sq::op("set %d", p); d.set(p, Itm(v)); m[p] = v; } break;
			case 9: { sq::op("copy"); Deque<Itm> e(d); sameDeq(e, m); e.pushFront(Itm(v)); sameDeq(d, m); V me = m; me.push_back(v); sameDeq(e, me); } break;
			case 10: { sq::op("assign"); Deque<Itm> e; e.pushBack(Itm(v)); e.pushFront(Itm(v)); e = d; sameDeq(e, m); static_cast<Deque<Itm> &>(d) = *&d; V me = m; me.insert(me.begin(), v); e.pushBack(Itm(v)); sameDeq(e, me); } break;
			case 11: { sq::op("swap"); Deque<Itm> e; e.pushBack(Itm(v)); V me(1, v); e.swap(d); sameDeq(e, m); m = me; } break;
			}
			sameDeq(d, m);
			// the ring position is visible through the addresses of the items
			long pos = 0; if (!m.empty()) pos = &d.getFront() - &d.getBack();
			if (sq::seen(sq::hash(&pos, sizeof pos, m.size() * 100000 + i * 1000 + d.cap()))) sq::skip();
		}
		sq::outcome(m.size());
	}
	Itm::noneLeft(base);
}
SQ_SCENARIO(queue_stack, 8, 10) {
	nextVal = 1; size_t base = Itm::live().size();
	{
		Queue<Itm> q; Stack<Itm> s; V mq, ms;
		for (int i = 0; i < sq::depth(); i++) {
			int v = nextVal++;
			switch (sq::choose(5)) {
			case 0: sq::op("push %d", v); q.push(Itm(v)); s.push(Itm(v)); mq.push_back(v); ms.push_back(v); break;
			case 1: if (mq.empty()) sq::skip(); sq::op("pop"); q.pop(); s.pop(); mq.erase(mq.begin()); ms.pop_back(); break;
			case 2: { sq::op("copy"); Queue<Itm> q2(q); Stack<Itm> s2(s); while (!q2.empty()) q2.pop(); while (!s2.empty()) s2.pop(); } break;
			case 3: { sq::op("clear"); q.clear(); s.clear(); mq.clear(); ms.clear(); } break;
			case 4: { sq::op("swap"); Queue<Itm> q2; q2.push(Itm(v)); q2.swap(q); q2.swap(q); SQ_ASSERT(q2.length() == 1 && q2.top().get() == v, "swapped queue"); } break;
			}
			SQ_ASSERT(q.length() == mq.size() && s.length() == ms.size() && q.empty() == mq.empty() && s.empty() == ms.empty(), "length of queue or stack");
			if (!mq.empty()) { SQ_ASSERT(q.top().get() == mq[0], "queue yields %d, expected %d", q.top().get(), mq[0]); SQ_ASSERT(s.top().get() == ms.back(), "stack yields %d, expected %d", s.top().get(), ms.back()); }
		}
		V out; while (!q.empty()) { out.push_back(q.top().get()); q.pop(); } SQ_ASSERT(out == mq, "queue drained to %s, expected %s", showv(out).c_str(), showv(mq).c_str());
		out.clear(); while (!s.empty()) { out.insert(out.begin(), s.top().get()); s.pop(); } SQ_ASSERT(out == ms, "stack drained wrong");
		sq::outcome(hv(mq, 1));
	}
	Itm::noneLeft(base);
}
// ---------------------------------------------------------------- LinkedList
typedef LinkedList<Itm> LL;
static void sameList(LL &l, const V &m, const char *what) {
	V o; for (LL::Iterator i = l.getFwIter(); i.hasItems();) { o.push_back(i.getNext().get()); SQ_ASSERT(o.size() < 100, "%s: list is cyclic", what); }
	SQ_ASSERT(o == m, "%s: list is %s, expected %s", what, showv(o).c_str(), showv(m).c_str());
	SQ_ASSERT(l.size() == m.size() && l.empty() == m.empty(), "%s: size", what);
	const LL &c = l;
	if (!m.empty()) { SQ_ASSERT(l.getFirst().get() == m[0] && c.getFirst().get() == m[0], "%s: getFirst", what); SQ_ASSERT(l.getLast().get() == m.back() && c.getLast().get() == m.back(), "%s: getLast is %d/%d in %s", what, l.getLast().get(), c.getLast().get(), showv(m).c_str()); }
}
static LL::Iterator at(LL &l, int p) { LL::Iterator i = l.getFwIter(); while (p--) i.skip(); return i; }
SQ_SCENARIO(linked_list, 5, 6) {
	nextVal = 1; size_t base = Itm::live().size();
	{
		LL l; V m;
		for (int i = 0; i < sq::depth(); i++) {
			size_t n = m.size(); int v = nextVal++;
			switch (sq::choose(13)) {
			case 0: sq::op("add %d", v); l.add(Itm(v)); m.push_back(v); break;
			case 1: sq::op("insertFirst %d", v); l.insertFirst(Itm(v)); m.insert(m.begin(), v); break;
			case 2: { if (!n) sq::skip(); int p = sq::choose(n); sq::op("insertAfter %d", p); LL::Iterator r = l.insertAfter(at(l, p), Itm(v)); SQ_ASSERT(r.peek().get() == v, "iterator of the inserted item"); m.insert(m.begin() + p + 1, v); } break;
			case 3: { if (!n) sq::skip(); int p = sq::choose(n); sq::op("insertBefore %d", p); LL::Iterator r = l.insertBefore(at(l, p), Itm(v)); SQ_ASSERT(r.peek().get() == v, "iterator of the inserted item"); m.insert(m.begin() + p, v); } break;
			case 4: { if (!n) sq::skip(); int p = sq::choose(n); sq::op("erase %d", p); LL::Iterator r = l.erase(at(l, p)); m.erase(m.begin() + p); SQ_ASSERT(r.hasItems() == (p < (int)m.size()) && (!r.hasItems() || r.peek().get() == m[p]), "iterator after erase"); } break;
			case 5: sq::op("eraseFirst"); if (!n) sq::skip(); l.eraseFirst(); m.erase(m.begin()); break;
			case 6: sq::op("clear"); l.clear(); m.clear(); break;
			case 7: { sq::op("copy"); LL c(l); sameList(c, m, "copy"); c.add(Itm(v)); sameList(l, m, "original"); V mc = m; mc.push_back(v); sameList(c, mc, "copy plus one"); } break;
			case 8: { sq::op("assign"); LL c; c.add(Itm(v)); c = l; sameList(c, m, "assigned"); l = *&l; } break;
			case 9: { sq::op("swap"); LL c; c.add(Itm(v)); c.swap(l); sameList(c, m, "swapped"); m.assign(1, v); } break;
			case 10: { sq::op("add and erase the result %d", v); LL::Iterator r = l.add(Itm(v)); LL::Iterator e = l.erase(r); SQ_ASSERT(!e.hasItems(), "iterator after erasing the last item"); } break;
			case 11: { if (!n) sq::skip(); int p = sq::choose(n); sq::op("insertAfter %d and insert before the result", p); LL::Iterator r = l.insertAfter(at(l, p), Itm(v)); l.insertBefore(r, Itm(v + 1000)); m.insert(m.begin() + p + 1, v); m.insert(m.begin() + p + 1, v + 1000); } break;
			case 12: { if (!n) sq::skip(); int p = sq::choose(n); sq::op("insertBefore %d and erase the result", p); LL::Iterator r = l.insertBefore(at(l, p), Itm(v)); l.erase(r); } break;
			}
			sameList(l, m, "list");
		}
		sq::outcome(hv(m, 0));
	}
	Itm::noneLeft(base);
}

// ---------------------------------------------------------------- Optional: an array of at most one item
SQ_SCENARIO(optional_ops, 5, 6) {
	nextVal = 1; size_t base = Itm::live().size();
	{
		typedef Optional<Itm> O; O a, b(nil); V ma, mb; int D = sq::depth();
		for (int i = 0; i < D; i++) {
			int k = sq::choose(12), v = nextVal++;
			switch (k) {
			case 0: sq::op("a=%d", v); a = Itm(v); ma.assign(1, v); break;
			case 1: { sq::op("a=const %d", v); const Itm x(v); a = x; ma.assign(1, v); } break;
			case 2: sq::op("a=nil"); a = nil; ma.clear(); break;
			case 3: sq::op("a=b"); a = b; ma = mb; break;
			case 4: sq::op("b=a"); b = a; mb = ma; break;
			case 5: sq::op("a=a"); a = *&a; break;
			case 6: { if (ma.empty()) sq::skip(); sq::op("a=a.value()"); a = a.value(); } break;
			case 7: { sq::op("a=move(b)"); a = std::move(b); ma = mb; b = nil; mb.clear(); } break;
			case 8: { sq::op("copy"); O c(a); SQ_ASSERT((c == nil) == ma.empty() && (ma.empty() || c->get() == ma[0]), "copy of an optional"); } break;
			case 9: { sq::op("move construct"); O c(std::move(a)); SQ_ASSERT((c == nil) == ma.empty() && (ma.empty() || c->get() == ma[0]), "moved optional"); a = c; } break;
			case 10: { sq::op("construct from item"); Itm x(v); O c(x); SQ_ASSERT(c != nil && c.value().get() == v, "optional from an item"); c = nil; c = a; a = nil; a = c; } break;
			case 11: { if (ma.empty()) sq::skip(); sq::op("change"); a->get(); a.value() = Itm(v); ma[0] = v; } break;
			}
			const O &ca = a, &cb = b;
			SQ_ASSERT((ca == nil) == ma.empty() && (ca != nil) == !ma.empty() && (cb == nil) == mb.empty(), "optional is set when it should not be or the other way round");
			if (!ma.empty()) SQ_ASSERT(ca.value().get() == ma[0] && ca->get() == ma[0] && ((const Itm &)ca).get() == ma[0] && a.value().get() == ma[0], "optional holds %d, expected %d", ca.value().get(), ma[0]);
			else { bool th = false; try { ca.value(); } catch (Exception &) { th = true; } SQ_ASSERT(th, "value of an unset optional"); }
			if (!mb.empty()) SQ_ASSERT(cb.value().get() == mb[0], "optional holds %d, expected %d", cb.value().get(), mb[0]);
			SQ_ASSERT(Itm::live().size() == base + ma.size() + mb.size(), "number of living items");
		}
		sq::outcome(ma.size() * 2 + mb.size());
	}
	Itm::noneLeft(base);
}
