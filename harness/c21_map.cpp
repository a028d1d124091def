// C21: ordered containers against std::map / std::multimap / std::set
#include <typeinfo>
#include <algorithm>
#include <map>
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/base/containers/set.tcc"
#include "lightspeed/base/containers/optional.h"
#include "sqitem.h"
using namespace LightSpeed;
typedef std::vector<int> V;

// access to the tree shape
struct XN : AvlTreeNode<int> { static int b(const AvlTreeNode<int> *n) { return n->*(&XN::balance); } };
struct XS : Set<int> { AvlTreeNode<int> *root() const { return this->tree; } };
static int height(const AvlTreeNode<int> *n) {
	if (!n) return 0;
	int l = height(n->getLeft()), r = height(n->getRight());
	SQ_ASSERT(l - r <= 1 && r - l <= 1, "the tree is out of balance at %d (%d/%d levels)", n->data, l, r);
	SQ_ASSERT(XN::b(n) == r - l, "the recorded balance at %d is %d, really %d", n->data, XN::b(n), r - l);
	return 1 + (l > r ? l : r);
}
static uint64_t shape(const AvlTreeNode<int> *n) { if (!n) return 7; return sq::hash(&n->data, 4, shape(n->getLeft()) * 31 + shape(n->getRight())); }
template<typename It> V drain(It i) { V o; while (i.hasItems()) { int p = i.peek(); o.push_back(i.getNext()); SQ_ASSERT(o.back() == p, "peek and getNext differ"); SQ_ASSERT(o.size() < 1000, "iteration does not end"); } return o; }
static void checkSet(const XS &s, const std::set<int> &m, int K, bool deep) {
	SQ_ASSERT(s.size() == m.size() && s.empty() == m.empty(), "size() is %lu, expected %lu", (unsigned long)s.size(), (unsigned long)m.size());
	V f(m.begin(), m.end()), b(m.rbegin(), m.rend());
	V o = drain(s.getFwIter()); SQ_ASSERT(o == f, "forward iteration gives %s, expected %s", showv(o).c_str(), showv(f).c_str());
	o = drain(s.getBkIter()); SQ_ASSERT(o == b, "backward iteration gives %s, expected %s", showv(o).c_str(), showv(b).c_str());
	height(s.root());
	if (!deep) return;
	for (int k = -1; k <= K; k++) {
		const int *p = s.find(k); SQ_ASSERT(p ? (*p == k && m.count(k)) : !m.count(k), "find(%d)", k);
		bool found = !m.count(k);
		o = drain(s.seek(k, &found)); V e(m.lower_bound(k), m.end()); SQ_ASSERT(o == e && found == (m.count(k) != 0), "seek(%d) forward gives %s (found=%d), expected %s", k, showv(o).c_str(), found, showv(e).c_str());
		found = !m.count(k);
		o = drain(s.seek(k, &found, Direction::backward)); V u(f.begin(), f.begin() + (std::distance(m.begin(), m.upper_bound(k)))); std::reverse(u.begin(), u.end()); SQ_ASSERT(o == u && found == (m.count(k) != 0), "seek(%d) backward gives %s, expected %s", k, showv(o).c_str(), showv(u).c_str());
		// turning round in the middle
		Set<int>::Iterator it = s.seek(k); if (it.hasItems()) { int at = it.peek(); it.setDir(Direction::backward); V w(f.begin(), f.begin() + std::distance(m.begin(), m.upper_bound(at))); std::reverse(w.begin(), w.end()); o = drain(it); SQ_ASSERT(o == w, "iterator at %d turned backward gives %s, expected %s", at, showv(o).c_str(), showv(w).c_str()); }
		Set<int>::Iterator bi = s.seek(k, 0, Direction::backward); if (bi.hasItems()) { int at = bi.peek(); bi.setDir(Direction::forward); V w(m.lower_bound(at), m.end()); o = drain(bi); SQ_ASSERT(o == w, "iterator at %d turned forward gives %s, expected %s", at, showv(o).c_str(), showv(w).c_str()); }
	}
}
struct Collect { V *o; int stop; bool operator()(int x) const { o->push_back(x); return x == stop; } };
SQ_SCENARIO(set_history, 12, 16) {
	const int K = sq::thorough() ? 8 : 6;
	XS s; std::set<int> m;
	for (int i = 0; i < sq::depth(); i++) {
		int k = sq::choose(3 * K);
		bool deep = false;
		if (k < K) {
			sq::op("insert %d", k); bool ex = m.count(k) == 0; bool was = m.count(k) != 0; Set<int>::Iterator it = s.insert(k, &ex); m.insert(k);
			SQ_ASSERT(ex == was, "insert(%d) says exists=%d", k, ex);
			V o = drain(it), e(m.lower_bound(k), m.end()); SQ_ASSERT(o == e, "the iterator returned by insert(%d) runs through %s, expected %s", k, showv(o).c_str(), showv(e).c_str());
		} else if (k < 2 * K) {
			k -= K; sq::op("erase %d", k); bool r = s.erase(k); SQ_ASSERT(r == (m.erase(k) == 1), "erase(%d) returned %d", k, r);
		} else {
			k -= 2 * K; if (!m.count(k)) sq::skip();
			bool back = (i & 1); // both directions occur for every state at some step
			sq::op("erase at iterator %d%s", k, back ? " backward" : ""); Set<int>::Iterator it = s.seek(k, 0, back ? Direction::backward : Direction::forward); s.Set<int>::erase(it); m.erase(k);
			V o = drain(it); V e; if (back) { for (int x = k; x >= 0; x--) if (m.count(x)) e.push_back(x); } else e.assign(m.lower_bound(k), m.end());
			SQ_ASSERT(o == e, "the iterator after erasing %d runs through %s, expected %s", k, showv(o).c_str(), showv(e).c_str());
		}
		bool sn = sq::seen(shape(s.root()) * 64 + i);
		checkSet(s, m, K, !sn);
		if (sn) sq::skip();
	}
	sq::outcome(shape(s.root()));
}
// every way to grow a larger tree and take one or two away: ascending, descending, inside-out insertion orders of up to 40 keys
SQ_SCENARIO(set_large, 20, 40) {
	int n = 1 + sq::choose(sq::depth()), ord = sq::choose(4);
	XS s; std::set<int> m; V seq;
	for (int i = 0; i < n; i++) seq.push_back(ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i % 2 ? n / 2 + i / 2 : n / 2 - 1 - i / 2) : (i * 17) % 41);
	for (size_t i = 0; i < seq.size(); i++) { s.insert(seq[i]); m.insert(seq[i]); }
	checkSet(s, m, 45, false);
	int a = sq::choose(m.size()); std::set<int>::iterator p = m.begin(); std::advance(p, a); int va = *p; sq::op("n=%d order=%d erase %d", n, ord, va); s.erase(va); m.erase(va); checkSet(s, m, 45, true);
	if (!m.empty()) { int b = sq::choose(m.size()); p = m.begin(); std::advance(p, b); int vb = *p; sq::op("erase %d", vb); s.erase(vb); m.erase(vb); checkSet(s, m, 45, false); s.insert(va); m.insert(va); checkSet(s, m, 45, false); }
	sq::outcome(shape(s.root()));
}
// set algebra, copies, assignment, comparison on all pairs of subsets
SQ_SCENARIO(set_algebra, 4, 5) {
	int K = sq::depth(); int x = sq::choose(1 << K), y = sq::choose(1 << K);
	XS a, b; std::set<int> ma, mb;
	for (int i = 0; i < K; i++) { if (x >> i & 1) { a.insert(i); ma.insert(i); } if (y >> i & 1) { b.insert(i); mb.insert(i); } }
	sq::op("A=%x B=%x", x, y);
	std::set<int> u(ma), d(ma); u.insert(mb.begin(), mb.end()); for (int k : mb) d.erase(k);
	{ XS c; static_cast<Set<int> &>(c) = a + b; checkSet(c, u, K, true); }
	{ XS c; static_cast<Set<int> &>(c) = a - b; checkSet(c, d, K, true); }
	{ XS c(a); c += b; checkSet(c, u, K, true); checkSet(a, ma, K, true); }
	{ XS c(a); c -= b; checkSet(c, d, K, true); checkSet(a, ma, K, true); checkSet(b, mb, K, true); }
	{ XS c(a); c -= c; checkSet(c, std::set<int>(), K, true); c = a; c += c; checkSet(c, ma, K, true); }
	{ XS c(a); c = b; checkSet(c, mb, K, true); c = c; checkSet(c, mb, K, true); c.swap(a); checkSet(c, ma, K, true); checkSet(a, mb, K, true); c.swap(a); c.clear(); checkSet(c, std::set<int>(), K, true); c.insert(3); checkSet(c, std::set<int>{3}, K, true); checkSet(b, mb, K, true); }
	for (int k = 0; k < K; k++) { XS c; static_cast<Set<int> &>(c) = a + k; std::set<int> e(ma); e.insert(k); checkSet(c, e, K, false); static_cast<Set<int> &>(c) = a - k; e.erase(k); checkSet(c, e, K, false); XS c2(a); c2 += k; c2 -= k; checkSet(c2, e, K, false); }
	V va(ma.begin(), ma.end()), vb(mb.begin(), mb.end());
	SQ_ASSERT((a == b) == (va == vb) && (a != b) == (va != vb) && (a < b) == (va < vb) && (a > b) == (va > vb) && (a <= b) == (va <= vb) && (a >= b) == (va >= vb), "comparison of sets");
	Collect c; V o; c.o = &o; c.stop = -1; a.forEach(c, Direction::forward); SQ_ASSERT(o == va, "forEach forward"); o.clear(); a.forEach(c, Direction::backward); std::reverse(o.begin(), o.end()); SQ_ASSERT(o == va, "forEach backward");
	o.clear(); a.forEach(c, Direction::up); std::sort(o.begin(), o.end()); SQ_ASSERT(o == va, "forEach up"); o.clear(); a.forEach(c, Direction::down); std::sort(o.begin(), o.end()); SQ_ASSERT(o == va, "forEach down");
	if (!va.empty()) { c.stop = va[va.size() / 2]; o.clear(); bool r = a.forEach(c, Direction::forward); SQ_ASSERT(r && o.size() == va.size() / 2 + 1, "forEach goes on after the function asked to stop"); }
	sq::outcome(x * 64 + y);
}
// ---------------------------------------------------------------- Map
typedef Map<int, Itm> M;
typedef std::map<int, int> R;
static void checkMap(const M &s, const R &m, const char *w) {
	SQ_ASSERT(s.size() == m.size() && s.length() == m.size() && s.empty() == m.empty(), "%s: size %lu, expected %lu", w, (unsigned long)s.size(), (unsigned long)m.size());
	M::Iterator i = s.getFwIter(); for (R::const_iterator p = m.begin(); p != m.end(); ++p) { SQ_ASSERT(i.hasItems(), "%s: iteration ends early", w); const M::KeyValue &e = i.getNext(); SQ_ASSERT(e.key == p->first && e.value.get() == p->second, "%s: %d=%d, expected %d=%d", w, e.key, e.value.get(), p->first, p->second); } SQ_ASSERT(!i.hasItems(), "%s: iteration goes on", w);
	M::Iterator j = s.getBkIter(); for (R::const_reverse_iterator p = m.rbegin(); p != m.rend(); ++p) { SQ_ASSERT(j.hasItems(), "%s: iteration ends early", w); const M::KeyValue &e = j.getNext(); SQ_ASSERT(e.key == p->first && e.value.get() == p->second, "%s: backward %d=%d", w, e.key, e.value.get()); } SQ_ASSERT(!j.hasItems(), "%s: iteration goes on", w);
	for (int k = 0; k < 5; k++) {
		const Itm *v = s.find(k); R::const_iterator p = m.find(k); SQ_ASSERT(v ? (p != m.end() && v->get() == p->second) : p == m.end(), "%s: find(%d)", w, k);
		bool thrown = false; try { int x = s[k].get(); SQ_ASSERT(p != m.end() && x == p->second, "%s: [%d]", w, k); } catch (NotFoundException &) { thrown = true; } SQ_ASSERT(thrown == (p == m.end()), "%s: [%d] of a missing key", w, k);
	}
}
SQ_SCENARIO(map_history, 9, 14) {
	size_t base = Itm::live().size();
	{
		M s; R m; int v = 100;
		for (int i = 0; i < sq::depth(); i++) {
			int op = sq::choose(10), k = op < 7 ? sq::choose(4) : 0; v++;
			switch (op) {
			case 0: { sq::op("insert %d", k); bool ex; bool was = m.count(k); M::Iterator it = s.insert(k, Itm(v), &ex); SQ_ASSERT(ex == was, "insert exists=%d", ex); m.insert(std::make_pair(k, v)); SQ_ASSERT(it.peek().key == k && it.peek().value.get() == m[k], "iterator after insert"); } break;
			case 1: { sq::op("replace %d", k); M::Iterator it = s.replace(k, Itm(v)); m[k] = v; SQ_ASSERT(it.peek().value.get() == v, "iterator after replace"); } break;
			case 2: { sq::op("erase %d", k); bool r = s.erase(k); SQ_ASSERT(r == (m.erase(k) == 1), "erase returned %d", r); } break;
			case 3: { sq::op("(%d)=", k); s(k) = Itm(v); m[k] = v; } break;
			case 4: { sq::op("find %d and change", k); Itm *p = s.find(k); if (p) { *p = Itm(v); m[k] = v; } } break;
			case 5: { if (!m.count(k)) sq::skip(); sq::op("erase iterator %d", k); M::Iterator it = s.seek(k); s.erase(it); m.erase(k); R::iterator n = m.lower_bound(k); SQ_ASSERT(it.hasItems() == (n != m.end()) && (!it.hasItems() || it.peek().key == n->first), "iterator after erase"); } break;
			case 6: { sq::op("(%d,v)", k); Itm &r = s(k, Itm(v)); if (!m.count(k)) m[k] = v; SQ_ASSERT(r.get() == m[k], "operator()(key,value)"); } break;
			case 7: { sq::op("copy"); M c(s); checkMap(c, m, "copy"); c.insert(9, Itm(v)); c.erase(0); checkMap(s, m, "original"); M d; d.insert(7, Itm(1)); d = s; checkMap(d, m, "assigned"); d = *&d; checkMap(d, m, "self-assigned"); } break;
			case 8: { sq::op("swap"); M c; c.insert(2, Itm(v)); c.swap(s); checkMap(c, m, "swapped"); m.clear(); m[2] = v; } break;
			case 9: { sq::op("+ -"); M c; c.insert(1, Itm(v)); c.insert(4, Itm(v)); R e(m); e.insert(std::make_pair(1, v)); e.insert(std::make_pair(4, v)); checkMap(s + c, e, "sum"); R d(m); d.erase(1); d.erase(4); checkMap(s - c, d, "difference"); } break;
			}
			checkMap(s, m, "map");
			uint64_t h = i; for (M::Iterator it = s.getFwIter(); it.hasItems(); it.skip()) h = h * 1000 + it.peek().key * 10 + it.getMaxDepth();
			if (sq::seen(h)) sq::skip();  // keys with their depths determine the tree; the values are fresh tokens
		}
		sq::outcome(m.size() * 16 + (m.empty() ? 0 : m.begin()->first));
	}
	Itm::noneLeft(base);
}
// ---------------------------------------------------------------- MultiMap / MultiSet: values of one key keep their order of insertion
typedef std::vector<std::pair<int, int> > PV;
static std::string showp(const PV &p) { std::string s; for (auto &x : p) s += std::to_string(x.first) + ":" + std::to_string(x.second) + " "; return s; }
SQ_SCENARIO(multimap_history, 6, 7) {
	size_t base = Itm::live().size();
	{
		typedef MultiMap<int, Itm> MM; MM s; std::map<int, V> m; int v = 0;
		for (int i = 0; i < sq::depth(); i++) {
			int op = sq::choose(5); v++;
			if (op < 1) { int k = sq::choose(3); sq::op("insert %d:%d", k, v); MM::Iterator it = s.insert(k, Itm(v)); m[k].push_back(v); SQ_ASSERT(it.peek().key == k && it.peek().value.get() == v, "iterator after insert"); }
			else if (op == 1) { int k = sq::choose(3); sq::op("erase key %d", k); bool r = s.erase(k); SQ_ASSERT(r == (m.erase(k) == 1), "erase returned %d", r); }
			else if (op == 2) { PV all; for (auto &x : m) for (int y : x.second) all.push_back(std::make_pair(x.first, y)); if (all.empty()) sq::skip(); int n = sq::choose(all.size()); sq::op("erase item %d", n);
				MM::Iterator it = s.getFwIter(); for (int q = 0; q < n; q++) it.skip(); s.erase(it); V &w = m[all[n].first]; w.erase(std::find(w.begin(), w.end(), all[n].second)); if (w.empty()) m.erase(all[n].first);
				PV rest(all.begin() + n + 1, all.end()), o; while (it.hasItems()) { const MM::KeyValue &e = it.getNext(); o.push_back(std::make_pair(e.key, e.value.get())); } SQ_ASSERT(o == rest, "iterator after erase runs through %s, expected %s", showp(o).c_str(), showp(rest).c_str()); }
			else if (op == 3) { sq::op("copy"); MM c(s); PV a, b; for (MM::Iterator it = s.getFwIter(); it.hasItems();) { const MM::KeyValue &e = it.getNext(); a.push_back(std::make_pair(e.key, e.value.get())); } for (MM::Iterator it = c.getFwIter(); it.hasItems();) { const MM::KeyValue &e = it.getNext(); b.push_back(std::make_pair(e.key, e.value.get())); } SQ_ASSERT(a == b, "copy is %s, original %s", showp(b).c_str(), showp(a).c_str()); MM d; d.insert(1, Itm(9)); d = s; SQ_ASSERT(d.size() == s.size(), "assigned size"); }
			else { sq::op("clear"); s.clear(); m.clear(); }
			PV e, o, be; for (auto &x : m) for (int y : x.second) e.push_back(std::make_pair(x.first, y));
			for (MM::Iterator it = s.getFwIter(); it.hasItems();) { const MM::KeyValue &x = it.getNext(); o.push_back(std::make_pair(x.key, x.value.get())); SQ_ASSERT(o.size() < 50, "iteration does not end"); }
			SQ_ASSERT(o == e, "multimap is %s, expected %s", showp(o).c_str(), showp(e).c_str());
			o.clear(); for (MM::Iterator it = s.getBkIter(); it.hasItems();) { const MM::KeyValue &x = it.getNext(); o.push_back(std::make_pair(x.key, x.value.get())); }
			for (auto p = m.rbegin(); p != m.rend(); ++p) for (int y : p->second) be.push_back(std::make_pair(p->first, y));
			SQ_ASSERT(o == be, "multimap backward is %s, expected %s", showp(o).c_str(), showp(be).c_str());
			SQ_ASSERT(s.size() == e.size() && s.keyCount() == m.size() && s.empty() == m.empty(), "multimap size");
			for (int k = 0; k < 4; k++) { V f; for (MM::ListIter l = s.find(k); l.hasItems();) f.push_back(l.getNext().get()); V ef = m.count(k) ? m[k] : V(); SQ_ASSERT(f == ef, "find(%d) gives %s, expected %s", k, showv(f).c_str(), showv(ef).c_str());
				bool fd = !m.count(k); MM::Iterator it = s.seek(k, &fd); SQ_ASSERT(fd == (m.count(k) != 0), "seek found"); auto lb = m.lower_bound(k); SQ_ASSERT(it.hasItems() == (lb != m.end()) && (!it.hasItems() || it.peek().key == lb->first), "seek(%d)", k); }
		}
		sq::outcome(m.size());
	}
	Itm::noneLeft(base);
}
struct ByTens { bool operator()(int a, int b) const { return a / 10 < b / 10; } };
SQ_SCENARIO(multiset_history, 7, 8) {
	typedef MultiSet<int, ByTens> MS; MS s; std::map<int, V> m; int v = 0;
	for (int i = 0; i < sq::depth(); i++) {
		int op = sq::choose(3); v++;
		if (op == 0) { int k = sq::choose(3) * 10 + v; sq::op("insert %d", k); MS::Iterator it = s.insert(k); m[k / 10].push_back(k); SQ_ASSERT(it.peek() == k, "iterator after insert"); }
		else if (op == 1) { V all; for (auto &x : m) for (int y : x.second) all.push_back(y); if (all.empty()) sq::skip(); int n = sq::choose(all.size()); sq::op("erase item %d", n); MS::Iterator it = s.getFwIter(); for (int q = 0; q < n; q++) it.skip(); s.erase(it); V &w = m[all[n] / 10]; w.erase(std::find(w.begin(), w.end(), all[n])); if (w.empty()) m.erase(all[n] / 10);
			V o = drain(it), rest(all.begin() + n + 1, all.end()); SQ_ASSERT(o == rest, "iterator after erase runs through %s, expected %s", showv(o).c_str(), showv(rest).c_str()); }
		else { sq::op("copy"); MS c(s); V a = drain(s.getFwIter()), b = drain(c.getFwIter()); SQ_ASSERT(a == b, "copy differs"); }
		V e; for (auto &x : m) for (int y : x.second) e.push_back(y);
		V o = drain(s.getFwIter()); SQ_ASSERT(o == e, "multiset is %s, expected %s", showv(o).c_str(), showv(e).c_str());
		SQ_ASSERT(s.size() == e.size() && s.keyCount() == m.size(), "multiset size");
		for (int k = 0; k < 3; k++) { V f; for (LinkedList<int>::Iterator l = s.find(k * 10); l.hasItems();) f.push_back(l.getNext()); SQ_ASSERT(f == (m.count(k) ? m[k] : V()), "find in a multiset"); }
	}
	sq::outcome(m.size());
}

// ---------------------------------------------------------------- AvlTreeBasic: nodes owned by the caller
struct NodeLess { bool operator()(const AvlTreeNode<int> *a, const AvlTreeNode<int> *b) const { return a->data < b->data; } };
struct Mark { int *n; void operator()(AvlTreeNode<int> *) const { ++*n; } };
SQ_SCENARIO(basic_tree, 9, 14) {
	const int K = 5; AvlTreeBasic<NodeLess, int> t; std::vector<AvlTreeNode<int> *> nd; std::set<int> m;
	struct Free { std::vector<AvlTreeNode<int> *> &v; ~Free() { for (auto *p : v) delete p; } } fr = {nd};
	for (int i = 0; i < sq::depth(); i++) {
		int k = sq::choose(3 * K + 1);
		if (k == 3 * K) { int n = 0; Mark mk = {&n}; sq::op("clear"); t.clear(mk); SQ_ASSERT(n == (int)m.size(), "clear visits %d nodes of %lu", n, (unsigned long)m.size()); m.clear(); }
		else if (k < K) { sq::op("insert %d", k); AvlTreeNode<int> *x = new AvlTreeNode<int>(k); nd.push_back(x); bool ex = false; auto it = t.insert(x, &ex); SQ_ASSERT(ex == (m.count(k) != 0), "exists"); m.insert(k); for (auto p = m.find(k); p != m.end(); ++p) { SQ_ASSERT(it.hasItems(), "iterator of the inserted node ends early"); int d = it.getNext()->data; SQ_ASSERT(d == *p, "iterator of the inserted node visits %d, expected %d", d, *p); } SQ_ASSERT(!it.hasItems(), "iterator of the inserted node goes on"); }
		else if (k < 2 * K) { k -= K; sq::op("remove %d", k); AvlTreeNode<int> key(k); AvlTreeNode<int> *r = t.remove(key); SQ_ASSERT((r != 0) == (m.erase(k) == 1) && (!r || r->data == k), "remove"); }
		else { k -= 2 * K; if (!m.count(k)) sq::skip(); sq::op("remove at iterator %d", k); AvlTreeNode<int> key(k); auto it = t.seek(key, Direction::forward); AvlTreeNode<int> *r = t.remove(it); SQ_ASSERT(r && r->data == k, "remove by iterator"); m.erase(k); }
		SQ_ASSERT(t.size() == m.size() && t.empty() == m.empty(), "size() is %lu, expected %lu", (unsigned long)t.size(), (unsigned long)m.size());
		std::vector<int> o; for (auto it = t.getFwIter(); it.hasItems();) o.push_back(it.getNext()->data);
		SQ_ASSERT(o == V(m.begin(), m.end()), "iteration gives %s", showv(o).c_str());
		for (int q = 0; q < K; q++) { AvlTreeNode<int> key(q); AvlTreeNode<int> *f = t.find(key); SQ_ASSERT((f != 0) == (m.count(q) != 0), "find(%d)", q); }
		uint64_t h = i; for (auto it = t.getFwIter(); it.hasItems(); it.skip()) h = h * 1000 + it.peek()->data * 10 + it.getMaxDepth();
		if (sq::seen(h)) sq::skip();
	}
	sq::outcome(m.size());
}
