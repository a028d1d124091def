// C24: BTree: every sequence of insertions and removals against an ordered list: membership, size, ranks, iteration both
// ways, copies and assignments; elements are tracked by address
#include "lightspeed/base/containers/btree.h"
#include "sqitem.h"
#include <vector>
#include <algorithm>
using namespace LightSpeed;
typedef std::vector<int> V;
struct Peek: public BTree<Itm> { template<typename N> static uint64_t nodes(const N *n, uint64_t h) { if (!n) return h * 31 + 1; h = h * 31 + n->Size() + 7; for (int i = 0; i < n->Size(); i++) { h = sq::hash("k", 1, h * 31 + n->Item(i).get()); } return h; } };
// the rank of the last returned item, the bound of the next step
static void iterate(const BTree<Itm> &t, const V &m, int max, bool both) { { BTreeIterator<Itm> i(t); size_t k = 0; while (i.More()) { Itm *x = i.Next(); SQ_ASSERT(x && k < m.size() && x->get() == m[k], "item %zu of the iteration is %d", k, x ? x->get() : -1); SQ_ASSERT(i.CurrentRank() == (long)k, "the rank of item %zu is %ld", k, i.CurrentRank()); k++; } SQ_ASSERT(k == m.size(), "the iteration has %zu items instead of %zu", k, m.size()); SQ_ASSERT(!i.Next(), "an item behind the end"); if (!m.empty()) { for (k = m.size(); k-- > 0;) { Itm *x = i.Previous(); SQ_ASSERT(x && x->get() == m[k], "item %zu of the backward iteration is %d", k, x ? x->get() : -1); SQ_ASSERT(i.CurrentRank() == (long)k, "the backward rank of item %zu is %ld", k, i.CurrentRank()); } } SQ_ASSERT(!i.Previous(), "an item before the begin"); }
	for (int from = -1; from <= max; from++) { size_t p = std::lower_bound(m.begin(), m.end(), from) - m.begin(); BTreeIterator<Itm> i(t); i.BeginFrom(Itm(from)); BTreeIterator<Itm> j(i); for (size_t k = p; k < m.size(); k++) { SQ_ASSERT(i.More(), "no item from %d", from); Itm *x = i.Next(); SQ_ASSERT(x && x->get() == m[k], "an item from %d is %d instead of %d", from, x ? x->get() : -1, m[k]); if (!both) break; } if (p == m.size()) SQ_ASSERT(!i.More() && !i.Next(), "an item from %d behind the end", from);
		if (p < m.size()) { Itm *x = j.Next(); SQ_ASSERT(x && x->get() == m[p], "an item from %d", from); for (size_t k = p; k-- > 0;) { x = j.Previous(); SQ_ASSERT(x && x->get() == m[k], "an item before %d is %d instead of %d", from, x ? x->get() : -1, m[k]); if (!both) break; } } } }
static void turns(const BTree<Itm> &t, const V &m) { if (m.empty()) return; for (size_t a = 0; a < m.size(); a++) for (size_t back = 0; back <= a; back++) { BTreeIterator<Itm> i(t); Itm *x = 0; for (size_t k = 0; k <= a; k++) x = i.Next(); for (size_t k = 0; k < back; k++) x = i.Previous(); SQ_ASSERT(x && x->get() == m[a - back], "%zu forward and %zu back is %d", a + 1, back, x ? x->get() : -1); for (size_t k = a - back + 1; k < m.size(); k++) { x = i.Next(); SQ_ASSERT(x && x->get() == m[k], "after %zu forward and %zu back the next is %d instead of %d", a + 1, back, x ? x->get() : -1, m[k]); } } }
static void check(const BTree<Itm> &t, const V &m, int max) { SQ_ASSERT(t.Size() == (long)m.size(), "the size is %ld instead of %zu", t.Size(), m.size()); for (int k = -1; k <= max; k++) { bool in = std::binary_search(m.begin(), m.end(), k); Itm key(k); Itm *f = t.Find(key); SQ_ASSERT((f != 0) == in && (!f || f->get() == k), "Find(%d) gives %d", k, f ? f->get() : -1); long r = std::lower_bound(m.begin(), m.end(), k) - m.begin(); SQ_ASSERT(t.RankOf(key) == r, "the rank of %d is %ld instead of %ld", k, t.RankOf(key), r); }
	for (long r = -1; r <= (long)m.size(); r++) { Itm *x = t.ItemWithRank(r); if (m.empty()) SQ_ASSERT(!x, "an item of an empty tree"); else { int e = m[std::max(0L, std::min(r, (long)m.size() - 1))]; SQ_ASSERT(x && x->get() == e, "the item of rank %ld is %d instead of %d", r, x ? x->get() : -1, e); } } if (!m.empty()) SQ_ASSERT(t.Smallest()->get() == m.front() && t.Largest()->get() == m.back(), "the smallest or the largest item"); else SQ_ASSERT(!t.Smallest() && !t.Largest(), "the smallest of nothing"); }
static void add(BTree<Itm> &t, V &m, int k) { bool in = std::binary_search(m.begin(), m.end(), k); sq::op("Add(%d)", k); SQ_ASSERT(t.Add(Itm(k)) == !in, "Add(%d) is wrong", k); if (!in) m.insert(std::lower_bound(m.begin(), m.end(), k), k); }
static void del(BTree<Itm> &t, V &m, int k, bool alias) { V::iterator i = std::lower_bound(m.begin(), m.end(), k); bool in = i != m.end() && *i == k; sq::op("Remove(%d)", k); bool r = alias && in ? t.Remove(*t.Find(Itm(k))) : t.Remove(Itm(k)); SQ_ASSERT(r == in, "Remove(%d) returns %d", k, r); if (in) m.erase(i); }
static void living(const BTree<Itm> &t, const V &m) { SQ_ASSERT(Itm::live().size() == m.size(), "%zu living elements in a tree of %zu", Itm::live().size(), m.size()); }
// every sequence: keys 0..n-1
static void ops(int order, int n, int fill) { sq::setDeviations(1); { BTree<Itm> t(order); V m; for (int i = 0; i < fill; i++) { int k = (i * 7) % n; t.Add(Itm(k)); m.push_back(k); } std::sort(m.begin(), m.end()); m.erase(std::unique(m.begin(), m.end()), m.end()); int d = sq::depth(); uint64_t path = 0; for (int i = 0; i < d; i++) { check(t, m, n); living(t, m); int op = sq::choose(2 * n + 1); if (op < n) add(t, m, op); else if (op < 2 * n) del(t, m, op - n, sq::deviate(2)); else { sq::op("Clear"); t.Clear(); m.clear(); } } check(t, m, n); living(t, m); iterate(t, m, n, true); turns(t, m); sq::outcome(showv(m)); } Itm::noneLeft(); }
SQ_SCENARIO(order_2, 4, 5) { ops(2, 8, 0); }
SQ_SCENARIO(order_2_filled, 2, 3) { ops(2, 12 + sq::choose(sq::thorough() ? 4 : 2) * 4, 12 + sq::choose(3) * 4); }
SQ_SCENARIO(order_3_filled, 2, 3) { ops(3, 20, 20); }
// every order of insertion of n keys, then every order of removal of some of them
static void permute(int order, int n, int dels) { { BTree<Itm> t(order); V m, left; for (int i = 0; i < n; i++) left.push_back(i); while (!left.empty()) { int k = sq::choose((int)left.size()); add(t, m, left[k]); left.erase(left.begin() + k); } check(t, m, n); for (int i = 0; i < dels; i++) { del(t, m, m[sq::choose((int)m.size())], false); check(t, m, n); living(t, m); } iterate(t, m, n, true); sq::outcome(showv(m)); } Itm::noneLeft(); }
SQ_SCENARIO(insertion_orders, 6, 7) { permute(2, sq::depth(), 2); }
SQ_SCENARIO(removal_orders, 5, 7) { int n = sq::depth() + 2; { BTree<Itm> t(2); V m; int st = 1 + sq::choose(n - 1); while (std::__gcd(st, n) != 1) st++; for (int i = 0; i < n; i++) add(t, m, (i * st) % n); while (!m.empty()) { del(t, m, m[sq::choose((int)m.size())], false); check(t, m, n); living(t, m); } sq::outcome(sq::hash("x", 1, st)); iterate(t, m, n, true); } Itm::noneLeft(); }
// large nodes and tall trees: every stride, every order
SQ_SCENARIO(strides, 1, 2) { static const int orders[] = {2, 3, 4, 5, 8, 10, 40}; int order = orders[sq::choose(7)], n = sq::thorough() ? 211 : 67; { BTree<Itm> t(order); V m; int st = 1 + sq::choose(n - 1), rs = 1 + sq::choose(3) * 17; for (int i = 0; i < n; i++) { int k = (i * st) % n; SQ_ASSERT(t.Add(Itm(k)), "Add(%d)", k); m.push_back(k); } std::sort(m.begin(), m.end()); check(t, m, n); iterate(t, m, n, false); for (int i = 0; i < n; i++) { int k = (i * rs + st) % n; del(t, m, k, i & 1); SQ_ASSERT(t.Size() == (long)m.size(), "the size after removal of %d", k); if (i % 10 == 0) check(t, m, n); if (i == n / 2) { iterate(t, m, n, false); for (int j = 0; j < n; j++) if (j % 3 == 0) { bool in = std::binary_search(m.begin(), m.end(), j); SQ_ASSERT(t.Add(Itm(j)) == !in, "Add(%d)", j); if (!in) { m.insert(std::lower_bound(m.begin(), m.end(), j), j); } } check(t, m, n); } } sq::outcome(sq::hash(&st, sizeof st, order * 8 + rs)); } Itm::noneLeft(); }
// copies are independent; assignments, also to itself
SQ_SCENARIO(copies, 3, 4) { { BTree<Itm> *t[2] = { new BTree<Itm>(2), new BTree<Itm>(3) }; V m[2]; static const int fills[] = {0, 1, 3, 9}; for (int w = 0; w < 2; w++) { int n = fills[sq::choose(4)]; for (int i = 0; i < n; i++) { t[w]->Add(Itm(i)); m[w].push_back(i); } } int d = sq::depth(); for (int i = 0; i < d; i++) { int w = sq::choose(2); switch (sq::choose(5)) { case 0: add(*t[w], m[w], sq::choose(2) * 12 + w); break; case 1: del(*t[w], m[w], 4, false); break; case 2: sq::op("%d = %d", w, 1 - w); *t[w] = *t[1 - w]; m[w] = m[1 - w]; break; case 3: sq::op("new copy of %d", 1 - w); delete t[w]; t[w] = new BTree<Itm>(*t[1 - w]); m[w] = m[1 - w]; break; case 4: { sq::op("%d = %d", w, w); BTree<Itm> &r = *t[w]; r = *t[w]; break; } } for (int x = 0; x < 2; x++) { check(*t[x], m[x], 14); iterate(*t[x], m[x], 14, true); } SQ_ASSERT(Itm::live().size() == m[0].size() + m[1].size(), "%zu living elements", Itm::live().size()); } sq::outcome(showv(m[0]) + showv(m[1])); delete t[0]; delete t[1]; } Itm::noneLeft(); }
// an order given by a comparison object with a state
struct Mod { int n; Mod(int n = 1000):n(n) {} bool operator()(int a, int b) const { return a % n < b % n; } };
struct Desc { bool operator()(int a, int b) const { return b < a; } };
SQ_SCENARIO(other_order, 5, 6) { BTree<int, Desc> t(2); V m; int d = sq::depth(); for (int i = 0; i < d; i++) { int k = sq::choose(6); bool rem = sq::choose(2); sq::op("%s %d", rem ? "Remove" : "Add", k); V::iterator p = std::find(m.begin(), m.end(), k); SQ_ASSERT((rem ? t.Remove(k) : t.Add(k)) == ((p != m.end()) == rem), "%s(%d)", rem ? "Remove" : "Add", k); if (rem && p != m.end()) m.erase(p); if (!rem && p == m.end()) m.push_back(k); } std::sort(m.rbegin(), m.rend()); BTreeIterator<int, Desc> it(t); for (int k: m) { int *x = it.Next(); SQ_ASSERT(x && *x == k, "%d instead of %d", x ? *x : -1, k); } SQ_ASSERT(!it.More(), "more items"); sq::outcome(showv(m)); }
