// C25: strings, array expressions and string pools against std::string
#include <typeinfo>
#include <vector>
#include <string>
#include <algorithm>
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/stringpool.tcc"
#include "lightspeed/base/containers/stringparam.h"
#include "lightspeed/base/containers/stringKey.h"
#include "lightspeed/base/containers/convertString.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/arrayIterator.h"
#include "sqitem.h"
using namespace LightSpeed;
typedef std::string S;
typedef std::vector<S> VS;

static const natural NN = naturalNull;
static S chooseStr(int maxLen, int letters) {
	int n = sq::choose(maxLen + 1); S s;
	for (int i = 0; i < n; i++) s.push_back('a' + sq::choose(letters));
	return s;
}
// text held in an exactly sized heap block, so that reading outside is noticed
struct Exact {
	char *p; size_t n;
	explicit Exact(const S &s):p(new char[s.size()]),n(s.size()) { for (size_t i = 0; i < n; i++) p[i] = s[i]; }
	~Exact() { delete [] p; }
	ConstStrA str() const { return ConstStrA(p, n); }
	Exact(const Exact &); void operator=(const Exact &);
};
template<typename A> S textAt(const A &a) { S r; for (natural i = 0; i < a.length(); i++) r.push_back(a.at(i)); return r; }
struct Collect { S *s; size_t stop; Collect(S *s, size_t stop):s(s),stop(stop) {} bool operator()(const char &c) const { s->push_back(c); return s->size() >= stop; } };
// an array expression must show the same characters through every way of reading it
template<typename A> void same(const A &a, const S &m, const char *what, bool deep = true) {
	SQ_ASSERT(a.length() == m.size(), "%s: length %lu, expected '%s'", what, (unsigned long)a.length(), m.c_str());
	SQ_ASSERT(a.empty() == m.empty(), "%s: empty() is wrong for '%s'", what, m.c_str());
	S t = textAt(a);
	SQ_ASSERT(t == m, "%s: is '%s', expected '%s'", what, t.c_str(), m.c_str());
	if (!deep) return;
	S f; bool br = a.forEach(Collect(&f, NN));
	SQ_ASSERT(!br && f == m, "%s: forEach gives '%s', expected '%s'", what, f.c_str(), m.c_str());
	for (size_t from = 0; from <= m.size(); from++) for (size_t c = 0; from + c <= m.size(); c++) {
		S g; a.forEach(Collect(&g, NN), from, c);
		SQ_ASSERT(g == m.substr(from, c), "%s: forEach(%lu,%lu) gives '%s' of '%s'", what, (unsigned long)from, (unsigned long)c, g.c_str(), m.c_str());
		if (c > 1) { S h; bool b = a.forEach(Collect(&h, c - 1), from, c); SQ_ASSERT(b && h == m.substr(from, c - 1), "%s: forEach did not stop when told to", what); }
	}
	StringA str(a);
	SQ_ASSERT(S(str.cStr()) == m && str.length() == m.size(), "%s: as a string '%s', expected '%s'", what, str.cStr(), m.c_str());
	S it; for (typename A::Iterator i = a.getFwIter(); i.hasItems();) { SQ_ASSERT(i.getRemain() == m.size() - it.size(), "%s: getRemain", what); char p = i.peek(); it.push_back(i.getNext()); SQ_ASSERT(p == it[it.size() - 1], "%s: peek", what); }
	SQ_ASSERT(it == m, "%s: forward iteration gives '%s', expected '%s'", what, it.c_str(), m.c_str());
	it.clear(); for (typename A::Iterator i = a.getBkIter(); i.hasItems();) { SQ_ASSERT(i.getRemain() == m.size() - it.size(), "%s: getRemain backward", what); it.push_back(i.getNext()); }
	SQ_ASSERT(it == S(m.rbegin(), m.rend()), "%s: backward iteration gives '%s' of '%s'", what, it.c_str(), m.c_str());
}
static natural pos(size_t p) { return p == S::npos ? NN : p; }
static S sub(const S &s, natural p, natural c) { return p >= s.size() ? S() : s.substr(p, c); }

// searches
template<typename A, typename B> void searches(const A &a, const S &m, const B &pat, const S &pm) {
	const char *n = "search";
	SQ_ASSERT(a.find(pat) == (pm.empty() ? NN : pos(m.find(pm))), "%s: find('%s') in '%s' is %ld", n, pm.c_str(), m.c_str(), (long)a.find(pat));
	SQ_ASSERT(a.findOneOf(pat) == pos(m.find_first_of(pm)), "%s: findOneOf('%s') in '%s' is %ld", n, pm.c_str(), m.c_str(), (long)a.findOneOf(pat));
	SQ_ASSERT(a.findLastOneOf(pat) == pos(m.find_last_of(pm)), "%s: findLastOneOf('%s') in '%s' is %ld", n, pm.c_str(), m.c_str(), (long)a.findLastOneOf(pat));
	natural ex = pm.empty() ? NN : pos(m.rfind(pm));
	SQ_ASSERT(a.findLast(pat) == ex, "%s: findLast('%s') in '%s' is %ld", n, pm.c_str(), m.c_str(), (long)a.findLast(pat));
	for (size_t p = 0; p <= m.size() + 2; p++) {
		natural q = p == m.size() + 2 ? NN : p;
		natural e = pm.empty() ? NN : pos(m.find(pm, q));
		SQ_ASSERT(a.find(pat, q) == e, "%s: find('%s',%ld) in '%s' is %ld", n, pm.c_str(), (long)q, m.c_str(), (long)a.find(pat, q));
		SQ_ASSERT(a.findOneOf(pat, q) == pos(m.find_first_of(pm, q)), "%s: findOneOf('%s',%ld) in '%s' is %ld", n, pm.c_str(), (long)q, m.c_str(), (long)a.findOneOf(pat, q));
		S h = m.substr(0, q);
		SQ_ASSERT(a.findLastOneOf(pat, q) == pos(h.find_last_of(pm)), "%s: findLastOneOf('%s',%ld) in '%s' is %ld", n, pm.c_str(), (long)q, m.c_str(), (long)a.findLastOneOf(pat, q));
		e = pm.empty() ? NN : pos(h.rfind(pm));
		SQ_ASSERT(a.findLast(pat, q) == e, "%s: findLast('%s',%ld) in '%s' is %ld", n, pm.c_str(), (long)q, m.c_str(), (long)a.findLast(pat, q));
	}
}
template<typename A> void itemSearches(const A &a, const S &m, char c) {
	SQ_ASSERT(a.find(c) == pos(m.find(c)), "find('%c') in '%s' is %ld", c, m.c_str(), (long)a.find(c));
	SQ_ASSERT(a.findLast(c) == pos(m.rfind(c)), "findLast('%c') in '%s' is %ld", c, m.c_str(), (long)a.findLast(c));
	for (size_t p = 0; p <= m.size() + 2; p++) {
		natural q = p == m.size() + 2 ? NN : p;
		SQ_ASSERT(a.find(c, q) == pos(m.find(c, q)), "find('%c',%ld) in '%s' is %ld", c, (long)q, m.c_str(), (long)a.find(c, q));
		natural e = pos(m.substr(0, q).rfind(c));
		SQ_ASSERT(a.findLast(c, q) == e, "findLast('%c',%ld) in '%s' is %ld", c, (long)q, m.c_str(), (long)a.findLast(c, q));
	}
}
SQ_SCENARIO(search, 7, 8) {
	S m = chooseStr(sq::depth(), 2 + sq::thorough()), p = chooseStr(3, 2 + sq::thorough());
	sq::op("search '%s' for '%s'", m.c_str(), p.c_str());
	Exact a(m), b(p);
	searches(a.str(), m, b.str(), p);
	StringA sa(a.str()), sb(b.str());
	searches(sa, m, sb, p);
	if (p.size() == 1) { itemSearches(a.str(), m, p[0]); itemSearches(sa, m, p[0]); itemSearches(a.str(), m, 'z'); }
	sq::outcome(m + "/" + p);
}
// slices
static const natural HUGE1 = NN - 1;
SQ_SCENARIO(slice, 7, 9) {
	S m = chooseStr(sq::depth(), 2);
	Exact a(m); ConstStrA c = a.str(); natural L = m.size();
	natural vals[16]; int nv = 0; for (natural i = 0; i <= L + 1; i++) vals[nv++] = i; vals[nv++] = HUGE1; vals[nv++] = NN; vals[nv++] = NN / 2 + 1;
	natural p = vals[sq::choose(nv)], q = vals[sq::choose(nv)];
	sq::op("slice '%s' with %ld,%ld", m.c_str(), (long)p, (long)q);
	same(c.mid(p, q), sub(m, p, q), "mid");
	natural l = p > L ? L : p, r = q > L - l ? L - l : q;
	same(c.crop(p, q), m.substr(l, L - l - r), "crop");
	StringA s(c);
	same(s.mid(p, q), sub(m, p, q), "string mid");
	same(s.crop(p, q), m.substr(l, L - l - r), "string crop");
	same(ConstStrA(s.mid(p, q)), sub(m, p, q), "mid as text");
	if (q == 0) {
		same(c.head(p), m.substr(0, p), "head"); same(c.offset(p), sub(m, p, NN), "offset");
		same(c.tail(p), m.substr(L - l), "tail"); same(c.roffset(p), m.substr(0, L - l), "roffset");
		same(s.head(p), m.substr(0, p), "string head"); same(s.tail(p), m.substr(L - l), "string tail");
	}
	// a slice of a slice
	ConstStrA x = c.mid(p, q); S y = sub(m, p, q);
	same(c.mid(p, q).offset(1), sub(y, 1, NN), "slice of a slice"); same(ConstStrA(x.head(2)), y.substr(0, 2), "slice of a slice as text");
	same(c.offset(p).head(q), sub(m, p, NN).substr(0, q), "head of an offset");
	sq::outcome(S(m) + textAt(x));
}
SQ_SCENARIO(trim, 6, 8) {
	S m = chooseStr(sq::depth(), 3), set = chooseStr(2, 2);
	Exact a(m), b(set); ConstStrA c = a.str();
	int d = sq::choose(3); Direction::Type dir = d == 0 ? Direction::undefined : d == 1 ? Direction::left : Direction::right;
	size_t x = 0, y = m.size();
	if (d != 2) while (x < y && set.find(m[x]) != S::npos) x++;
	if (d != 1) while (y > x && set.find(m[y - 1]) != S::npos) y--;
	sq::op("trim '%s' of '%s' dir %d", m.c_str(), set.c_str(), d);
	same(c.trim(b.str(), dir), m.substr(x, y - x), "trim");
	if (set.size() == 1) same(c.trim(set[0], dir), m.substr(x, y - x), "trim character");
	StringA s(c); same(s.trim(b.str(), dir), m.substr(x, y - x), "string trim");
	sq::outcome(m.substr(x, y - x));
}
// split
SQ_SCENARIO(split, 10, 13) {
	S m = chooseStr(sq::depth(), 2);
	Exact a(m); ConstStrA c = a.str(); sq::op("split '%s'", m.c_str());
	VS ref; { S t; for (size_t i = 0; i < m.size(); i++) if (m[i] == 'b') { ref.push_back(t); t.clear(); } else t.push_back(m[i]); ref.push_back(t); }
	{ ConstStrA::SplitIterator it = c.split('b'); size_t i = 0;
	while (it.hasItems()) {
		SQ_ASSERT(i < ref.size(), "split gives too many parts of '%s'", m.c_str());
		S rest; for (size_t k = i; k < ref.size(); k++) { if (k > i) rest += 'b'; rest += ref[k]; }
		ConstStrA rr(it.getRest()); SQ_ASSERT(S(rr.data(), rr.length()) == rest, "getRest is wrong at part %lu of '%s'", (unsigned long)i, m.c_str());
		ConstStrA pk(it.peek()); SQ_ASSERT(S(pk.data(), pk.length()) == ref[i], "peek is wrong at part %lu of '%s'", (unsigned long)i, m.c_str());
		ConstStrA::SplitIterator copy(it);
		ConstStrA gn(it.getNext()); SQ_ASSERT(S(gn.data(), gn.length()) == ref[i], "part %lu of '%s'", (unsigned long)i, m.c_str());
		ConstStrA pc(copy.getNext()); SQ_ASSERT(S(pc.data(), pc.length()) == ref[i], "part %lu of '%s' through a copied iterator", (unsigned long)i, m.c_str());
		i++;
	}
	SQ_ASSERT(i == ref.size(), "split gives %lu parts of '%s', expected %lu", (unsigned long)i, m.c_str(), (unsigned long)ref.size());
	bool thrown = false; try { it.getNext(); } catch (IteratorNoMoreItems &) { thrown = true; } SQ_ASSERT(thrown, "reading behind the last part is not refused"); }
	// two copies used alternately
	{ ConstStrA::SplitIterator *p = new ConstStrA::SplitIterator(c.split('b')); ConstStrA::SplitIterator q(*p); delete p; size_t i = 0; while (q.hasItems()) { ConstStrA g(q.getNext()); SQ_ASSERT(i < ref.size() && S(g.data(), g.length()) == ref[i], "copy of a split iterator which outlived the original"); i++; } }
	sq::outcome(m);
}
// comparison
static CompareResult sg(int x) { return x < 0 ? cmpResultLess : x > 0 ? cmpResultGreater : cmpResultEqual; }
template<typename A, typename B> void cmpAll(const A &a, const B &b, const S &m, const S &n, const char *what) {
	int x = m.compare(n);
	SQ_ASSERT(a.compare(b) == sg(x), "%s: compare '%s' with '%s'", what, m.c_str(), n.c_str());
	SQ_ASSERT((a == b) == (x == 0) && (a != b) == (x != 0) && (a < b) == (x < 0) && (a > b) == (x > 0) && (a <= b) == (x <= 0) && (a >= b) == (x >= 0), "%s: operators on '%s' and '%s'", what, m.c_str(), n.c_str());
}
template<int N> void cmpLit(ConstStrA a, const S &m, const char (&lit)[N]) {
	int x = m.compare(lit);
	SQ_ASSERT((a == lit) == (x == 0) && (a != lit) == (x != 0) && (a < lit) == (x < 0) && (a > lit) == (x > 0) && (a <= lit) == (x <= 0) && (a >= lit) == (x >= 0), "operators on '%s' and literal \"%s\"", m.c_str(), lit);
	S ml; for (size_t i = 0; i < m.size(); i++) ml.push_back(tolower(m[i])); S ll(lit); for (size_t i = 0; i < ll.size(); i++) ll[i] = tolower(ll[i]);
	x = ml.compare(ll);
	SQ_ASSERT((a ^= lit) == (x == 0) && (a /= lit) == (x != 0) && (a << lit) == (x < 0) && (a >> lit) == (x > 0) && (a <<= lit) == (x <= 0) && (a >>= lit) == (x >= 0), "case insensitive operators on '%s' and literal \"%s\"", m.c_str(), lit);
	StringA s(a); x = m.compare(lit);
	SQ_ASSERT((s == lit) == (x == 0) && (s != lit) == (x != 0) && (s < lit) == (x < 0) && (s > lit) == (x > 0) && (s <= lit) == (x <= 0) && (s >= lit) == (x >= 0), "operators on string '%s' and literal \"%s\"", m.c_str(), lit);
}
SQ_SCENARIO(compare, 5, 6) {
	S m = chooseStr(sq::depth(), 2), n = chooseStr(sq::depth(), 2);
	// letters over both halves of the character range
	int map = sq::choose(3); if (map) { for (size_t i = 0; i < m.size(); i++) m[i] = map == 2 ? (m[i] == 'a' ? 'B' : 'a') : m[i]; for (size_t i = 0; i < n.size(); i++) n[i] = map == 2 ? (n[i] == 'a' ? 'B' : 'a') : n[i]; }
	Exact a(m), b(n); sq::op("compare '%s' '%s'", m.c_str(), n.c_str());
	StringA sa(a.str()), sb(b.str());
	cmpAll(a.str(), b.str(), m, n, "texts");
	cmpAll(sa, b.str(), m, n, "string and text"); cmpAll(sa, ConstStrA(sb), m, n, "strings");
	cmpAll(a.str().mid(0, NN), b.str(), m, n, "slice and text"); cmpAll(a.str(), b.str() + ConstStrA(), m, n, "text and sum");
	cmpAll(a.str().head(1) + a.str().offset(1), b.str(), m, n, "sum and text");
	cmpLit(a.str(), m, ""); cmpLit(a.str(), m, "a"); cmpLit(a.str(), m, "ab"); cmpLit(a.str(), m, "b"); cmpLit(a.str(), m, "abb"); cmpLit(a.str(), m, "AB"); cmpLit(a.str(), m, "ba");
	// case insensitive
	S ml(m), nl(n); for (size_t i = 0; i < ml.size(); i++) ml[i] = tolower(ml[i]); for (size_t i = 0; i < nl.size(); i++) nl[i] = tolower(nl[i]);
	SQ_ASSERT(StrCmpCI<char>()(a.str(), b.str()) == sg(ml.compare(nl)), "case insensitive comparison of '%s' with '%s'", m.c_str(), n.c_str());
	StringAI ia(a.str()); SQ_ASSERT((ia == b.str()) == (ml == nl) && (ia < b.str()) == (ml < nl), "case insensitive string '%s' against '%s'", m.c_str(), n.c_str());
	std::wstring wm(m.begin(), m.end()), wn(n.begin(), n.end());
	ConstStrW wa(wm.data(), wm.size()), wb(wn.data(), wn.size());
	SQ_ASSERT(wa.compare(wb) == sg(m.compare(n)), "wide comparison of '%s' with '%s'", m.c_str(), n.c_str());
	SQ_ASSERT(StrCmpCI<wchar_t>()(wa, wb) == sg(ml.compare(nl)), "case insensitive wide comparison of '%s' with '%s'", m.c_str(), n.c_str());
	sq::outcome(m + "/" + n);
}
// expressions: concatenation, reversal, repetition, slices of them
SQ_SCENARIO(expr, 3, 4) {
	int D = sq::depth();
	S x = chooseStr(D, 2), y = chooseStr(D, 2), z = chooseStr(2, 1);
	Exact ex(x), ey(y), ez(z); ConstStrA a = ex.str(), b = ey.str(), c = ez.str();
	S xy = x + y, all = xy + z; S rx(xy.rbegin(), xy.rend());
	sq::op("'%s'+'%s'+'%s'", x.c_str(), y.c_str(), z.c_str());
	same(a + b, xy, "a+b"); same(a + b + c, all, "a+b+c"); same(a + (b + c), all, "a+(b+c)");
	same((a + b).reverse(), rx, "reversed sum"); same(a.reverse(), S(x.rbegin(), x.rend()), "reverse");
	same(a.concat(b), xy, "concat");
	natural vals[12]; int nv = 0; for (natural i = 0; i <= all.size() + 1 && nv < 9; i++) vals[nv++] = i; vals[nv++] = HUGE1; vals[nv++] = NN;
	natural p = vals[sq::choose(nv)], q = vals[sq::choose(nv)];
	same((a + b + c).mid(p, q), sub(all, p, q), "slice of a sum");
	same((a + b).reverse().mid(p, q), sub(rx, p, q), "slice of a reversed sum");
	same(a.mid(p, q) + b, sub(x, p, q) + y, "sum of a slice and a text");
	same((a.mid(p, q) + b).mid(1, q), sub(sub(x, p, q) + y, 1, q), "slice of a sum of a slice");
	if (p == 0) {
		searches(a + b, xy, c, z); if (q == 1) searches((a + b).reverse(), rx, c, z);
		S rep; int k = q > 3 ? 3 : (int)q; for (int i = 0; i < k; i++) rep += x;
		ConstStrA cc = a; same(cc.repeat(k), rep, "repeat"); same(a.repeat(k) + b, rep + y, "sum of a repetition");
		S rep2; for (int i = 0; i < k; i++) rep2 += xy; same((a + b).repeat(k), rep2, "repeated sum");
		StringA s = a + b + c; same(s, all, "string"); StringA t = s + a + s; same(t, all + x + all, "sum with strings");
		s = s + s; same(s, all + all, "string doubled"); s = s.mid(1, 3); same(s, sub(all + all, 1, 3), "string assigned its own slice");
		AutoArray<char> arr; arr.append(a + b); arr.append(arr); same(arr, xy + xy, "array from a sum appended to itself");
	}
	sq::outcome(sub(all, p, q));
}
// iterators
SQ_SCENARIO(iterator, 5, 6) {
	S m("abcdefg"); m.resize(sq::choose(sq::depth() + 1)); Exact e(m); ConstStrA c = e.str(); long L = m.size();
	bool bk = sq::choose(2); sq::op("iterate '%s' %s", m.c_str(), bk ? "backward" : "forward");
	ConstStrA::Iterator it = bk ? c.getBkIter() : c.getFwIter(); long p = bk ? L - 1 : 0;
	for (int i = 0; i < 3; i++) {
		bool has = p >= 0 && p < L;
		SQ_ASSERT(it.hasItems() == has, "hasItems at %ld of %ld", p, L);
		SQ_ASSERT(it.getRemain() == natural(bk ? p + 1 : L - p), "getRemain %ld at %ld of %ld", (long)it.getRemain(), p, L);
		SQ_ASSERT(it.getRemain(Direction::current) == natural(bk ? p + 1 : L - p), "getRemain(current) %ld at %ld of %ld", (long)it.getRemain(Direction::current), p, L);
		if (p >= 0) SQ_ASSERT(it.tell() == (natural)p, "tell %ld at %ld", (long)it.tell(), p);
		if (has) SQ_ASSERT(it.peek() == m[p], "peek at %ld", p);
		int k = sq::choose(6); natural off = sq::choose(L + 3); if ((long)off == L + 2) off = NN;
		switch (k) {
		case 0: if (!has) { bool t = false; try { it.getNext(); } catch (IteratorNoMoreItems &) { t = true; } SQ_ASSERT(t, "reading behind the end is not refused"); return; } else { SQ_ASSERT(it.getNext() == m[p], "getNext at %ld", p); p += bk ? -1 : 1; } sq::op("getNext"); break;
		case 1: { Direction::Type d = Direction::forward; natural can = L - p; natural x = off < can ? off : can; sq::op("seek(%ld,forward)", (long)off); SQ_ASSERT(it.canSeek(d) == (p < L), "canSeek(forward) at %ld of %ld", p, L); natural r = it.seek(off, d); SQ_ASSERT(r == x, "seek(%ld,forward) at %ld of %ld returns %ld", (long)off, p, L, (long)r); p += x; } break;
		case 2: { Direction::Type d = Direction::backward; natural can = p + 1; natural x = off < can ? off : can; sq::op("seek(%ld,backward)", (long)off); SQ_ASSERT(it.canSeek(d) == (p >= 0), "canSeek(backward) at %ld of %ld", p, L); natural r = it.seek(off, d); SQ_ASSERT(r == x, "seek(%ld,backward) at %ld of %ld returns %ld", (long)off, p, L, (long)r); p -= x; } break;
		case 3: { natural x = off; if (x == NN) sq::skip(); if ((long)x > L) x = L; sq::op("seek(%ld,absolute)", (long)off); natural r = it.seek(off, Direction::absolute); SQ_ASSERT(r == x, "seek(%ld,absolute) returns %ld", (long)off, (long)r); p = x; } break;
		case 4: { natural can = bk ? p + 1 : L - p; natural x = off < can ? off : can; sq::op("seek(%ld,current)", (long)off); natural r = it.seek(off, Direction::current); SQ_ASSERT(r == x, "seek(%ld,current) at %ld of %ld returns %ld", (long)off, p, L, (long)r); p += bk ? -(long)x : (long)x; } break;
		case 5: { natural can = bk ? L - p : p + 1; natural x = off < can ? off : can; sq::op("seek(%ld,reversed)", (long)off); natural r = it.seek(off, Direction::reversed); SQ_ASSERT(r == x, "seek(%ld,reversed) at %ld of %ld returns %ld", (long)off, p, L, (long)r); p += bk ? (long)x : -(long)x; } break;
		}
	}
	sq::outcome(p);
}
// string variables as immutable values: programs over three variables
static void sameStr(const StringA &s, const S &m, const char *what) {
	same(s, m, what, false);
	SQ_ASSERT(s.cStr() != 0 && strlen(s.cStr()) == m.size() && !strcmp(s.cStr(), m.c_str()) && !strcmp(s.c_str(), m.c_str()), "%s: cStr() is '%s', expected '%s'", what, s.cStr(), m.c_str());
	ConstStrA c = s; SQ_ASSERT(c.length() == m.size() && S(c.data() ? c.data() : "", c.length()) == m, "%s: as text", what);
}
static StringA passed(StringParam<char> p, const S &m, bool keep) {
	SQ_ASSERT(p.length() == m.size() && S(p.data() ? p.data() : "", p.length()) == m, "string parameter shows other characters than '%s'", m.c_str());
	StringParam<char> q(p); StringA r = keep ? StringA(q) : StringA(p); return r;
}
struct CountAlloc: public IRuntimeAlloc {
	LIGHTSPEED_CLONEABLECLASS
	long blocks; CountAlloc():blocks(0) {}
	void *alloc(natural n) { blocks++; return malloc(n); }
	void *alloc(natural n, IRuntimeAlloc *&o) { o = this; blocks++; return malloc(n); }
	void dealloc(void *p, natural) { blocks--; free(p); }
};
SQ_SCENARIO(variables, 5, 6) {
	CountAlloc ca; IRuntimeAlloc &def = getStringDefaultAllocator();
	setStringDefaultAllocator(ca); struct Back { IRuntimeAlloc &a; ~Back() { setStringDefaultAllocator(a); } } back = {def}; (void)back;
	{
	StringA v[3]; S m[3]; bool mt[3] = {false, false, false}; int next = 0;
	int D = sq::depth();
	for (int i = 0; i < D; i++) {
		int k = sq::choose(15); int t = sq::choose(3), s = sq::choose(3); char ch = 'A' + next++;
		switch (k) {
		case 0: sq::op("v%d = v%d", t, s); v[t] = v[s]; m[t] = S(m[s]); break;
		case 1: sq::op("v%d = literal", t); if (s) sq::skip(); v[t] = StringA("xy"); m[t] = "xy"; break;
		case 2: sq::op("v%d = v%d + v%d", t, t, s); v[t] = v[t] + v[s]; m[t] = S(m[t]) + m[s]; break;
		case 3: if (m[t].empty() || s) sq::skip(); sq::op("v%d.data()[0] = %c", t, ch); v[t].data()[0] = ch; m[t][0] = ch; break;
		case 4: sq::op("v%d.createBuffer(%d)", t, s + 1); { char *b = v[t].createBuffer(s + 1); for (int j = 0; j <= s; j++) b[j] = ch; m[t].assign(s + 1, ch); } break;
		case 5: sq::op("v%d = v%d.mid(1,2)", t, s); v[t] = v[s].mid(1, 2); m[t] = sub(S(m[s]), 1, 2); break;
		case 6: sq::op("v%d = v%d.getMT()", t, s); v[t] = v[s].getMT(); m[t] = S(m[s]); break;
		case 7: sq::op("v%d.isolate", t); if (s) sq::skip(); v[t].isolate(); break;
		case 8: sq::op("v%d = v%d.copy()", t, s); v[t] = v[s].copy(); m[t] = S(m[s]); break;
		case 9: sq::op("v%d.clear", t); if (s) sq::skip(); v[t].clear(); m[t].clear(); break;
		case 10: sq::op("v%d = passed(v%d)", t, s); v[t] = passed(v[s], m[s], false); m[t] = S(m[s]); break;
		case 11: sq::op("v%d = passed(text of v%d)", t, s); v[t] = passed(ConstStrA(v[s]), m[s], true); m[t] = S(m[s]); break;
		case 12: sq::op("v%d: write iterator, %d", t, s); { StringA::WriteIterator it = v[t].createBufferIter(s); m[t].clear(); for (int j = 0; j < s; j++) { SQ_ASSERT(it.hasItems() && it.getRemain() == natural(s - j), "write iterator has no room"); it.write(ch); m[t].push_back(ch); } SQ_ASSERT(!it.hasItems() && it.getRemain() == 0, "write iterator offers more room than asked"); } break;
		case 13: sq::op("v%d = nil", t); if (s) sq::skip(); v[t] = nil; m[t].clear(); break;
		case 14: sq::op("v%d = key of v%d", t, s); { StringKey<StringA> a(v[s]); StringKey<StringA> b(a); v[t] = b.getString(); StringKey<StringA> c((ConstStrA(b))); S was = S(m[s]); SQ_ASSERT(S(c.data() ? c.data() : "", c.length()) == was, "key by reference"); m[t] = was; } break;
		}
		for (int j = 0; j < 3; j++) { char nm[8]; sprintf(nm, "v%d", j); sameStr(v[j], m[j], nm); }
		// what can follow depends on contents and on who shares a buffer
		char key[256]; int kl = 0; for (int j = 0; j < 3; j++) { S t; for (size_t x = 0; x < m[j].size(); x++) { int w = 0; for (int q = 0; q < 3; q++) if (m[q].find(m[j][x]) != S::npos) { w = q * 16 + (int)m[q].find(m[j][x]); break; } t.push_back(w + 1); } if (t.size() > 12) sq::skip(); kl += sprintf(key + kl, "%d:", (int)t.size()); memcpy(key + kl, t.data(), t.size()); kl += t.size(); key[kl++] = m[j].empty() ? 0 : 1 + (v[j].cStr() == v[0].cStr()) + 2 * (v[j].cStr() == v[1].cStr()) + 4 * (v[j].cStr() == v[2].cStr()); }
		key[kl++] = i; if (sq::seen(sq::hash(key, kl))) sq::skip();
	}
	sq::outcome(m[0] + "|" + m[1] + "|" + m[2]);
	}
	SQ_ASSERT(ca.blocks == 0, "%ld string buffers are lost", ca.blocks);
}
// pooled strings keep their characters while the pool grows
template<typename T> std::basic_string<T> conv(const S &s) { return std::basic_string<T>(s.begin(), s.end()); }
template<typename T> void poolBody(int D) {
	typedef std::basic_string<T> BS; typedef typename StringPool<T>::Str Str; typedef ConstStringT<T> C;
	StringPool<T> pool; std::vector<Str> refs; std::vector<BS> m; std::vector<natural> marks; std::vector<size_t> markRefs;
	for (int i = 0; i < D; i++) {
		int k = sq::choose(10); T ch = 'a' + i;
		switch (k) {
		case 0: { int n = sq::choose(4); if (n == 3) n = 40; sq::op("add %d", n); BS s(n, ch); refs.push_back(pool.add(C(s.data(), s.size()))); m.push_back(s); } break;
		case 1: { if (refs.empty()) sq::skip(); int w = sq::choose(refs.size()); sq::op("add ref %d", w); refs.push_back(pool.add(refs[w])); m.push_back(BS(m[w])); } break;
		case 2: { if (refs.empty()) sq::skip(); int w = sq::choose(refs.size()); sq::op("add part of ref %d", w); refs.push_back(pool.add(C(refs[w]).offset(1))); m.push_back(BS(m[w].empty() ? m[w] : m[w].substr(1))); } break;
		case 3: { int n = sq::choose(3); sq::op("add iterator %d", n); BS s(n, ch); C c(s.data(), s.size()); typename C::Iterator it = c.getFwIter(); refs.push_back(pool.add(it)); m.push_back(s); SQ_ASSERT(!it.hasItems(), "characters left in the iterator"); } break;
		case 4: { int n = sq::choose(3); sq::op("add const iterator %d", n); BS s(n, ch); C c(s.data(), s.size()); const typename C::Iterator it = c.getFwIter(); refs.push_back(pool.add(it)); m.push_back(s); } break;
		case 5: { sq::op("write two"); typename StringPool<T>::WriteIterator w = pool.getWriteIterator(); w.write(ch); w.write(ch); refs.push_back(w.finish()); m.push_back(BS(2, ch)); w.write(ch + 1); refs.push_back(w.finish()); m.push_back(BS(1, ch + 1)); } break;
		case 6: { sq::op("mark"); marks.push_back(pool.mark()); markRefs.push_back(refs.size()); } break;
		case 7: { if (marks.empty()) sq::skip(); sq::op("release"); pool.release(marks.back()); refs.resize(markRefs.back()); m.resize(markRefs.back()); marks.pop_back(); markRefs.pop_back(); } break;
		case 8: sq::op("freeExtra"); pool.freeExtra(); break;
		case 9: sq::op("clear"); pool.clear(); refs.clear(); m.clear(); marks.clear(); markRefs.clear(); break;
		}
		for (size_t j = 0; j < refs.size(); j++) {
			SQ_ASSERT(refs[j].length() == m[j].size(), "pooled string %lu has length %lu, expected %lu", (unsigned long)j, (unsigned long)refs[j].length(), (unsigned long)m[j].size());
			SQ_ASSERT(refs[j].empty() == m[j].empty(), "pooled string: empty()");
			C c(refs[j]); const T *d = refs[j].data();
			SQ_ASSERT(BS(m[j].empty() ? m[j].data() : d, m[j].size()) == m[j] && BS(m[j].empty() ? m[j].data() : c.data(), c.length()) == m[j], "pooled string %lu lost its characters", (unsigned long)j);
			Str cp(refs[j]); C cc(cp); SQ_ASSERT(cc == c, "copy of a pooled reference");
		}
		Str none; SQ_ASSERT(none.empty() && none.length() == 0, "default reference is not empty");
	}
	sq::outcome(refs.size());
}
SQ_SCENARIO(pool, 4, 5) { if (sq::choose(2)) poolBody<char>(sq::depth()); else poolBody<wchar_t>(sq::depth()); }
SQ_SCENARIO(codepage, 6, 16) {
	// long texts pass through a limited internal buffer: every alignment of the character at its end
	int k = sq::choose(4), d = sq::choose(sq::depth()); static const char *const cp[] = {"utf-8", "iso-8859-1", "utf-16le", "utf-32be"};
	int L = 4096 - 8 + d; const char *c = cp[k]; sq::op("%s, %d characters", c, L);
	std::wstring w(L, L'a'); for (int i = 0; i < 8; i++) w += k == 1 ? wchar_t(0xE9) : i % 2 ? wchar_t(0x20AC) : wchar_t(k == 3 ? 0x10FFFF : 0xE9); w += L'z';
	String s(ConstStrW(w.data(), w.size())); StringA b = s.getCP(c);
	S ex; for (size_t i = 0; i < w.size(); i++) { unsigned x = w[i]; switch (k) {
		case 0: if (x < 0x80) ex += x; else if (x < 0x800) { ex += 0xC0 | x >> 6; ex += 0x80 | (x & 63); } else { ex += 0xE0 | x >> 12; ex += 0x80 | (x >> 6 & 63); ex += 0x80 | (x & 63); } break;
		case 1: ex += x; break; case 2: ex += x & 255; ex += x >> 8; break;
		case 3: ex += x >> 24; ex += x >> 16; ex += x >> 8; ex += x; break; } }
	SQ_ASSERT(b.length() == ex.size() && S(b.data(), b.length()) == ex, "storing in %s", c);
	String r(ConstStrA(ex.data(), ex.size()), c); SQ_ASSERT(r.length() == w.size() && w == r.cStr(), "loading from %s", c);
	bool t = false; if (k == 1) { std::wstring q(w); q[d] = 0x20AC; try { String(ConstStrW(q.data(), q.size())).getCP(c); } catch (Exception &) { t = true; } SQ_ASSERT(t, "a character which does not exist in %s is accepted", c); }
	t = false; try { String(ConstStrA(ex.data(), ex.size()), "no such code"); } catch (Exception &) { t = true; } SQ_ASSERT(t, "unknown code page is accepted");
	sq::outcome(k * 100 + d);
}
// conversions between narrow and wide strings and zero terminated copies
SQ_SCENARIO(convert, 5, 7) {
	static const char *const parts[] = {"a", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"};
	static const wchar_t wparts[] = {L'a', 0xE9, 0x20AC, 0x1F600};
	int n = sq::choose(sq::depth() + 1); S u; std::wstring w;
	for (int i = 0; i < n; i++) { int k = sq::choose(4); u += parts[k]; w += wparts[k]; }
	sq::op("text of %d characters", n);
	Exact e(u); String s(e.str());
	SQ_ASSERT(s.length() == w.size() && std::wstring(s.cStr()) == w, "decoding utf-8");
	StringA back = s.getUtf8(); SQ_ASSERT(S(back.cStr()) == u && back.length() == u.size(), "encoding utf-8");
	SQ_ASSERT(s.utf8length() == u.size() && String::utf8length(ConstStrW(w.data(), w.size())) == u.size(), "utf8length");
	StringA st = String::getUtf8(ConstStrW(w.data(), w.size())); SQ_ASSERT(S(st.cStr()) == u && st.length() == u.size(), "static getUtf8");
	String fromw(ConstStrW(w.data(), w.size())); SQ_ASSERT(fromw == ConstStrW(s), "wide constructor");
	// zero terminated form of a text followed by anything (the function looks at the next character)
	for (int cut = 0; cut <= (int)u.size(); cut++) { StringA t2; const char *y = cStr(ConstStrA(u.c_str(), cut), t2); SQ_ASSERT(u.substr(0, cut) == y, "cStr of a part '%s'", y); }
	for (int cut = 0; cut <= (int)w.size(); cut++) { StringW t2; const wchar_t *y = cStr(ConstStrW(w.c_str(), cut), t2); SQ_ASSERT(w.substr(0, cut) == y, "cStr of a wide part"); }
	{ std::wstring v = w + wchar_t(0x100); StringW t2; const wchar_t *y = cStr(ConstStrW(v.c_str(), w.size()), t2); SQ_ASSERT(w == y, "cStr of a wide text followed by another character"); }
	String c1(e.str(), "utf-8"); SQ_ASSERT(c1 == ConstStrW(s), "loading with a code page"); StringA c2 = s.getCP("utf-8"); SQ_ASSERT(S(c2.cStr()) == u, "storing with a code page");
	sq::outcome(u);
}
