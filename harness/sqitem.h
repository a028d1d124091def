// element type whose construction and destruction is tracked by address (use in sq harnesses)
#ifndef SQITEM_H_
#define SQITEM_H_
#include "seq.h"
#include <set>
#include <string>
#include <vector>
struct Itm {
	int v; int *cell;                    // the cell makes a bitwise duplicate or a skipped destructor visible
	static std::set<const Itm *> &live() { static std::set<const Itm *> s; return s; }
	void born() { cell = new int(v); if (!live().insert(this).second) sq::fail("an element is constructed over a living element"); }
	static void ok(const Itm *x) { if (!live().count(x)) sq::fail("an element is used that was never constructed or is already destroyed"); }
	Itm() : v(0) { born(); }
	Itm(int x) : v(x) { born(); }
	Itm(const Itm &o) { ok(&o); v = *o.cell; born(); }
	Itm &operator=(const Itm &o) { ok(this); ok(&o); v = *o.cell; *cell = v; return *this; }
	~Itm() { ok(this); live().erase(this); delete cell; }
	int get() const { ok(this); if (*cell != v) sq::fail("an element is corrupt"); return v; }
	bool operator<(const Itm &o) const { return get() < o.get(); }
	bool operator==(const Itm &o) const { return get() == o.get(); }
	static void noneLeft(size_t base = 0) { if (live().size() != base) { size_t n = live().size(); sq::fail("%lu elements were never destroyed", (unsigned long)(n - base)); } }
};
inline std::string showv(const std::vector<int> &m) { std::string s = "["; for (size_t i = 0; i < m.size(); i++) { if (i) s += ","; s += std::to_string(m[i]); } return s + "]"; }
#endif
