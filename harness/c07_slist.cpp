#include "lslife.h"
#include "lightspeed/mt/slist.h"
using namespace LightSpeed;
struct __attribute__((aligned(64))) Item { Item *next; volatile int taken; int id; Item():next(0),taken(0),id(0) {} };
typedef SList<Item> List;
struct St { List l; List l2; Item it[6]; volatile int ntaken; St():ntaken(0) { for (int i = 0; i < 6; i++) it[i].id = i; }
	void take(Item *i) { mc::NoPreempt _; MC_ASSERT(i >= it && i < it + 6, "the list returned a pointer that was never pushed"); MC_ASSERT(!i->taken, "element %d was taken twice", i->id); i->taken = 1; ntaken = ntaken + 1; }
	void put(Item *i) { i->taken = 0; }
	int drainAll() { int n = 0; while (Item *i = l.pop()) { take(i); MC_ASSERT(++n <= 6, "the list is circular"); } while (Item *i = l2.pop()) { take(i); MC_ASSERT(++n <= 6, "the list is circular"); } return n; }
	void all(int n) { drainAll(); MC_ASSERT(ntaken == n, "%d elements were pushed but only %d came out", n, ntaken); MC_ASSERT(l.top() == 0, "not empty at the end"); }
};
// program letters: digit = push item, p = pop, w = push back what was popped last, d = drain by take into a private list
struct B { St *s; const char *prog[3]; void operator()(int i) const {
	Item *got[4]; int n = 0;
	for (const char *c = prog[i]; *c; c++) {
		if (*c >= '0' && *c <= '9') s->l.push(&s->it[*c - '0']);
		else if (*c == 'p') { Item *x = s->l.pop(); mc::outcome(x ? x->id : -1); if (x) { s->take(x); got[n++] = x; } }
		else if (*c == 'w') { if (n) { Item *x = got[--n]; { mc::NoPreempt _; x->taken = 0; s->ntaken = s->ntaken - 1; } s->l.push(x); } }
		else if (*c == 'd') { List priv; priv.take(s->l); int k = 0; while (Item *x = priv.pop_st()) { s->take(x); MC_ASSERT(++k <= 6, "circular"); } }
	} } };
static void run(int npush, const char *pre, const char *a, const char *b, const char *c) {
	St s; for (; *pre; pre++) s.l.push(&s.it[*pre - '0']);
	B x = {&s, {a, b, c}};
	if (c) { LsPool<3> p; p.run(x); } else { LsPool<2> p; p.run(x); }
	s.all(npush);
}
#define RUN(name, qb, tb, np, ...) MC_SCENARIO(name, qb, tb) { run(np, __VA_ARGS__); }
RUN(push_push, 4, 6, 4, "", "01", "23", 0)
RUN(push_pop, 4, 6, 2, "", "01", "pp", 0)
RUN(pop_pop, 4, 6, 3, "012", "pp", "pp", 0)
RUN(aba, 4, 6, 3, "012", "p", "ppw", 0)
RUN(aba_deep, 3, 5, 3, "012", "pp", "ppww", 0)
RUN(aba_same, 4, 6, 2, "01", "pw", "pw", 0)
RUN(push_drain, 4, 6, 3, "0", "12", "d", 0)
RUN(drain_drain, 4, 6, 3, "01", "2d", "d", 0)
RUN(pop_drain, 4, 6, 3, "012", "pp", "d", 0)
RUN(three_push_pop, 3, 4, 3, "", "0p", "1p", "2p")
RUN(three_aba, 3, 4, 3, "012", "p", "ppw", "pw")
RUN(three_drain, 3, 4, 3, "0", "1", "2", "d")
// single threaded operations keep LIFO order
MC_SCENARIO(sequences, 0, 0) {
	St s; int m1[6], n1 = 0, m2[6], n2 = 0; int freeIt = 0;
	for (int k = 0; k < 6; k++) switch (mc::choose(8)) {
	case 0: if (freeIt < 6) { s.l.push(&s.it[freeIt]); m1[n1++] = freeIt++; } break;
	case 1: if (freeIt < 6) { s.l.push_st(&s.it[freeIt]); m1[n1++] = freeIt++; } break;
	case 2: { Item *i = s.l.pop(); MC_ASSERT((i ? i->id : -1) == (n1 ? m1[n1-1] : -1), "pop returned the wrong element"); if (n1) n1--; break; }
	case 3: { Item *i = s.l.pop_st(); MC_ASSERT((i ? i->id : -1) == (n1 ? m1[n1-1] : -1), "pop_st returned the wrong element"); if (n1) n1--; break; }
	case 4: s.l.reverse(s.l2); while (n1) m2[n2++] = m1[--n1]; break;
	case 5: s.l.reverse_st(s.l2); while (n1) m2[n2++] = m1[--n1]; break;
	case 6: s.l2.reverse_st(s.l); while (n2) m1[n1++] = m2[--n2]; break;
	case 7: { Item *t = s.l.top(); MC_ASSERT((t ? t->id : -1) == (n1 ? m1[n1-1] : -1), "top is wrong"); break; }
	}
}
