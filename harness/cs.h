// critical-section oracle shared by the lock harnesses
#ifndef CS_H_
#define CS_H_
#include "lsmc.h"
struct Cs { volatile int inside; volatile int total; Cs():inside(0),total(0){}
	void enter() { MC_ASSERT(inside == 0, "mutual exclusion violated: two threads are inside the critical section"); inside = 1; }
	void leave() { MC_ASSERT(inside == 1, "mutual exclusion violated: second thread entered the critical section"); total = total + 1; inside = 0; }
	void run() { enter(); leave(); }
};
#endif
