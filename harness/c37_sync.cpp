// C37: the event log shared by threads: transactions are not mixed, a listener which synchronizes while events are
// written gets each event once and in order, a removed listener gets none
#include "lsthreads.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/constStr.h"
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/utils/eventdb.h"
#include <string.h>
using namespace LightSpeed; using namespace LightSpeed::EventDB;
struct Mem { char d[1024]; volatile size_t n; };
struct File: public IRndFileHandle, public RefCntObj { Mem &m; File(Mem &m):m(m) {}
	natural read(void *b, natural n, FileOffset o) const { size_t have = m.n; mc::NoPreempt _; size_t k = o < have ? have - o : 0; if (k > n) k = n; memcpy(b, m.d + o, k); return k; }
	natural write(const void *b, natural n, FileOffset o) { { mc::NoPreempt _; MC_ASSERT(o + n <= sizeof m.d, "a write to %lu", (unsigned long)o); memcpy(m.d + o, b, n); } if (o + n > m.n) m.n = o + n; return n; }
	void setSize(FileOffset n) { m.n = n; } FileOffset size() const { return m.n; } void flush() {} };
static const long T0 = 1400000000;
struct Listener: public UpdateAdapter { int types[24]; long times[24]; int n, cells, starts, ends; bool closed; Listener():n(0), cells(0), starts(0), ends(0), closed(false) {}
	virtual void onUpdate(FileOffset, time_t t, natural type, RecData d) { mc::event((int)type); mc::NoPreempt _; MC_ASSERT(!closed, "a removed listener got an event"); MC_ASSERT(n < 24, "too many events"); MC_ASSERT(d.length() >= 1 && (natural)d[0] == (type & 0xFF), "event %lu has other data", (unsigned long)type); types[n] = (int)type; times[n] = (long)t; n++; }
	virtual void onUpdateCell(natural, FileOffset, time_t, natural, RecData) { cells++; } virtual void onStartRescan() { starts++; n = 0; } virtual void onEndRescan() { ends++; } };
static Mem log_, cell_; static EventLog *L; static Listener *main_;
static void begin() { log_.n = cell_.n = 0; L = new EventLog; main_ = new Listener; L->addListener(main_); L->open(new File(log_), new File(cell_), true, 0); }
static void put(EventLog::Transaction &t, int type) { byte b[2] = { (byte)type, 7 }; t.sendUpdate(type, ConstBin(b, 2)); }
static void one(int type) { EventLog::Transaction t(*L, T0); put(t, type); }
static void end(int events) { MC_ASSERT(main_->n == events, "the listener got %d events instead of %d", main_->n, events); Listener r; L->rescan(r, 0, 0, 0); MC_ASSERT(r.n == events, "the replay has %d events instead of %d", r.n, events); for (int i = 0; i < events; i++) MC_ASSERT(r.types[i] == main_->types[i] && r.times[i] == T0, "event %d of the replay", i); uint64_t o = 0; for (int i = 0; i < events; i++) o = o * 31 + r.types[i]; mc::outcome(o); }
static void sameAs(const Listener &b) { MC_ASSERT(b.n == main_->n, "the synchronized listener got %d events instead of %d", b.n, main_->n); for (int i = 0; i < b.n; i++) MC_ASSERT(b.types[i] == main_->types[i] && b.times[i] == T0, "event %d of the synchronized listener is %d at %ld", i, b.types[i], b.times[i]); MC_ASSERT(b.starts == 1 && b.ends == 1, "start and end of the synchronization"); }
// ---- two writers with transactions of two events
struct Writer { int n; void operator()(int i) const { for (int k = 0; k < n; k++) { EventLog::Transaction t(*L, T0); put(t, 10 * (i + 1) + 2 * k); put(t, 10 * (i + 1) + 2 * k + 1); } } };
static void pairs(int e) { for (int i = 0; i < e; i += 2) MC_ASSERT(!(main_->types[i] & 1) && main_->types[i + 1] == main_->types[i] + 1, "events %d and %d of different transactions", main_->types[i], main_->types[i + 1]); }
MC_SCENARIO(two_writers, 4, 6) { begin(); LsPool<1> p; Writer w = {1}; p.prepare(w); p.go_all(); w(1); p.wait_all(); p.finish(); end(4); pairs(4); delete L; delete main_; }
MC_SCENARIO(three_writers, 2, 3) { begin(); LsPool<2> p; Writer w = {1}; p.prepare(w); p.go_all(); w(2); p.wait_all(); p.finish(); end(6); pairs(6); delete L; delete main_; }
// ---- a listener synchronizes while events come
struct Events { int n; void operator()(int i) const { for (int k = 0; k < n; k++) one(20 + 10 * i + k); } };
template<int N> static void sync(int before, int n) { begin(); for (int i = 0; i < before; i++) one(1 + i); Listener b; { LsPool<N> p; Events w = {n}; p.prepare(w); p.go_all(); L->addListenerAndSync(&b); p.wait_all(); p.finish(); } end(before + N * n); sameAs(b); one(99); sameAs(b); delete L; delete main_; }
MC_SCENARIO(synchronize_1, 3, 5) { sync<1>(1, 2); }
MC_SCENARIO(synchronize_empty, 3, 5) { sync<1>(0, 2); }
MC_SCENARIO(synchronize_2, 2, 3) { sync<2>(1, 1); }
// ---- a listener is removed while events come: it got a part without gaps and nothing later
template<int N> static void remove(int n) { begin(); Listener b; L->addListener(&b); { LsPool<N> p; Events w = {n}; p.prepare(w); p.go_all(); L->removeListener(&b); b.closed = true; mc::event(1000); p.wait_all(); p.finish(); } end(N * n); MC_ASSERT(b.n <= main_->n, "the removed listener has more events"); for (int i = 0; i < b.n; i++) MC_ASSERT(b.types[i] == main_->types[i], "event %d of the removed listener", i); delete L; delete main_; }
MC_SCENARIO(remove_1, 4, 6) { remove<1>(2); }
MC_SCENARIO(remove_2, 2, 3) { remove<2>(1); }
// ---- two threads allocate cells: never the same one
static natural got[4][2]; struct Alloc { void operator()(int i) const { got[i][0] = L->allocCell(); got[i][1] = L->allocCell(); } };
MC_SCENARIO(cells, 6, 12) { begin(); LsPool<1> p; Alloc a; p.prepare(a); p.go_all(); a(1); p.wait_all(); p.finish(); for (int i = 0; i < 4; i++) { MC_ASSERT(got[i / 2][i % 2] != 0, "cell 0"); for (int j = 0; j < i; j++) MC_ASSERT(got[i / 2][i % 2] != got[j / 2][j % 2], "a cell is allocated twice"); } delete L; delete main_; }
