// C37: the event log over files in memory: every history of events, cells, reopenings and rotations, every cut of the
// files, replay from every event, and replication over connections which end at any byte
#include <sys/syscall.h>
#include <unistd.h>
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/constStr.h"
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/exceptions/fileExceptions.h"
#include "lightspeed/utils/eventdb.h"
#include "seq.h"
#include <string.h>
#include <semaphore.h>
#include <errno.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
using namespace LightSpeed; using namespace LightSpeed::EventDB;
typedef std::string S;
static const S *fullFile = 0; static size_t room = 0;   // a file on a full disk
struct File: public IRndFileHandle, public RefCntObj { S &d; File(S &d):d(d) {}
	natural read(void *b, natural n, FileOffset o) const { size_t k = o < d.size() ? d.size() - o : 0; if (k > n) k = n; memcpy(b, d.data() + o, k); return k; }
	natural write(const void *b, natural n, FileOffset o) { SQ_ASSERT(o <= d.size() + 64, "a write to %lu of a file of %zu bytes", (unsigned long)o, d.size()); if (&d == fullFile && n > room) { if (room) { natural k = room; write(b, k, o); } room = 0; throw ErrorMessageException(THISLOCATION, "disk full"); } if (&d == fullFile) room -= n; if (d.size() < o + n) d.resize(o + n); memcpy(&d[0] + o, b, n); return n; }
	void setSize(FileOffset n) { d.resize(n); } FileOffset size() const { return d.size(); } void flush() {} };
struct Src: public IInputStream, public RefCntObj { S d; size_t at; Src(const S &d):d(d), at(0) {}
	natural read(void *b, natural n) { n = peek(b, n); at += n; return n; } natural peek(void *b, natural n) const { size_t k = d.size() - at; if (k > n) k = n; memcpy(b, d.data() + at, k); return k; } bool canRead() const { return at < d.size(); } natural dataReady() const { return d.size() - at; } };
struct Logs: public ILogDiscovery { std::vector<S> l; size_t at; PInputStream getFirstLog() { at = 0; return getNextLog(); } PInputStream getNextLog() { return at < l.size() ? PInputStream(new Src(l[at++])) : PInputStream(); } };
static ConstBin bin(const S &s) { return ConstBin((const byte *)s.data(), s.size()); }
struct Ev { int type; S data; long t; natural cell, off, before; Ev():type(0), t(0), cell(0), off(0), before(0) {} };
static size_t pad(size_t n) { return (n + 7) / 8 * 8; }
static S show(const Ev &e) { return std::to_string(e.type) + (e.cell ? "@" + std::to_string(e.cell) : S()) + ":" + std::to_string(e.data.size()) + ":" + sq::show(e.data.substr(0, 16)) + " at " + std::to_string(e.t); }
static bool same(const Ev &got, const Ev &want) { return got.type == want.type && got.t == want.t && got.cell == want.cell && (got.data.size() == want.data.size() || got.data.size() == pad(want.data.size())) && got.data.compare(0, want.data.size(), want.data) == 0; }
struct Listener: public IUpdateListener { std::vector<Ev> got; std::vector<Ev> cells; int starts, ends, released; int failIn; Listener():starts(0), ends(0), released(0), failIn(0) {}
	void add(std::vector<Ev> &to, natural cell, FileOffset o, time_t t, natural type, RecData d) { if (failIn && --failIn == 0) throw ErrorMessageException(THISLOCATION, "refused by the listener"); Ev e; e.type = (int)type; e.data = S((const char *)d.data(), d.length()); e.t = (long)t; e.cell = cell; e.off = (natural)o; to.push_back(e); }
	void onUpdate(FileOffset o, time_t t, natural type, RecData d) { add(got, 0, o, t, type, d); }
	void onUpdateCell(natural c, FileOffset o, time_t t, natural type, RecData d) { SQ_ASSERT(c != 0, "update of cell 0"); add(cells, c, o, t, type, d); }
	void onStartRescan() { starts++; got.clear(); cells.clear(); } void onEndRescan() { ends++; } void onRelease() { released++; } };
static void check(const char *who, const std::vector<Ev> &got, const std::vector<Ev> &want, size_t from = 0, size_t to = (size_t)-1) { if (to > want.size()) to = want.size(); SQ_ASSERT(got.size() == to - from, "%s got %zu events instead of %zu%s%s", who, got.size(), to - from, got.empty() ? "" : ", the last one is ", got.empty() ? "" : show(got.back()).c_str()); for (size_t i = from; i < to; i++) SQ_ASSERT(same(got[i - from], want[i]), "%s got %s as event %zu instead of %s", who, show(got[i - from]).c_str(), i, show(want[i]).c_str()); }
typedef std::map<natural, Ev> Cells;
static void checkCells(const char *who, const std::vector<Ev> &got, const Cells &want, int times = 1) { std::map<natural, int> n; for (const Ev &e: got) { Cells::const_iterator i = want.find(e.cell); SQ_ASSERT(i != want.end(), "%s got the unused cell %lu", who, (unsigned long)e.cell); SQ_ASSERT(same(e, i->second), "%s got cell %s instead of %s", who, show(e).c_str(), show(i->second).c_str()); n[e.cell]++; } SQ_ASSERT(n.size() == want.size(), "%s got %zu cells instead of %zu", who, n.size(), want.size()); for (auto &x: n) SQ_ASSERT(x.second == times, "%s got cell %lu %d times", who, (unsigned long)x.first, x.second); }
struct Hist { S log, cells; std::vector<Ev> ev, old; Cells cell; Logs logs; long now; int n; Hist():now(1400000000), n(0) {} };
static S payload(int n, size_t len) { S s(len, 0); for (size_t i = 0; i < len; i++) s[i] = (char)(n * 31 + i * 7 + 1); return s; }
struct Kind { int type; size_t len; long gap; }; static const Kind kinds[] = { {1, 0, 0}, {2, 1, 1}, {0xFFFE, 8, 0xFFFF}, {3, 13, 0x10000}, {0, 16, 0x123456}, {0xFFFF, 5, 0x1FFFF} };
static Ev event(Hist &h, int kind) { const Kind &k = kinds[kind]; Ev e; e.type = k.type; e.data = payload(++h.n, k.len); e.t = h.now += k.gap; return e; }
static void open(EventLog &l, Hist &h, bool rescan = true) { l.open(new File(h.log), new File(h.cells), rescan, &h.logs); }
static void put(EventLog &l, Hist &h, Ev e) { e.before = h.log.size() / 8; { EventLog::Transaction t(l, e.t); e.off = (natural)t.sendUpdate(e.type, bin(e.data)); } h.ev.push_back(e); SQ_ASSERT(h.log.size() % 8 == 0, "the log has %zu bytes", h.log.size()); }
static void putCell(EventLog &l, Hist &h, natural cell, const Ev &v) { Ev e = v; e.cell = cell; { EventLog::Transaction t(l, e.t); t.sendUpdate(e.type, bin(e.data), cell); } h.cell[cell] = e; }
static std::vector<Ev> all(const Hist &h) { std::vector<Ev> a = h.old; a.insert(a.end(), h.ev.begin(), h.ev.end()); return a; }
static void readBack(EventLog &l, const Hist &h) { for (const Ev &e: h.ev) for (size_t cap = 0; cap < 2; cap++) { size_t room = cap ? 64 : e.data.size() / 2; char b[65]; memset(b, '#', sizeof b); natural n = l.readRecord(e.off, b, room, e.type); size_t exp = e.data.size(); SQ_ASSERT(n == pad(exp), "readRecord of %s returns %lu", show(e).c_str(), (unsigned long)n); size_t k = std::min(room, exp); SQ_ASSERT(!memcmp(b, e.data.data(), k), "readRecord of %s reads %s", show(e).c_str(), sq::show(S(b, k)).c_str()); SQ_ASSERT(b[std::min(room, pad(exp))] == '#', "readRecord writes behind the buffer"); }
	for (const Ev &e: h.ev) { bool t = false; char b[8]; try { l.readRecord(e.off, b, 8, e.type ^ 5); } catch (const Exception &) { t = true; } SQ_ASSERT(t, "readRecord with another type succeeds"); } }
// replay of every part of the log
static void replays(EventLog &l, const Hist &h) { size_t n = h.ev.size(); for (size_t i = 0; i < n; i++) { long prev = i ? h.ev[i - 1].t : 0; for (size_t j = i; j <= n; j++) { Listener r; natural to = j < n ? h.ev[j].before : 0; if (j < n && to == h.ev[i].before) continue; natural end = (natural)l.rescan(r, h.ev[i].before, to, prev); check("the replay of a part", r.got, h.ev, i, j); checkCells("the replay of a part", r.cells, h.cell); SQ_ASSERT(end == (j < n ? h.ev[j].before : h.log.size() / 8), "the replay ends at %lu", (unsigned long)end); SQ_ASSERT(r.starts == 1 && r.ends == 1, "start and end of a replay are signalled %d and %d times", r.starts, r.ends); } } }
static void offsets(const char *who, const std::vector<Ev> &got, const Hist &h) { size_t o = got.size() - h.ev.size(); for (size_t i = 0; i < h.ev.size(); i++) SQ_ASSERT(got[o + i].off == h.ev[i].off, "%s got offset %lu of %s instead of %lu", who, (unsigned long)got[o + i].off, show(h.ev[i]).c_str(), (unsigned long)h.ev[i].off); }
struct World { Hist h; EventLog *l; Listener *a; std::vector<Listener *> more; std::vector<size_t> since; World():l(0), a(0) {} ~World() { delete l; delete a; for (Listener *x: more) delete x; }
	void fresh(bool rescan) { delete l; l = 0; if (a) SQ_ASSERT(a->released == 1, "a listener was released %d times", a->released); delete a; for (Listener *x: more) delete x; more.clear(); a = new Listener; l = new EventLog; l->addListener(a); open(*l, h, rescan); if (rescan) SQ_ASSERT(a->starts == 1 && a->ends == 1, "start and end of the replay are signalled %d and %d times", a->starts, a->ends); } };
SQ_SCENARIO(histories, 4, 5) { World w; Hist &h = w.h; w.fresh(true); int d = sq::depth(); bool full = true; size_t base = 0; long cellNo = 0; std::map<natural, natural> ids;
	for (int i = 0; i < d; i++) { uint64_t x[] = { (uint64_t)i, (uint64_t)h.now, full, h.old.size(), w.more.size(), (uint64_t)base }; if (sq::seen(sq::hash(h.cells, sq::hash(h.log, sq::hash(x, sizeof x))))) return; int op = sq::choose(12);
		switch (op) {
		case 0: case 1: case 2: case 3: case 4: case 5: { Ev e = event(h, op); sq::op("event %s", show(e).c_str()); put(*w.l, h, e); break; }
		case 6: { natural c = 1 + sq::choose(2); Ev e = event(h, 1 + sq::choose(4)); sq::op("cell %lu = %s", (unsigned long)c, show(e).c_str()); putCell(*w.l, h, c, e); break; }
		case 7: sq::op("reopen"); w.fresh(true); full = true; base = 0; break;
		case 8: sq::op("reopen without replay"); w.fresh(false); full = false; base = all(h).size(); break;
		case 9: sq::op("rotate"); if (h.log.empty()) return; w.l->close(); h.logs.l.push_back(h.log); h.old = all(h); h.ev.clear(); h.log.clear(); open(*w.l, h, false); break;
		case 10: { sq::op("add and synchronize a listener"); Listener *b = new Listener; w.more.push_back(b); w.l->addListenerAndSync(b); check("a synchronized listener", b->got, h.ev); checkCells("a synchronized listener", b->cells, h.cell); SQ_ASSERT(b->starts == 1 && b->ends == 1, "start and end of the synchronization are signalled %d and %d times", b->starts, b->ends); if (w.more.size() > 1) return; w.l->removeListener(b); { Ev e = event(h, 1); put(*w.l, h, e); } SQ_ASSERT(b->got.size() == h.ev.size() - 1, "a removed listener got an event"); w.l->addListenerAndSync(b); break; }
		case 11: { sq::op("transaction of two events"); Ev e = event(h, 3), f = event(h, 0); f.t = e.t; h.now = e.t; e.before = h.log.size() / 8; { EventLog::Transaction t(*w.l, e.t); e.off = (natural)t.sendUpdate(e.type, bin(e.data)); f.before = h.log.size() / 8; f.off = (natural)t.sendUpdate(f.type, bin(f.data)); } h.ev.push_back(e); h.ev.push_back(f); break; }
		}
		std::vector<Ev> want = all(h); check("the listener", w.a->got, want, base); if (!full) continue; offsets("the listener", w.a->got, h); if (w.a->starts) { std::map<natural, Ev> last; for (const Ev &e: w.a->cells) last[e.cell] = e; for (auto &c: h.cell) SQ_ASSERT(same(last[c.first], c.second), "the listener got cell %s instead of %s", show(last[c.first]).c_str(), show(c.second).c_str()); } for (Listener *b: w.more) if (b->got.size() != h.ev.size() && h.old.empty()) sq::fail("a synchronized listener got %zu events instead of %zu", b->got.size(), h.ev.size()); }
	readBack(*w.l, h); replays(*w.l, h); w.fresh(true); check("a new replay", w.a->got, all(h)); offsets("a new replay", w.a->got, h); checkCells("a new replay", w.a->cells, h.cell); w.l->rescan(); check("another replay", w.a->got, all(h)); checkCells("another replay", w.a->cells, h.cell); sq::outcome(h.log + h.cells); }
// a crash leaves a prefix of the log: the events of complete records, and a place where the log can be cut and continued
SQ_SCENARIO(cuts, 3, 4) { World w; Hist &h = w.h; w.fresh(true); int d = sq::depth(); for (int i = 0; i < d; i++) { int k = sq::choose(8); if (k < 6) { Ev e = event(h, k); sq::op("event %s", show(e).c_str()); put(*w.l, h, e); } else if (k == 6) { sq::op("reopen"); w.fresh(true); } else { if (h.log.empty()) sq::skip(); sq::op("rotate"); w.l->close(); h.logs.l.push_back(h.log); h.old = all(h); h.ev.clear(); h.log.clear(); open(*w.l, h, false); } }
	S log = h.log; std::vector<Ev> ev = h.ev; for (size_t cut = 0; cut <= log.size(); cut++) { sq::op("cut the log of %zu bytes after %zu", log.size(), cut); h.log = log.substr(0, cut); h.ev.clear(); for (size_t i = 0; i < ev.size() && (i + 1 < ev.size() ? ev[i + 1].before * 8 : log.size()) <= cut; i++) h.ev.push_back(ev[i]); std::vector<Ev> want = all(h); { Listener r; EventLog l; l.addListener(&r); size_t at = 0; bool bad = false; try { open(l, h); } catch (const RescanErrorException &e) { bad = true; at = (size_t)e.getArg1(); } check("the replay of a cut log", r.got, want); if (bad) { SQ_ASSERT(at < cut && at % 8 == 0, "the error is at %zu", at); h.log.resize(at); sq::op("continue from %zu", at); } else SQ_ASSERT(cut % 8 == 0, "a log cut inside a record is accepted"); }
		{ Listener r; EventLog l; l.addListener(&r); open(l, h); check("the replay of the repaired log", r.got, want); Ev e; e.type = 9; e.data = "continue"; e.t = h.now + 7; put(l, h, e); check("the listener of the repaired log", r.got, all(h)); } { Listener r; EventLog l; l.addListener(&r); open(l, h); check("the replay of the continued log", r.got, all(h)); } } sq::outcome(log); }
// the same for cells: values once written, or an error
SQ_SCENARIO(cell_cuts, 4, 5) { World w; Hist &h = w.h; w.fresh(true); int d = sq::depth(); std::map<natural, std::vector<Ev> > ever; for (int i = 0; i < d; i++) { natural c = 1 + sq::choose(2); int k = sq::choose(4); Ev e = event(h, k); sq::op("cell %lu = %s", (unsigned long)c, show(e).c_str()); putCell(*w.l, h, c, e); ever[c].push_back(h.cell[c]); { Listener r; EventLog l; l.addListener(&r); open(l, h); checkCells("the replay", r.cells, h.cell); } uint64_t x[] = { (uint64_t)i, (uint64_t)h.now }; if (sq::seen(sq::hash(h.cells, sq::hash(x, sizeof x)))) return; }
	S cells = h.cells; for (size_t cut = 0; cut <= cells.size(); cut++) { h.cells = cells.substr(0, cut); Listener r; EventLog l; l.addListener(&r); sq::op("cut the cells of %zu bytes after %zu", cells.size(), cut); try { open(l, h); } catch (const Exception &) { SQ_ASSERT(cut < cells.size(), "complete cells were refused"); sq::op("refused"); continue; } std::set<natural> once; for (const Ev &e: r.cells) { bool ok = false; for (const Ev &x: ever[e.cell]) ok = ok || same(e, x); SQ_ASSERT(ok, "cell %s was never written", show(e).c_str()); SQ_ASSERT(once.insert(e.cell).second, "cell %lu twice", (unsigned long)e.cell); } } sq::outcome(cells); }
struct Wire: public IReplicationOutput { S d; void write(const void *p, natural n) throw() { d.append((const char *)p, n); } };
struct End: public IReplicationInput { Wire &p; size_t at, cut; End(Wire &p):p(p), at(0), cut((size_t)-1) {} bool read(void *b, natural n) throw() { size_t lim = std::min(cut, p.d.size()); if (at + n > lim) return false; memcpy(b, p.d.data() + at, n); at += n; return true; } bool more() const { return at < std::min(cut, p.d.size()); } };
struct Slave { Hist h; EventLog l; Listener a; Wire *pipe; End *end; ReplicationListener *r; Slave():pipe(0), end(0), r(0) { l.addListener(&a); open(l, h); } };
static void contents(EventLog &l, const Hist &h, const std::vector<Ev> &want, const Cells &cells, const char *who, bool times) { Listener x; l.rescan(x, 0, 0, 0); std::vector<Ev> w = want; check(who, x.got, w); checkCells(who, x.cells, cells); (void)h; (void)times; }
static void replicate(bool zeroBase) { World w; Hist &h = w.h; w.fresh(true); Slave *s = new Slave; std::vector<Wire *> pipes; std::vector<End *> ends; std::vector<ReplicationListener *> rl; int d = sq::depth(); sq::setDeviations(1); long base = 0; size_t cellSeen = 0;
	auto drop = [&] { if (s->r) { w.l->removeListener(s->r); delete s->r; delete s->end; delete s->pipe; s->r = 0; s->end = 0; s->pipe = 0; } };
	auto link = [&] { drop(); EventLog::WriteState2 ws = s->l.initReplication(); s->pipe = new Wire; s->end = new End(*s->pipe); s->r = new ReplicationListener(*s->pipe); base = zeroBase ? (long)ws.lastTimestamp : 0; s->r->bind(*w.l, ws.ofs, zeroBase ? 0 : ws.lastTimestamp); };
	auto pump = [&] { while (s->r && s->end->more()) { try { if (!s->l.readReplicationData(*s->end, base)) { sq::op("connection lost"); link(); } } catch (const Exception &e) { SQ_ASSERT(s->a.failIn == 0 && sq::depth(), "replication fails"); sq::op("refused by the slave's listener, connect again"); link(); } } };
	for (int i = 0; i < d; i++) { int op = sq::choose(zeroBase ? 7 : 8); switch (op) {
		case 0: case 1: case 2: { static const int ks[] = {1, 3, 4}; Ev e = event(h, ks[op]); sq::op("event %s", show(e).c_str()); put(*w.l, h, e); break; }
		case 3: sq::op("connect"); if (s->r) sq::skip(); link(); break;
		case 4: sq::op("disconnect"); if (!s->r) sq::skip(); drop(); break;
		case 5: { sq::op("the slave receives"); if (!s->r || !s->end->more()) sq::skip(); int k = sq::deviate(5); if (k > 2) { sq::op("the disk of the slave is full after some bytes"); fullFile = k == 3 ? &s->h.log : &s->h.cells; static const size_t rs[] = {0, 3, 8, 13, 17, 26}; room = rs[sq::choose(6)]; } if (k == 1) { s->end->cut = s->end->at + sq::choose((int)(s->pipe->d.size() - s->end->at)); sq::op("the connection ends after %zu bytes", s->end->cut - s->end->at); } if (k == 2) { s->a.failIn = 1; sq::op("the listener of the slave fails"); } bool ok = true; while (ok && s->end->more()) { try { ok = s->l.readReplicationData(*s->end, base); } catch (const Exception &e) { SQ_ASSERT(k >= 2, "the replication fails"); ok = false; } } fullFile = 0; if (k) { sq::op("connect again"); link(); } break; }
		case 6: { sq::op("restart the slave"); drop(); Slave *n = new Slave; n->h = s->h; delete s; s = n; open(s->l, s->h); break; }
		case 7: { natural c = 1 + sq::choose(2); Ev e = event(h, 1 + sq::choose(3)); sq::op("cell %lu = %s", (unsigned long)c, show(e).c_str()); putCell(*w.l, h, c, e); break; } }
		{ Listener x; s->l.rescan(x, 0, 0, 0); SQ_ASSERT(x.got.size() <= h.ev.size(), "the slave has %zu events, the master %zu", x.got.size(), h.ev.size()); check("the slave", x.got, h.ev, 0, x.got.size()); } if (s->l.isSlave()) { bool t = false; try { EventLog::Transaction tr(s->l); } catch (const Exception &) { t = true; } SQ_ASSERT(t, "a slave can be written"); } }
	link(); pump(); contents(s->l, s->h, h.ev, h.cell, "the slave", true); std::vector<Ev> g = s->a.got; Listener full; { EventLog again; again.addListener(&full); open(again, s->h); } check("the slave's log", full.got, h.ev); checkCells("the slave's log", full.cells, h.cell); check("the slave's listener", s->a.got, h.ev); SQ_ASSERT(s->h.log.size() == h.log.size(), "the log of the slave has %zu bytes instead of %zu", s->h.log.size(), h.log.size()); EventLog::WriteState2 ws = s->l.initReplication(); SQ_ASSERT((long)ws.lastTimestamp == (h.ev.empty() ? 0 : h.ev.back().t), "time of the slave"); s->l.stopReplication(); Ev e = event(h, 3); h.log = s->h.log; put(s->l, s->h, e); Listener last; { EventLog again; again.addListener(&last); open(again, s->h); } std::vector<Ev> want = h.ev; want.push_back(e); check("the slave which became the master", last.got, want); drop(); sq::outcome(s->h.log + s->h.cells); delete s; }
SQ_SCENARIO(replication, 4, 5) { fullFile = 0; replicate(false); }
SQ_SCENARIO(replication_by_offsets, 5, 6) { fullFile = 0; replicate(true); }
// sizes of records and typed access to them, live and replayed
struct Fix12 { int a, b, c; }; struct Fix8 { long a; }; struct Fix20 { int v[5]; }; struct Str { int v; char text[1]; }; struct Arr { int n; short items[1]; };
struct Typed: public UpdateAdapter { int step, n; Typed():step(0), n(0) {} static Fix12 f12() { Fix12 f = {1, 2, 3}; return f; }
	virtual void onUpdate(FileOffset, time_t, natural type, RecData d) { n++; switch (type) {
		case 1: { const Fix12 &f = d.fixed(); SQ_ASSERT(f.a == 1 && f.b == 2 && f.c == 3, "a record of 12 bytes"); break; }
		case 2: { const Fix8 &f = d.fixed(); SQ_ASSERT(f.a == 77, "a record of 8 bytes"); bool t = false; try { const Fix12 &g = d.fixed(); (void)g; } catch (const Exception &) { t = true; } SQ_ASSERT(t, "8 bytes are read as 12"); break; }
		case 3: { const Fix20 &f = d.fixed(); SQ_ASSERT(f.v[4] == 5, "a record of 20 bytes"); bool t = false; try { const Fix8 &g = d.fixed(); (void)g; } catch (const Exception &) { t = true; } SQ_ASSERT(t, "20 bytes are read as 8"); break; }
		case 4: { const Str &s = d.dynamic(); S want = S("abcdefghijklmno").substr(0, s.v); SQ_ASSERT(want == s.text, "the string is %s", s.text); break; }
		case 5: { const Arr &s = d.dynamic(); ConstStringT<short> x = d.dynamic().extractArray(s.items); SQ_ASSERT((int)x.length() >= s.n && (int)x.length() < s.n + 4, "the array has %lu items instead of %d", (unsigned long)x.length(), s.n); for (int i = 0; i < s.n; i++) SQ_ASSERT(x[i] == 100 + i, "item %d", i); break; }
		case 6: { const Str &s = d.dynamic(); const char *p = s.text; int k = 0; while (p) { SQ_ASSERT(S(p) == S(k + 1, (char)('p' + k)), "string %d is %s", k, p); p = EventLog::getNextStr(p); k++; } SQ_ASSERT(k == s.v, "%d strings instead of %d", k, s.v); break; } } } };
SQ_SCENARIO(typed_records, 3, 4) { Hist h; int d = sq::depth(); { Typed t; EventLog l; l.addListener(&t); open(l, h); for (int i = 0; i < d; i++) { int k = 1 + sq::choose(6); EventLog::Transaction tr(l, h.now); sq::op("record %d", k); switch (k) {
		case 1: tr.sendUpdateT(1, Typed::f12(), sq::choose(2)); break; case 2: { Fix8 f = {77}; tr.sendUpdateT(2, f, sq::choose(2)); break; } case 3: { Fix20 f = {{1, 2, 3, 4, 5}}; tr.sendUpdateT(3, f); break; }
		case 4: { Str s; s.v = sq::choose(sq::thorough() ? 16 : 8); s.text[0] = 0; tr.sendUpdateStr(4, s, &s.text, ConstStrA("abcdefghijklmno").head(s.v)); break; }
		case 5: { Arr s; s.n = sq::choose(6); short it[6]; for (int j = 0; j < 6; j++) it[j] = (short)(100 + j); tr.sendUpdateArr(5, s, &s.items, ConstStringT<short>(it, s.n)); break; }
		case 6: { Str s; s.v = 1 + sq::choose(3); S m; for (int j = 0; j < s.v; j++) m += S(j + 1, (char)('p' + j)) + S(1, 0); tr.sendUpdateStr(6, s, &s.text, ConstStrA(m.data(), m.size())); break; } } SQ_ASSERT(t.n == i + 1, "the listener got %d events", t.n); } }
	Typed t; EventLog l; l.addListener(&t); open(l, h); SQ_ASSERT(t.n > 0 && t.n <= d, "the replay has %d events", t.n); sq::outcome(h.log); }
static const size_t lens[] = {0, 1, 7, 8, 9, 1023, 1024, 1025, 4095, 4096, 4097, 65528, 65529, 65535, 65536, 65537, 131072, 524273, 524280};
SQ_SCENARIO(record_sizes, 1, 2) { World w; Hist &h = w.h; w.fresh(true); sq::setDeviations(0); Slave s; EventLog::WriteState2 ws = s.l.initReplication(); Wire p; End e(p); ReplicationListener r(p); r.bind(*w.l, ws.ofs, ws.lastTimestamp); int d = sq::depth(); natural cell = sq::choose(2); for (int i = 0; i < d; i++) { Ev v = event(h, 2); v.data = payload(i, lens[sq::choose(sizeof lens / sizeof *lens)]); sq::op("%s of %zu bytes", cell ? "cell" : "event", v.data.size()); if (cell) putCell(*w.l, h, 1, v); else put(*w.l, h, v); while (e.more()) SQ_ASSERT(s.l.readReplicationData(e), "the replication ends"); } w.l->removeListener(&r);
	w.fresh(true); check("the replay", w.a->got, h.ev); checkCells("the replay", w.a->cells, h.cell); Listener x; { EventLog l; l.addListener(&x); open(l, s.h); } check("the slave", x.got, h.ev); checkCells("the slave", x.cells, h.cell); sq::outcome(std::to_string(h.log.size())); }
// what cannot be stored is refused and changes nothing
SQ_SCENARIO(refused, 2, 3) { World w; Hist &h = w.h; w.fresh(true); int d = sq::depth(); EventLog::WriteState st = w.l->getWriteState(); S raw; for (int i = 0; i < d; i++) { Ev e = event(h, 3); S out; PRndFileHandle f = new File(out); int k = sq::choose(4); long t = e.t; natural type = 5; S data = e.data; if (k == 1) type = 0x10000 + sq::choose(2); if (k == 2) data.resize(0xFFFF * 8 + 1); if (k == 3) { t = st.lastTimestamp - 1 - sq::choose(2) * 0x20000; if (st.lastTimestamp == 0) sq::skip(); } sq::op("record %lu of %zu bytes at %ld", (unsigned long)type, data.size(), t); bool bad = false; EventLog::WriteState before = st; natural off = 0; try { SeqFileOutput o(f, 0); natural n = EventLog::writeBlock(o, type, bin(data), t, st, off); SQ_ASSERT(n == out.size(), "writeBlock returns %lu", (unsigned long)n); } catch (const Exception &) { bad = true; } SQ_ASSERT(bad == (k != 0), "the record is %s", bad ? "refused" : "accepted"); if (bad) { SQ_ASSERT(out.empty() && before.currentCheckSum == st.currentCheckSum && before.lastTimestamp == st.lastTimestamp, "a refused record changes the log"); continue; } raw += out; e.type = 5; h.ev.push_back(e); }
	h.log = raw; Listener r; EventLog l; l.addListener(&r); open(l, h); check("the replay", r.got, h.ev); sq::outcome(raw); }
// the speed limit delays only a log which grows faster: no wait in a log below the limit, also after it is rotated
static bool limited = false, counted = false; static int waited; static long shift; extern "C" int gettimeofday(struct timeval *__restrict t, void *__restrict) { struct timespec x; syscall(SYS_clock_gettime, 0, &x); t->tv_sec = x.tv_sec + shift; t->tv_usec = x.tv_nsec / 1000; return 0; }
extern "C" int sem_timedwait(sem_t *, const struct timespec *) { if (counted) { waited++; shift += 5; } if (limited) sq::fail("an update waits in a log which is below its speed limit"); errno = ETIMEDOUT; return -1; }
SQ_SCENARIO(speed_limit_reached, 3, 4) { static const int L[] = {8, 16, 40, 100}; World w; Hist &h = w.h; w.fresh(true); int lim = L[sq::choose(4)]; w.l->setMaxUpdateSpeed(lim); sq::op("at most %d bytes/s", lim); waited = 0; counted = true; size_t first = 0; int d = sq::depth(); for (int i = 0; i < d && !waited; i++) { Ev e = event(h, 1 + sq::choose(2)); if (!i) h.now += 1000; h.now = e.t = i ? h.ev.back().t : h.now; sq::op("event %s", show(e).c_str()); put(*w.l, h, e); if (!i) first = h.log.size(); else if (h.log.size() - first >= (size_t)lim) SQ_ASSERT(waited, "%d bytes were added in one second without waiting", (int)(h.log.size() - first)); else SQ_ASSERT(!waited, "waits after %d bytes", (int)(h.log.size() - first)); } counted = false; sq::outcome(h.log); }
SQ_SCENARIO(speed_limit, 4, 6) { World w; Hist &h = w.h; w.fresh(true); w.l->setMaxUpdateSpeed(1000); limited = true; int d = sq::depth(); for (int i = 0; i < d; i++) { switch (sq::choose(4)) { case 0: case 1: { Ev e = event(h, 1 + sq::choose(2)); h.now += 1; e.t = h.now; sq::op("event %s", show(e).c_str()); put(*w.l, h, e); break; } case 2: if (h.log.empty()) sq::skip(); sq::op("rotate"); w.l->close(); h.logs.l.push_back(h.log); h.old = all(h); h.ev.clear(); h.log.clear(); open(*w.l, h, false); break; case 3: sq::op("reopen"); w.fresh(true); w.l->setMaxUpdateSpeed(1000); break; } } limited = false; sq::outcome(h.log); }
