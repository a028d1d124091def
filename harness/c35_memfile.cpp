// C35: MemFile, MemFileStr and the stream adapters over random access files: every sequence of calls against a string with a position
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/memory/smallAlloc.h"
#include "lightspeed/base/streams/memfile.tcc"
#include "lightspeed/base/exceptions/iterator.h"
#include "seq.h"
#include <string.h>
using namespace LightSpeed;
typedef std::string S;
static char tag(int step, int i) { return (char)('a' + (step * 5 + i) % 26); }
struct M { S d; size_t pos; bool app, ro; M():pos(0), app(false), ro(false) {} S at(size_t p, size_t n) const { return p < d.size() ? d.substr(p, n) : S(); } void put(size_t p, const S &x) { if (p + x.size() > d.size()) d.resize(p + x.size()); d.replace(p, x.size(), x); } };
static S want(int step, int n) { S s; for (int i = 0; i < n; i++) s += tag(step, i); return s; }
template<typename F> static void same(const F &f, const M &m) { SQ_ASSERT(f.size() == m.d.size(), "the size is %lu instead of %zu", (unsigned long)f.size(), m.d.size()); char b[80]; memset(b, '#', sizeof b); natural n = m.d.empty() ? 0 : f.read(b, sizeof b, 0); SQ_ASSERT(S(b, n) == m.d, "the file holds %s instead of %s", sq::show(S(b, n)).c_str(), sq::show(m.d).c_str()); SQ_ASSERT(f.empty() == m.d.empty(), "empty is wrong"); SQ_ASSERT(f.canRead() == (m.pos < m.d.size()), "canRead is %d at %zu of %zu", f.canRead(), m.pos, m.d.size()); }
static void got(const char *what, const char *b, natural n, size_t cap, const S &e) { SQ_ASSERT(n == e.size(), "%s returns %lu bytes instead of %zu", what, (unsigned long)n, e.size()); SQ_ASSERT(S(b, n) == e, "%s returns %s instead of %s", what, sq::show(S(b, n)).c_str(), sq::show(e).c_str()); for (size_t i = n; i < cap; i++) SQ_ASSERT(b[i] == '#', "%s stores more than it returns", what); }
template<typename Alloc> static void files() { typedef MemFile<Alloc> F; RefCntPtr<F> hold = new F; F &f = *hold; M m; int d = sq::depth(); SQ_ASSERT(!f.isAppendMode(), "append mode is on in a new file");
	for (int i = 0; i < d; i++) { same(f, m); uint64_t x[] = { (uint64_t)i, m.pos, m.app, m.ro }; if (sq::seen(sq::hash(m.d, sq::hash(x, sizeof x)))) return; char b[24]; memset(b, '#', sizeof b);
		switch (sq::choose(14)) {
		case 0: { natural n = 1 + sq::choose(2) * 6; sq::op("read(%lu)", (unsigned long)n); natural r = f.read(b, n); got("read", b, r, sizeof b, m.at(m.pos, n)); m.pos += r; break; }
		case 1: { natural n = 1 + sq::choose(2) * 6; sq::op("peek(%lu)", (unsigned long)n); natural r = f.peek(b, n); got("peek", b, r, sizeof b, m.at(m.pos, n)); break; }
		case 2: case 3: { static const int len[] = {1, 2, 5}; S w = want(i, len[sq::choose(3)]); sq::op("write(%s)", w.c_str()); natural r = 0; try { r = f.write(w.data(), w.size()); } catch (const WriteIteratorNoSpace &) { SQ_ASSERT(m.ro, "write fails"); } if (m.ro) { SQ_ASSERT(r == 0, "%lu bytes are written to the closed file", (unsigned long)r); break; } SQ_ASSERT(r == w.size(), "write returns %lu", (unsigned long)r); if (m.app) m.pos = m.d.size(); m.put(m.pos, w); m.pos += w.size(); break; }
		case 4: { natural o = sq::choose(3) * 3, n = 1 + sq::choose(2) * 3; sq::op("read(%lu at %lu)", (unsigned long)n, (unsigned long)o); natural r = f.read(b, n, o); got("read", b, r, sizeof b, m.at(o, n)); break; }
		case 5: { natural o = sq::choose(4) * 2; S w = want(i, 1 + sq::choose(2) * 2); sq::op("write(%s at %lu)", w.c_str(), (unsigned long)o); natural r = 0; try { r = f.write(w.data(), w.size(), o); } catch (const WriteIteratorNoSpace &) { SQ_ASSERT(m.ro, "write fails"); } if (m.ro) { SQ_ASSERT(r == 0, "%lu bytes are written to the closed file", (unsigned long)r); break; } SQ_ASSERT(r == w.size(), "write returns %lu", (unsigned long)r); m.put(o, w); break; }
		case 6: { static const int len[] = {0, 1, 4, 9}; natural n = len[sq::choose(4)]; sq::op("setSize(%lu)", (unsigned long)n); if (m.ro) break; f.setSize(n); m.d.resize(n); break; }
		case 7: { natural p = sq::choose(4) * 3; sq::op("setPos(%lu)", (unsigned long)p); f.setPos(p); m.pos = p; break; }
		case 8: { bool a = sq::choose(2); sq::op("setAppendMode(%d)", a); f.setAppendMode(a); m.app = a; SQ_ASSERT(f.isAppendMode() == a, "append mode"); break; }
		case 9: sq::op("clear"); if (m.ro) break; f.clear(); m.d.clear(); m.pos = 0; break;
		case 10: sq::op("closeOutput"); if (m.ro) break; f.closeOutput(); m.ro = true; break;
		case 11: { sq::op("read stream"); SeqFileInput in = f.getReadStream(); S e = m.at(m.pos, 2); SQ_ASSERT(in.hasItems() == !e.empty(), "hasItems of the stream"); if (e.empty()) { bool t = false; try { in.getNext(); } catch (const IteratorNoMoreItems &) { t = true; } SQ_ASSERT(t, "the stream gives a byte behind the end"); } else { SQ_ASSERT((char)in.peek() == e[0], "the stream peeks another byte"); SQ_ASSERT((char)in.getNext() == e[0], "the stream gives another byte"); m.pos++; } break; }
		case 12: { sq::op("write stream"); SeqFileOutput out = f.getWriteStream(); SQ_ASSERT(out.hasItems() == !m.ro, "hasItems of the write stream"); S w = want(i, 2); bool t = false; try { out.blockWrite(w.data(), 2, true); } catch (const WriteIteratorNoSpace &) { t = true; } SQ_ASSERT(t == m.ro, "write to the stream %s", t ? "fails" : "succeeds though it is closed"); if (m.ro) break; if (m.app) m.pos = m.d.size(); m.put(m.pos, w); m.pos += 2; break; }
		case 13: { natural n = sq::choose(2) ? naturalNull : naturalNull - 1; bool o = sq::choose(2); if (m.d.size() > sizeof b || m.pos > sizeof b) break; sq::op("read of any size%s", o ? " at 1" : ""); natural r = o ? f.read(b, n, 1) : f.read(b, n); got("read", b, r, sizeof b, m.at(o ? 1 : m.pos, sizeof b)); if (!o) m.pos += r; break; } }
		SQ_ASSERT(f.canWrite() == !m.ro, "canWrite is %d", f.canWrite()); SQ_ASSERT(f.dataReady() > 0, "no data are ready"); }
	same(f, m); sq::outcome(m.d); }
SQ_SCENARIO(standard_allocator, 5, 6) { files<StdAlloc>(); }
SQ_SCENARIO(small_allocator, 5, 7) { files<SmallAlloc<4> >(); }
// writes which cannot fit any memory: an error and an unchanged file
SQ_SCENARIO(impossible_sizes, 1, 1) { MemFile<> *f = new MemFile<>; PRndFileHandle hold(f); M m; m.d = want(0, sq::choose(6)); if (!m.d.empty()) f->write(m.d.data(), m.d.size()); m.pos = m.d.size(); static const natural big[] = {naturalNull, naturalNull - 1, naturalNull - 3}; natural o = big[sq::choose(3)], n = 4 + sq::choose(2); int way = sq::choose(2); S w = want(1, n); sq::op("way %d offset %lx size %lu", way, (unsigned long)o, (unsigned long)n); bool ok = true; try { if (way == 0) { f->write(w.data(), n, o); } else if (way == 1) { f->setPos(o); f->write(w.data(), n); } } catch (const Exception &) { ok = false; } catch (const std::exception &) { ok = false; } SQ_ASSERT(!ok, "the write succeeds"); f->setPos(m.pos); same(*f, m); char b[8]; memset(b, '#', 8); got("read", b, f->read(b, n, o), 8, S()); f->setPos(o); got("read", b, f->read(b, n), 8, S()); got("peek", b, f->peek(b, n), 8, S()); }
SQ_SCENARIO(text_file, 5, 7) { S t = want(0, sq::choose(3) * 3); MemFileStr *f = new MemFileStr(ConstStrA(t.data(), t.size())); PRndFileHandle hold(f); M m; m.d = t; int d = sq::depth(); for (int i = 0; i < d; i++) { same(*f, m); uint64_t x[] = { (uint64_t)i, m.pos, t.size() }; if (sq::seen(sq::hash(x, sizeof x))) return; char b[24]; memset(b, '#', sizeof b); switch (sq::choose(7)) {
		case 0: { natural n = 1 + sq::choose(3) * 3; sq::op("read(%lu)", (unsigned long)n); natural r = f->read(b, n); got("read", b, r, sizeof b, m.at(m.pos, n)); m.pos += r; break; }
		case 1: { natural n = 1 + sq::choose(3) * 3; sq::op("peek(%lu)", (unsigned long)n); got("peek", b, f->peek(b, n), sizeof b, m.at(m.pos, n)); break; }
		case 2: { natural o = sq::choose(8), n = 1 + sq::choose(2) * 6; sq::op("read(%lu at %lu)", (unsigned long)n, (unsigned long)o); got("read", b, f->read(b, n, o), sizeof b, m.at(o, n)); break; }
		case 3: sq::op("write"); SQ_ASSERT(f->write("!", 1) == 0 && f->write("!", 1, 0) == 0 && !f->canWrite(), "the text is written"); break;
		case 4: sq::op("setSize"); f->setSize(1); break;
		case 5: { natural p = sq::choose(8); if (p == 7) p = naturalNull; sq::op("setPos(%lu)", (unsigned long)p); f->setPos(p); m.pos = p; break; }
		case 6: { sq::op("stream"); SeqFileInput in = f->getReadStream(); SQ_ASSERT(in.hasItems() == (m.pos < t.size()), "hasItems"); if (m.pos < t.size()) { SQ_ASSERT((char)in.getNext() == t[m.pos], "the stream gives another byte"); m.pos++; } break; } } } }
// sequential readers and writers of one random access file
SQ_SCENARIO(adapters, 5, 7) { MemFile<> *f = new MemFile<>; PRndFileHandle h(f); M m; m.d = want(0, 5); f->write(m.d.data(), 5, 0); m.pos = 0; static const size_t offs[] = {0, 2, 5, 7}; size_t ro = offs[sq::choose(4)], wo = offs[sq::choose(4)]; RefCntPtr<RndFileReader> r = new RndFileReader(h, ro); RefCntPtr<RndFileWriter> w = new RndFileWriter(h, wo); bool closed = false; int d = sq::depth();
	for (int i = 0; i < d; i++) { SQ_ASSERT(r->getOffset() == ro && w->getOffset() == wo, "the offsets are %lu and %lu instead of %zu and %zu", (unsigned long)r->getOffset(), (unsigned long)w->getOffset(), ro, wo); same(*f, m); uint64_t x[] = { (uint64_t)i, ro, wo, closed }; if (sq::seen(sq::hash(m.d, sq::hash(x, sizeof x)))) return; char b[24]; memset(b, '#', sizeof b); switch (sq::choose(7)) {
		case 0: { natural n = 1 + sq::choose(2) * 4; sq::op("read(%lu)", (unsigned long)n); natural k = r->read(b, n); got("read", b, k, sizeof b, m.at(ro, n)); ro += k; break; }
		case 1: { natural n = 1 + sq::choose(2) * 4; sq::op("peek(%lu)", (unsigned long)n); got("peek", b, r->peek(b, n), sizeof b, m.at(ro, n)); break; }
		case 2: SQ_ASSERT(r->canRead() == (ro < m.d.size()), "canRead at %zu of %zu", ro, m.d.size()); break;
		case 3: { S t = want(i, 1 + sq::choose(2) * 2); sq::op("write(%s)", t.c_str()); bool ok = true; natural k = 0; try { k = w->write(t.data(), t.size()); } catch (const WriteIteratorNoSpace &) { ok = false; } SQ_ASSERT(ok != closed, "write %s", ok ? "succeeds after closing" : "fails"); if (ok) { SQ_ASSERT(k == t.size(), "write returns %lu", (unsigned long)k); m.put(wo, t); wo += k; } break; }
		case 4: sq::op("closeOutput"); w->closeOutput(); closed = true; break;
		case 5: SQ_ASSERT(w->canWrite() == !closed, "canWrite is %d", w->canWrite()); break;
		case 6: { size_t o = offs[sq::choose(4)]; if (sq::choose(2)) { r->setOffset(o); ro = o; } else { w->setOffset(o); wo = o; } break; } } } sq::outcome(m.d); }
