// the ways to feed a converter (see ConverterBase in iterConv.h)
#ifndef CONVDRIVE_H_
#define CONVDRIVE_H_
#include "lightspeed/base/iter/iterConv.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/flatArray.h"
#include "seq.h"
#include <vector>
#include <string.h>
using namespace LightSpeed;
typedef std::string S;
// ---- drivers: the ways to feed a converter
struct Sink { S *o; bool hasItems() const { return true; } template<typename T> void write(const T &x) { o->push_back((char)x); } void flush() {} };
template<typename T> struct Out: public WriteIteratorBase<T, Out<T> > { S *o; Out(S *o):o(o) {} bool hasItems() const { return true; } void write(const T &x) { o->push_back((char)x); } void flush() {} };
template<typename T> struct Src: public IteratorBase<T, Src<T> > { const S *s; size_t p; mutable T tmp; Src(const S *s):s(s), p(0) {} bool hasItems() const { return p < s->size(); } const T &getNext() { SQ_ASSERT(p < s->size(), "the source is read beyond its end"); tmp = (T)(*s)[p++]; return tmp; } const T &peek() const { tmp = (T)(*s)[p]; return tmp; } };
enum { MODES = 8 };
#ifndef CONV_LIMIT
#define CONV_LIMIT 4096
#endif
static const size_t lim = CONV_LIMIT;
template<typename C> static void eager(C &c, const S &in, S &out) { typedef typename C::FromType F; for (size_t i = 0; i < in.size(); i++) { c.write((F)in[i]); while (c.hasItems) { out += (char)c.getNext(); SQ_ASSERT(out.size() < lim, "the converter never runs out of items"); } } c.flush(); while (c.hasItems) { char p = (char)c.peek(); out += (char)c.getNext(); SQ_ASSERT(out[out.size() - 1] == p, "peek is not the next item"); SQ_ASSERT(out.size() < lim, "the converter never runs out of items after flush"); } }
template<typename C> static S drive(const C &init, const S &in, int mode) { typedef typename C::FromType F; typedef typename C::ToType T; S out;
	switch (mode) {
	case 0: { C c(init); eager(c, in, out); break; }
	case 1: { C c(init); size_t i = 0; for (;;) { if (c.needItems && i < in.size()) { c.write((F)in[i++]); continue; } if (i == in.size() && !c.hasItems) { c.flush(); if (!c.hasItems) break; } SQ_ASSERT(c.hasItems, "the converter neither takes nor gives items"); out += (char)c.getNext(); SQ_ASSERT(out.size() < lim, "endless"); } break; }
	case 2: { Src<F> s(&in); ConvertReadIter<C, Src<F> &> r(init, s); while (r.hasItems()) { out += (char)r.getNext(); SQ_ASSERT(out.size() < lim, "endless"); } SQ_ASSERT(!r.hasItems(), "items appear again"); break; }
	case 3: { Src<F> s(&in); ConvertReadIter<C, Src<F> &> r(init, s); while (r.hasItems()) { SQ_ASSERT(r.hasItems(), "hasItems changes"); T x = r.getNext(); out += (char)x; SQ_ASSERT(out.size() < lim, "endless"); } break; }
	case 4: { { ConvertWriteIter<C, Out<T> > w(init, Out<T>(&out)); for (size_t i = 0; i < in.size(); i++) w.write((F)in[i]); } break; }
	case 5: { { ConvertWriteIter<C, Out<T> > w(init, Out<T>(&out)); size_t i = 0; int step = 1; while (i < in.size()) { size_t n = in.size() - i < (size_t)step ? in.size() - i : step; std::vector<F> b; for (size_t k = 0; k < n; k++) b.push_back((F)in[i + k]); natural c = w.blockWrite(ArrayRef<const F>(&b[0], n), true); if (c != n) { for (size_t k = i + c; k < in.size(); k++) SQ_ASSERT(in[k] == '=', "a block of %lu was written only up to %lu", (unsigned long)n, (unsigned long)c); break; } /* the end of the block: only padding remains */ i += n; step++; } } break; }
	case 6: { Src<F> s(&in); ConvertReadIter<C, Src<F> &> r(init, s); T buf[16]; size_t want = 1; while (r.hasItems()) { ArrayRef<T> a(buf, want); natural c = r.blockRead(a.ref()); SQ_ASSERT(c <= want && (c > 0), "a block of %lu was read as %lu", (unsigned long)want, (unsigned long)c); for (natural k = 0; k < c; k++) out += (char)buf[k]; want = want % 7 + 1; SQ_ASSERT(out.size() < lim, "endless"); } break; }
	case 7: { C c(init); S first; eager(c, in, first); SQ_ASSERT(first == drive(init, in, 0), "differs"); eager(c, in, out); break; } // used again after it was finished
	} return out; }
#endif
