// byte streams over a std::string which move at most a given number of bytes per call
#ifndef SQSTREAM_H_
#define SQSTREAM_H_
#include "lightspeed/base/streams/fileio.h"
#include "seq.h"
#include <string.h>
struct StrIn: public LightSpeed::IInputStream, public LightSpeed::RefCntObj { const std::string &s; mutable size_t p; size_t step; StrIn(const std::string &s, size_t step = 0):s(s), p(0), step(step) {}
	size_t n(LightSpeed::natural size) const { size_t r = s.size() - p; if (r > size) r = size; if (step && r > step) r = step; return r; }
	virtual LightSpeed::natural read(void *b, LightSpeed::natural size) { size_t k = n(size); memcpy(b, s.data() + p, k); p += k; return k; }
	virtual LightSpeed::natural peek(void *b, LightSpeed::natural size) const { size_t k = n(size); memcpy(b, s.data() + p, k); return k; }
	virtual bool canRead() const { return p < s.size(); } virtual LightSpeed::natural dataReady() const { return n(~(LightSpeed::natural)0); } };
struct StrOut: public LightSpeed::IOutputStream, public LightSpeed::RefCntObj { std::string &s; size_t step; bool closed; size_t limit; StrOut(std::string &s, size_t step = 0):s(s), step(step), closed(false), limit(~(size_t)0) {}
	virtual LightSpeed::natural write(const void *b, LightSpeed::natural size) { size_t k = size; if (step && k > step) k = step; if (s.size() + k > limit) k = limit - s.size(); s.append((const char *)b, k); return k; }
	virtual bool canWrite() const { return !closed; } virtual void flush() {} virtual void closeOutput() { closed = true; } };
#endif
