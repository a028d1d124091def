// sq: exhaustive bounded enumeration of operation sequences / inputs / environment answers
// against the real code (ASan build), compared with reference models written in the harness.
#ifndef SEQ_H_
#define SEQ_H_
#include <stddef.h>
#include <stdint.h>
#include <string>
namespace sq {
typedef void (*body_t)();
struct Reg { Reg(const char *name, int qd, int td, body_t b); };
#define SQ_SCENARIO(name, qd, td) static void name(); static ::sq::Reg sq_reg_##name(#name, qd, td, &name); static void name()
int depth();                     // the bound of this run (qd or td)
bool thorough();
int choose(int n);               // every value 0..n-1 is explored
int deviate(int n);              // 0 is the default answer; other values cost one deviation of the budget
void setDeviations(int n);       // budget for deviate() (set at the start of a body)
void op(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // log one step (for the report) and count a transition
void fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void outcome(uint64_t h);
void outcome(const std::string &s);
bool seen(uint64_t h);           // state deduplication; also counts distinct states
void skip() __attribute__((noreturn));  // abandon this execution (not an error)
size_t heapBytes();
uint64_t hash(const void *p, size_t n, uint64_t seed = 0);
inline uint64_t hash(const std::string &s, uint64_t seed = 0) { return hash(s.data(), s.size(), seed); }
std::string show(const std::string &s);   // printable form
const char *scratchDir();        // private scratch directory, removed by the engine
struct Skip {};
}
#define SQ_ASSERT(c, ...) do { if (!(c)) ::sq::fail(__VA_ARGS__); } while (0)
#endif
