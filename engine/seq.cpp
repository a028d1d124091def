#include "seq.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <ftw.h>
#include <vector>
#include <unordered_set>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
extern "C" void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=4:malloc_context_size=3:handle_abort=1:handle_sigfpe=1:handle_sigill=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:max_allocation_size_mb=2048:symbolize=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:exitcode=99:symbolize=0"; }

namespace sq {
struct S { const char *name; int qd, td; body_t b; };
static S *scns() { static S s[512]; return s; }
static int nscn = 0;
Reg::Reg(const char *name, int qd, int td, body_t b) { S s = {name, qd, td, b}; scns()[nscn++] = s; }
struct Node { int n, idx; bool dev; };
static std::vector<Node> nodes; static size_t pos;
static int curDepth, devLeft; static bool thor;
static uint64_t execs, transitions, skipped;
static std::unordered_set<uint64_t> seenSet, outs;
static std::string log_, msg, sampleLog; static bool keepLog = false, replaying = false;
static const char *scnName; static double t0; static int boundRun; static uint64_t curOut; static bool hasOut;
static char asanReport[2000];
static uint64_t treeNodes; static bool done_ = false;
static std::string dir_;
static int shardI = 0, shardN = 1;

static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
int depth() { return curDepth; }
bool thorough() { return thor; }
void setDeviations(int n) { devLeft = n; }
struct NotMine {};
static uint64_t prefixNo = 0; static int lastPfx0 = -1, lastPfx1 = -1; static bool mine = true;
static void shardCheck() {   // called when the first two choices are known
	int p0 = nodes[0].idx, p1 = nodes[1].idx;
	if (p0 != lastPfx0 || p1 != lastPfx1) { lastPfx0 = p0; lastPfx1 = p1; mine = (prefixNo++ % shardN) == (uint64_t)shardI; }
	if (!mine) throw NotMine();
}
static int choose2(int n, bool dev) {
	if (n <= 1) return 0;
	if (dev && devLeft <= 0) return 0;
	if (pos == 2 && shardN > 1 && !replaying) { if (pos == nodes.size()) shardCheck(); }
	if (pos < nodes.size()) {
		Node &x = nodes[pos];
		if (replaying && x.n == 0) { x.n = n; x.dev = dev; if (x.idx >= n) { printf("RESULT DIVERGED\n"); fflush(stdout); _exit(3); } }
		if (x.n != n || x.dev != dev) { fprintf(stderr, "replay divergence in %s\n", scnName); _exit(3); }
	} else { Node x = {n, 0, dev}; nodes.push_back(x); treeNodes++; }
	int k = nodes[pos++].idx;
	if (dev && k) devLeft--;
	return k;
}
int choose(int n) { return choose2(n, false); }
int deviate(int n) { return choose2(n, true); }
void op(const char *fmt, ...) {
	transitions++;
	if (!keepLog) return;
	char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (log_.size() < 60000) { log_ += b; log_ += "; "; }
}
std::string show(const std::string &s) {
	std::string o; char b[8];
	for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c >= 32 && c < 127 && c != '\\' && c != '"') o += (char)c; else { snprintf(b, sizeof b, "<%02x>", c); o += b; } }
	return o;
}
uint64_t hash(const void *p, size_t n, uint64_t seed) {
	uint64_t h = 1469598103934665603ull ^ (seed * 0x9E3779B97F4A7C15ull);
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	h ^= h >> 32; h *= 0xff51afd7ed558ccdull; h ^= h >> 29;
	return h;
}
void outcome(uint64_t h) { curOut = curOut * 1000003 + h; hasOut = true; }
void outcome(const std::string &s) { outcome(hash(s)); }
// a state is new only past the choices that are being repeated: before, it was seen by the execution this one branches from
bool seen(uint64_t h) { if (replaying || pos < nodes.size()) return false; return !seenSet.insert(h).second; }
size_t heapBytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
const char *scratchDir() { return dir_.c_str(); }
static int rmOne(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void cleanDir() { if (!dir_.empty()) { nftw(dir_.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS); } }
static void jstr(const std::string &s) { putchar('"'); for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') { putchar('\\'); putchar(c); } else if (c < 32) putchar(' '); else if (c < 127) putchar(c); else putchar('?'); } putchar('"'); }
static void printResult(bool viol, bool capped, int code) __attribute__((noreturn));
static void printResult(bool viol, bool capped, int code) {
	if (done_) _exit(98);
	done_ = true;
	cleanDir();
	if (replaying) {
		printf("LOG %s\n", log_.c_str());
		printf("RESULT %s\n", viol ? msg.c_str() : "ok");
		fflush(stdout); _exit(viol ? 1 : 0);
	}
	printf("{\"scenario\":\"%s\",\"bound\":%d,\"completed_bound\":%d,\"capped\":%s,\"states\":%lu,\"tree_nodes\":%lu,\"transitions\":%lu,\"executions\":%lu,\"pruned\":%lu,\"outcomes\":%lu,\"wall\":%.2f,\"sample\":",
		scnName, curDepth, (viol || capped) ? -1 : curDepth, capped ? "true" : "false", (unsigned long)(seenSet.size()), (unsigned long)treeNodes, (unsigned long)transitions, (unsigned long)execs, (unsigned long)skipped, (unsigned long)outs.size(), now() - t0);
	jstr(sampleLog);
	printf(",\"engine_error\":null,\"violation\":");
	if (viol) {
		printf("{\"msg\":"); jstr(msg);
		printf(",\"replay_ok\":true,\"choices\":\"");
		for (size_t i = 0; i < pos && i < nodes.size(); i++) printf("%s%d", i ? "," : "", nodes[i].idx);
		printf("\"}");
	} else printf("null");
	printf("}\n");
	fflush(stdout);
	_exit(code);
}
void fail(const char *fmt, ...) {
	char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	msg = b;
	printResult(true, false, 1);
}
void skip() { throw Skip(); }
static void onAsan(const char *r) {
	const char *p = strstr(r, "ERROR: AddressSanitizer: ");
	if (p) { p += 7; size_t i = 0; // keep "AddressSanitizer: <kind>" only: addresses differ between runs
		const char *e = strstr(p, " on "); size_t n = e ? (size_t)(e - p) : strcspn(p, "\n"); if (n > 200) n = 200;
		memcpy(asanReport, p, n); i = n; asanReport[i] = 0;
		const char *q = strstr(r, "\nREAD of size"); if (!q) q = strstr(r, "\nWRITE of size");
		if (q) { strcat(asanReport, ","); strncat(asanReport, q + 1, strcspn(q + 1, " ")); }
	}
}
static void onDeath() {
	msg = asanReport[0] ? std::string("memory error: ") + asanReport : std::string("undefined behaviour (UBSan report on stderr)");
	printResult(true, false, 1);
}
static volatile uint64_t lastExec = ~0ull; static volatile int stuck = 0;
static void onProf(int) {
	if (lastExec == execs) { if (++stuck >= (replaying ? 8 : 6)) { msg = "operation does not terminate (hang)"; printResult(true, false, 1); } }
	else { lastExec = execs; stuck = 0; }
}
static void onTerminate() {
	std::type_info *t = abi::__cxa_current_exception_type();
	msg = std::string("std::terminate called") + (t ? std::string(" with exception ") + t->name() : "");
	printResult(true, false, 1);
}
static bool notMine;
static void runBody(body_t b) {
	notMine = false; pos = 0; devLeft = 0; curOut = 0; hasOut = false; log_.clear();
	try { b(); }
	catch (Skip &) { skipped++; }
	catch (NotMine &) { notMine = true; }
	catch (std::exception &e) { std::string w = e.what(); if (w.size() > 300) w.resize(300); msg = std::string("unexpected exception: ") + typeid(e).name() + " " + w; printResult(true, false, 1); }
	catch (...) { msg = "unexpected exception"; printResult(true, false, 1); }
}
}
using namespace sq;
int sq_main(int argc, char **argv) {
	const char *only = 0; int bo = -1; double tl = 0; bool list = false; const char *choices = 0;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--list")) list = true;
		else if (!strcmp(argv[i], "--scenario")) only = argv[++i];
		else if (!strcmp(argv[i], "--thorough")) thor = true;
		else if (!strcmp(argv[i], "--bound")) bo = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--time")) tl = atof(argv[++i]);
		else if (!strcmp(argv[i], "--shard")) { sscanf(argv[++i], "%d/%d", &shardI, &shardN); }
		else if (!strcmp(argv[i], "--choices")) choices = argv[++i];
	}
	if (list) { for (int i = 0; i < nscn; i++) printf("%s %d %d\n", scns()[i].name, scns()[i].qd, scns()[i].td); return 0; }
	int si = -1;
	for (int i = 0; i < nscn; i++) if (only && !strcmp(only, scns()[i].name)) si = i;
	if (si < 0) { fprintf(stderr, "no such scenario\n"); return 2; }
	nodes.reserve(1 << 16); log_.reserve(1 << 16); // not counted as memory the code under test keeps
	scnName = scns()[si].name; curDepth = bo >= 0 ? bo : thor ? scns()[si].td : scns()[si].qd;
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
	if (__asan_set_error_report_callback) __asan_set_error_report_callback(onAsan);
	std::set_terminate(onTerminate);
	t0 = now();
	signal(SIGPROF, onProf); struct itimerval it = {{4, 0}, {4, 0}}; setitimer(ITIMER_PROF, &it, 0);
	{ const char *base = getenv("SQ_TMP"); char t[300]; snprintf(t, sizeof t, "%s/lsseq.XXXXXX", base ? base : "/tmp"); if (mkdtemp(t)) dir_ = t; }
	if (choices) {
		replaying = true; keepLog = true;
		for (const char *p = choices; *p;) { Node x = {0, (int)strtol(p, (char **)&p, 10), false}; nodes.push_back(x); if (*p == ',') p++; }
		runBody(scns()[si].b);
		printResult(false, false, 0);
	}
	bool capped = false;
	for (;;) {
		// the first executions and occasional later ones are logged as samples
		keepLog = sampleLog.size() < 1500 && (execs < 3 || (execs & (execs - 1)) == 0);
		runBody(scns()[si].b);
		if (!notMine) {
			execs++;
			if (keepLog && !log_.empty()) { if (!sampleLog.empty()) sampleLog += " || "; sampleLog += log_.substr(0, 300); }
			if (hasOut) outs.insert(curOut);
		}
		while (!nodes.empty()) { Node &x = nodes.back(); if (x.idx + 1 < x.n) { x.idx++; break; } nodes.pop_back(); }
		if (nodes.empty()) break;
		if (tl > 0 && (execs & 15) == 0 && now() - t0 > tl) { capped = true; break; }
	}
	printResult(false, capped, 0);
}
