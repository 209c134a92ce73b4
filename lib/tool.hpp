// Runs a command line tool's main() again and again inside the checker's process: its static
// variables are put back to their initial values before each run, exit() ends the run, the standard
// streams are collected in memory, and time passes only as the tables are read.
#pragma once
#include "dns.hpp"
#include <csetjmp>
#include <sys/time.h>
#include <clocale>
#include <getopt.h>

extern "C" {
extern int optind, opterr;
int tool_main(int, char **);
extern char __start_tooldata[] __attribute__((weak)), __stop_tooldata[] __attribute__((weak)), __start_toolbss[] __attribute__((weak)), __stop_toolbss[] __attribute__((weak));
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
time_t __real_time(time_t *);
[[noreturn]] void __real_exit(int);
}
namespace tool {
typedef std::string str;
inline bool &running() { static bool b; return b; }
inline jmp_buf &back() { static jmp_buf j; return j; }
inline int &status() { static int s; return s; }
// virtual time, in nanoseconds: `step` for every table entry read, one for every look at the clock
struct Clock { bool on = false; int64_t step = 0, looks = 0, real0 = 1600000000, mono0 = 5000; int64_t passed() const { return (int64_t)standin_nexts * step + looks; } };
inline Clock &clk() { static Clock c; return c; }
inline void clock_start(int64_t step) { clk().on = true; clk().step = step; clk().looks = 0; standin_nexts = 0; }
inline void clock_stop() { clk().on = false; }

struct Out { int status; str out, err; int64_t passed; };
inline void snapshot(bool restore) {
	static std::vector<char> d, b; static bool have;
	std::vector<char> *s[2] = {&d, &b}; char *lo[2] = {__start_tooldata, __start_toolbss}, *hi[2] = {__stop_tooldata, __stop_toolbss};
	// byte by byte: the red zones between the variables are copied too
	for (int i = 0; i < 2; i++) {
		size_t n = lo[i] ? hi[i] - lo[i] : 0; volatile char *p = lo[i];
		if (!have) { s[i]->resize(n); for (size_t k = 0; k < n; k++) (*s[i])[k] = p[k]; }
		else if (restore) for (size_t k = 0; k < n; k++) p[k] = (*s[i])[k];
	}
	have = true;
}
inline Out run(const vf::strs &args, int64_t step = 0) {
	snapshot(true);
	static char *so, *se; static size_t no, ne; static FILE *keep_o, *keep_e;
	keep_o = stdout; keep_e = stderr;
	so = se = nullptr;
	FILE *o = open_memstream(&so, &no), *e = open_memstream(&se, &ne);
	std::vector<char *> av; for (auto &a : args) av.push_back(strdup(a.c_str()));
	std::vector<char *> full = av; full.push_back(nullptr);
	static char **fv; fv = full.data(); static int n; n = (int)av.size();
	optind = 0; opterr = 1;
	stdout = o; stderr = e;
	clock_start(step);
	running() = true;
	if (setjmp(back()) == 0) status() = tool_main(n, fv);
	running() = false;
	Out r; r.passed = clk().passed();
	clock_stop();
	stdout = keep_o; stderr = keep_e;
	fclose(o); fclose(e);
	r.status = status() & 255; r.out.assign(so, no); r.err.assign(se, ne);
	free(so); free(se);
	for (auto a : av) free(a);
	return r;
}
}
extern "C" {
[[noreturn]] void __wrap_exit(int s) { if (tool::running()) { tool::status() = s; longjmp(tool::back(), 1); } __real_exit(s); }
int __wrap_clock_gettime(clockid_t id, struct timespec *t) {
	auto &k = tool::clk();
	if (!k.on) return __real_clock_gettime(id, t);
	k.looks++;
	int64_t p = k.passed() + (id == CLOCK_REALTIME ? 0 : 700000000);	// within a second
	t->tv_sec = (id == CLOCK_REALTIME ? k.real0 : k.mono0) + p / 1000000000; t->tv_nsec = p % 1000000000;
	return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z) {
	if (!tool::clk().on) return __real_gettimeofday(tv, z);
	struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t __wrap_time(time_t *p) {
	if (!tool::clk().on) return __real_time(p);
	struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec;
}
}
