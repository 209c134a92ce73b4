// L21: time arithmetic over boundary times, and sleeps under every pattern of interruption.
#include "vf.hpp"
#include <cmath>
extern "C" { void t_add(const timespec *, timespec *), t_sub(const timespec *, timespec *); int t_cmp(const timespec *, const timespec *); double t_to(const timespec *); void t_from(double, timespec *); void t_sleep(const timespec *); int fake_nanosleep(const timespec *, timespec *); }
using namespace vf;
typedef __int128 i128;
static const long G = 1000000000;
static i128 nanos(const timespec &t) { return (i128)t.tv_sec * G + t.tv_nsec; }
static str show(const timespec &t) { return fmt("%lld.%09ld", (long long)t.tv_sec, t.tv_nsec); }
static bool normal(const timespec &t) { return t.tv_nsec >= 0 && t.tv_nsec < G; }
static const std::vector<long long> &secs() { static std::vector<long long> v; if (v.empty()) { for (long long b : {0LL, 1LL << 31, 1LL << 32, 1LL << 40, 1LL << 52, 9223372036LL, 1LL << 61}) for (int d = -2; d <= 2; d++) v.push_back(b + d); } return v; }
static const std::vector<long> ns = {0, 1, 2, 499999999, 500000000, 500000001, 999999998, 999999999};
static Ctx *C; static struct { i128 remaining; int calls, intr; bool done; } W;
extern "C" int fake_nanosleep(const timespec *q, timespec *rem) {
	Ctx &c = *C; c.step();
	if (!normal(*q) || q->tv_sec < 0) c.fail("sleep", "malformed: " + show(*q));
	if (W.done) c.fail("sleep", "again after the end");
	if (nanos(*q) != W.remaining) c.fail("sleep", "for " + show(*q) + " instead of what remained");
	c.state(hash_bytes(&W.remaining, sizeof W.remaining));
	int k = c.choose(W.intr < c.T(4, 6) ? 6 : 2);
	if (k == 0) { W.done = true; W.remaining = 0; errno = EINTR; return 0; }
	if (k == 1) { W.done = true; errno = EINVAL; return -1; }
	W.intr++;
	i128 left = k == 2 ? W.remaining : k == 3 ? W.remaining / 2 : k == 4 ? (W.remaining > 0 ? 1 : 0) : (W.remaining > G ? W.remaining - G : 0);
	W.remaining = left; c.trace("interrupted, %lld left", (long long)left);
	if (rem) { rem->tv_sec = left / G; rem->tv_nsec = left % G; }
	errno = EINTR; return -1;
}
static void body(Ctx &c) {
	C = &c;
	switch (c.choose(3)) {
	case 0: {	// pairs
		long long s1 = c.pick(secs()), s2 = c.pick(secs()); c.mine();
		for (long n1 : ns) for (long n2 : ns) {
			timespec a{s1, n1}, b{s2, n2}, a0 = a, r = b;
			c.state(hash_bytes(&a, sizeof a, hash_bytes(&b, sizeof b)));
			t_add(&a, &r); c.step();
			if (!normal(r) || nanos(r) != nanos(a) + nanos(b)) c.fail("sum", show(a) + " + " + show(b) + " = " + show(r));
			r = b; t_sub(&a, &r); c.step();
			if (!normal(r) || nanos(r) != nanos(b) - nanos(a)) c.fail("difference", show(b) + " - " + show(a) + " = " + show(r));
			int w = nanos(a) < nanos(b) ? -1 : nanos(a) > nanos(b), g = t_cmp(&a, &b); c.step();
			if ((g > 0) - (g < 0) != w) c.fail("comparison", show(a) + " and " + show(b) + fmt(": %d", g));
			if (memcmp(&a, &a0, sizeof a)) c.fail("operand", "changed");
			// itself
			r = a; t_sub(&r, &r); if (nanos(r)) c.fail("difference", "with itself");
		}
		return; }
	case 1: {	// floating seconds
		long long s = c.pick(secs()); if (s < 0) throw Cut(); c.mine();
		for (long n : ns) {
			timespec a{s, n}; c.state(hash_bytes(&a, sizeof a));
			double d = t_to(&a); long double exact = (long double)s + n / 1e9L; c.step();
			if (fabsl(d - exact) > fabsl(exact) * 3e-16L) c.fail("to floating seconds", show(a) + fmt(" is %.17g", d));
			std::vector<double> ds = {d, nextafter(d, 1e300), nextafter(d, 0), d + 0.1, d + 1e-9, d + 0.333333333};
			for (double x : ds) {
				timespec r{77, 77}; t_from(x, &r); c.step();
				long double back = (long double)r.tv_sec + r.tv_nsec / 1e9L;	// within the nanosecond before
				if (!normal(r) || r.tv_sec != (long long)x || fabsl((long double)x - back) > 1.000001e-9L) c.fail("from floating seconds", fmt("%.17g is ", x) + show(r));
			}
		}
		return; }
	default: {	// sleeps
		static const std::vector<long long> ss = {0, 1, 5, 1LL << 31};
		timespec q{(time_t)c.pick(ss), c.pick(ns)}, q0 = q;
		W = {}; W.remaining = nanos(q);
		t_sleep(&q);
		c.check(W.done, "sleep", "ended before its time");
		if (memcmp(&q, &q0, sizeof q)) c.fail("operand", "changed");
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, false); }
