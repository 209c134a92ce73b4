// L12: the rate limiter under a virtual clock: every assignment of elapsed times, wake-up delays and
// interruptions to a few consecutive calls, and long runs of fast and slow callers.
#include "vf.hpp"
#include <cmath>
#include <sys/time.h>
using namespace vf;
#define BUILD(n) struct my_rate *n##_init(unsigned, unsigned); void n##_destroy(struct my_rate **); void n##_sleep(struct my_rate *);
extern "C" {
struct my_rate;
BUILD(ra) BUILD(rb) BUILD(rc)
}
struct Lib { const char *name; struct my_rate *(*init)(unsigned, unsigned); void (*destroy)(struct my_rate **); void (*sleep)(struct my_rate *); bool micro, absolute; };
static const Lib libs[] = {{"gettimeofday and nanosleep", ra_init, ra_destroy, ra_sleep, true, false}, {"clock_gettime and nanosleep", rb_init, rb_destroy, rb_sleep, false, false}, {"clock_nanosleep", rc_init, rc_destroy, rc_sleep, false, true}};
typedef long long ll;
static const ll G = 1000000000LL;
static Ctx *C;
static struct { ll t; int readings, sleeps; ll target, remaining; bool resumed; std::vector<int> plan; size_t at; bool mono, real; ll read; ll overshoot; bool micro; } W;
// wake-up outcomes: 0 exactly, 1 a nanosecond late, 2 sixty microseconds late, 3 interrupted at once, 4 interrupted half-way, 5 interrupted a nanosecond before the end
static int outcome() { if (W.at < W.plan.size()) return W.plan[W.at++]; return W.plan.empty() ? 0 : W.plan.back() > 2 ? 0 : W.plan.back(); }
static ll reading() { W.readings++; W.read = W.micro ? W.t / 1000 * 1000 : W.t; return W.read; }
static void normal(const struct timespec *q) {
	if (q->tv_nsec < 0 || q->tv_nsec >= G) C->fail("malformed sleep", fmt("%lld s %ld ns", (ll)q->tv_sec, q->tv_nsec));
	if (q->tv_sec < 0) C->fail("negative sleep", fmt("%lld s %ld ns", (ll)q->tv_sec, q->tv_nsec));
}
static bool sleep_for(ll d) {	// true if interrupted
	switch (outcome()) {
	case 0: W.t += d; return false;
	case 1: W.t += d + 1; W.overshoot += 1; return false;
	case 2: W.t += d + 60000; W.overshoot += 60000; return false;
	case 3: return true;
	case 4: W.t += d / 2; return true;
	default: W.t += d > 0 ? d - 1 : 0; return true;
	}
}
extern "C" int fake_clock_gettime(clockid_t id, struct timespec *ts) { if (id == CLOCK_MONOTONIC) W.mono = true; else W.real = true; ll t = reading(); ts->tv_sec = t / G; ts->tv_nsec = t % G; return 0; }
extern "C" int fake_gettimeofday(struct timeval *tv, void *) { W.real = true; ll t = reading(); tv->tv_sec = t / G; tv->tv_usec = t % G / 1000; return 0; }
extern "C" int fake_nanosleep(const struct timespec *q, struct timespec *rem) {
	normal(q); ll d = q->tv_sec * G + q->tv_nsec;
	if (W.sleeps++ && d != W.remaining) C->fail("resumed sleep", fmt("%lld ns instead of the remaining %lld", d, W.remaining));
	if (W.sleeps == 1) W.target = W.read + d;
	ll end = W.t + d;
	if (W.sleeps > 50) C->fail("sleep", "never ends");
	if (sleep_for(d)) { W.remaining = end - W.t; if (rem) { rem->tv_sec = W.remaining / G; rem->tv_nsec = W.remaining % G; } errno = EINTR; return -1; }
	W.remaining = -1;
	return 0;
}
extern "C" int fake_clock_nanosleep(clockid_t id, int flags, const struct timespec *q, struct timespec *rem) {
	normal(q); ll d = q->tv_sec * G + q->tv_nsec;
	if (id != CLOCK_MONOTONIC && id != CLOCK_REALTIME) C->fail("sleep", "on another clock");
	bool abs = flags == TIMER_ABSTIME;
	if (W.sleeps++ && (abs ? d != W.target : d != W.remaining)) C->fail("resumed sleep", "to another time");
	if (W.sleeps == 1) W.target = abs ? d : W.read + d;
	if (W.sleeps > 50) C->fail("sleep", "never ends");
	ll end = abs ? d : W.t + d;
	if (end <= W.t) return 0;
	if (sleep_for(end - W.t)) { W.remaining = end - W.t; if (rem && !abs) { rem->tv_sec = W.remaining / G; rem->tv_nsec = W.remaining % G; } return EINTR; }
	W.remaining = -1;
	return 0;
}
// the first multiple of the period after t, the seconds and the rest taken separately
static ll tick(ll t, ll P) {
	ll s = t / G, n = t % G, ps = P / G, pn = P % G;
	if (ps) s = s - s % ps + ps;
	n = pn ? n - n % pn + pn : 0;
	return s * G + n;
}
struct Run {
	Ctx &c; const Lib &L; unsigned rate, freq; struct my_rate *r; double adj; ll P, start = 0, last = 0; unsigned long long count = 0;
	Run(Ctx &c, const Lib &L, unsigned rate, unsigned freq, ll t0) : c(c), L(L), rate(rate), freq(freq) {
		W = {}; W.t = t0; W.micro = L.micro; C = &c;
		r = L.init(rate, freq); adj = rate; P = (ll)(1.0 / rate * 1e9);
	}
	~Run() { if (r) L.destroy(&r); }
	void call(ll elapsed, const std::vector<int> &plan) {
		W.t += elapsed; W.plan = plan; W.at = 0; W.sleeps = W.readings = 0; W.mono = W.real = false; W.target = -1; W.overshoot = 0;
		ll before = W.t, b = L.micro ? before / 1000 * 1000 : before;
		L.sleep(r); c.step();
		str what = fmt("rate %u freq %u call %llu at %lld (%s): ", rate, freq, count + 1, before, L.name);
		count++;
		if (count == 1) { start = b; last = b; }
		// the tick is that of the period in force when the previous call returned; one nanosecond of rounding
		ll lo = INT64_MAX, hi = 0; bool ok = false;
		for (ll p = P - (freq ? 1 : 0); p <= P + (freq ? 1 : 0); p++) { if (p < 0) continue; ll T = tick(last, p); lo = std::min(lo, T); hi = std::max(hi, T); if (T == W.target) ok = true; }
		if (W.mono && W.real) c.fail("clock", what + "two clocks are mixed");
		if (W.sleeps) {
			if (!ok) c.fail("schedule", what + fmt("slept until %lld instead of %lld (period %lld, previous return %lld)", W.target, lo, P, last));
			if (W.target <= b) c.fail("schedule", what + "slept although not ahead of schedule");
			if (W.remaining != -1) c.fail("interrupted", what + fmt("returned %lld ns before the end of an interrupted sleep", W.remaining));
			ll want = (L.absolute ? W.target : before + (W.target - b)) + W.overshoot;
			if (W.t < W.target) c.fail("schedule", what + "returned before its time");
			if (W.t > want) c.fail("schedule", what + fmt("returned %lld ns late", W.t - want));
		} else {
			if (lo > b) c.fail("schedule", what + fmt("did not sleep until %lld", lo));
			if (W.t != before) c.fail("schedule", what + "time passed without a sleep");
		}
		// correction, from the time read at the beginning of the call
		if (freq && count % freq == 0 && count > freq) {
			double avg = count / ((b - start) / 1e9), ratio = rate / avg;
			ratio = std::max(0.99, std::min(1.01, ratio));
			adj = std::max(1.0, std::min(1e9, adj * ratio));
			double period = 1.0 / adj; ll s = (ll)period; P = s * G + (ll)((period - s) * 1e9);
		}
		last = L.micro ? W.t / 1000 * 1000 : W.t;
		c.state(hash_bytes(&last, 8, count * 31 + rate));
	}
};
static void body(Ctx &c) {
	static const std::vector<unsigned> rates = {1, 2, 3, 7, 50, 99, 100, 999, 1000, 600000, 1000000, 1000000000};
	static const std::vector<ll> starts = {5 * G, 5 * G + 999999999, 5 * G + 333333333, 1700000000LL * G + 123456789};
	const Lib &L = libs[c.choose(3)];
	unsigned rate = c.pick(rates); ll P = G / rate;
	ll t0 = c.pick(starts);
	switch (c.choose(4)) {
	case 0: {	// a few calls, every combination
		static const std::vector<unsigned> fr = {0, 1, 2};
		unsigned freq = c.pick(fr);
		Run r(c, L, rate, freq, t0);
		const std::vector<ll> el = c.thorough() ? std::vector<ll>{0, 1, P - 1, P, P + 1, 7 * P + 3, 2 * G} : std::vector<ll>{0, P - 1, P, P + 1};
		int n = c.T(2, 3);
		for (int i = 0; i < n; i++) {
			ll e = c.pick(el); if (i == 0) c.mine();
			int o1 = c.choose(6); std::vector<int> plan = {o1}; if (o1 > 2) { int o2 = c.choose(6); plan.push_back(o2); if (o2 > 2) plan.push_back(c.choose(6)); }
			r.call(e, plan);
		}
		r.call(0, {0});
		return; }
	case 1: {	// more calls with fewer choices
		static const std::vector<unsigned> fr = {0, 1, 2, 3};
		unsigned freq = c.pick(fr); int n = c.T(6, 8); c.mine();
		Run r(c, L, rate, freq, t0);
		for (int i = 0; i < n; i++) { int k = c.choose(4); r.call(k == 0 ? 0 : k == 1 ? P / 2 : k == 2 ? P + 1 : 0, k == 3 ? std::vector<int>{4, 0} : std::vector<int>{0}); }
		return; }
	case 2: {	// long runs: phases of fast and slow callers
		static const std::vector<unsigned> fr = {1, 2, 10};
		unsigned freq = c.pick(fr); int phases = c.T(2, 3); c.mine();
		Run r(c, L, rate, freq, t0);
		for (int p = 0; p < phases; p++) {
			int kind = c.choose(4), n = c.choose(2) ? 2500 : 40;
			for (int i = 0; i < n; i++) r.call(kind == 0 ? 0 : kind == 1 ? P / 3 : kind == 2 ? 3 * P : 10 * G, kind == 1 ? std::vector<int>{1} : std::vector<int>{0});
		}
		return; }
	default: {	// long runs of an ever ready caller: the limit itself, without correction
		c.mine();
		int late = c.choose(3);
		Run r(c, L, rate, 0, t0);
		std::vector<ll> ret;
		for (int i = 0; i < 3000; i++) { r.call(0, {late}); ret.push_back(W.t); }
		// whatever the rounding, no more calls within any second than the periods it holds, one for each second begun and one for a late start
		ll per = G / std::max<ll>(P, 1) + 4;
		for (size_t i = 0; i + per < ret.size(); i++) if (!L.micro && ret[i + per] - ret[i] < G) c.fail("limit", fmt("rate %u: %lld calls within %lld ns", rate, per + 1, ret[i + per] - ret[i]));
		// nothing for no limiter
		L.sleep(nullptr);
		struct my_rate *none = nullptr; L.destroy(&none);
		L.destroy(&r.r); c.check(!r.r, "destroy", "handle not cleared");
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, false); }
