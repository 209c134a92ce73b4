// L15: thread numbers are dense and distinct, atomic counters lose no update, under every schedule.
#define SCHED_RUNTIME
#include "sched.hpp"
extern "C" {
#include "threadnum.h"
long op32(void *v, int op, int i);
long op64(void *v, int op, int i);
void *ptr_get(void *v);
int ptr_set(void *v, void *x);
}
using namespace vf;

static void threads(Ctx &c) {
	bool relaxed = c.flip("relaxed");
	int n = c.choose(c.T(3, 4), "threads") + 1;
	int again = c.choose(2, "read twice");
	c.mine();
	std::vector<int> num(n, -1), num2(n, -1);
	int base = -1, after = -1;
	{
		sched::World w(c, relaxed);
		for (int i = 0; i < n; i++) w.spawn([&, i]() {
			my_threadnum_register();
			w.summary(0);
			num[i] = my_threadnum();
			w.summary(1);
			if (again) { num2[i] = my_threadnum(); w.summary(2); } else num2[i] = num[i];
		});
		w.extra = [&]() { uint64_t h = n * 4 + again * 2 + relaxed; for (int i = 0; i < n; i++) h = mix(h * 31 + num[i] * 7 + num2[i]); return h; };
		c.check(w.run(), "deadlock", "registering threads block each other for ever");
		// the next one follows on
		w.f.clear(); w.last = -1;
		w.spawn([&]() { my_threadnum_register(); after = my_threadnum(); });
		w.c.check(w.run(), "deadlock", "a later registration blocks");
		c.eq(after, n, "number of the next thread");
	}
	std::vector<int> s = num;
	std::sort(s.begin(), s.end());
	for (int i = 0; i < n; i++) {
		c.check(s[i] == i, "numbers", fmt("%d threads have numbers %d %d %d %d", n, num[0], n > 1 ? num[1] : -1, n > 2 ? num[2] : -1, n > 3 ? num[3] : -1));
		c.check(num2[i] == num[i], "stable", "a thread's number changed");
	}
}

struct Op { int op, i; };
static const char *opname[] = {"add", "sub", "zero", "sub_and_test", "inc", "dec", "dec_and_test", "inc_and_test", "add_negative", "read", "set"};
static long ref(int64_t &v, const Op &o, bool w64) {
	long r = 0;
	auto wrap = [&](__int128 x) { return w64 ? (int64_t)x : (int64_t)(int32_t)x; };
	switch (o.op) {
	case 0: v = wrap((__int128)v + o.i); break;
	case 1: v = wrap((__int128)v - o.i); break;
	case 2: r = v; v = 0; break;
	case 3: v = wrap((__int128)v - o.i); r = v == 0; break;
	case 4: v = wrap((__int128)v + 1); break;
	case 5: v = wrap((__int128)v - 1); break;
	case 6: v = wrap((__int128)v - 1); r = v == 0; break;
	case 7: v = wrap((__int128)v + 1); r = v == 0; break;
	case 8: v = wrap((__int128)v + o.i); r = v < 0; break;
	case 9: r = v; break;
	case 10: v = o.i; break;
	}
	return r;
}
// some order of the operations, keeping each thread's, explains the results and the final value
static bool explain(const std::vector<std::vector<Op>> &p, const std::vector<std::vector<long>> &res, std::vector<size_t> at, int64_t v, int64_t final, bool w64) {
	bool end = true;
	for (size_t t = 0; t < p.size(); t++) if (at[t] < p[t].size()) {
		end = false;
		int64_t x = v;
		if (ref(x, p[t][at[t]], w64) != res[t][at[t]]) continue;
		auto b = at; b[t]++;
		if (explain(p, res, b, x, final, w64)) return true;
	}
	return end && v == final;
}
static void counters(Ctx &c) {
	bool w64 = c.flip("64 bit");
	bool relaxed = false;
	int nt = c.choose(3, "threads") + 1, per = nt == 3 ? 1 : nt == 2 ? c.T(1, 2) : 2;
	static const std::vector<int64_t> start32 = {0, 1, -1, 2, 3, INT32_MAX - 4LL, INT32_MIN + 4LL};
	static const std::vector<int64_t> start64 = {0, 1, -1, 2, 3, 0x100000001LL, 0x1ffffffffLL, -0x100000000LL, 0x8000000000LL, INT64_MAX - 4};
	int64_t v0 = nt == 1 ? c.pick(w64 ? start64 : start32, "start") : c.pick(w64 ? std::vector<int64_t>{0, 1, 2, 0x200000000LL} : std::vector<int64_t>{0, 1, 2}, "start");
	std::vector<std::vector<Op>> p(nt);
	for (int t = 0; t < nt; t++) for (int k = 0; k < per; k++) {
		Op o; o.op = c.choose(11, "op");
		static const std::vector<int> args = {1, 2, -1, 0};
		o.i = (o.op == 4 || o.op == 5 || o.op == 6 || o.op == 7 || o.op == 2 || o.op == 9) ? 0 : nt == 1 ? c.pick(args) : c.pick(std::vector<int>{1, -2});
		if (nt > 1 && (o.op == 10)) throw Cut();	// plain stores are not atomic with respect to the rest
		p[t].push_back(o);
		c.trace("t%d: %s %d", t, opname[o.op], o.i);
	}
	c.mine();
	alignas(8) static int64_t cell;
	static struct { int64_t before, v, after; } box;
	box.before = 0x5555555555555555; box.after = 0x6666666666666666;
	if (w64) box.v = v0; else { box.v = 0x7777777700000000 | (uint32_t)v0; }
	std::vector<std::vector<long>> res(nt, std::vector<long>(per, -99));
	{
		sched::World w(c, relaxed);
		for (int t = 0; t < nt; t++) w.spawn([&, t]() {
			for (int k = 0; k < per; k++) {
				res[t][k] = w64 ? op64(&box.v, p[t][k].op, p[t][k].i) : op32(&box.v, p[t][k].op, p[t][k].i);
				if (p[t][k].op != 2 && p[t][k].op != 9) res[t][k] = !!res[t][k];	// a truth value
				w.summary(k + 100);
			}
		});
		w.share(&box, sizeof box);
		w.prune = false;
		c.check(w.run(), "deadlock", "atomic operations block");
	}
	int64_t fin = w64 ? box.v : (int64_t)(int32_t)box.v;
	c.check(w64 || (box.v >> 32) == 0x77777777, "neighbour", "an operation on a 32-bit counter changed its neighbour");
	c.check(box.before == 0x5555555555555555 && box.after == 0x6666666666666666, "neighbour", "an operation changed a neighbouring variable");
	str what; for (int t = 0; t < nt; t++) for (int k = 0; k < per; k++) what += fmt("thread %d %s(%d)=%ld, ", t, opname[p[t][k].op], p[t][k].i, res[t][k]);
	c.check(explain(p, res, std::vector<size_t>(nt, 0), v0, fin, w64), "counter", fmt("start %lld, %sfinal value %lld: no order of these operations explains it", (long long)v0, what.c_str(), (long long)fin));
	c.state(hash_str(what, fin));
}
static void pointers(Ctx &c) {
	int nt = c.choose(2, "threads") + 1, per = c.choose(2, "calls") + 1;
	std::vector<std::vector<int>> p(nt);
	for (int t = 0; t < nt; t++) for (int k = 0; k < per; k++) p[t].push_back(c.choose(3, "0 get, 1/2 set"));
	c.mine();
	static void *v; static char obj[5];
	v = &obj[4];
	struct R { bool ok; void *got; };
	std::vector<std::vector<R>> r(nt, std::vector<R>(per));
	{
		sched::World w(c, false);
		for (int t = 0; t < nt; t++) w.spawn([&, t]() {
			for (int k = 0; k < per; k++) {
				if (p[t][k] == 0) r[t][k] = {true, ptr_get(&v)};
				else r[t][k] = {(bool)ptr_set(&v, &obj[t * 2 + p[t][k] - 1]), nullptr};
				w.summary(k + 100);
			}
		});
		w.share(&v, sizeof v);
		w.prune = false;
		c.check(w.run(), "deadlock", "atomic operations block");
	}
	// as operations on one cell; a set may fail only when another thread could have interfered
	std::function<bool(std::vector<size_t>, void *)> ex = [&](std::vector<size_t> at, void *x) {
		bool end = true;
		for (int t = 0; t < nt; t++) if (at[t] < p[t].size()) {
			end = false;
			auto &q = r[t][at[t]]; void *y = x;
			if (p[t][at[t]] == 0) { if (q.got != x) continue; }
			else if (q.ok) y = &obj[t * 2 + p[t][at[t]] - 1];
			else if (nt == 1) continue;
			auto b = at; b[t]++;
			if (ex(b, y)) return true;
		}
		return end && x == v;
	};
	c.check(ex(std::vector<size_t>(nt, 0), &obj[4]), "pointer", "no order of the operations explains their results");
	bool anyset = false, anyok = false;
	for (int t = 0; t < nt; t++) for (int k = 0; k < per; k++) if (p[t][k]) { anyset = true; anyok |= r[t][k].ok; }
	c.check(!anyset || anyok, "pointer", "every set failed");
}
// many threads, one after the other
static void many(Ctx &c) {
	int n = c.T(1100, 8000);
	c.mine();
	sched::World w(c, false);
	for (int i = 0; i < n; i++) {
		int got = -1;
		w.f.clear(); w.last = -1;
		w.spawn([&]() { my_threadnum_register(); got = my_threadnum(); });
		c.check(w.run(), "deadlock", "a registration blocks");
		if (got != i) c.fail("numbers", fmt("the thread registered after %d others has number %d", i, got));
	}
	c.state(mix(n));
}
static void body(Ctx &c) {
	switch (c.choose(4, "kind")) { case 0: threads(c); break; case 1: counters(c); break; case 3: many(c); break; default: pointers(c); break; }
}
int main(int argc, char **argv) { return run(argc, argv, body); }
