// L01: the SPSC queue is a bounded FIFO under every schedule.
#define SCHED_RUNTIME
#include "sched.hpp"
#include <deque>
extern "C" {
#include "my_queue.h"
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
}
using namespace vf;

// allocations of the queue: guarded, counted, and the shared memory of the model
struct Alloc { uint8_t *p; size_t n; };
static bool recording = false;
static std::vector<Alloc> allocs;
static const size_t G = 64;
static str heap_error;
extern "C" {
void *__real_calloc(size_t, size_t); void *__real_malloc(size_t); void __real_free(void *);
static void *guarded(size_t n, int fill) {
	uint8_t *p = (uint8_t *)__real_malloc(n + 2 * G);
	memset(p, 0xa5, n + 2 * G); memset(p + G, fill, n);
	recording = false; allocs.push_back({p + G, n}); recording = true;
	return p + G;
}
void *__wrap_calloc(size_t a, size_t b) { return recording ? guarded(a * b, 0) : __real_calloc(a, b); }
void *__wrap_malloc(size_t n) { return recording ? guarded(n, 0x5a) : __real_malloc(n); }
static bool guards_ok(const Alloc &a) { for (size_t i = 0; i < G; i++) if (a.p[-1 - (long)i] != 0xa5 || a.p[a.n + i] != 0xa5) return false; return true; }
void __wrap_free(void *p) {
	for (size_t i = 0; p && i < allocs.size(); i++) if (allocs[i].p == p) {
		if (!guards_ok(allocs[i])) heap_error = "wrote outside an allocation";
		allocs.erase(allocs.begin() + i); __real_free((uint8_t *)p - G); return;
	}
	__real_free(p);
}
}
static void cleanup() { for (auto &a : allocs) __real_free(a.p - G); allocs.clear(); heap_error.clear(); }

struct Impl { const char *name; struct my_queue_ops o; };
static std::vector<Impl> impls() {
	std::vector<Impl> v;
	v.push_back({"barrier", my_queue_mb_ops}); v.push_back({"mutex", my_queue_mutex_ops});
	struct my_queue_ops d = {my_queue_init, my_queue_destroy, my_queue_impl_type, my_queue_insert, my_queue_remove};
	v.push_back({"default", d});
	return v;
}
static str element(unsigned i, unsigned size) { str s; for (unsigned k = 0; k < size; k++) s += (char)(1 + (i * 37 + k * 11) % 250); return s; }
static struct my_queue *make(const Impl &im, unsigned n, unsigned size) { recording = true; struct my_queue *q = im.o.init(n, size); recording = false; return q; }
static void destroy(Ctx &c, const Impl &im, struct my_queue *q) {
	im.o.destroy(&q);
	c.check(q == nullptr, "destroy", "destroying a queue leaves the pointer set");
	c.check(heap_error.empty(), "heap", heap_error);
	c.check(allocs.empty(), "leak", fmt("%zu allocation(s) left after destroying the queue", allocs.size()));
	recording = true; im.o.destroy(&q); recording = false;	// of nothing
}

static void sequential(Ctx &c, const Impl &im) {
	unsigned n = c.pick(std::vector<unsigned>{2, 4, 8}, "entries"), size = c.pick(std::vector<unsigned>{1, 2, 3, 4, 8, 16, 64}, "size");
	int depth = c.T(12, 16);
	c.mine();
	struct my_queue *q = make(im, n, size);
	c.check(q, "init", "init failed");
	std::deque<str> ref; unsigned next = 0;
	for (int i = 0; i < depth; i++) {
		int op = c.choose(2);
		if (op == 0) {
			str e = element(next, size);
			unsigned space = 999;
			bool with = (next + i) & 1 || true;
			bool r = im.o.insert(q, (void *)e.data(), with ? &space : nullptr), want = ref.size() < n - 1;
			c.eq(r, want, "insert result");
			if (want) { ref.push_back(e); next++; }
			c.eq(space, n - 1 - ref.size(), "space");
		} else {
			str got(size + 2, '\xee'); unsigned count = 999;
			bool r = im.o.remove(q, &got[1], &count), want = !ref.empty();
			c.eq(r, want, "remove result");
			if (want) { c.eqs(got, "\xee" + ref.front() + "\xee", "element"); ref.pop_front(); }
			else c.eqs(got, str(size + 2, '\xee'), "element of an empty queue");
			c.eq(count, ref.size(), "count");
		}
		for (auto &a : allocs) c.check(guards_ok(a), "heap", "wrote outside the queue");
		c.state(hash_str(im.name, ref.size() * 1000003 + next * 31 + n * 7 + size));
	}
	// the optional results may be left out
	str e = element(next, size), got(size, 0);
	bool r = im.o.insert(q, (void *)e.data(), nullptr);
	c.eq(r, ref.size() < n - 1, "insert result");
	if (r) ref.push_back(e);
	while (!ref.empty()) { c.eq(im.o.remove(q, &got[0], nullptr), true, "remove result"); c.eqs(got, ref.front(), "element"); ref.pop_front(); }
	c.eq(im.o.remove(q, &got[0], nullptr), false, "remove from the emptied queue");
	destroy(c, im, q);
}

// large queues and large elements: filled, drained by half, filled again across the end, and drained
static void large(Ctx &c, const Impl &im) {
	static const std::vector<std::pair<unsigned, unsigned>> shapes = {{16, 3}, {16, 255}, {16, 256}, {16, 257}, {64, 1000}, {2, 65535}, {2, 65536}, {2, 70000}, {4, 1 << 20}, {128, 12}, {256, 5}, {512, 1}, {1024, 4}, {32768, 8}, {65536, 1}, {65536, 8}, {131072, 2}, {131072, 40}, {1 << 20, 1}};
	auto sh = c.pick(shapes); unsigned n = sh.first, size = sh.second, first = c.pick(std::vector<unsigned>{0, 1, 2}), cap = n - 1;
	c.mine();
	struct my_queue *q = make(im, n, size);
	c.check(q, "init", "init failed");
	std::vector<char> e(size), got(size + 2);
	auto fill = [&](unsigned i) { uint64_t h = vf::mix(i + 77); for (unsigned k = 0; k < size; k++) { if (k % 8 == 0) h = vf::mix(h); e[k] = (char)(h >> k % 8 * 8); } };
	unsigned in = 0, out = 0, x;
	str what = fmt("%s queue of %u elements of %u bytes: ", im.name, n, size);
	auto put = [&]() { fill(in); x = ~0u; bool r = im.o.insert(q, e.data(), &x), want = in - out < cap; if (r != want) c.fail("insert result", what + fmt("%u of %u held", in - out, cap)); if (r) in++; if (x != cap - (in - out)) c.fail("space", what + fmt("%u reported, %u held", x, in - out)); c.step(); };
	auto get = [&]() { std::fill(got.begin(), got.end(), '\xee'); x = ~0u; bool r = im.o.remove(q, &got[1], &x), want = in != out; if (r != want) c.fail("remove result", what + fmt("%u held", in - out));
		if (r) { fill(out++); if (memcmp(e.data(), &got[1], size)) c.fail("element", what + fmt("number %u", out - 1)); } if (got[0] != '\xee' || got[size + 1] != '\xee') c.fail("overrun", what + "remove wrote outside the element"); if (x != in - out) c.fail("count", what + fmt("%u reported, %u held", x, in - out)); c.step(); };
	for (unsigned i = 0; i < first; i++) { put(); get(); }
	while (in - out < cap) put(); put();
	for (unsigned i = 0; i < n / 2; i++) get();
	while (in - out < cap) put(); put();
	while (in != out) get(); get();
	for (auto &a : allocs) c.check(guards_ok(a), "heap", "wrote outside the queue");
	c.state(hash_str(what, first)); c.trace("%s%u", what.c_str(), first);
	destroy(c, im, q);
}
static void concurrent(Ctx &c, const Impl &im) {
	bool relaxed = c.flip("relaxed");
	unsigned n = c.pick(std::vector<unsigned>{2, 4}, "entries");
	unsigned size = c.pick(relaxed ? std::vector<unsigned>{4, 8} : std::vector<unsigned>{1, 4, 8}, "size");
	unsigned rot = c.choose(n, "rotation"), pre = c.choose(n, "pre-filled");
	int np = c.choose(c.T(3, 4), "inserts") + 1, nc = c.choose(c.T(3, 4), "removes") + 1;
	if (relaxed && np + nc > c.T(5, 7)) throw Cut();
	c.mine();
	struct my_queue *q = make(im, n, size);
	c.check(q, "init", "init failed");
	str tmp(size, 0);
	for (unsigned i = 0; i < rot; i++) { str e = element(200 + i, size); im.o.insert(q, (void *)e.data(), nullptr); im.o.remove(q, &tmp[0], nullptr); }
	unsigned ins = 0;
	for (unsigned i = 0; i < pre; i++) { str e = element(ins++, size); c.check(im.o.insert(q, (void *)e.data(), nullptr), "prefill", "insert into a queue with room failed"); }
	struct { unsigned ins_done, ins_begun, rem_done, rem_begun; bool dirty[2]; } s = {pre, pre, 0, 0, {false, false}};
	unsigned taken = 0;
	{
		sched::World w(c, relaxed);
		for (auto &a : allocs) w.share(a.p, a.n);
		unsigned cap = n - 1;
		// what the operations must report, from what is certain about the other side
		w.spawn([&]() {
			for (int k = 0; k < np; k++) {
				uint8_t e[64]; memcpy(e, element(s.ins_done, size).data(), size);
				unsigned space = 999;
				// removals certainly complete, and visible, before this call
				unsigned rem0 = relaxed && !w.f[1]->pending.empty() ? 0 : s.rem_done;
				s.ins_begun = s.ins_done + 1;
				w.summary(mix(k * 1000 + rem0));
				bool r = im.o.insert(q, e, &space);
				if (r) s.ins_done++;
				s.ins_begun = s.ins_done;
				unsigned rem1 = s.rem_begun;
				if (!r && s.ins_done - rem0 < cap) throw Fail{"refused", fmt("insert failed although at most %u of %u places were taken", s.ins_done - rem0, cap)};
				if (r && s.ins_done - rem1 > cap) throw Fail{"overfull", "more elements inserted than the queue holds"};
				unsigned lo = cap - (s.ins_done - rem0), hi = cap - (s.ins_done - rem1);
				if (lo > cap) lo = 0;
				if (space < lo || space > hi) throw Fail{"space", fmt("insert reported %u places left, between %u and %u were", space, lo, hi)};
				w.summary(mix(k * 1000 + 500));
			}
		});
		w.spawn([&]() {
			for (int k = 0; k < nc; k++) {
				unsigned count = 999;
				unsigned ins0 = relaxed && !w.f[0]->pending.empty() ? (pre > 0 ? pre : 0) : s.ins_done;
				if (relaxed && !w.f[0]->pending.empty()) ins0 = std::max(pre, taken);
				s.rem_begun = s.rem_done + 1;
				w.summary(mix(k * 1000 + ins0 + 7));
				uint8_t buf[80]; memset(buf, 0xee, sizeof buf);
				bool r = im.o.remove(q, buf + 1, &count);
				unsigned ins1 = s.ins_begun;
				if (buf[0] != 0xee || buf[size + 1] != 0xee) throw Fail{"overrun", "remove wrote outside the element"};
				if (r) {
					s.rem_done++;
					if (s.rem_done > ins1) throw Fail{"invented", "remove returned an element that had not been inserted"};
					str want = element(taken, size), g((char *)buf + 1, size);
					if (g != want) throw Fail{"fifo", fmt("remove number %u returned %s, expected %s", taken, hex(g).c_str(), hex(want).c_str())};
					taken++;
				}
				s.rem_begun = s.rem_done;
				if (!r && ins0 > s.rem_done) throw Fail{"lost", fmt("remove found nothing although %u elements were in the queue", ins0 - s.rem_done)};
				unsigned lo = ins0 > s.rem_done ? ins0 - s.rem_done : 0, hi = ins1 - s.rem_done;
				if (count < lo || count > hi) throw Fail{"count", fmt("remove reported %u elements left, between %u and %u were", count, lo, hi)};
				w.summary(mix(k * 1000 + 507));
			}
		});
		w.extra = [&]() { return mix(s.ins_done * 1000003ULL + s.ins_begun * 10007 + s.rem_done * 101 + s.rem_begun * 11 + taken * 3) ^ mix((uintptr_t)im.name[0] + n * 100 + size * 10000 + rot * 7 + pre * 77 + np * 777 + nc * 7777 + relaxed * 77777); };
		c.check(w.run(), "deadlock", "the threads block each other for ever");
	}
	// afterwards the rest comes out in order
	str got(size, 0);
	while (taken < s.ins_done) { c.eq(im.o.remove(q, &got[0], nullptr), true, "remaining elements"); c.eqs(got, element(taken, size), "remaining element"); taken++; }
	c.eq(im.o.remove(q, &got[0], nullptr), false, "remove from the drained queue");
	destroy(c, im, q);
}

static void body(Ctx &c) {
	cleanup();
	static auto im = impls();
	const Impl &i = im[c.choose(3, "implementation")];
	int kind = c.choose(4, "kind");
	if (kind == 3) large(c, i);
	else if (kind == 0) sequential(c, i);
	else if (kind == 1) concurrent(c, i);
	else {
		unsigned n = c.choose(70, "entries");
		c.mine();
		if (n > 66) n = n == 67 ? 1u << 16 : n == 68 ? 0x80000001u : 0xffffffffu;
		struct my_queue *q = make(i, n, 4);
		bool want = n >= 2 && (n & (n - 1)) == 0;
		c.eq(q != nullptr, want, "init of this size");
		c.check(i.o.impl_type() && *i.o.impl_type(), "type", "no implementation type");
		if (q) destroy(c, i, q); else c.check(allocs.empty(), "leak", "refused init leaks");
	}
	cleanup();
}
int main(int argc, char **argv) { return run(argc, argv, body); }
