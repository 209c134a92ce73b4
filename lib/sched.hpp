// A controlled scheduler for real code compiled with clang -fsanitize=thread but linked with this
// run-time instead of ThreadSanitizer's: every memory access outside the thread's own stack, every
// atomic operation, every lock operation and every call marked with point() is a scheduling point.
// "Threads" are fibers of one OS thread.  Each scheduling decision is a vf choice; states reached
// before (memory, locks, what each thread has read in its current operation) are not expanded again.
//
// relaxed = true: stores become visible to the other threads in any order that the fences in the
// code allow (stores may overtake earlier stores to other locations; fences, atomics and locks order
// them), which is what the C compiler and weakly ordered machines may do.
#pragma once
#include "vf.hpp"
#include <pthread.h>
#include <memory>

extern "C" void vf_swap(void **save, void *to);
asm(R"(
.text
.globl vf_swap
.type vf_swap,@function
vf_swap:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size vf_swap,.-vf_swap
)");

extern "C" char __data_start, _end;
namespace sched {
using vf::str;

struct Write { uint8_t *p; std::vector<uint8_t> b; bool barrier; };

struct Fiber {
	struct Stack {
		uint8_t *p; static const size_t n = 2048 * 1024;
		static std::vector<uint8_t *> &pool() { static std::vector<uint8_t *> v; return v; }
		Stack() { if (pool().empty()) p = (uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); else { p = pool().back(); pool().pop_back(); } }
		~Stack() { pool().push_back(p); }
		Stack(const Stack &) = delete;
		uint8_t *data() const { return p; }
		size_t size() const { return n; }
	} stack;
	void *sp = nullptr;
	std::function<void()> fn;
	bool done = false, started = false, dead = false;
	void *waits = nullptr;			// lock it waits for
	uint64_t local = 0;			// hash of what determines its continuation
	std::vector<Write> pending;		// relaxed: stores not yet visible to others
	uint8_t *ann = nullptr; size_t annn = 0;	// announced store, not yet recorded
	std::vector<std::vector<uint8_t>> view;	// relaxed: its view of each region
	std::map<void *, std::vector<uint8_t>> tls;
	std::map<unsigned, void *> specific;
	bool in_stack(const void *p) const { return (uint8_t *)p >= stack.data() && (uint8_t *)p < stack.data() + stack.size(); }
};

struct Region { uint8_t *p; size_t n; bool global; std::vector<uint8_t> init; };

struct World;
inline World *&W() { static World *w = nullptr; return w; }

struct World {
	vf::Ctx &c;
	bool relaxed;
	int bound;			// preemptions allowed, -1: any number
	std::vector<std::unique_ptr<Fiber>> f;
	std::vector<Region> reg;
	std::map<void *, int> lock;	// owner + 1
	int cur = -1, last = -1, preempt = 0;
	void *main_sp = nullptr;
	bool failed = false; vf::Fail failure;
	std::function<uint64_t()> extra;	// more state
	std::function<bool(int)> enabled;	// may fiber i be scheduled
	uint64_t points = 0;
	bool prune = true;
	uint64_t given;			// the parameters decided before: states of different worlds are different states
	bool shared_only = false;	// only variables of the program and what was given to share() are scheduling points
	uint64_t schedule = 0;		// hash of who ran when
	bool calls = false;		// entering and leaving functions are scheduling points, too

	World(vf::Ctx &c_, bool relaxed_ = false, int bound_ = -1) : c(c_), relaxed(relaxed_), bound(bound_), given(c_.decided()) { W() = this; }
	~World() {
		W() = nullptr;
		for (auto &r : reg) if (r.global) memcpy(r.p, r.init.data(), r.n);
	}
	void spawn(std::function<void()> fn) {
		auto x = std::make_unique<Fiber>();
		x->fn = fn;
		uintptr_t top = ((uintptr_t)x->stack.data() + x->stack.size()) & ~15UL;
		void **sp = (void **)top;
		*--sp = nullptr;			// alignment: entry sees rsp % 16 == 8
		*--sp = (void *)&World::entry;
		for (int i = 0; i < 6; i++) *--sp = nullptr;
		x->sp = sp;
		f.push_back(std::move(x));
	}
	static void entry() {
		World *w = W();
		Fiber &x = *w->f[w->cur];
		try { x.fn(); }
		catch (vf::Fail &e) { w->failed = true; w->failure = e; }
		catch (...) { w->failed = true; w->failure = vf::Fail{"exception", "exception in a thread"}; }
		x.done = true;
		w->leave();
		abort();
	}
	void share(void *p, size_t n) { reg.push_back(Region{(uint8_t *)p, n, false, {}}); for (auto &x : f) x->view.push_back(std::vector<uint8_t>((uint8_t *)p, (uint8_t *)p + n)); }
	void touch(uint8_t *p, size_t n) {
		if (p < (uint8_t *)&__data_start || p >= (uint8_t *)&_end) return;	// not a variable of this program
		for (uint8_t *q = (uint8_t *)((uintptr_t)p & ~7UL); q < p + n; q += 8) {
			bool have = false;
			for (auto &r : reg) if (q + 8 > r.p && q < r.p + r.n) { have = true; break; }
			if (have) continue;
			reg.push_back(Region{q, 8, true, std::vector<uint8_t>(q, q + 8)});
			for (auto &x : f) if (relaxed) x->view.push_back(std::vector<uint8_t>(q, q + 8));
		}
	}
	void record(Fiber &x) {
		if (!x.ann) return;
		if (relaxed) x.pending.push_back(Write{x.ann, std::vector<uint8_t>(x.ann, x.ann + x.annn), false});
		x.ann = nullptr;
	}
	void barrier() { if (cur < 0) return; Fiber &x = *f[cur]; record(x); if (relaxed && !x.pending.empty() && !x.pending.back().barrier) x.pending.push_back(Write{nullptr, {}, true}); }
	void publish(int i, const Write &w) {
		for (size_t j = 0; j < f.size(); j++) if ((int)j != i)
			for (size_t k = 0; k < reg.size(); k++)
				for (size_t b = 0; b < w.b.size(); b++) {
					uint8_t *a = w.p + b;
					if (a < reg[k].p || a >= reg[k].p + reg[k].n) continue;
					if ((int)j == cur) *a = w.b[b];	// cannot happen: cur is i
					f[j]->view[k][a - reg[k].p] = w.b[b];
				}
	}
	void drain() { if (cur < 0) return; Fiber &x = *f[cur]; record(x); for (auto &w : x.pending) if (!w.barrier) publish(cur, w); x.pending.clear(); }
	// --- called from a fiber
	void leave() { int me = cur; cur = -1; vf_swap(&f[me]->sp, main_sp); }
	void point() {
		if (cur < 0) return;
		Fiber &x = *f[cur];
		record(x);
		points++;
		x.local = vf::mix(x.local + 0x9e37);
		leave();
	}
	void saw(const void *p, size_t n) { if (cur >= 0) f[cur]->local = vf::hash_bytes(p, n, f[cur]->local); }
	void summary(uint64_t h) { if (cur >= 0) f[cur]->local = h; }
	bool known(const void *p, size_t n) {
		if ((uint8_t *)p + n > (uint8_t *)&__data_start && (uint8_t *)p < (uint8_t *)&_end) return true;
		for (auto &r : reg) if (!r.global && (uint8_t *)p + n > r.p && (uint8_t *)p < r.p + r.n) return true;
		return false;
	}
	bool is_shared(const void *p) { if (shared_only && !known(p, 1)) return false; return cur >= 0 && !f[cur]->in_stack(p) && !is_tls(p); }
	bool is_tls(const void *p) { for (auto &t : f[cur]->tls) if ((uint8_t *)p >= t.second.data() && (uint8_t *)p < t.second.data() + t.second.size()) return true; return false; }
	void on_read(void *p, size_t n) { if (!is_shared(p)) return; touch((uint8_t *)p, n); point(); saw(p, n); }
	void on_write(void *p, size_t n) { if (!is_shared(p)) return; touch((uint8_t *)p, n); point(); Fiber &x = *f[cur]; x.ann = (uint8_t *)p; x.annn = n; }
	void acquire(void *m) {
		if (cur < 0) { if (lock[m]) { throw vf::Fail{"lock", "main thread would block"}; } lock[m] = 1000; return; }
		point();
		while (lock[m]) { f[cur]->waits = m; leave(); f[cur]->waits = nullptr; }
		drain();
		lock[m] = cur + 1;
	}
	bool try_acquire(void *m) {
		if (cur < 0) { if (lock[m]) return false; lock[m] = 1000; return true; }
		point(); drain();
		bool ok = !lock[m];
		if (ok) lock[m] = cur + 1;
		saw(&ok, 1);
		return ok;
	}
	void release(void *m) {
		if (cur < 0) { lock[m] = 0; return; }
		point(); drain();
		lock[m] = 0;
	}
	// --- main loop
	void step(int i) {
		Fiber &x = *f[i];
		if (relaxed) { for (size_t k = 0; k < reg.size(); k++) memcpy(reg[k].p, x.view[k].data(), reg[k].n); }
		cur = i; x.started = true;
		vf_swap(&main_sp, x.sp);
		cur = -1;
		if (x.done) record(x);
		if (relaxed) for (size_t k = 0; k < reg.size(); k++) x.view[k].assign(reg[k].p, reg[k].p + reg[k].n);
		c.step();
	}
	uint64_t key() {
		uint64_t h = vf::mix(given ^ (extra ? extra() : 0));
		std::map<uint8_t *, size_t> g;
		for (size_t k = 0; k < reg.size(); k++) {
			if (reg[k].global) { g[reg[k].p] = k; continue; }
			if (!relaxed) h = vf::hash_bytes(reg[k].p, reg[k].n, h);
			else for (auto &x : f) h = vf::hash_bytes(x->view[k].data(), reg[k].n, h);
		}
		for (auto &e : g) {
			if (!relaxed) h = vf::hash_bytes(e.first, 8, h);
			else for (auto &x : f) h = vf::hash_bytes(x->view[e.second].data(), 8, h);
		}
		for (auto &x : f) {
			h = vf::mix(h ^ x->local) + x->done + 2 * x->started + 4 * (x->waits != nullptr) + 8 * x->dead;
			for (auto &w : x->pending) {
				// the place in the region list, not the address
				uint64_t at = 0; for (size_t k = 0; k < reg.size(); k++) if (w.p >= reg[k].p && w.p < reg[k].p + reg[k].n) at = reg[k].global ? (uint64_t)w.p : (k << 20) + (w.p - reg[k].p);
				h = vf::hash_bytes(w.b.data(), w.b.size(), vf::mix(h + at + w.barrier));
			}
		}
		for (auto &l : lock) h = vf::mix(h * 31 + l.second);
		if (bound >= 0) h = vf::mix(h * 31 + preempt * 64 + last);
		return h;
	}
	void finish_views() {	// after the end: everything becomes visible; memory holds the final state
		if (!relaxed) return;
		for (size_t i = 0; i < f.size(); i++) { for (auto &w : f[i]->pending) if (!w.barrier) publish((int)i, w); f[i]->pending.clear(); }
		if (!f.empty()) for (size_t k = 0; k < reg.size(); k++) memcpy(reg[k].p, f[0]->view[k].data(), reg[k].n);
	}
	// run until every thread is done; false if the rest is blocked for ever
	bool run() {
		if (relaxed) for (auto &x : f) { x->view.clear(); for (auto &r : reg) x->view.push_back(std::vector<uint8_t>(r.p, r.p + r.n)); }
		for (;;) {
			struct Act { int i; int w; };
			std::vector<Act> a;
			bool alive = false;
			for (size_t i = 0; i < f.size(); i++) {
				Fiber &x = *f[i];
				if (!x.done && !x.dead) {
					alive = true;
					bool can = !(x.waits && lock[x.waits]) && (!enabled || enabled((int)i));
					if (can && bound >= 0 && preempt >= bound && last >= 0 && last != (int)i && !f[last]->done && !f[last]->dead && !(f[last]->waits && lock[f[last]->waits]) && (!enabled || enabled(last))) can = false;
					if (can) a.push_back({(int)i, -1});
				}
				bool first = true;
				for (size_t k = 0; k < x.pending.size(); k++) {
					if (x.pending[k].barrier) { if (first) continue; break; }
					bool over = false;
					for (size_t m = 0; m < k; m++) if (!x.pending[m].barrier && x.pending[m].p < x.pending[k].p + x.pending[k].b.size() && x.pending[k].p < x.pending[m].p + x.pending[m].b.size()) over = true;
					if (!over) a.push_back({(int)i, (int)k});
					first = false;
				}
			}
			if (!alive) { finish_views(); return true; }	// what is still pending no longer matters to anybody
			bool any = false; for (auto &x : a) if (x.w < 0) any = true;
			if (!any && a.empty()) return false;
			if (prune) c.visit(key());
			Act x = a.size() == 1 ? a[0] : a[c.choose((int)a.size())];
			if (x.w >= 0) {
				Fiber &y = *f[x.i];
				c.trace("t%d store visible", x.i);
				Write w = y.pending[x.w];
				y.pending.erase(y.pending.begin() + x.w);
				while (!y.pending.empty() && y.pending[0].barrier) y.pending.erase(y.pending.begin());
				publish(x.i, w);
			} else {
				c.trace("t%d", x.i);
				if (last >= 0 && last != x.i && !f[last]->done && !f[last]->dead && !(f[last]->waits && lock[f[last]->waits])) preempt++;
				if (last != x.i) schedule = vf::mix(schedule * 31 + points * 8 + x.i);
				last = x.i;
				step(x.i);
			}
			if (failed) throw failure;
		}
	}
};

inline void point() { if (W()) W()->point(); }

} // namespace sched

#ifdef SCHED_RUNTIME
extern "C" {
#define VF_S sched::World *w = sched::W()
void __tsan_init() {}
void __tsan_func_entry(void *) { VF_S; if (w && w->calls) w->point(); }
void __tsan_func_exit() { VF_S; if (w && w->calls) w->point(); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define VF_RW(n) \
void __tsan_read##n(void *p) { VF_S; if (w) w->on_read(p, n); } \
void __tsan_write##n(void *p) { VF_S; if (w) w->on_write(p, n); } \
void __tsan_unaligned_read##n(void *p) { VF_S; if (w) w->on_read(p, n); } \
void __tsan_unaligned_write##n(void *p) { VF_S; if (w) w->on_write(p, n); }
VF_RW(1) VF_RW(2) VF_RW(4) VF_RW(8) VF_RW(16)
void __tsan_read_range(void *p, unsigned long n) { VF_S; if (w) w->on_read(p, n); }
void __tsan_write_range(void *p, unsigned long n) { VF_S; if (w) w->on_write(p, n); }
static void vf_copy(char *d, const char *s, size_t n, bool back) {
	VF_S;
	if (!w || w->cur < 0 || (w->shared_only && !w->known(d, n) && !w->known(s, n))) { memmove(d, s, n); return; }
	size_t step = 4;
	size_t k = (n + step - 1) / step;
	for (size_t j = 0; j < k; j++) {
		size_t i = back ? k - 1 - j : j, m = std::min(step, n - i * step);
		char tmp[4];
		if (w) w->on_read((void *)(s + i * step), m);
		memcpy(tmp, s + i * step, m);
		if (w) w->on_write(d + i * step, m);
		memcpy(d + i * step, tmp, m);
	}
}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { vf_copy((char *)d, (const char *)s, n, false); return d; }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { vf_copy((char *)d, (const char *)s, n, d > s); return d; }
void *__tsan_memset(void *d, int v, unsigned long n) { VF_S; if (w) w->on_write(d, n); return memset(d, v, n); }
#define VF_AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *p, int mo) { VF_S; if (w && w->cur >= 0) { w->touch((uint8_t *)p, sizeof(T)); w->point(); if (mo == 5) w->drain(); w->saw((void *)p, sizeof(T)); } return *p; } \
void __tsan_atomic##b##_store(volatile T *p, T v, int mo) { VF_S; if (w && w->cur >= 0) { if (mo >= 3) w->barrier(); w->on_write((void *)p, sizeof(T)); } *p = v; if (w && w->cur >= 0) { w->record(*w->f[w->cur]); if (mo == 5) w->drain(); } } \
static T vf_rmw##b(volatile T *p, T (*op)(T, T), T v) { VF_S; if (w && w->cur >= 0) { w->touch((uint8_t *)p, sizeof(T)); w->point(); w->drain(); } T o = *p; *p = op(o, v); if (w && w->cur >= 0) { w->saw(&o, sizeof o); sched::Fiber &x = *w->f[w->cur]; x.ann = (uint8_t *)p; x.annn = sizeof(T); w->drain(); } return o; } \
T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { return vf_rmw##b(p, [](T, T x) -> T { return x; }, v); } \
T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { return vf_rmw##b(p, [](T o, T x) -> T { return o + x; }, v); } \
T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { return vf_rmw##b(p, [](T o, T x) -> T { return o - x; }, v); } \
T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { return vf_rmw##b(p, [](T o, T x) -> T { return o & x; }, v); } \
T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { return vf_rmw##b(p, [](T o, T x) -> T { return o | x; }, v); } \
T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { return vf_rmw##b(p, [](T o, T x) -> T { return o ^ x; }, v); } \
T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int) { return vf_rmw##b(p, [](T o, T x) -> T { return ~(o & x); }, v); } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { VF_S; if (w && w->cur >= 0) { w->touch((uint8_t *)p, sizeof(T)); w->point(); w->drain(); } T o = *p; bool ok = o == *e; if (ok) *p = v; else *e = o; if (w && w->cur >= 0) { w->saw(&o, sizeof o); if (ok) { sched::Fiber &x = *w->f[w->cur]; x.ann = (uint8_t *)p; x.annn = sizeof(T); } w->drain(); } return ok; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int a, int c) { T x = e; __tsan_atomic##b##_compare_exchange_strong(p, &x, v, a, c); return x; }
VF_AT(8, uint8_t) VF_AT(16, uint16_t) VF_AT(32, uint32_t) VF_AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { VF_S; if (w && w->cur >= 0) { if (mo == 5) w->drain(); else w->barrier(); } }
void __tsan_atomic_signal_fence(int) { VF_S; if (w) w->barrier(); }
// what the build makes of asm statements that clobber memory
void vf_asm_barrier(void) { VF_S; if (w) w->barrier(); }
void vf_asm_fence(void) { VF_S; if (w) w->drain(); }
// thread-local variables (-femulated-tls)
struct vf_emutls { size_t size, align; void *x; void *init; };
void *__emutls_get_address(vf_emutls *o) {
	VF_S;
	static std::map<void *, std::vector<uint8_t>> *main_tls = new std::map<void *, std::vector<uint8_t>>;
	std::map<void *, std::vector<uint8_t>> &m = (w && w->cur >= 0) ? w->f[w->cur]->tls : *main_tls;
	auto &v = m[o];
	if (v.empty()) { v.resize(o->size + 64); if (o->init) memcpy(v.data(), o->init, o->size); }
	return v.data();
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { VF_S; if (w) w->acquire(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { VF_S; return !w || w->try_acquire(m) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { VF_S; if (w) w->release(m); return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { VF_S; if (w) w->acquire((void *)m); return 0; }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *m) { VF_S; return !w || w->try_acquire((void *)m) ? 0 : EBUSY; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { VF_S; if (w) w->release((void *)m); return 0; }
}
#endif
