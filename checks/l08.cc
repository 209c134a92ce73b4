// L08: the binary heap, over all operation sequences (states with the same arrangement explored once).
#include "vf.hpp"
extern "C" {
#include <stdbool.h>
#include "heap.h"
}
using namespace vf;
struct El { int key, id; };
static int cmp(const void *a, const void *b) { int x = ((const El *)a)->key, y = ((const El *)b)->key; return x < y ? -65536 : x > y ? 65536 : 0; }
// many elements in every pattern of arrival, mixed ways of adding, taken out through pops and replacements
static void large(Ctx &c) {
	static El pool[1200];
	static const std::vector<int> sizes = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600};
	int n = c.pick(sizes), pat = c.choose(7), how = c.choose(5); c.mine(); int k = c.choose(4);
	c.state(hash_str(fmt("%d %d %d %d", n, pat, how, k)));
	struct heap *h = heap_init(cmp);
	std::multiset<int> m;
	auto val = [&](int i) { switch (pat) { case 0: return i; case 1: return n - i; case 2: return i * 37 % n; case 3: return i % 3; case 4: return i < n / 2 ? i : n - i; case 5: return i * i % 101; default: return i == n - 1 ? -1 : 5; } };
	for (int i = 0; i < n; i++) {
		pool[i] = {val(i), i}; m.insert(val(i));
		bool add = how == 0 || (how == 1 && i >= n / 2) || (how == 2 && i > n - 4);
		if (add) heap_add(h, &pool[i]); else heap_push(h, &pool[i]);
	}
	if (how <= 2) heap_heapify(h);
	if (how == 4) { heap_clip(h, n / 2); m.clear(); for (int i = 0; i < n / 2; i++) m.insert(((El *)heap_get(h, i))->key); }
	c.eq(heap_size(h), m.size(), "size");
	int at = n;
	while (!m.empty()) {
		El *top = (El *)heap_peek(h); c.check(top, "peek", "nothing"); c.eq(top->key, *m.begin(), "key of the top");
		if (k && at < n + 200 && at % (k + 1) == 0) { El *e = &pool[at]; *e = {val(at % n) + k, at}; El *o = (El *)heap_replace(h, e); c.check(o == top, "replace", "another element than the top"); m.erase(m.begin()); m.insert(e->key); at++; }
		else { El *o = (El *)heap_pop(h); c.check(o == top, "pop", "another element than the top"); m.erase(m.begin()); at++; }
		c.step();
	}
	c.check(!heap_pop(h), "pop", "an element of an empty heap");
	heap_destroy(&h);
}
static void body(Ctx &c) {
	if (c.flip("large")) { large(c); return; }
	static El pool[64]; int used = 0;
	int vals = c.choose(3) + 1;	// how many distinct keys
	int depth = c.T(10, 13) - vals;
	struct heap *h = heap_init(cmp);
	std::vector<El *> model;	// in no particular order
	bool dirty = false;
	auto drop = [&](void *p) { for (size_t i = 0; i < model.size(); i++) if (model[i] == p) { model.erase(model.begin() + i); return true; } return false; };
	auto isin = [&](void *p) { for (auto *e : model) if (e == p) return true; return false; };
	auto least = [&]() { int m = model[0]->key; for (auto *e : model) m = std::min(m, e->key); return m; };
	auto fresh_el = [&]() { El *e = &pool[used++]; e->key = c.choose(vals); e->id = used; return e; };
	auto look = [&]() {
		c.eq(heap_size(h), model.size(), "size");
		std::set<void *> seen; uint64_t hash = vals * 2 + dirty;
		for (size_t i = 0; i < model.size(); i++) {
			void *p = heap_get(h, i);
			if (!isin(p)) c.fail("contents", fmt("element %zu of %zu is not one of those added", i, model.size()));
			if (!seen.insert(p).second) c.fail("contents", "an element is held twice");
			hash = mix(hash * 31 + ((El *)p)->key + 1);
		}
		c.check(!heap_get(h, model.size()), "get", "an element beyond the last");
		c.check(!heap_get(h, model.size() + 1), "get", "an element beyond the last");
		c.check(!heap_get(h, (size_t)-1), "get", "an element at the largest index");
		if (!dirty) {
			El *p = (El *)heap_peek(h);
			if (model.empty()) c.check(!p, "peek", "an element of an empty heap");
			else { if (!isin(p)) c.fail("peek", "not an element"); c.eq(p->key, least(), "key of the top"); }
		}
		c.state(hash);
		return hash;
	};
	look();
	for (int d = 0; d < depth; d++) {
		int op = c.choose(8);
		if (dirty && (op == 0 || op == 1 || op == 2)) throw Cut();
		if (d == 2) c.mine();
		switch (op) {
		case 0: { El *e = fresh_el(); c.trace("push %d", e->key); model.push_back(e); heap_push(h, e); break; }
		case 1: { c.trace("pop"); El *e = (El *)heap_pop(h);
			if (model.empty()) c.check(!e, "pop", "an element of an empty heap");
			else { int m = least(); if (!isin(e)) c.fail("pop", "not an element"); c.eq(e->key, m, "key of the popped element"); drop(e); }
			break; }
		case 2: { El *e = fresh_el(); c.trace("replace %d", e->key); El *o = (El *)heap_replace(h, e);
			if (model.empty()) c.check(!o, "replace", "an element of an empty heap");
			else { int m = least(); if (!isin(o)) c.fail("replace", "not an element"); c.eq(o->key, m, "key of the replaced element"); drop(o); model.push_back(e); }
			break; }
		case 3: { El *e = fresh_el(); c.trace("add %d", e->key); model.push_back(e); heap_add(h, e); dirty = true; break; }
		case 4: c.trace("heapify"); heap_heapify(h); dirty = false; break;
		case 5: { size_t n = c.choose((int)model.size() + 2); c.trace("clip %zu", n);
			std::vector<El *> keep; for (size_t i = 0; i < n && i < model.size(); i++) keep.push_back((El *)heap_get(h, i));
			heap_clip(h, n); model = keep; break; }
		case 6: c.trace("reset"); heap_reset(h); model.clear(); dirty = false; break;
		case 7: {	// the rest comes out in order
			if (dirty) { heap_heapify(h); dirty = false; }
			c.trace("drain"); int last = -1; size_t n = model.size();
			for (size_t i = 0; i < n; i++) { El *e = (El *)heap_pop(h); if (!e || !drop(e)) c.fail("drain", "not an element"); if (e->key < last) c.fail("drain", "out of order"); last = e->key; c.step(); }
			c.check(!heap_pop(h), "drain", "an element of an empty heap"); break; }
		}
		uint64_t hash = look();
		c.step();
		if (op == 7) break;
		if (d >= 4) c.visit(mix(hash * 31 + depth - d));
	}
	heap_destroy(&h);
	c.check(!h, "destroy", "the handle is not cleared");
	heap_destroy(&h);
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, false); }
