// L09: red-black and splay trees: explicit-state search over every tree reachable on a set of keys.
// A state is the arena holding nodes and root; each operation runs the real macros on it.
#include "vf.hpp"
extern "C" {
void *arena(size_t *n); void arena_init(void); void arena_forget(int i);
int rb_insert(int), rb_insert_dup(int), rb_remove(int), rb_find(int), rb_nfind(int), rb_next(int), rb_prev(int), rb_min(void), rb_max(void), rb_empty(void), rb_each(int, int *), rb_root(void), rb_left(int), rb_right(int), rb_parent(int), rb_red(int);
int sp_insert(int), sp_insert_dup(int), sp_remove(int), sp_remove_key(int), sp_find(int), sp_next(int), sp_min(void), sp_max(void), sp_empty(void), sp_each(int *), sp_root(void), sp_left(int), sp_right(int);
}
using namespace vf;
static size_t asize; static void *abase;
static str save() { return str((char *)abase, asize); }
static void restore(const str &s) { memcpy(abase, s.data(), asize); }

struct Search {
	Ctx &c; bool rb; int K;
	std::vector<std::pair<str, str>> todo;	// state, how it was reached
	U64Set seen;
	unsigned set = 0;
	str how;
	[[noreturn]] void bad(const str &key, const str &m) { c.fail(key, m + " after " + how); }
	bool has(int i) { return i >= 0 && i < K && set >> i & 1; }
	int above(int key) { for (int i = 0; i < K; i++) if (has(i) && 2 * i >= key) return i; return -1; }
	int lowest() { return above(-1); }
	int highest() { for (int i = K - 1; i >= 0; i--) if (has(i)) return i; return -1; }
	// structure under node i with keys in (lo, hi); returns the black height
	int walk(int i, int lo, int hi, int parent, unsigned &found, int depth, int &height) {
		if (i == -1) return 0;
		if (i < 0 || i >= K) bad("structure", "a link to something else than a node");
		if (found >> i & 1) bad("structure", "a node is reached twice");
		found |= 1u << i; height = std::max(height, depth);
		if (i <= lo || i >= hi) bad("order", "a node on the wrong side");
		if (rb) {
			if (rb_parent(i) != parent) bad("structure", "a wrong parent");
			if (rb_red(i) && parent >= 0 && rb_red(parent)) bad("balance", "a red child of a red node");
			int l = walk(rb_left(i), lo, i, i, found, depth + 1, height), r = walk(rb_right(i), i, hi, i, found, depth + 1, height);
			if (l != r) bad("balance", "different black heights");
			return l + !rb_red(i);
		}
		walk(sp_left(i), lo, i, i, found, depth + 1, height); walk(sp_right(i), i, hi, i, found, depth + 1, height);
		return 0;
	}
	void check_structure() {
		unsigned found = 0; int height = 0;
		walk(rb ? rb_root() : sp_root(), -1, K, -1, found, 1, height);
		if (found != set) bad("contents", fmt("tree holds %x, not %x", found, set));
		if (rb) {
			if (set && rb_red(rb_root())) bad("balance", "a red root");
			int n = __builtin_popcount(set), lim = 0; while ((1 << lim) < n + 1) lim++;
			if (height > 2 * lim) bad("balance", "too high");
		}
		c.eq(rb ? rb_empty() : sp_empty(), set == 0, "emptiness");
	}
	void check_each(int rev) {
		int out[16]; int n = rb ? rb_each(rev, out) : sp_each(out), k = 0;
		if (n != __builtin_popcount(set)) bad("traversal", fmt("%d elements visited of %d", n, __builtin_popcount(set)));
		for (int j = 0; j < K; j++) { int i = rev ? K - 1 - j : j; if (has(i) && out[k++] != i) bad("traversal", "out of order"); }
		c.step();
	}
	void push(const str &what) {
		for (int i = 0; i < K; i++) if (!has(i)) arena_forget(i);
		str s = save();
		if (seen.insert(hash_str(s))) { c.state(hash_str(s) + K * 2 + rb); todo.push_back({s + (char)(set & 255) + (char)(set >> 8), how + what}); }
	}
	void op(const str &st, const str &from, const str &what, const std::function<void()> &f) {
		restore(st); set = (unsigned char)st[asize] | (unsigned char)st[asize + 1] << 8;
		how = from + what; c.step();
		f();
		check_structure();
		how = from; push(what);
	}
	void rb_queries() {
		for (int key = -1; key <= 2 * K; key++) {
			int w = key >= 0 && key % 2 == 0 && has(key / 2) ? key / 2 : -1;
			if (rb_find(key) != w) bad("find", fmt("key %d: %d, not %d", key, rb_find(key), w));
			if (rb_nfind(key) != above(key)) bad("next greater", fmt("key %d: %d, not %d", key, rb_nfind(key), above(key)));
			c.step();
		}
		if (rb_min() != lowest()) bad("min", fmt("%d", rb_min()));
		if (rb_max() != highest()) bad("max", fmt("%d", rb_max()));
		check_each(0); check_each(1);
		for (int i = 0; i < K; i++) if (has(i)) {
			int p = -1; for (int j = 0; j < i; j++) if (has(j)) p = j;
			if (rb_next(i) != above(2 * i + 1)) bad("next", fmt("of %d: %d", i, rb_next(i)));
			if (rb_prev(i) != p) bad("previous", fmt("of %d: %d", i, rb_prev(i)));
		}
	}
	void run() {
		arena_init(); set = 0; how = ""; push("");
		for (size_t at = 0; at < todo.size(); at++) {
			str st = todo[at].first, from = todo[at].second;
			todo[at].first.clear(); todo[at].first.shrink_to_fit();
			restore(st); set = (unsigned char)st[asize] | (unsigned char)st[asize + 1] << 8; how = from;
			if (rb) { str before = save(); rb_queries(); if (save() != before) bad("search", "searching changed the tree"); }
			for (int i = 0; i < K; i++) {
				if (rb) {
					if (has(i)) {
						op(st, from, fmt("x%d ", i), [&] { int r = rb_insert_dup(i); if (r != i) bad("insert", fmt("of a present key returned %d", r)); });
						op(st, from, fmt("-%d ", i), [&] { int r = rb_remove(i); if (r != i) bad("remove", fmt("returned %d", r)); set &= ~(1u << i); });
					} else op(st, from, fmt("+%d ", i), [&] { int r = rb_insert(i); if (r != -1) bad("insert", fmt("returned %d", r)); set |= 1u << i; });
				} else {
					if (has(i)) {
						op(st, from, fmt("x%d ", i), [&] { int r = sp_insert_dup(i); if (r != i && r != -1) bad("insert", fmt("of a present key returned %d", r)); });
						op(st, from, fmt("-%d ", i), [&] { int r = sp_remove(i); if (r != i) bad("remove", fmt("returned %d", r)); set &= ~(1u << i); });
						op(st, from, fmt("n%d ", i), [&] { int r = sp_next(i); if (r != above(2 * i + 1)) bad("next", fmt("of %d returned %d", i, r)); });
					} else {
						op(st, from, fmt("+%d ", i), [&] { int r = sp_insert(i); if (r != -1 && r != -2) bad("insert", fmt("returned %d", r)); set |= 1u << i; });
						op(st, from, fmt("r%d ", i), [&] { int r = sp_remove_key(2 * i); if (r != -1) bad("remove", fmt("of an absent key returned %d", r)); });
					}
				}
			}
			if (!rb) {
				for (int key = -1; key <= 2 * K; key++) op(st, from, fmt("f%d ", key), [&] { int w = key >= 0 && key % 2 == 0 && has(key / 2) ? key / 2 : -1, r = sp_find(key); if (r != w) bad("find", fmt("key %d returned %d", key, r)); });
				op(st, from, "min ", [&] { int r = sp_min(); if (r != lowest()) bad("min", fmt("%d", r)); });
				op(st, from, "max ", [&] { int r = sp_max(); if (r != highest()) bad("max", fmt("%d", r)); });
				op(st, from, "each ", [&] { check_each(0); });
			}
		}
	}
};
// large trees: filled in one order, emptied in another, looked at on the way
extern "C" { void big_init(void); int big_rb(int, int), big_sp(int, int); }
static int order(int kind, int i, int n) {
	switch (kind) {
	case 0: return i; case 1: return n - 1 - i; case 2: return i % 2 ? n - 1 - i / 2 : i / 2; case 3: return i % 2 ? n / 2 - 1 - i / 2 : n / 2 + i / 2;
	case 4: { static std::map<int, std::vector<int>> m; auto &v = m[n]; if (v.empty()) { for (int j = 0; j < n; j++) v.push_back(j); uint64_t h = n; for (int j = n - 1; j > 0; j--) { h = mix(h + j); std::swap(v[j], v[h % (j + 1)]); } } return v[i]; }
	default: { int s = 7; while (n % s == 0) s += 2; while (std::__gcd(n, s) != 1) s += 2; return (int)((long)i * s % n); }
	}
}
static void big(Ctx &c) {
	bool rb = c.flip("red-black"); int n = c.pick(std::vector<int>{20, 33, 64, 100, 127, 255, 256, 257, 500, 1000, 2047, 5000}), in = c.choose(6), out = c.choose(6); c.mine();
	if (n > 500 && !c.thorough() && (in + out) % 3) throw Cut();
	if (n % 2 && (in == 3 || out == 3)) throw Cut();
	vf::Uncounted u;
	auto f = rb ? big_rb : big_sp; str what = fmt("%s tree of %d keys, orders %d and %d: ", rb ? "red-black" : "splay", n, in, out);
	big_init(); std::set<int> m;
	std::function<int(int, int, int)> walk;
	auto look = [&](bool all) {
		auto it = m.begin(); int last = -1;
		c.check(!!f(13, 0) == m.empty(), "emptiness", what);
		if (!rb && !all) return;
		int i = f(6, 0); size_t k = 0;
		for (; i >= 0; i = f(4, i), ++it, k++) { if (it == m.end() || *it != i) c.fail("traversal", what + fmt("element %zu is %d", k, i)); last = i; c.step(); }
		if (i != -1 || it != m.end()) c.fail("traversal", what + fmt("ends after %zu of %zu", k, m.size()));
		if (f(7, 0) != last) c.fail("max", what + fmt("%d", last));
		for (int key = -1; key <= 2 * n; key++) { int w = key >= 0 && key % 2 == 0 && m.count(key / 2) ? key / 2 : -1; if (f(2, key) != w) c.fail("find", what + fmt("key %d", key)); if (rb) { auto g = m.lower_bound((key + 1) / 2); if (f(3, key) != (g == m.end() ? -1 : *g)) c.fail("next greater", what + fmt("key %d", key)); } }
		if (!rb) return;
		int p = -1; for (int x : m) { if (f(5, x) != p) c.fail("previous", what + fmt("of %d", x)); p = x; }
		int depth = 0; std::function<int(int, int, int)> walk = [&](int x, int par, int d) -> int { if (x < 0) return 0; depth = std::max(depth, d); if (d > 60) c.fail("structure", what + "too deep"); if (f(11, x) != par) c.fail("structure", what + "a wrong parent"); if (f(12, x) && par >= 0 && f(12, par)) c.fail("balance", what + "a red child of a red node"); int l = walk(f(9, x), x, d + 1), r = walk(f(10, x), x, d + 1); if (l != r) c.fail("balance", what + "different black heights"); return l + !f(12, x); };
		walk(f(8, 0), -1, 1);
		int lim = 0; while ((1u << lim) < m.size() + 1) lim++; if (depth > 2 * lim) c.fail("balance", what + fmt("height %d of %zu", depth, m.size()));
	};
	int steps = std::max(1, n / 5);
	for (int i = 0; i < n; i++) { int k = order(in, i, n); if (f(0, k) != -1) c.fail("insert", what + fmt("key %d", k)); m.insert(k); c.step(); if (i % steps == steps - 1) { look(i / steps % 2); c.state(hash_str(what, i)); } }
	for (int i = 0; i < n; i++) { int k = order(out, i, n); if (f(1, k) != k) c.fail("remove", what + fmt("key %d", k)); m.erase(k); c.step(); if (i % steps == steps - 1) { look(i / steps % 2); c.state(hash_str(what, n + i)); } }
	look(true);
}
static void body(Ctx &c) {
	if (c.flip("large")) { big(c); return; }
	abase = arena(&asize);
	bool rb = c.flip("red-black");
	int K = 1 + c.choose(rb ? c.T(10, 12) : c.T(7, 9));
	c.mine();
	Search s{c, rb, K};
	s.run();
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, false); }
