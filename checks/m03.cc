// M03: merging metadata entries never claims more than every file supports.
#include "merges.hpp"
#include "srcs.hpp"
using namespace dns;
static const std::vector<u64> V = {0, 1, 127, 128, 16384, 0xffffffffULL, 0x100000000ULL, 1ULL << 63, ~0ULL};
static const std::vector<u64> W = {0, 1, 2, 127, 128, 16383, 16384, 2097152, 268435455, 268435456, 0x7fffffff, 0x80000000u, 0xffffffffu};
static B mv(vf::Ctx &c, const B &k, const B &a, const B &b) { Merged m = merge(k, a, b); c.step(); if (m.null) c.fail("no value", hex(k)); return m.v; }
static void body(vf::Ctx &c) {
	switch (c.choose(5)) {
	case 0: {	// time ranges: three operands, each a pair or empty
		B k = mk_time_range(0, 0).key(); B e[3]; u64 f = ~0ULL, l = 0; bool any = false;
		for (int i = 0; i < 3; i++) {
			int n = c.choose((int)V.size() + 1);
			if (n == (int)V.size()) any = true; else { u64 a = V[n], b = c.pick(V); e[i] = pair(a, b); f = std::min(f, a); l = std::max(l, b); }
			if (i == 1) c.mine();
		}
		B w = any ? B() : pair(f, l);
		c.state(k + e[0] + "|" + e[1] + "|" + e[2]); str what = hex(e[0]) + " + " + hex(e[1]) + " + " + hex(e[2]);
		c.eqs(hex(mv(c, k, mv(c, k, e[0], e[1]), e[2])), hex(w), "time range"); c.eqs(hex(mv(c, k, e[0], mv(c, k, e[1], e[2]))), hex(w), "time range"); c.eqs(hex(mv(c, k, mv(c, k, e[2], e[0]), e[1])), hex(w), "time range");
		return; }
	case 1: {	// versions of every type
		unsigned t = c.choose(256); c.mine(); bool known = t <= 3;
		static const std::vector<u64> few = {0, 1, 128, 0xffffffffu};
		const std::vector<u64> &vs = known ? W : few;
		B k = mk_version(t, 0).key(), e[3]; bool any = false; u64 m = ~0ULL;
		for (int i = 0; i < 3; i++) { int n = c.choose((int)vs.size() + 1); if (n == (int)vs.size()) any = true; else { e[i] = varint(vs[n]); m = std::min(m, vs[n]); } }
		B w = any || !known ? B() : varint(m);
		c.state(k + e[0] + "|" + e[1] + "|" + e[2]);
		c.eqs(hex(mv(c, k, mv(c, k, e[0], e[1]), e[2])), hex(w), "version"); c.eqs(hex(mv(c, k, e[0], mv(c, k, e[1], e[2]))), hex(w), "version"); c.eqs(hex(mv(c, k, mv(c, k, e[2], e[0]), e[1])), hex(w), "version");
		return; }
	case 2: {	// everything else merges to empty: source info, unknown kinds, other key lengths
		int kind = c.choose(256); c.mine(); if (kind <= 3) throw vf::Cut();
		static const std::vector<B> tails = {"", B("\0", 1), "x", "xy", "text", B("\3", 1), B("\0\0", 2)};
		static const std::vector<B> vals = {"", "x", B("\1\2", 2), B("\x80", 1), B("\1", 1), "text text"};
		B k = u8(kind) + c.pick(tails), a = c.pick(vals), b = c.pick(vals);
		if (kind == TIME_RANGE && k.size() == 1) throw vf::Cut();
		if (kind == VERSION && k.size() == 2 && (uint8_t)k[1] <= 3) throw vf::Cut();
		c.state(k + "|" + a + "|" + b);
		c.eqs(hex(mv(c, k, a, b)), "", "value of an unknown kind");
		return; }
	case 3: {	// no key at all
		c.mine(); c.eqs(hex(mv(c, "", "a", "b")), "", "empty key"); return; }
	default: {	// through a reader over files which have them or not, or have them emptied
		int n = 2 + c.choose(c.T(2, 3)); str names; std::map<B, B> kv; Bs seen[2]; bool src = false;
		for (int i = 0; i < n; i++) {
			kv.clear(); int m = c.choose(3); bool s = c.flip(); int v = c.choose(3); if (i == 1) c.mine();
			if (m) { B x = m == 1 ? pair(1000 - i * 100, 2000 + i) : pair(1ULL << 40, 128 * i); kv[mk_time_range(0, 0).key()] = x; seen[0].push_back(x); }
			if (v) { B x = v == 1 ? varint(5 - i) : varint(300 + i); kv[mk_version(2, 0).key()] = x; seen[1].push_back(x); }
			if (s) { kv[mk_source("from").key()] = ""; src = true; }
			install_kv(fmt("t%d", i).c_str(), kv); names += fmt("t%d\n", i);
		}
		standin_knobs.merge_reverse = c.choose(2);
		standin_setfile("tset", names.c_str());
		strs want;
		if (src) want.push_back(mk_source("from").canon());
		auto fold = [&](const Bs &s, int k) { u64 f = ~0ULL, l = 0; std::vector<u64> v; for (auto &x : s) { unpack(x, k, v); f = std::min(f, v[0]); l = std::max(l, v.back()); } return std::make_pair(f, l); };
		if (!seen[0].empty()) { auto p = fold(seen[0], 2); want.push_back(mk_time_range(p.first, p.second).canon()); }
		if (!seen[1].empty()) { auto p = fold(seen[1], 1); want.push_back(mk_version(2, p.first).canon()); }
		c.state(dns::join(want)); c.trace("%s", dns::join(want, " ").c_str());
		struct dnstable_reader *r = dnstable_reader_init_setfile("tset");
		struct dnstable_iter *it = dnstable_reader_iter(r);
		strs got = drain(c, it); dnstable_iter_destroy(&it); dnstable_reader_destroy(&r);
		standin_knobs.merge_reverse = 0; standin_reset();
		compare(c, got, want, "metadata of the set");
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
