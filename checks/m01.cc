// M01: merging observations keeps earliest, latest and total, in any grouping.
#include "merges.hpp"
#include "srcs.hpp"
using namespace dns;
struct T3 { u64 f, l, c; };
static B enc(const T3 &t) { return triplet(t.f, t.l, t.c); }
static T3 want(const T3 &a, const T3 &b) { return {std::min(a.f, b.f), std::max(a.l, b.l), a.c + b.c}; }
static bool fits(u64 a, u64 b) { return a + b >= a; }
static T3 merged(vf::Ctx &c, const B &key, const T3 &a, const T3 &b, int shift) {
	Merged m = merge(key, enc(a), enc(b), shift); c.step();
	std::vector<u64> v;
	str what = fmt("(%llu,%llu,%llu)+(%llu,%llu,%llu): ", (unsigned long long)a.f, (unsigned long long)a.l, (unsigned long long)a.c, (unsigned long long)b.f, (unsigned long long)b.l, (unsigned long long)b.c);
	if (m.null) c.fail("no value", what);
	if (!unpack(m.v, 3, v)) c.fail("encoding", what + hex(m.v));
	T3 w = want(a, b);
	if (v[0] != w.f) c.fail("first seen", what + num(v[0])); if (v[1] != w.l) c.fail("last seen", what + num(v[1]));
	if (fits(a.c, b.c) && v[2] != w.c) c.fail("count", what + num(v[2]));
	// and the entry reads so
	Entry e(decode(key, m.v));
	if (!e.e) c.fail("merged value does not decode", what + hex(m.v));
	u64 x;
	if (!dnstable_entry_get_time_first(e.e, &x) || x != w.f) c.fail("first seen of entry", what);
	if (!dnstable_entry_get_time_last(e.e, &x) || x != (w.l ? w.l : w.f)) c.fail("last seen of entry", what);
	if (fits(a.c, b.c) && (!dnstable_entry_get_count(e.e, &x) || x != (w.c ? w.c : 1))) c.fail("count of entry", what);
	return {v[0], v[1], v[2]};
}
static void body(vf::Ctx &c) {
	static const B keys[] = { mk_rrset(nm("b.a"), A, nm("a"), {ip4(1, 2, 3, 4)}).key(), mk_rdata(ip4(1, 2, 3, 4), A, nm("a")).key() };
	static const std::vector<u64> few = {0, 1, 127, 128, 16384, 0xffffffffULL, 0x100000000ULL, 1ULL << 63, ~0ULL};
	auto &all = num_alpha();
	B key = keys[c.choose(2)];
	switch (c.choose(3)) {
	case 0: {	// one field of both sides over its whole alphabet, the others over a few
		int field = c.choose(3); u64 x = c.pick(all), y = c.pick(all); c.mine();
		static const std::vector<u64> two = {0, 200, ~0ULL}; u64 p = c.pick(two), q = c.pick(two), r = c.pick(two), s = c.pick(two);
		T3 a{p, q, 1}, b{r, s, 2};
		if (field == 0) { a = {x, p, q}; b = {y, r, s}; } else if (field == 1) { a = {p, x, q}; b = {r, y, s}; } else { a = {p, q, x}; b = {r, s, y}; }
		int shift = c.choose(2);
		c.state(key + enc(a) + enc(b)); merged(c, key, a, b, shift);
		return; }
	case 1: {	// three operands, both groupings and all orders give the same value
		T3 t[3];
		u64 i = c.choose((int)few.size()), j = c.choose((int)few.size()), k = c.choose((int)few.size()); c.mine();
		int rot = c.choose(6), rot2 = c.choose(6);
		auto perm = [&](int r, int n) { static const int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; return P[r][n]; };
		u64 v[3] = {few[i], few[j], few[k]};
		for (int n = 0; n < 3; n++) t[n] = {v[n], v[perm(rot, n)], v[perm(rot2, n)] >> 2};
		c.state(key + enc(t[0]) + enc(t[1]) + enc(t[2]));
		T3 x = merged(c, key, merged(c, key, t[0], t[1], 0), t[2], 0), y = merged(c, key, t[0], merged(c, key, t[1], t[2], 0), 0), z = merged(c, key, merged(c, key, t[2], t[0], 0), t[1], 0);
		if (enc(x) != enc(y) || enc(x) != enc(z)) c.fail("grouping", "three operands");
		return; }
	default: {	// several files through a reader
		int n = 2 + c.choose(c.T(3, 4)); std::vector<T3> t; for (int i = 0; i < n; i++) { int k = c.choose(3), l = c.choose(2); t.push_back({k == 0 ? 5 : k == 1 ? 100ULL : 1ULL << 40, l ? 7 : 1ULL << 33, (u64)(i + 1) * (k + 127)}); if (i == 1) c.mine(); }
		standin_knobs.merge_reverse = c.choose(2);
		Ent e = mk_rrset(nm("b.a"), A, nm("a"), {ip4(1, 2, 3, 4)}), d = mk_rdata(ip4(1, 2, 3, 4), A, nm("a"));
		str names; Ent we, wd;
		for (int i = 0; i < n; i++) {
			e.first = d.first = t[i].f; e.last = d.last = t[i].l; e.count = d.count = t[i].c; names += fmt("m%d\n", i);
			install(fmt("m%d", i).c_str(), {e, d});
			if (i == 0) { we = e; wd = d; } else { we.first = wd.first = std::min(we.first, e.first); we.last = wd.last = std::max(we.last, e.last); we.count = wd.count = we.count + e.count; }
		}
		standin_setfile("mset", names.c_str());
		c.state(names + we.val()); c.trace("%s", we.canon().c_str());
		{
			struct dnstable_reader *r = dnstable_reader_init_setfile("mset");
			struct dnstable_iter *it = dnstable_reader_iter(r);
			strs got = drain(c, it); dnstable_iter_destroy(&it);
			Q q; q.labels = {"b", "a"}; strs got2 = run_query(c, r, q);
			dnstable_reader_destroy(&r);
			compare(c, got, {we.canon(), wd.canon()}, "listing"); compare(c, got2, {we.canon()}, "lookup");
		}
		standin_knobs.merge_reverse = 0; standin_reset();
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
