// M02: merging type indexes yields exactly the union of their type sets.
#include "merges.hpp"
using namespace dns;
typedef std::set<unsigned> S;
static const std::vector<unsigned> U = {0, 1, 2, 7, 8, 15, 127, 128, 255, 256, 257, 300, 511, 512, 16383, 32768, 65280, 65535};
// a valid encoding of the set: canonical, or one of the other forms which denote it
static std::vector<B> forms(const S &s) {
	std::vector<B> r = {type_union(s)};
	if (s.size() == 1) {
		unsigned t = *s.begin();
		if (t < 256) r.push_back(le16(t));
		B b = u8(t >> 8) + u8((t & 255) / 8 + 1) + B((t & 255) / 8 + 1, '\0'); b[2 + (t & 255) / 8] = (char)(0x80 >> (t & 7));
		r.push_back(b);
	}
	return r;
}
static S big(int k) {
	S s;
	for (unsigned t = 0; t < 65536; t++)
		switch (k) {
		case 0: s.insert(t); break;
		case 1: if (t % 2) s.insert(t); break;
		case 2: if (t % 2 == 0) s.insert(t); break;
		case 3: if (t != 0) s.insert(t); break;
		case 4: if (t != 65535) s.insert(t); break;
		case 5: if (t < 256) s.insert(t); break;
		case 6: if (t >= 65280) s.insert(t); break;
		case 7: if (t % 256 == 255) s.insert(t); break;
		case 8: if (t % 256 == 0) s.insert(t); break;
		case 9: if (t < 8192) s.insert(t); break;
		case 10: if (t < 256 || t >= 512) s.insert(t); break;
		case 11: if (t < 1024) s.insert(t); break;
		case 12: if (t > 0 && t <= 1025) s.insert(t); break;
		case 13: if (t % 64 == 7) s.insert(t); break;
		}
	return s;
}
static void expect(vf::Ctx &c, const Merged &m, const S &want, const str &what) {
	c.step();
	if (m.null) c.fail("refused", what);
	bool ok; S got = union_decode(m.v, &ok);
	if (!ok) c.fail("not an encoding", what + " gives " + hex(m.v.substr(0, 100)));
	if (got != want) {
		str d; for (unsigned t : want) if (!got.count(t) && d.size() < 100) d += " -" + num(t); for (unsigned t : got) if (!want.count(t) && d.size() < 200) d += " +" + num(t);
		c.fail("union", what + fmt(" gives %zu types instead of %zu:", got.size(), want.size()) + d);
	}
}
static S pick_set(vf::Ctx &c, int max, int universe) {
	S s; int i = 0, n = 1 + c.choose(max);
	for (int k = 0; k < n; k++) { int room = universe - i - (n - k - 1); if (room <= 0) throw vf::Cut(); i += c.choose(room); s.insert(U[i]); i++; }
	return s;
}
static B nkey(int k) { return mk_name(k ? RDATA_NAME : RRSET_NAME, nm("b.a")).key(); }
static void body(vf::Ctx &c) {
	int kind = c.choose(2); B key = nkey(kind);
	switch (c.choose(6)) {
	case 0: {	// pairs of small sets in all their forms
		S a = pick_set(c, c.T(2, 3), (int)U.size()); c.mine(); S b = pick_set(c, c.T(2, 3), (int)U.size());
		S w = a; w.insert(b.begin(), b.end());
		for (auto &x : forms(a)) for (auto &y : forms(b)) for (int shift = 0; shift < 2; shift++) { c.state(key + x + "|" + y); expect(c, merge(key, x, y, shift), w, hex(x) + " + " + hex(y)); }
		return; }
	case 1: {	// three sets: every grouping and order
		S s[3]; B e[3]; for (int i = 0; i < 3; i++) { s[i] = pick_set(c, c.T(1, 2), c.T(18, 9)); auto f = forms(s[i]); e[i] = f[c.choose((int)f.size())]; if (i == 0) c.mine(); }
		S w; for (auto &x : s) w.insert(x.begin(), x.end());
		c.state(key + e[0] + "|" + e[1] + "|" + e[2]);
		str what = hex(e[0]) + " + " + hex(e[1]) + " + " + hex(e[2]);
		expect(c, merge(key, merge(key, e[0], e[1]).v, e[2]), w, what); expect(c, merge(key, e[0], merge(key, e[1], e[2]).v), w, what); expect(c, merge(key, merge(key, e[2], e[0]).v, e[1]), w, what);
		return; }
	case 2: {	// large sets, and large with small
		static std::map<int, S> memo; auto get = [&](int k) -> const S & { if (!memo.count(k)) memo[k] = big(k); return memo[k]; };
		int i = c.choose(14), j = c.choose(14 + (int)U.size()); c.mine();
		const S &a = get(i); S b = j < 14 ? get(j) : S{U[j - 14]};
		S w = a; w.insert(b.begin(), b.end());
		B x = type_union(a), y = type_union(b); c.state(key + fmt("%d|%d", i, j));
		expect(c, merge(key, x, y), w, fmt("large sets %d and %d", i, j)); expect(c, merge(key, y, x), w, fmt("large sets %d and %d", j, i));
		return; }
	case 3: {	// the empty set means any type and absorbs
		S a = pick_set(c, 2, (int)U.size()); c.mine();
		for (auto &x : forms(a)) { c.state(key + x); expect(c, merge(key, x, ""), S(), hex(x) + " + any"); expect(c, merge(key, "", x), S(), "any + " + hex(x)); }
		expect(c, merge(key, "", ""), S(), "any + any");
		return; }
	case 4: {	// a corrupt operand is reported
		static const uint8_t b[] = {0, 1, 2, 3, 0x1f, 0x20, 0x21, 0x40, 0x80, 0xff};
		B x; int n = 3 + c.choose(c.T(2, 3)); for (int i = 0; i < n; i++) { x += u8(b[c.choose(10)]); if (i == 2) c.mine(); }
		static const std::vector<S> others = {{1}, {300}, {1, 2}, {1, 65535}}; S o = c.pick(others);
		bool ok; S s = union_decode(x, &ok); B y = type_union(o);
		c.state(key + x + "|" + y);
		for (int order = 0; order < 2; order++) {
			Merged m = order ? merge(key, x, y) : merge(key, y, x);
			if (!ok) { c.step(); if (!m.null) c.fail("corrupt operand accepted", hex(x) + " + " + hex(y) + " gives " + hex(m.v)); }
			else { S w = s; w.insert(o.begin(), o.end()); expect(c, m, w, hex(x) + " + " + hex(y)); }
		}
		return; }
	default: {	// truncated and damaged encodings of larger sets
		int i = 5 + c.choose(9); if (i == 9 && !c.thorough()) throw vf::Cut(); static std::map<int, B> memo; if (!memo.count(i)) memo[i] = type_union(big(i)); B x = memo[i];
		int cut = c.choose((int)std::min<size_t>(x.size(), 300)); c.mine();
		x = x.substr(0, cut < 150 ? cut : x.size() - (cut - 150)); B y = type_union({1, 300});
		bool ok; S s = union_decode(x, &ok); c.state(key + x);
		Merged m = merge(key, x, y), m2 = merge(key, y, x);
		if (!ok) { c.step(); if (!m.null || !m2.null) c.fail("corrupt operand accepted", hex(x.substr(0, 60))); }
		else if (x.empty()) expect(c, m, S(), "empty"); else { S w = s; w.insert(1); w.insert(300); expect(c, m, w, hex(x.substr(0, 60))); expect(c, m2, w, hex(x.substr(0, 60))); }
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
