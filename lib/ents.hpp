// Entries over boundary alphabets, used by the entry checks E01-E04.
#pragma once
#include "meta.hpp"
namespace dns {
inline const std::vector<B> &name_alpha(bool deep) {
	static const std::vector<B> n = [deep] {
		std::vector<B> v = { nm(""), nm("a"), nm("b.a"), wire({B("\0", 1)}), wire({B("\xff\x01*\x80", 4), "A.b", "+"}), wire({B(63, 'x')}), wire({B("\"\\;(@$", 6), B("\n\t \x7f", 4)}),
			wire(Bs(127, "q")), wire({B(63, 'a'), B(63, 'b'), B(63, 'c'), B(61, 'd')}) };
		if (deep) { v.push_back(nm("xn--nxasmq6b.Example.COM")); v.push_back(wire(Bs(126, "q"))); v.push_back(wire({B(63, 0), B(62, '.'), "*"})); v.push_back(wire({B(12, '\xff')})); }
		return v;
	}();
	return n;
}
inline const std::vector<unsigned> &type_alpha(bool deep) {
	static const std::vector<unsigned> t = deep ? std::vector<unsigned>{0, 1, 2, 5, 6, 12, 15, 16, 17, 28, 33, 39, 43, 46, 47, 64, 65, 99, 127, 128, 129, 255, 256, 257, 300, 16383, 16384, 32767, 32768, 65534, 65535}
		: std::vector<unsigned>{0, 1, 2, 15, 16, 33, 64, 65, 127, 128, 255, 256, 16383, 16384, 65535};
	return t;
}
inline const std::vector<u64> &num_alpha() {
	static const std::vector<u64> v = [] { std::vector<u64> v = {0, 1, 2, 9, 10, 999, 1000, 1234567, 1700000000, 253402300799ULL};
		for (int b = 7; b <= 63; b += 7) { v.push_back((1ULL << b) - 1); v.push_back(1ULL << b); }
		for (u64 x : {0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x8000000000000000ULL, 0xfffffffffffffffeULL, 0xffffffffffffffffULL}) v.push_back(x);
		std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }();
	return v;
}
// a plausible rdata of this type (variant i), as wire data
inline B some_rdata(unsigned t, int i) {
	B t1 = wire({"ns", "a"}), t2 = wire({B("\xff\0\"\\", 4)});
	switch (t) {
	case A: return i == 0 ? ip4(10, 1, 2, 3) : i == 1 ? ip4(255, 0, 0, 255) : ip4(0, 0, 0, 0);
	case AAAA: return i == 0 ? ip6w({0x2001, 0xdb8, 0, 0, 0, 0, 0, 1}) : B(16, i == 1 ? '\xff' : '\0');
	case NS: case CNAME: case PTR: case DNAME: return i == 0 ? t1 : i == 1 ? t2 : nm("");
	case MX: return be16(i * 300) + (i == 0 ? t1 : i == 1 ? t2 : nm(""));
	case SRV: return be16(i) + be16(65535) + be16(80) + (i == 0 ? t1 : i == 1 ? t2 : nm(""));
	case SOA: return soa(t1, i ? t2 : nm(""));
	case SVCB: case HTTPS: return be16(i) + (i == 0 ? t1 : nm(""));
	case TXT: return i == 0 ? B("\5hello") : i == 1 ? B("\4\"\\\n\xff\0", 6) : B("\0\0", 2);
	default: return i == 0 ? B("abc") : i == 1 ? B("\0\xff\"\\", 4) : B(200, 'r');
	}
}
inline struct dnstable_entry *decode(const B &k, const B &v) {
	// exact-size copies, so that any read outside is seen; released before the entry is used
	uint8_t *a = (uint8_t *)malloc(k.size() ? k.size() : 1), *b = (uint8_t *)malloc(v.size() ? v.size() : 1);
	if (k.size()) memcpy(a, k.data(), k.size());
	if (v.size()) memcpy(b, v.data(), v.size());
	uint8_t *ka = a, *vb = b;
	if (k.empty()) ka = a + 1;
	if (v.empty()) vb = b + 1;
	struct dnstable_entry *e = dnstable_entry_decode(ka, k.size(), vb, v.size());
	memset(a, 0xdb, k.size()); memset(b, 0xdb, v.size());
	free(a); free(b);
	return e;
}
struct Entry { struct dnstable_entry *e; Entry(struct dnstable_entry *x) : e(x) {} ~Entry() { dnstable_entry_destroy(&e); } Entry(const Entry &) = delete; };
// every accessor must fail, or succeed, according to the kind of entry
inline void accessor_matrix(vf::Ctx &c, struct dnstable_entry *e, int kind, const str &what) {
	const uint8_t *p; size_t n; uint16_t t; u64 v; uint32_t w; dnstable_entry_type vt; const char *s;
	struct { const char *name; bool got, want; } m[] = {
		{"rrname", dnstable_entry_get_rrname(e, &p, &n) == dnstable_res_success, kind <= 2},
		{"rrtype", dnstable_entry_get_rrtype(e, &t) == dnstable_res_success, kind == 0 || kind == 2},
		{"bailiwick", dnstable_entry_get_bailiwick(e, &p, &n) == dnstable_res_success, kind == 0},
		{"num_rdata", dnstable_entry_get_num_rdata(e, &n) == dnstable_res_success, kind == 0 || kind == 2},
		{"rdata_name", dnstable_entry_get_rdata_name(e, &p, &n) == dnstable_res_success, kind == 3},
		{"time_first", dnstable_entry_get_time_first(e, &v) == dnstable_res_success, kind == 0 || kind == 2 || kind == 254},
		{"time_last", dnstable_entry_get_time_last(e, &v) == dnstable_res_success, kind == 0 || kind == 2 || kind == 254},
		{"count", dnstable_entry_get_count(e, &v) == dnstable_res_success, kind == 0 || kind == 2},
		{"source_info", dnstable_entry_get_source_info(e, &s) == dnstable_res_success, kind == 253},
		{"version", dnstable_entry_get_version(e, &w) == dnstable_res_success, kind == 255},
		{"version_type", dnstable_entry_get_version_type(e, &vt) == dnstable_res_success, kind == 255},
	};
	for (auto &x : m) if (x.got != x.want) c.fail("accessor", fmt("%s %s for ", x.name, x.got ? "succeeds" : "fails") + what);
	size_t nr = 0;
	if (dnstable_entry_get_num_rdata(e, &nr) != dnstable_res_success) nr = 0;
	for (size_t i : {nr, nr + 1, (size_t)65536, ~(size_t)0 - 1, ~(size_t)0})
		if (dnstable_entry_get_rdata(e, i, &p, &n) == dnstable_res_success) c.fail("accessor", fmt("rdata %zu of %zu for ", i, nr) + what);
	c.step(12);
}
// The families of well-formed entries: picks one.
inline Ent pick_entry(vf::Ctx &c, bool deep) {
	auto &N = name_alpha(deep); auto &T = type_alpha(deep);
	Ent e;
	auto numbers = [&](bool three) {	// one number over its whole alphabet at a time, the others from a few
		static const std::vector<u64> few = {0, 1, 128, 1ULL << 32, ~0ULL};
		int which = c.choose(three ? 3 : 2);
		e.first = which == 0 ? c.pick(num_alpha()) : c.pick(few);
		e.last = which == 1 ? c.pick(num_alpha()) : c.pick(few);
		if (three) e.count = which == 2 ? c.pick(num_alpha()) : c.pick(few);
	};
	switch (c.choose(10)) {
	case 0:	// names and types of RRsets
		e = mk_rrset(c.pick(N), 0, nm(""), {}); e.type = c.pick(T); c.mine(); e.bail = c.pick(N); e.rdata = {some_rdata(e.type, 0)}; return e;
	case 1: { // rdata lists
		e = mk_rrset(c.flip() ? nm("b.a") : nm(""), c.pick(T), nm("a"), {}); c.mine();
		int n = c.choose(deep ? 6 : 5);
		static const std::vector<int> sizes = {-1, -2, -3, 0, 1, 127, 128, 300};
		for (int i = 0; i < (n == 4 ? 0 : n == 5 ? 4 : n); i++) { int z = c.pick(sizes); e.rdata.push_back(z < 0 ? some_rdata(e.type, -z - 1) : B(z, 'z' - i)); }
		if (n == 4) for (int i = 0; i < 300; i++) e.rdata.push_back(some_rdata(e.type, i % 3));
		return e; }
	case 2: { // large rdata
		static const std::vector<int> big = {16383, 16384, 32767, 32768, 65534, 65535};
		static const std::vector<unsigned> few = {A, TXT, SRV, 65535}; e = mk_rrset(nm("a"), c.pick(deep ? T : few), nm(""), {}); int n = 1 + c.choose(2); c.mine(); for (int i = 0; i < n; i++) { int z = c.pick(big); e.rdata.push_back(B(z, 'y')); } return e; }
	case 3: e = mk_rrset(nm("a"), A, nm(""), {ip4(1, 2, 3, 4)}); numbers(true); c.mine(); return e;
	case 4: // rdata records: owner and type, and every rdata variant
		e = mk_rdata("", 0, c.pick(N)); e.type = c.pick(T); c.mine(); e.rdata = {some_rdata(e.type, c.choose(3))}; return e;
	case 5: { // rdata records: sizes around the fixed part and the width of the length suffix
		static const std::vector<int> sizes = {0, 1, 2, 3, 5, 6, 7, 8, 127, 128, 255, 256, 300, 16383, 16384, 65534, 65535};
		e = mk_rdata("", c.pick(T), nm("b.a")); c.mine(); int z = c.pick(sizes); if (z < (int)rdata_off(e.type)) throw vf::Cut();
		B r; for (int i = 0; i < z; i++) r += (char)(i * 7 + 1); e.rdata = {r}; return e; }
	case 6: e = mk_rdata(ip4(1, 2, 3, 4), A, nm("a")); numbers(true); c.mine(); return e;
	case 7: { // name indexes
		e = mk_name(c.flip() ? RRSET_NAME : RDATA_NAME, c.pick(N)); c.mine();
		std::set<unsigned> s; int n = c.choose(5);
		if (n == 4) { for (int i = 0; i < 65536; i++) if (!(i % 257) || i < 600) s.insert(i); } else for (int i = 0; i < n; i++) s.insert(c.pick(T));
		e.types = type_union(s); return e; }
	case 8: e = mk_time_range(0, 0); numbers(false); c.mine(); return e;
	default: {
		if (c.flip()) { e = mk_version(c.choose(256), 0); static const std::vector<uint32_t> vs = {0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 0x7fffffffu, 0x80000000u, 0xffffffffu}; e.version = c.pick(vs); c.mine(); return e; }
		static const std::vector<B> txt = {"", "x", "a source", B(127, 't'), B(128, 't'), B(300, 'u'), "caf\xc3\xa9 \xe2\x82\xac \xf0\x9f\x90\x8c"};
		static const str special = "\x01\x02\x07\b\t\n\x0b\f\r\x0e\x1f !\"#/\\{}[]:,\x7f";
		int k = c.choose((int)txt.size() + 1);
		if (k < (int)txt.size()) { c.mine(); return mk_source(txt[k]); }
		str s; int n = 1 + c.choose(deep ? 3 : 2); for (int i = 0; i < n; i++) { s += special[c.choose((int)special.size())]; } c.mine();
		if (c.flip()) s = "a" + s + "b";
		return mk_source(s); }
	}
}
}
