// M04: type-set membership (as lookups see it) and listing agree with the encoding.
#include "render.hpp"
#include <nlohmann/json.hpp>
using namespace dns;
typedef std::set<unsigned> S;
// listing, by the rendering of the index entry
static void listing_of(vf::Ctx &c, int kind, const B &map, bool ok, const S &s) {
	Entry e(decode(mk_name(kind ? RDATA_NAME : RRSET_NAME, nm("x.a")).key(), map));
	c.step();
	if (!e.e) c.fail("index entry refused", hex(map));
	str txt = render(e.e, false, false);
	size_t a = txt.find('['), b = txt.find(']');
	if (a == str::npos || b == str::npos) c.fail("text", txt);
	str list = txt.substr(a + 1, b - a - 1), want;
	for (unsigned t : s) want += (want.empty() ? "" : " ") + rtype(t);
	if (ok && list != want) c.fail("listing", hex(map.substr(0, 60)) + " lists [" + vf::Ctx::clip(list) + "] instead of [" + vf::Ctx::clip(want) + "]");
	if (!ok && list != "<failure>") c.fail("malformed set listed", hex(map.substr(0, 60)) + " lists [" + vf::Ctx::clip(list) + "]");
	str js = render(e.e, true, false); vf::Uncounted u;
	auto j = nlohmann::json::parse(js, nullptr, false);
	if (j.is_discarded() || !j["rrtypes"].is_array()) c.fail("JSON", js);
	if (ok) { if (j["rrtypes"].size() != s.size()) c.fail("JSON listing", js); size_t i = 0; for (unsigned t : s) if (j["rrtypes"][i++] != rtype(t)) c.fail("JSON listing", vf::Ctx::clip(js)); }
	else if (j["rrtypes"].size() != 1 || j["rrtypes"][0] != "<failure>") c.fail("malformed set listed", js);
}
// membership, by a lookup of each probe type through an index which holds the set
static const std::vector<unsigned> probes_name = {NS, CNAME, SOA, PTR, MX, SRV, DNAME, SVCB, HTTPS};
static std::vector<unsigned> probes(int kind, const S &s, bool thorough) {
	if (kind) return probes_name;
	std::set<unsigned> p = {1, 2, 255 + 1, 300, 65535};
	int n = 0; for (unsigned t : s) { if (n++ > (thorough ? 64 : 12)) break; for (int d : {-256, -8, -1, 0, 1, 8, 256}) if ((int)t + d > 0 && t + d < 65536 && t + d != 255) p.insert(t + d); }
	return std::vector<unsigned>(p.begin(), p.end());
}
static void members(vf::Ctx &c, int kind, const B &map, bool ok, const S &s) {
	auto ps = probes(kind, s, c.thorough());
	DB db;
	for (unsigned t : ps) db.push_back(kind ? mk_rdata(t == SOA ? soa(nm("x.a"), nm("x.a")) : B(rdata_off(t), 'z') + nm("x.a"), t, nm("o")) : mk_rrset(nm("x.a"), t, nm(""), {some_rdata(t, 0)}));
	db.push_back(mk_name(kind ? RDATA_NAME : RRSET_NAME, nm("x.a"), map));
	install("u", db);
	Reader r("u");
	for (unsigned t : ps) {
		if (t == 255 || (t > 0 && !wdns_str_to_rrtype(rrtype_text(t).c_str()))) continue;
		Q q; q.rrtype = t;
		if (kind) { q.qtype = DNSTABLE_QUERY_TYPE_RDATA_NAME; q.labels = {"a"}; q.left = '*'; } else { q.labels = {"x"}; q.right = '*'; }
		strs got = run_query(c, r.r, q);
		bool want = !ok || map.empty() || s.count(t);
		c.step();
		if (want && got.size() != 1) c.fail("record hidden", fmt("type %u with set %s", t, hex(map.substr(0, 60)).c_str()));
		if (!want && got.size()) c.fail("type not in the set found", fmt("type %u with set %s", t, hex(map.substr(0, 60)).c_str()));
	}
	standin_reset();
}
static void body(vf::Ctx &c) {
	B map; int kind = c.choose(2);
	static const uint8_t b[] = {0, 1, 2, 3, 0x1f, 0x20, 0x21, 0x40, 0x80, 0xff};
	bool look = true;
	switch (c.choose(6)) {
	case 0: { int n = c.choose(2); c.mine(); for (int i = 0; i < n; i++) map += u8(c.choose(256)); break; }
	case 1: { map = u8(c.choose(256)); c.mine(); if (c.thorough()) map += u8(c.choose(256)); else map += u8(b[c.choose(10)]); break; }
	case 2: { int n = 3 + c.choose(c.T(3, 4)); for (int i = 0; i < n; i++) { map += u8(b[c.choose(10)]); if (i == 2) c.mine(); } if (n > 4) look = c.thorough() && n == 5; break; }
	case 3: { // one or two well-formed blocks of every length, with one bit anywhere
		unsigned w = b[c.choose(10)], len = 1 + c.choose(32); c.mine(); unsigned bit = c.choose(8 * len); B m(len, '\0'); m[bit / 8] = (char)(0x80 >> (bit % 8)); map = u8(w) + u8(len) + m;
		int more = c.choose(c.thorough() || bit == 0 || bit == 8 * len - 1 ? 7 : 3); static const int other[] = {0, 0, 0, 0, -1, 255, 2}; if (more > 2) { map += u8(w + other[more]) + u8(1) + u8(0x41); if (more == 6) map += u8(w + (bit & 1 ? 1 : 3)) + u8(1) + u8(0x80); } if (more == 1) map += u8(w + 1) + u8(1) + u8(0x41); if (more == 2) map += u8(w + 1) + u8(2) + u8(1); break; }
	case 4: { // sets of <=3 types
		static const std::vector<unsigned> U = {1, 2, 5, 6, 12, 15, 33, 39, 64, 65, 254, 256, 257, 300, 511, 512, 65280, 65535}; S s; int n = 1 + c.choose(3); for (int i = 0; i < n; i++) { s.insert(c.pick(U)); if (i == 0) c.mine(); } map = type_union(s); break; }
	default: { // large sets and their truncations
		static const std::vector<B> big = [] { std::vector<B> v; for (int k = 0; k < 4; k++) { S s; for (unsigned t = 0; t < 65536; t++) if (k == 0 || (k == 1 && t % 2) || (k == 2 && t < 8192) || (k == 3 && t % 256 >= 248 && t < 2048)) s.insert(t); v.push_back(type_union(s)); } return v; }();
		int k = c.choose(4), cut = c.choose(c.T(10, 70)); c.mine(); map = big[k]; map = map.substr(0, map.size() - cut); break; }
	}
	c.mine();
	bool ok; S s = union_decode(map, &ok);
	c.state(u8(kind) + map); c.trace("%s", hex(map.substr(0, 100)).c_str());
	listing_of(c, kind, map, ok, s);
	if (look) members(c, kind, map, ok, s);
}
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
