// E02: malformed entries are refused or decoded safely; and databases holding them are safe to search.
#include "ents.hpp"
using namespace dns;

static void use(struct dnstable_entry *e) {
	static volatile size_t sink;
	sink = canon(e).size();
	const uint8_t *p; size_t n; for (size_t i : {(size_t)0, (size_t)1, (size_t)65535, ~(size_t)0}) dnstable_entry_get_rdata(e, i, &p, &n);
	for (int zone = 0; zone < 2; zone++) {
		dnstable_entry_set_iszone(e, zone);
		for (int k = 0; k < 16; k++) {
			if (zone && k % 5) continue;
			struct dnstable_formatter *f = dnstable_formatter_init();
			dnstable_formatter_set_output_format(f, k & 1 ? dnstable_output_format_json : dnstable_output_format_text);
			dnstable_formatter_set_date_format(f, k & 2 ? dnstable_date_format_unix : dnstable_date_format_rfc3339);
			dnstable_formatter_set_rdata_array(f, k & 4); dnstable_formatter_set_raw_rdata(f, k & 8);
			char *s = dnstable_entry_format(f, e);
			if (s) sink = strlen(s);
			free(s); dnstable_formatter_destroy(&f);
		}
	}
	char *s = dnstable_entry_to_text(e); if (s) sink = strlen(s); free(s);
	s = dnstable_entry_to_json(e); if (s) sink = strlen(s); free(s);
}
static const std::vector<Ent> &base() {
	static const std::vector<Ent> v = { mk_rrset(nm("b.a"), A, nm("a"), {ip4(1, 2, 3, 4)}), mk_rrset(nm("a"), MX, nm(""), {be16(10) + nm("m.a"), be16(20) + nm("n")}, 0, ~0ULL, 128), mk_rrset(nm("t"), TXT, nm("t"), {B("\5hello"), B(), B("\4\"\\\n\xff", 5)}, 300, 400, 1ULL << 40),
		mk_rdata(ip4(1, 2, 3, 4), A, nm("b.a")), mk_rdata(be16(10) + nm("m.a"), MX, nm("a")), mk_rdata(be16(1) + be16(2) + be16(3) + nm("s.a"), SRV, nm("a"), 1, 1ULL << 62, 0), mk_rdata(soa(nm("a"), nm("b")), SOA, nm("a")), mk_rdata(ip6w({1, 2}), AAAA, nm("x")), mk_rdata(be16(1) + nm("h") + be16(3) + be16(2) + be16(443), HTTPS, nm("h")),
		mk_name(RRSET_NAME, nm("b.a"), type_union({1, 2, 300, 65535})), mk_name(RDATA_NAME, nm("b.a"), type_union({1, 15})), mk_name(RRSET_NAME, nm("c"), u8(5)), mk_name(RDATA_NAME, nm("c"), le16(300)),
		mk_time_range(1000, 1ULL << 35), mk_source("text"), mk_version(2, 300) };
	return v;
}
static B corrupt(vf::Ctx &c, const B &s, int max, bool all = true) {	// truncations, extensions, substitutions, insertions and deletions of one byte; pairs of substitutions
	static const uint8_t bytes[] = {0, 1, 2, 3, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff};
	int op = c.choose(max);
	B r = s;
	switch (op) {
	case 0: return r;
	case 1: if (s.empty()) throw vf::Cut(); return s.substr(0, c.choose((int)s.size()));
	case 2: { int n = 1 + c.choose(2); for (int i = 0; i < n; i++) r += u8(bytes[c.choose(12)]); return r; }
	case 3: if (s.empty()) throw vf::Cut(); { int i = c.choose((int)s.size()); r[i] = (char)(all ? c.choose(256) : bytes[c.choose(12)]); return r; }
	case 4: { int i = c.choose((int)s.size() + 1); return s.substr(0, i) + u8(bytes[c.choose(12)]) + s.substr(i); }
	case 5: if (s.empty()) throw vf::Cut(); r.erase(c.choose((int)s.size()), 1); return r;
	default: if (s.size() < 2) throw vf::Cut(); { int i = c.choose((int)s.size()), j = c.choose((int)s.size()); if (j <= i) throw vf::Cut(); r[i] = (char)bytes[c.choose(12)]; r[j] = (char)bytes[c.choose(12)]; return r; }
	}
}
static void mutated(vf::Ctx &c) {
	const Ent &b = c.pick(base());
	B k = corrupt(c, b.key(), c.T(6, 7)); c.mine();
	bool changed = k != b.key();
	B v = corrupt(c, b.val(), changed ? 2 : c.T(6, 7));
	c.state(k + "|" + v); c.trace("%s | %s", hex(k).c_str(), hex(v).c_str());
	Entry e(decode(k, v));
	c.step();
	if (e.e) { use(e.e); c.step(); }
}
static void short_strings(vf::Ctx &c) {
	static const uint8_t kinds[] = {0, 1, 2, 3, 4, 0x7f, 252, 253, 254, 255};
	B k = u8(kinds[c.choose(10)]);
	int n = c.choose(4);
	static const uint8_t few[] = {0, 1, 2, 3, 4, 0x0f, 0x21, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xff};
	for (int i = 0; i < n; i++) k += n < 2 || (n == 2 && (i == 0 || c.thorough())) ? u8(c.choose(256)) : u8(few[c.choose(14)]);
	if (n == 3 && c.thorough() && c.flip()) k += u8(few[c.choose(14)]);
	c.mine();
	static const std::vector<B> vals = {"", B("\0", 1), B("\1\1\1"), B("\x80"), B("\0\1\x80", 3), B("\0\0", 2), B("\1\2"), B("\xff\x20\xff"), B("\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80"), B("\1\1\1\1")};
	B v = c.pick(vals);
	c.state(k + "|" + v); c.trace("%s | %s", hex(k).c_str(), hex(v).c_str());
	Entry e(decode(k, v));
	c.step();
	if (e.e) { use(e.e); c.step(); }
	if (k.size() == 1 && v.empty()) { Entry z(decode("", "")); if (z.e) c.fail("empty key", "decoded"); }
}
// names of every shape and length, as part of each kind of key
static void names(vf::Ctx &c) {
	int kind = c.choose(5); int pad = c.choose(c.T(20, 80)); int tail = c.choose(6); c.mine();
	B n;
	for (int i = 0; i < 3; i++) n += u8(63) + B(63, 'n');
	// around 255 bytes, cut or not
	B rest; int left = 55 + pad % 20; if (left > 63) { rest = u8(63) + B(63, 'o'); if (left > 64) rest += u8(left - 64) + B(left - 64, 'p'); } else rest = u8(left) + B(left, 'o');
	n += rest;
	if (pad >= 20) n = n.substr(0, n.size() - pad * 3);
	switch (tail) { case 0: n += u8(0); break; case 1: break; case 2: n += u8(1); break; case 3: n += u8(64) + B(64, 'q') + u8(0); break; case 4: n += u8(0xc0) + u8(0); break; case 5: n += B(400, '\1') + u8(0); break; }
	B k = u8(kind == 4 ? 0 : kind);
	if (kind == 0) k += n + u8(1) + u8(0) + u8(1) + "x"; else if (kind == 4) k += u8(0) + u8(1) + n + u8(1) + "x"; else if (kind == 2) k += "1234" + u8(1) + n + le16(4); else k += n;
	c.state(k); c.trace("%s", hex(k).c_str());
	Entry e(decode(k, kind == 1 || kind == 3 ? B() : triplet(1, 2, 3)));
	c.step();
	if (e.e) { use(e.e); const uint8_t *p; size_t l; if (kind != 3 && dnstable_entry_get_rrname(e.e, &p, &l) && l > 255) c.fail("name", fmt("owner name of %zu bytes", l)); }
}
// a database holding a malformed entry, searched in every way
static void databases(vf::Ctx &c) {
	DB z = zoo(1, true);
	const Ent &b = z[c.choose((int)z.size())];
	bool key = c.flip();
	B k = b.key(), v = b.val();
	if (key) k = corrupt(c, k, 4, c.thorough()); else { int op = c.choose(4); c.mine(); if (op == 0) v = ""; else if (op == 1) v += u8(0); else if (op == 2) { if (v.empty()) throw vf::Cut(); v = v.substr(0, v.size() - 1); } else { if (v.empty()) throw vf::Cut(); v = B(v.size(), '\xff'); } }
	c.mine();
	std::map<B, B> kv; for (auto &e : z) if (key || e.key() != b.key()) kv[e.key()] = e.val();
	if (k.empty()) throw vf::Cut();
	kv[k] = v;
	install_kv("bad", kv);
	c.state(k + "|" + v); c.trace("database with %s | %s", hex(k).c_str(), hex(v).c_str());
	Reader r("bad");
	for (auto q : zoo_queries(true)) {
		for (int x = 0; x < 2; x++) {
			if (x) { if (q.qtype > DNSTABLE_QUERY_TYPE_RDATA_RAW) continue; q.la = true; q.vla = 1500; }
			Iter it; it.q = make(c, q); it.it = dnstable_reader_query(r.r, it.q);
			drain(c, it.it);
		}
	}
	for (int kd : kinds()) { struct dnstable_iter *it = listing(r.r, kd); drain(c, it); dnstable_iter_destroy(&it); }
	standin_reset();
}
static void body(vf::Ctx &c) {
	switch (c.choose(4)) { case 0: mutated(c); break; case 1: short_strings(c); break; case 2: names(c); break; default: databases(c); }
}
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
