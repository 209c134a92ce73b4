// A standard database with records of every kind and a standard family of lookups over it.
#pragma once
#include "dns.hpp"
namespace dns {

inline bool indexed_type(unsigned t) {	// rdata types which dnstable-encoding(5) lists for the reversed-name index
	switch (t) { case NS: case CNAME: case SOA: case PTR: case MX: case SRV: case DNAME: case SVCB: case HTTPS: return true; }
	return false;
}
// name index entries covering the records of d; mode: 0 empty type sets, 1 exact, 2 exact plus foreign
// types, 3 corrupt type sets
inline void add_indexes(DB &d, int mode, bool fwd = true, bool rv = true) {
	std::map<B, std::set<unsigned>> f, r;
	for (auto &e : d) {
		if (e.kind == RRSET) f[e.owner].insert(e.type);
		if (e.kind == RDATA && indexed_type(e.type)) { B t = target(e); if (!t.empty()) r[t].insert(e.type); }
	}
	auto put = [&](Kind k, const B &n, std::set<unsigned> t) {
		if (mode == 2) { t.insert(CNAME); t.insert(65534); }
		d.push_back(mk_name(k, n, mode == 0 ? B() : mode == 3 ? B("\0\x21\xff", 3) : type_union(t)));
	};
	if (fwd) for (auto &x : f) put(RRSET_NAME, x.first, x.second);
	if (rv) for (auto &x : r) put(RDATA_NAME, x.first, x.second);
}

inline B ip4(unsigned a, unsigned b, unsigned c, unsigned d) { return u8(a) + u8(b) + u8(c) + u8(d); }
inline str ip_str(const B &a) {
	if (a.size() == 4) return fmt("%u.%u.%u.%u", (uint8_t)a[0], (uint8_t)a[1], (uint8_t)a[2], (uint8_t)a[3]);
	str s; for (int i = 0; i < 16; i += 2) s += fmt("%s%x", i ? ":" : "", (uint8_t)a[i] << 8 | (uint8_t)a[i + 1]);
	return s;
}
inline B ip6(const Bs &) = delete;
inline B ip6w(std::initializer_list<unsigned> w) { B r; for (unsigned x : w) r += be16(x); while (r.size() < 16) r += u8(0); return r; }
inline B soa(const B &m, const B &r) { return m + r + be32(1) + be32(2) + be32(3) + be32(4) + be32(5); }

inline DB zoo(int index_mode = 1, bool meta = true) {
	DB d;
	B a4 = ip4(10, 1, 2, 3);
	d.push_back(mk_rrset(nm("a"), A, nm(""), {a4}));
	d.push_back(mk_rrset(nm("a"), A, nm("a"), {a4, ip4(10, 1, 2, 4)}));
	d.push_back(mk_rrset(nm("a"), NS, nm("a"), {nm("ns.a")}));
	d.push_back(mk_rrset(nm("b.a"), A, nm("a"), {a4}));
	d.push_back(mk_rrset(nm("b.a"), 300, nm("a"), {"x"}));
	d.push_back(mk_rrset(nm("b.b.a"), A, nm("a"), {a4}));
	d.push_back(mk_rrset(nm("c.a"), AAAA, nm("a"), {ip6w({0x2001, 0xdb8})}));
	d.push_back(mk_rrset(nm("a.b"), A, nm("b"), {a4}));
	d.push_back(mk_rrset(nm("a.c"), A, nm("c"), {a4}));
	d.push_back(mk_rrset(nm("a.c.d"), A, nm("c"), {a4}));
	for (auto o : {"a", "b.a", "z"}) {
		d.push_back(mk_rdata(a4, A, nm(o)));
		d.push_back(mk_rdata(nm("ns.a"), NS, nm(o)));
	}
	d.push_back(mk_rdata(ip4(10, 1, 2, 4), A, nm("a")));
	d.push_back(mk_rdata(ip4(10, 1, 3, 0), A, nm("a")));
	d.push_back(mk_rdata(ip6w({0x0a01, 0x0203, 0x0101, 0x6100}), AAAA, nm("v6")));
	d.push_back(mk_rdata(ip6w({0x2001, 0xdb8}), AAAA, nm("c.a")));
	d.push_back(mk_rdata(ip6w({0x2001, 0xdb8, 0, 0, 0, 0, 0, 1}), AAAA, nm("c.a")));
	d.push_back(mk_rdata(be16(10) + nm("ns.a"), MX, nm("a")));
	d.push_back(mk_rdata(be16(20) + nm("mx.a"), MX, nm("a")));
	d.push_back(mk_rdata(nm("mx.b.a"), CNAME, nm("w")));
	d.push_back(mk_rdata(nm("ns.b"), PTR, nm("p")));
	d.push_back(mk_rdata(soa(nm("ns.a"), nm("h.a")), SOA, nm("a")));
	d.push_back(mk_rdata("\5hello", TXT, nm("t")));
	add_indexes(d, index_mode);
	if (meta) {
		d.push_back(mk_source("made by hand"));
		d.push_back(mk_source("other"));
		d.push_back(mk_time_range(1000, 2000));
		for (unsigned t = 0; t < 4; t++) d.push_back(mk_version(t, t + 1));
	}
	sort_db(d);
	return d;
}

inline Q q_name(int qtype, const char *pattern, int rrtype = -1) {
	Q q; q.qtype = qtype; q.rrtype = rrtype;
	str s = pattern;
	if (s.size() >= 2 && (s[0] == '*' || s[0] == '+') && s[1] == '.') { q.left = s[0]; s = s.substr(2); }
	else if (s.size() >= 2 && (s.back() == '*' || s.back() == '+') && s[s.size() - 2] == '.') { q.right = s.back(); s = s.substr(0, s.size() - 2); }
	q.labels = labels(nm(s));
	return q;
}
inline Q q_ip(const B &lo, const B &hi, const str &text, int rrtype = -1) { Q q; q.qtype = DNSTABLE_QUERY_TYPE_RDATA_IP; q.ip1 = lo; q.ip2 = hi; q.ip_text = text; q.rrtype = rrtype; return q; }
inline Q q_raw(const B &b, int rrtype = -1) { Q q; q.qtype = DNSTABLE_QUERY_TYPE_RDATA_RAW; q.raw = b; q.rrtype = rrtype; return q; }
inline Q q_meta(int t, int vtype = -1) { Q q; q.qtype = t; q.vtype = vtype; return q; }

// every lookup kind; those after the first `name_ip_raw` are metadata lookups
inline std::vector<Q> zoo_queries(bool meta = true) {
	const int RR = DNSTABLE_QUERY_TYPE_RRSET, RN = DNSTABLE_QUERY_TYPE_RDATA_NAME;
	std::vector<Q> v = {
		q_name(RR, "a"), q_name(RR, "a", A), q_name(RR, "*.a"), q_name(RR, "+.a"), q_name(RR, "a.*"), q_name(RR, "a.+"),
		q_name(RR, "*.a", A), q_name(RR, "+.a", 300), q_name(RR, "a.*", A), q_name(RR, "nothing.here"), q_name(RR, "nothing.*"),
		q_name(RN, "ns.a"), q_name(RN, "ns.a", NS), q_name(RN, "ns.a", MX), q_name(RN, "ns.a", SOA), q_name(RN, "*.a"), q_name(RN, "+.a"),
		q_name(RN, "*.a", MX), q_name(RN, "ns.*"), q_name(RN, "mx.+"), q_name(RN, "ns.*", PTR), q_name(RN, "*.nothing"),
		q_ip(ip4(10, 1, 2, 3), "", "10.1.2.3"), q_ip(ip4(10, 1, 2, 0), ip4(10, 1, 2, 255), "10.1.2.0/24"),
		q_ip(ip4(10, 1, 2, 4), ip4(10, 1, 3, 0), "10.1.2.4-10.1.3.0", A),
		q_ip(ip6w({0x2001, 0xdb8}), "", "2001:db8::"), q_ip(ip6w({0x2001, 0xdb8}), ip6w({0x2001, 0xdb8, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff}), "2001:db8::/32", AAAA),
		q_raw(nm("ns.a")), q_raw(ip4(10, 1, 2, 3), A), q_raw("\5hel"), q_raw(nm("ns.a"), MX),
	};
	{ Q q = q_name(RR, "a", A); q.has_bail = true; q.bail = nm("a"); v.push_back(q); q.rrtype = -1; v.push_back(q); q.left = '*'; v.push_back(q); q.left = 0; q.right = '*'; q.bail = nm("b"); v.push_back(q); }
	if (meta) {
		v.push_back(q_meta(DNSTABLE_QUERY_TYPE_TIME_RANGE)); v.push_back(q_meta(DNSTABLE_QUERY_TYPE_SOURCE_INFO));
		v.push_back(q_meta(DNSTABLE_QUERY_TYPE_VERSION)); v.push_back(q_meta(DNSTABLE_QUERY_TYPE_VERSION, 2));
	}
	return v;
}
} // namespace dns
