// Reference model of a dnstable database and its queries, written from dnstable-encoding(5),
// dnstable.h and the manual pages; shares no code with /repo.
#pragma once
#include "vf.hpp"
extern "C" {
#include <mtbl.h>
#include <wdns.h>
#include "dnstable.h"
}

namespace dns {
using vf::fmt; using vf::hex; using vf::str; using vf::strs;
typedef std::string B;
typedef uint64_t u64;
typedef std::vector<B> Bs;

enum { A = 1, NS = 2, CNAME = 5, SOA = 6, PTR = 12, MX = 15, TXT = 16, RP = 17, AAAA = 28, NXT = 30, SRV = 33,
       DNAME = 39, NSEC = 47, SVCB = 64, HTTPS = 65 };

// ---------------------------------------------------------------- encodings
inline B u8(unsigned v) { return B(1, (char)v); }
inline B be16(unsigned v) { return u8(v >> 8) + u8(v & 255); }
inline B be32(uint32_t v) { return be16(v >> 16) + be16(v & 65535); }
inline B le16(unsigned v) { return u8(v & 255) + u8(v >> 8); }
inline B varint(u64 v) { B r; while (v >= 128) { r += u8((v & 127) | 128); v >>= 7; } return r + u8((unsigned)v); }
inline B triplet(u64 f, u64 l, u64 c) { return varint(f) + varint(l) + varint(c); }
inline B pair(u64 f, u64 l) { return varint(f) + varint(l); }

inline B wire(const Bs &labels) { B r; for (auto &l : labels) r += u8(l.size()) + l; return r + u8(0); }
inline Bs labels(const B &w) { Bs r; size_t i = 0; while (i < w.size() && w[i]) { unsigned n = (uint8_t)w[i]; r.push_back(w.substr(i + 1, n)); i += n + 1; } return r; }
// "www.example.com" without escapes; "." or "" is the root
inline B nm(const str &s) {
	Bs l; str cur;
	for (char c : s) if (c == '.') { if (!cur.empty()) l.push_back(cur); cur.clear(); } else cur += c;
	if (!cur.empty()) l.push_back(cur);
	return wire(l);
}
inline B rev(const B &w) { Bs l = labels(w); std::reverse(l.begin(), l.end()); return wire(l); }
inline B lower(B w) { for (auto &c : w) if (c >= 'A' && c <= 'Z') c += 32; return w; }
// length of the uncompressed name at the start of s, 0 if there is none
inline size_t name_len(const B &s) {
	size_t i = 0;
	while (i < s.size()) {
		unsigned n = (uint8_t)s[i];
		if (n > 63) return 0;
		i += n + 1;
		if (i > 255) return 0;
		if (n == 0) return i <= s.size() ? i : 0;
	}
	return 0;
}
// presentation form of one label / a whole name (trailing dot)
inline str pres_label(const B &l) {
	str r;
	for (unsigned char c : l) {
		if (c == '.' || c == '\\' || c == '"' || c == '(' || c == ')' || c == ';' || c == '@' || c == '$') { r += '\\'; r += c; }
		else if (c >= 0x21 && c <= 0x7e) r += c;
		else r += fmt("\\%03d", c);
	}
	return r;
}
inline str pres(const B &w) { str r; for (auto &l : labels(w)) r += pres_label(l) + "."; return r.empty() ? "." : r; }

inline B type_union(const std::set<unsigned> &t) {
	if (t.empty()) return "";
	if (t.size() == 1) { unsigned v = *t.begin(); return v < 256 ? u8(v) : le16(v); }
	B r; int win = -1; B bits;
	auto flush = [&]() { if (win >= 0) r += u8(win) + u8(bits.size()) + bits; };
	for (unsigned v : t) {
		if ((int)(v >> 8) != win) { flush(); win = v >> 8; bits.clear(); }
		unsigned lo = v & 255;
		while (bits.size() <= lo / 8) bits += u8(0);
		bits[lo / 8] = (char)((uint8_t)bits[lo / 8] | (0x80 >> (lo % 8)));
	}
	flush();
	return r;
}
// independent decoder; ok=false if malformed
inline std::set<unsigned> union_decode(const B &m, bool *ok) {
	std::set<unsigned> r; *ok = true;
	if (m.empty()) return r;
	if (m.size() == 1) { r.insert((uint8_t)m[0]); return r; }
	if (m.size() == 2) { r.insert((uint8_t)m[0] | (uint8_t)m[1] << 8); return r; }
	size_t i = 0; int last = -1;
	while (i < m.size()) {
		if (i + 2 > m.size()) { *ok = false; return {}; }
		int w = (uint8_t)m[i]; unsigned n = (uint8_t)m[i + 1];
		if (w <= last || n == 0 || n > 32 || i + 2 + n > m.size()) { *ok = false; return {}; }
		for (unsigned b = 0; b < n * 8; b++) if ((uint8_t)m[i + 2 + b / 8] & (0x80 >> (b % 8))) r.insert(w * 256 + b);
		last = w; i += 2 + n;
	}
	return r;
}

inline str num(u64 v) { char b[24]; char *p = b + 24; do *--p = '0' + v % 10; while (v /= 10); return str(p, b + 24 - p); }

// ---------------------------------------------------------------- entries
enum Kind { RRSET = 0, RRSET_NAME = 1, RDATA = 2, RDATA_NAME = 3, SOURCE = 253, TIME_RANGE = 254, VERSION = 255 };

inline unsigned rdata_off(unsigned type) { return type == MX || type == SVCB || type == HTTPS ? 2 : type == SRV ? 6 : 0; }

struct Ent {
	Kind kind = RRSET;
	B owner; unsigned type = 0; B bail; Bs rdata;	// RRSET, RDATA
	u64 first = 0, last = 0, count = 1;		// RRSET, RDATA, TIME_RANGE
	B name; B types;				// name indexes (name in wire order)
	B text;						// SOURCE
	uint32_t version = 0; unsigned vtype = 0;	// VERSION
	// searchable part of the rdata
	B srdata() const { unsigned o = rdata_off(type); return rdata[0].size() >= o ? rdata[0].substr(o) : rdata[0]; }
	B key() const {
		B k = u8(kind);
		switch (kind) {
		case RRSET: k += rev(owner) + varint(type) + rev(bail); for (auto &r : rdata) k += varint(r.size()) + r; break;
		case RRSET_NAME: k += name; break;
		case RDATA_NAME: k += rev(name); break;
		case RDATA: { unsigned o = rdata_off(type); k += rdata[0].substr(o) + varint(type) + rev(owner) + rdata[0].substr(0, o) + le16(rdata[0].size() - o); break; }
		case SOURCE: k += text; break;
		case VERSION: k += u8(vtype); break;
		case TIME_RANGE: break;
		}
		return k;
	}
	B val() const {
		switch (kind) {
		case RRSET: case RDATA: return triplet(first, last, count);
		case RRSET_NAME: case RDATA_NAME: return types;
		case TIME_RANGE: return pair(first, last);
		case VERSION: return varint(version);
		default: return "";
		}
	}
	u64 eff_last() const { return last == 0 ? first : last; }
	u64 eff_count() const { return count == 0 ? 1 : count; }
	str canon() const {
		str s;
		switch (kind) {
		case RRSET: case RDATA:
			s = kind == RRSET ? "RRSET " : "RDATA ";
			s += hex(owner) + " type=" + num(type) + " bail=" + (kind == RRSET ? hex(bail) : str("-")) + " n=" + num(rdata.size());
			for (auto &r : rdata) s += " " + hex(r);
			return s + " t=" + num(first) + ".." + num(eff_last()) + " c=" + num(eff_count());
		case RRSET_NAME: return "RRSET_NAME " + hex(name);
		case RDATA_NAME: return "RDATA_NAME " + hex(name);
		case TIME_RANGE: return fmt("TIME_RANGE %llu..%llu", (unsigned long long)first, (unsigned long long)last);
		case VERSION: return fmt("VERSION %u=%u", vtype, version);
		case SOURCE: return "SOURCE " + hex(text);
		}
		return s;
	}
};

inline Ent mk_rrset(const B &owner, unsigned type, const B &bail, const Bs &rdata, u64 f = 1000, u64 l = 2000, u64 c = 1) {
	Ent e; e.kind = RRSET; e.owner = owner; e.type = type; e.bail = bail; e.rdata = rdata; e.first = f; e.last = l; e.count = c; return e;
}
inline Ent mk_rdata(const B &rd, unsigned type, const B &owner, u64 f = 1000, u64 l = 2000, u64 c = 1) {
	Ent e; e.kind = RDATA; e.owner = owner; e.type = type; e.rdata = {rd}; e.first = f; e.last = l; e.count = c; return e;
}
inline Ent mk_name(Kind k, const B &name, const B &types = "") { Ent e; e.kind = k; e.name = name; e.types = types; return e; }
inline Ent mk_time_range(u64 f, u64 l) { Ent e; e.kind = TIME_RANGE; e.first = f; e.last = l; return e; }
inline Ent mk_version(unsigned t, uint32_t v) { Ent e; e.kind = VERSION; e.vtype = t; e.version = v; return e; }
inline Ent mk_source(const str &t) { Ent e; e.kind = SOURCE; e.text = t; return e; }

// what the accessors of a real entry say, in the form of Ent::canon()
inline str canon(struct dnstable_entry *e) {
	const uint8_t *p; size_t n; uint16_t ty; u64 f = 0, l = 0, c = 0; str s;
	int k = dnstable_entry_get_type(e);
	switch (k) {
	case RRSET: case RDATA: {
		s = k == RRSET ? "RRSET " : "RDATA ";
		s += dnstable_entry_get_rrname(e, &p, &n) ? hex(p, n) : "?";
		s += dnstable_entry_get_rrtype(e, &ty) ? " type=" + num(ty) : str(" type=?");
		if (k == RRSET) s += " bail=" + (dnstable_entry_get_bailiwick(e, &p, &n) ? hex(p, n) : str("?"));
		else s += " bail=-";
		size_t nr = 0;
		if (dnstable_entry_get_num_rdata(e, &nr)) s += " n=" + num(nr); else s += " n=?";
		for (size_t i = 0; i < nr && i < 70000; i++) s += " " + (dnstable_entry_get_rdata(e, i, &p, &n) ? hex(p, n) : str("?"));
		bool a = dnstable_entry_get_time_first(e, &f), b = dnstable_entry_get_time_last(e, &l), d = dnstable_entry_get_count(e, &c);
		s += a && b ? " t=" + num(f) + ".." + num(l) : str(" t=?");
		s += d ? " c=" + num(c) : str(" c=?");
		return s;
	}
	case RRSET_NAME:
		return "RRSET_NAME " + (dnstable_entry_get_rrname(e, &p, &n) ? hex(p, n) : str("?"));
	case RDATA_NAME:
		return "RDATA_NAME " + (dnstable_entry_get_rdata_name(e, &p, &n) ? hex(p, n) : str("?"));
	case TIME_RANGE: {
		bool a = dnstable_entry_get_time_first(e, &f), b = dnstable_entry_get_time_last(e, &l);
		return a && b ? fmt("TIME_RANGE %llu..%llu", (unsigned long long)f, (unsigned long long)l) : str("TIME_RANGE ?");
	}
	case VERSION: {
		uint32_t v = 0; dnstable_entry_type t;
		bool a = dnstable_entry_get_version(e, &v), b = dnstable_entry_get_version_type(e, &t);
		return a && b ? fmt("VERSION %u=%u", (unsigned)t, v) : str("VERSION ?");
	}
	case SOURCE: {
		const char *t;
		return dnstable_entry_get_source_info(e, &t) ? "SOURCE " + hex(t, strlen(t)) : str("SOURCE ?");
	}
	}
	return fmt("KIND %d", k);
}

// ---------------------------------------------------------------- databases
typedef std::vector<Ent> DB;
inline void sort_db(DB &d) { std::sort(d.begin(), d.end(), [](const Ent &a, const Ent &b) { return a.key() < b.key(); }); }
// the database in which equal records of several files have been merged
inline DB merge_dbs(const std::vector<DB> &fs) {
	std::map<B, Ent> m;
	for (auto &f : fs) for (auto &e : f) {
		auto it = m.find(e.key());
		if (it == m.end()) { m[e.key()] = e; continue; }
		Ent &x = it->second;
		switch (e.kind) {
		case RRSET: case RDATA: case TIME_RANGE:
			x.first = std::min(x.first, e.first); x.last = std::max(x.last, e.last); x.count += e.count; break;
		case VERSION: x.version = std::min(x.version, e.version); break;
		case RRSET_NAME: case RDATA_NAME: {
			if (x.types.empty() || e.types.empty()) { x.types = ""; break; }
			bool ok; auto a = union_decode(x.types, &ok), b = union_decode(e.types, &ok);
			a.insert(b.begin(), b.end()); x.types = type_union(a); break; }
		default: break;
		}
	}
	DB r; for (auto &kv : m) r.push_back(kv.second);
	return r;
}
inline void install_kv(const char *name, const std::map<B, B> &kv) {
	std::vector<struct standin_kv> v;
	for (auto &x : kv) v.push_back({(const uint8_t *)x.first.data(), x.first.size(), (const uint8_t *)x.second.data(), x.second.size()});
	standin_table(name, v.data(), v.size());
}
inline void install(const char *name, const DB &d) {
	std::map<B, B> kv; for (auto &e : d) kv[e.key()] = e.val();
	install_kv(name, kv);
}
struct Reader {			// a single open database
	struct mtbl_reader *m; struct dnstable_reader *r;
	Reader(const char *name) { m = mtbl_reader_init(name, NULL); r = dnstable_reader_init(mtbl_reader_source(m)); }
	~Reader() { dnstable_reader_destroy(&r); mtbl_reader_destroy(&m); }
	Reader(const Reader &) = delete;
};

// ---------------------------------------------------------------- queries
struct Q {
	int qtype = DNSTABLE_QUERY_TYPE_RRSET;
	Bs labels; char left = 0, right = 0;	// wildcard kinds '*' '+' or 0; labels without the wildcard
	bool case_sensitive = false;
	int rrtype = -1;
	bool has_bail = false; B bail;
	bool fb = false, fa = false, lb = false, la = false; u64 vfb = 0, vfa = 0, vlb = 0, vla = 0;
	u64 offset = 0; bool has_offset = false;
	int aggregated = -1;
	B ip1, ip2; str ip_text;		// RDATA_IP: inclusive bounds
	B raw;					// RDATA_RAW
	int vtype = -1;				// VERSION
	B name() const {			// name as given, without wildcards
		return wire(labels);
	}
	str data() const {
		switch (qtype) {
		case DNSTABLE_QUERY_TYPE_RDATA_IP: return ip_text;
		case DNSTABLE_QUERY_TYPE_RDATA_RAW: return hex(raw);
		default: {
			str s;
			if (left) s = str(1, left) + ".";
			for (auto &l : labels) s += pres_label(l) + ".";
			if (right) s += str(1, right);
			return s.empty() ? "." : s; }
		}
	}
	str text() const {
		str s = fmt("q%d %s", qtype, data().c_str());
		if (rrtype >= 0) s += fmt(" type=%d", rrtype);
		if (has_bail) s += " bail=" + pres(bail);
		if (fb) s += fmt(" first<=%llu", (unsigned long long)vfb);
		if (fa) s += fmt(" first>=%llu", (unsigned long long)vfa);
		if (lb) s += fmt(" last<=%llu", (unsigned long long)vlb);
		if (la) s += fmt(" last>=%llu", (unsigned long long)vla);
		if (has_offset) s += fmt(" offset=%llu", (unsigned long long)offset);
		if (aggregated >= 0) s += fmt(" agg=%d", aggregated);
		if (case_sensitive) s += " case";
		return s;
	}
	bool times_ok(const Ent &e) const {
		if (fb && !(e.first <= vfb)) return false;
		if (fa && !(e.first >= vfa)) return false;
		if (lb && !(e.last <= vlb)) return false;
		if (la && !(e.last >= vla)) return false;
		return true;
	}
};
inline bool name_bearing(unsigned t) {
	switch (t) { case NS: case CNAME: case SOA: case PTR: case MX: case RP: case NXT: case SRV: case DNAME: case NSEC: case SVCB: case HTTPS: return true; }
	return false;
}
// does wire name w match the pattern?
inline bool match_name(const Bs &lab, char left, char right, const Bs &w) {
	size_t n = lab.size();
	if (w.size() < n) return false;
	if (!left && !right) return w == lab;
	if (left) { if (!std::equal(lab.begin(), lab.end(), w.end() - n)) return false; if (left == '+') return w.size() == n + 1; return true; }
	if (!std::equal(lab.begin(), lab.end(), w.begin())) return false;
	return right == '+' ? w.size() == n + 1 : true;
}
// the target name by which a name lookup finds this rdata record ("" if none)
inline B target(const Ent &e) { B s = e.srdata(); size_t n = name_len(s); return n ? s.substr(0, n) : ""; }

inline bool matches(const Ent &e, const Q &q) {
	switch (q.qtype) {
	case DNSTABLE_QUERY_TYPE_RRSET: {
		if (e.kind != RRSET) return false;
		B want = q.case_sensitive ? wire(q.labels) : lower(wire(q.labels));
		if (!match_name(labels(want), q.left, q.right, labels(e.owner))) return false;
		if (q.rrtype >= 0 && e.type != (unsigned)q.rrtype) return false;
		if (q.has_bail && lower(q.bail) != e.bail) return false;
		return q.times_ok(e);
	}
	case DNSTABLE_QUERY_TYPE_RDATA_NAME: {
		if (e.kind != RDATA) return false;
		if (q.rrtype >= 0 ? e.type != (unsigned)q.rrtype : !name_bearing(e.type)) return false;
		B want = q.case_sensitive ? wire(q.labels) : lower(wire(q.labels));
		B t = target(e);
		if (t.empty() || !match_name(labels(want), q.left, q.right, labels(t))) return false;
		return q.times_ok(e);
	}
	case DNSTABLE_QUERY_TYPE_RDATA_IP: {
		unsigned t = q.ip1.size() == 4 ? A : AAAA;
		if (e.kind != RDATA || e.type != t || (q.rrtype >= 0 && (unsigned)q.rrtype != t)) return false;
		B s = e.srdata();
		if (s.size() != q.ip1.size()) return false;
		return s >= q.ip1 && s <= (q.ip2.empty() ? q.ip1 : q.ip2) && q.times_ok(e);
	}
	case DNSTABLE_QUERY_TYPE_RDATA_RAW: {
		if (e.kind != RDATA || (q.rrtype >= 0 && e.type != (unsigned)q.rrtype)) return false;
		B k = e.srdata() + varint(e.type);
		return k.compare(0, q.raw.size(), q.raw) == 0 && k.size() >= q.raw.size() && q.times_ok(e);
	}
	case DNSTABLE_QUERY_TYPE_TIME_RANGE: return e.kind == TIME_RANGE;
	case DNSTABLE_QUERY_TYPE_SOURCE_INFO: return e.kind == SOURCE;
	case DNSTABLE_QUERY_TYPE_VERSION: return e.kind == VERSION && (q.vtype < 0 || e.vtype == (unsigned)q.vtype);
	}
	return false;
}
// the answer, in the documented order (database order; for lookups through a name index, by name first)
inline std::vector<const Ent *> answer(const DB &db, const Q &q) {
	std::vector<const Ent *> r;
	for (auto &e : db) if (matches(e, q)) r.push_back(&e);
	auto by_key = [](const Ent *a, const Ent *b) { return a->key() < b->key(); };
	bool some = !q.labels.empty();	// a lone wildcard needs no index
	if (q.qtype == DNSTABLE_QUERY_TYPE_RRSET && q.right && some)
		std::sort(r.begin(), r.end(), [](const Ent *a, const Ent *b) { return std::make_pair(a->owner, a->key()) < std::make_pair(b->owner, b->key()); });
	else if (q.qtype == DNSTABLE_QUERY_TYPE_RDATA_NAME && q.left && some)
		std::sort(r.begin(), r.end(), [](const Ent *a, const Ent *b) { return std::make_pair(rev(target(*a)), a->key()) < std::make_pair(rev(target(*b)), b->key()); });
	else
		std::sort(r.begin(), r.end(), by_key);
	return r;
}
inline strs canons(const std::vector<const Ent *> &v, u64 skip = 0) { strs r; for (size_t i = skip; i < v.size(); i++) r.push_back(v[i]->canon()); return r; }

// a type mnemonic which set_rrtype() accepts
inline str rrtype_text(unsigned t) {
	static const std::map<unsigned, const char *> m = {{A,"A"},{NS,"NS"},{CNAME,"CNAME"},{SOA,"SOA"},{PTR,"PTR"},{MX,"MX"},{TXT,"TXT"},{AAAA,"AAAA"},
		{SRV,"SRV"},{DNAME,"DNAME"},{SVCB,"SVCB"},{HTTPS,"HTTPS"},{NSEC,"NSEC"},{RP,"RP"},{NXT,"NXT"}};
	auto it = m.find(t);
	return it != m.end() ? it->second : fmt("TYPE%u", t);
}
inline bool set_fence(dnstable_query *q, dnstable_filter_parameter_type p, u64 v) { return dnstable_query_set_filter_parameter(q, p, &v, sizeof v) == dnstable_res_success; }

// a real query with these settings; fails the check if one is refused
inline struct dnstable_query *make(vf::Ctx &c, const Q &q) {
	struct dnstable_query *d = dnstable_query_init((dnstable_query_type)q.qtype);
	auto must = [&](bool ok, const char *what) { if (!ok) c.fail("setting refused", fmt("%s refused for %s: %s", what, q.text().c_str(), dnstable_query_get_error(d))); };
	if (q.case_sensitive) must(dnstable_query_set_case_sensitive(d, true) == dnstable_res_success, "case");
	if (q.qtype <= DNSTABLE_QUERY_TYPE_RDATA_RAW) must(dnstable_query_set_data(d, q.data().c_str()) == dnstable_res_success, "data");
	if (q.qtype == DNSTABLE_QUERY_TYPE_VERSION && q.vtype >= 0)
		must(dnstable_query_set_data(d, dnstable_entry_type_to_string((dnstable_entry_type)q.vtype)) == dnstable_res_success, "data");
	if (q.rrtype >= 0) must(dnstable_query_set_rrtype(d, rrtype_text(q.rrtype).c_str()) == dnstable_res_success, "rrtype");
	if (q.has_bail) must(dnstable_query_set_bailiwick(d, pres(q.bail).c_str()) == dnstable_res_success, "bailiwick");
	if (q.fb) must(set_fence(d, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, q.vfb), "first before");
	if (q.fa) must(set_fence(d, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, q.vfa), "first after");
	if (q.lb) must(set_fence(d, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, q.vlb), "last before");
	if (q.la) must(set_fence(d, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, q.vla), "last after");
	if (q.has_offset) must(dnstable_query_set_offset(d, q.offset) == dnstable_res_success, "offset");
	if (q.aggregated >= 0) must(dnstable_query_set_aggregated(d, q.aggregated) == dnstable_res_success, "aggregated");
	return d;
}
// all results; also that the end is reported again and again
inline strs drain(vf::Ctx &c, struct dnstable_iter *it, size_t limit = 100000) {
	strs r;
	for (;;) {
		struct dnstable_entry *e = NULL;
		dnstable_res res = dnstable_iter_next(it, &e);
		c.step();
		if (res != dnstable_res_success) break;
		if (r.size() >= limit) { dnstable_entry_destroy(&e); c.fail("endless", "iteration does not end"); }
		r.push_back(canon(e));
		dnstable_entry_destroy(&e);
	}
	return r;
}
inline str join(const strs &v, const char *sep = "\n") { str s; for (auto &x : v) s += x + sep; return s; }
inline void compare(vf::Ctx &c, const strs &got, const strs &want, const str &what) {
	c.step(want.size() + 1);
	if (got == want) return;
	size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	c.fail("results", fmt("%s: result %zu is [%s], expected [%s] (%zu results, expected %zu)", what.c_str(), i,
		i < got.size() ? vf::Ctx::clip(got[i]).c_str() : "end", i < want.size() ? vf::Ctx::clip(want[i]).c_str() : "end", got.size(), want.size()));
}
inline str db_text(const DB &d) { str s; for (auto &e : d) s += e.canon() + " | "; return s; }
struct Iter {			// owns an iterator and its query
	struct dnstable_query *q = nullptr; struct dnstable_iter *it = nullptr;
	Iter() {}
	Iter(struct dnstable_query *q_, struct dnstable_iter *i_) : q(q_), it(i_) {}
	Iter(const Iter &) = delete;
	~Iter() { dnstable_iter_destroy(&it); dnstable_query_destroy(&q); }
};
inline strs run_query(vf::Ctx &c, struct dnstable_reader *r, const Q &q) {
	Iter it; it.q = make(c, q); it.it = dnstable_reader_query(r, it.q);
	return drain(c, it.it);
}
} // namespace dns
