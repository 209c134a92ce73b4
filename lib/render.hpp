// Reference renderings of an entry (text lines, JSON members), written from dnstable_entry(3) and the manual pages.
#pragma once
#include "ents.hpp"
namespace dns {
// calendar arithmetic on its own: year 0-based tables, no use of libc
struct Civil { int y, mo, d, h, mi, s; };
inline Civil civil(u64 t) {
	u64 days = t / 86400; unsigned r = t % 86400; int y = 1970;
	auto leap = [](int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
	// a cache of the first day of each year
	static const std::vector<u64> first = [&] { std::vector<u64> v; u64 d = 0; for (int i = 1970; i <= 10000; i++) { v.push_back(d); d += leap(i) ? 366 : 365; } return v; }();
	y = 1970 + (int)(std::upper_bound(first.begin(), first.end(), days) - first.begin()) - 1;
	int d = (int)(days - first[y - 1970]);
	static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	int m = 0; for (;; m++) { int l = len[m] + (m == 1 && leap(y)); if (d < l) break; d -= l; }
	return {y, m + 1, d + 1, (int)(r / 3600), (int)(r / 60 % 60), (int)(r % 60)};
}
const u64 Y10K = 253402300800ULL;
inline str date_text(u64 t, bool rfc) {
	Civil c = civil(t);
	return rfc ? fmt("%04d-%02d-%02dT%02d:%02d:%02dZ", c.y, c.mo, c.d, c.h, c.mi, c.s) : fmt("%04d-%02d-%02d %02d:%02d:%02d -0000", c.y, c.mo, c.d, c.h, c.mi, c.s);
}
inline str rtype(unsigned t) { const char *s = wdns_rrtype_to_str(t); return s ? s : "TYPE" + num(t); }
// the presentation of a name is libwdns' business, too
inline str name_text(const B &w) { vf::Uncounted u; char b[WDNS_PRESLEN_NAME]; wdns_domain_to_str((const uint8_t *)w.data(), w.size(), b); return b; }
inline str rdata_text(const B &rd, unsigned t) {
	vf::Uncounted u;
	std::vector<uint8_t> b(rd.begin(), rd.end()); b.push_back(0);
	char *s = wdns_rdata_to_str(b.data(), rd.size(), t, WDNS_CLASS_IN); str r = s ? s : ""; free(s); return r;
}
inline const char *vtype_name(unsigned t) {
	switch (t) { case 0: return "rrset"; case 1: return "rrset_name"; case 2: return "rdata"; case 3: return "rdata_name"; case 253: return "source_info"; case 254: return "time_range"; case 255: return "version"; }
	return nullptr;
}
inline str text_of(const Ent &e, bool rfc, bool zone) {
	str s;
	const char *z = zone ? " seen in zone file: " : " seen: ";
	switch (e.kind) {
	case RRSET:
		s = ";;  bailiwick: " + name_text(e.bail) + "\n;;      count: " + num(e.eff_count()) + "\n;; first" + z + date_text(e.first, rfc) + "\n;;  last" + z + date_text(e.eff_last(), rfc) + "\n";
		// fallthrough
	case RDATA:
		for (auto &r : e.rdata) s += name_text(e.owner) + " IN " + rtype(e.type) + " " + rdata_text(r, e.type) + "\n";
		return s;
	case RRSET_NAME: case RDATA_NAME: {
		bool ok; s = name_text(e.name) + " RRtypes=["; bool first = true;
		for (unsigned t : union_decode(e.types, &ok)) { s += (first ? "" : " ") + rtype(t); first = false; }
		return s + "]  ;; " + (e.kind == RRSET_NAME ? "rrset name fwd" : "rdata name rev") + "\n"; }
	case TIME_RANGE: return ";; Earliest time_first: " + date_text(e.first, rfc) + "\n;; Latest time_last: " + date_text(e.last, rfc) + "\n";
	case SOURCE: return ";; source info: " + e.text + "\n";
	case VERSION: return str(";; Version type ") + (vtype_name(e.vtype) ? str(vtype_name(e.vtype)) : num(e.vtype)) + ": " + num(e.version) + "\n";
	}
	return s;
}
// entries at the calendar's edges: the first and last second of every month of every year, and within
inline Ent pick_dated(vf::Ctx &c) {
	int y = 1970 + c.choose(8030); c.mine();
	int m = c.choose(12); int at = c.choose(4);
	static const std::vector<u64> first = [] { std::vector<u64> v; u64 d = 0; for (int i = 1970; i <= 10000; i++) { v.push_back(d); d += ((i % 4 == 0 && i % 100 != 0) || i % 400 == 0) ? 366 : 365; } return v; }();
	static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
	u64 d = first[y - 1970]; int l = 0; for (int i = 0; i <= m; i++) { l = len[i] + (i == 1 && leap); if (i < m) d += l; }
	u64 t = at == 0 ? d * 86400 : at == 1 ? (d + l) * 86400 - 1 : at == 2 ? (d + y % 28) * 86400 + y * 37 % 86400 : (d + 27) * 86400 + 43199 + y % 2;
	return m % 3 == 0 ? mk_time_range(t, t) : m % 3 == 1 ? mk_rrset(nm("a"), A, nm(""), {ip4(1, 2, 3, 4)}, t, t) : mk_rdata(ip4(1, 2, 3, 4), A, nm("a"), t, t);
}
inline bool dated(const Ent &e) { return e.kind == RRSET || e.kind == RDATA || e.kind == TIME_RANGE; }
inline bool in_calendar(const Ent &e) { return !dated(e) || (e.first < Y10K && (e.kind == TIME_RANGE ? e.last : e.eff_last()) < Y10K); }
inline str render(struct dnstable_entry *e, bool json, bool rfc, bool arr = false, bool raw = false) {
	struct dnstable_formatter *f = dnstable_formatter_init();
	dnstable_formatter_set_output_format(f, json ? dnstable_output_format_json : dnstable_output_format_text);
	dnstable_formatter_set_date_format(f, rfc ? dnstable_date_format_rfc3339 : dnstable_date_format_unix);
	dnstable_formatter_set_rdata_array(f, arr); dnstable_formatter_set_raw_rdata(f, raw);
	char *s = dnstable_entry_format(f, e); dnstable_formatter_destroy(&f);
	str r = s ? str(s) : str("(null)"); free(s); return r;
}
}
