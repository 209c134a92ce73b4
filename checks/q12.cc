// Q12: query parameters are accepted or refused exactly as documented, and mean what they say.
#include "srcs.hpp"
#include <arpa/inet.h>
using namespace dns;

static const int RR = DNSTABLE_QUERY_TYPE_RRSET, RN = DNSTABLE_QUERY_TYPE_RDATA_NAME, RI = DNSTABLE_QUERY_TYPE_RDATA_IP, RW = DNSTABLE_QUERY_TYPE_RDATA_RAW;
static Fixture *fx;
static struct dnstable_query *fresh(int qt) { return dnstable_query_init((dnstable_query_type)qt); }
struct QP { struct dnstable_query *q; QP(int qt) : q(fresh(qt)) {} ~QP() { dnstable_query_destroy(&q); } };
enum Verdict { REFUSE, ACCEPT, EITHER };

// set the parameter; check the verdict and the error text; check what an accepted value selects and
// that a refused one leaves the earlier value in force
static void parameter(vf::Ctx &c, int qt, const str &s, Verdict v, Q want, const Q &before) {
	QP p(qt);
	if (dnstable_query_set_data(p.q, before.data().c_str()) != dnstable_res_success) c.fail("acceptance", "refused: [" + before.data() + "]");
	bool ok = dnstable_query_set_data(p.q, s.c_str()) == dnstable_res_success;
	c.step(); c.trace("q%d [%s] %s", qt, s.c_str(), ok ? "accepted" : "refused");
	c.state(fmt("%d %d ", qt, ok) + want.text() + fmt(" %zu", s.size()));
	str what = fmt("query type %d: [%s]", qt, s.size() > 400 ? (s.substr(0, 400) + "...").c_str() : s.c_str());
	if (v != EITHER && ok != (v == ACCEPT)) c.fail("acceptance", what + (ok ? " accepted" : " refused"));
	if (!ok) { const char *e = dnstable_query_get_error(p.q); if (!e || !*e) c.fail("error text", what); }
	if (want.vtype == -9 && ok) return;
	if (v == EITHER && ok && want.ip1.empty()) return;		// accepted, but what it means is not specified
	const Q &eff = ok ? want : before;
	Iter it; it.it = dnstable_reader_query(fx->r(), p.q);
	compare(c, drain(c, it.it), canons(answer(fx->whole, eff)), what);
}
// ---- names
static Verdict name_verdict(const strs &tok, Q *q) {	// tokens: "." or label text (already unescaped bytes)
	Bs l; B cur; bool open = false; size_t total = 1;
	if (tok.empty()) return REFUSE;
	if (tok.size() == 1 && tok[0] == ".") { q->labels.clear(); return ACCEPT; }
	for (auto &t : tok) {
		if (t == ".") { if (!open) return REFUSE; l.push_back(cur); cur.clear(); open = false; }
		else { cur += t; open = true; }
	}
	if (open) l.push_back(cur);
	for (auto &x : l) { if (x.size() > 63) return REFUSE; total += x.size() + 1; }
	if (total > 255) return REFUSE;
	auto wild = [](const B &x) { return x == "*" || x == "+"; };
	if (l.size() > 1 && wild(l.front()) && wild(l.back())) q->vtype = -9;	// wildcards at both ends: which one counts is not specified
	if (wild(l.front())) { q->left = l.front()[0]; l.erase(l.begin()); }
	else if (l.size() > 1 && wild(l.back())) { q->right = l.back()[0]; l.pop_back(); }
	q->labels = l;
	return ACCEPT;
}
static void names(vf::Ctx &c) {
	int qt = c.choose(2) ? RN : RR;
	static const strs alpha = {".", "a", "*", "+", "b", "ns", "A"};
	int n = c.T(6, 7); strs tok;
	for (int i = 0; i < n; i++) { int k = c.choose((int)alpha.size() + 1); if (i == 1) c.mine(); if (k == (int)alpha.size()) break; tok.push_back(alpha[k]); }
	c.mine();
	str s; for (auto &t : tok) s += t;
	Q want; want.qtype = qt; Verdict v = name_verdict(tok, &want);
	parameter(c, qt, s, v, want, q_name(qt, "mx.b.a"));
}
// a wildcard character within a label is an ordinary character
static void long_names(vf::Ctx &c) {
	int qt = c.choose(2) ? RN : RR;
	int first = c.choose(5), a = c.choose(5), b = c.choose(5), d = c.choose(5), e = c.choose(8), dot = c.choose(2);
	c.mine();
	static const int len[] = {0, 1, 62, 63, 64};
	strs tok; str s; Bs l;
	if (first == 1) l.push_back("*"); else if (first == 2) l.push_back("+"); else if (first == 3) l.push_back("*a"); else if (first == 4) l.push_back("a+");
	for (int x : {a, b, d}) if (len[x]) l.push_back(B(len[x], 'x'));
	static const int tail[] = {0, 57, 58, 59, 60, 61, 62, 63};
	if (tail[e]) l.push_back(B(tail[e], 'y'));
	for (size_t i = 0; i < l.size(); i++) { if (i) tok.push_back("."); tok.push_back(l[i]); }
	if (dot) tok.push_back(".");
	for (auto &t : tok) s += t;
	Q want; want.qtype = qt; Verdict v = name_verdict(tok, &want);
	parameter(c, qt, s, v, want, q_name(qt, "ns.a"));
	// the same text as a bailiwick
	QP p(RR); bool ok = dnstable_query_set_bailiwick(p.q, s.c_str()) == dnstable_res_success;
	if (ok != (v == ACCEPT)) c.fail("acceptance", "bailiwick [" + s + "]");
	if (!ok) { const char *m = dnstable_query_get_error(p.q); if (!m || !*m) c.fail("error text", "bailiwick [" + s + "]"); }
}
// ---- addresses
static bool parse_addr(const str &s, B *out) {	// the C library defines the text of addresses
	uint8_t b[16];
	if (s.find('\0') != str::npos) return false;
	if (inet_pton(AF_INET, s.c_str(), b) == 1) { *out = B((char *)b, 4); return true; }
	if (inet_pton(AF_INET6, s.c_str(), b) == 1) { *out = B((char *)b, 16); return true; }
	return false;
}
static B low(const B &a, unsigned p) { B r = a; for (unsigned i = p; i < a.size() * 8; i++) r[i / 8] = (char)((uint8_t)r[i / 8] & ~(0x80 >> i % 8)); return r; }
static B high(const B &a, unsigned p) { B r = a; for (unsigned i = p; i < a.size() * 8; i++) r[i / 8] = (char)((uint8_t)r[i / 8] | (0x80 >> i % 8)); return r; }
static Verdict ip_verdict(const str &s, Q *q) {
	char d = s.find('-') != str::npos ? '-' : s.find('/') != str::npos ? '/' : 0;
	B a, b;
	if (!d) { if (!parse_addr(s, &a)) return REFUSE; q->ip1 = a; return ACCEPT; }
	auto split = [&](const str &t, bool merge) { strs v; str cur; for (char x : t + str(1, d)) if (x == d) { if (!merge || !cur.empty()) v.push_back(cur); cur.clear(); } else cur += x; return v; };
	strs f = split(s, false), g = split(s, true);
	bool lenient = f != g;		// doubled, leading or trailing separators are not specified
	if (g.size() != 2 || !parse_addr(g[0], &a)) return REFUSE;
	if (d == '-') {
		if (!parse_addr(g[1], &b) || a.size() != b.size()) return REFUSE;
		q->ip1 = a; q->ip2 = b; return lenient ? EITHER : ACCEPT;
	}
	str n = g[1];
	size_t k = 0; while (k < n.size() && (n[k] == ' ' || n[k] == '+')) { k++; lenient = true; }
	if (k == n.size()) return REFUSE;
	for (size_t i = k; i < n.size(); i++) if (!isdigit(n[i])) return REFUSE;
	if (n[k] == '0' && n.size() > k + 1) lenient = true;
	n = n.substr(k); while (n.size() > 1 && n[0] == '0') n.erase(0, 1);
	if (n.size() > 3 || (unsigned)atoi(n.c_str()) > a.size() * 8) return REFUSE;
	unsigned p = atoi(n.c_str());	// in decimal, with whatever in front
	q->ip1 = low(a, p); q->ip2 = high(a, p);
	return lenient ? EITHER : ACCEPT;
}
static void addresses(vf::Ctx &c) {
	static const strs tok = {"10.1.2.3", "10.1.2.4", "0.0.0.0", "255.255.255.255", "10.1.2.256", "10.1.2", "10.1.2.3.4", "2001:db8::", "2001:DB8::1", "::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::1::", "::10.1.2.3",
		"/", "-", "0", "1", "24", "31", "32", "33", "127", "128", "129", "-1", "99999999999999999999", "x", " ", "+8", "010", "0x10", "030", "1e1", "18446744073709551616", "4294967328"};
	int n = c.T(3, 4); str s;
	for (int i = 0; i < n; i++) { int k = c.choose((int)tok.size() + 1); if (i == 1) c.mine(); if (k == (int)tok.size()) break; s += tok[k]; }
	c.mine();
	Q want; want.qtype = RI; want.ip_text = s; Verdict v = ip_verdict(s, &want);
	parameter(c, RI, s, v, want, q_ip(ip4(10, 1, 3, 0), "", "10.1.3.0"));
}
static void prefixes(vf::Ctx &c) {	// every length
	static const strs a = {"0.0.0.0", "10.1.2.3", "10.1.2.4", "10.1.3.0", "128.0.0.1", "255.255.255.255", "::", "2001:db8::", "2001:DB8::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"};
	str s = c.pick(a); int p = c.choose(140); c.mine();
	s += fmt("/%d", p);
	Q want; want.qtype = RI; want.ip_text = s; Verdict v = ip_verdict(s, &want);
	parameter(c, RI, s, v, want, q_ip(ip4(10, 1, 3, 0), "", "10.1.3.0"));
}
// ---- raw
static void hexes(vf::Ctx &c) {
	static const str alpha = "02aAfFgGxX @:`/";
	int n = c.T(5, 6); str s;
	for (int i = 0; i < n; i++) { int k = c.choose((int)alpha.size() + 1); if (i == 1) c.mine(); if (k == (int)alpha.size()) break; s += alpha[k]; }
	c.mine();
	Q want; want.qtype = RW; Verdict v = !s.empty() && s.size() % 2 == 0 ? ACCEPT : REFUSE;
	for (char x : s) if (!isxdigit((unsigned char)x)) v = REFUSE;
	if (v == ACCEPT) for (size_t i = 0; i < s.size(); i += 2) want.raw += u8(strtoul(s.substr(i, 2).c_str(), nullptr, 16));
	parameter(c, RW, s, v, want, q_raw(nm("ns.a")));
}
// ---- RR types
static void types(vf::Ctx &c) {
	static const std::map<str, int> known = {{"A",1},{"NS",2},{"MD",3},{"CNAME",5},{"SOA",6},{"NULL",10},{"PTR",12},{"HINFO",13},{"MX",15},{"TXT",16},{"RP",17},{"AAAA",28},{"LOC",29},{"NXT",30},{"SRV",33},{"NAPTR",35},
		{"DNAME",39},{"DS",43},{"RRSIG",46},{"NSEC",47},{"DNSKEY",48},{"NSEC3",50},{"TLSA",52},{"SVCB",64},{"HTTPS",65},{"SPF",99},{"URI",256},{"CAA",257},{"TYPE1",1},{"TYPE300",300},{"TYPE65535",65535},
		{"ANY",-1},{"ANY-DNSSEC",-1},{"TYPE255",-1}};
	static const strs bad = {"", " ", "A ", " A", "AA", "NOSUCH", "ANY ", "ANYX", "AN", "1", "-1", ".", "*", "TYPE", "TYPEX", "A,NS"};
	int k = c.choose((int)(known.size() + bad.size())); int qi = c.choose(4); int casing = c.choose(3); int before = c.choose(2);
	c.mine();
	bool good = k < (int)known.size(); str s; int type = -1;
	if (good) { auto it = known.begin(); std::advance(it, k); s = it->first; type = it->second; } else s = bad[k - known.size()];
	for (size_t i = 0; i < s.size(); i++) if (casing == 1 || (casing == 2 && i % 2)) s[i] = tolower(s[i]);
	QP p(qi);
	if (before) dnstable_query_set_rrtype(p.q, "MX");
	bool ok = dnstable_query_set_rrtype(p.q, s.c_str()) == dnstable_res_success;
	if (ok != good) c.fail("acceptance", "RR type [" + s + "] " + (ok ? "accepted" : "refused"));
	if (!ok) { const char *m = dnstable_query_get_error(p.q); if (!m || !*m) c.fail("error text", "RR type [" + s + "]"); type = before ? MX : -1; }
	c.step(); c.state(s + fmt(" %d %d", qi, before)); c.trace("RR type [%s] %s", s.c_str(), ok ? "accepted" : "refused");
	if (qi == RI) return;	// the address decides
	// what it selects
	for (int t : {1, 2, 3, 5, 6, 10, 12, 13, 15, 16, 17, 28, 29, 30, 33, 35, 39, 43, 46, 47, 48, 50, 52, 64, 65, 99, 255, 256, 257, 300, 65535}) {
		Ent e = qi == RR ? mk_rrset(nm("a"), t, nm(""), {"x"}) : mk_rdata("xxxxxxxxxx", t, nm("a"));
		B kk = e.key(), v = e.val(); struct dnstable_entry *d = dnstable_entry_decode((const uint8_t *)kk.data(), kk.size(), (const uint8_t *)v.data(), v.size());
		if (!d) c.fail("decode", e.canon());
		bool pass = false; dnstable_res r = dnstable_query_filter(p.q, d, &pass);
		dnstable_entry_destroy(&d);
		bool want = type >= 0 ? t == type : qi == RN ? name_bearing(t) : true;
		c.step();
		if (r != dnstable_res_success || pass != want) c.fail("type", fmt("RR type [%s], query type %d: record of type %d ", s.c_str(), qi, t) + (pass ? "passes" : "does not pass"));
	}
}
static void entry_types(vf::Ctx &c) {
	static const strs base = {"rrset", "rrset_name", "rdata", "rdata_name", "time_range", "source_info", "version", ""};
	int k = c.choose((int)base.size()), op = c.choose(5); int pos = op ? c.choose(12) : 0; int ch = op == 2 ? c.choose(4) : 0;
	c.mine();
	str s = base[k];
	if (op == 1) s = s.substr(0, pos); else if (op == 2) { if (pos >= (int)s.size()) throw vf::Cut(); s[pos] = "R_ 0"[ch]; } else if (op == 3) s += "x_ s2SE "[pos % 8]; else if (op == 4) { if (pos >= (int)s.size()) throw vf::Cut(); s[pos] = toupper(s[pos]); }
	int t = -1; for (int i = 0; i < 4; i++) if (s == base[i]) t = i;
	QP p(DNSTABLE_QUERY_TYPE_VERSION);
	dnstable_query_set_data(p.q, "rrset_name");
	bool ok = dnstable_query_set_data(p.q, s.c_str()) == dnstable_res_success;
	if (ok != (t >= 0)) c.fail("acceptance", "entry type [" + s + "] " + (ok ? "accepted" : "refused"));
	if (!ok) { const char *m = dnstable_query_get_error(p.q); if (!m || !*m) c.fail("error text", "entry type [" + s + "]"); t = 1; }
	Q w = q_meta(DNSTABLE_QUERY_TYPE_VERSION, t);
	Iter it; it.it = dnstable_reader_query(fx->r(), p.q);
	compare(c, drain(c, it.it), canons(answer(fx->whole, w)), "entry type [" + s + "]");
	c.state(s); c.trace("entry type [%s] %s", s.c_str(), ok ? "accepted" : "refused");
	// the mnemonics themselves
	for (int i = 0; i < 7; i++) {
		static const int val[] = {0, 1, 2, 3, 254, 253, 255};
		const char *m = dnstable_entry_type_to_string((dnstable_entry_type)val[i]);
		dnstable_entry_type back;
		if (!m || base[i] != m || dnstable_entry_type_from_string(&back, m) != dnstable_res_success || (int)back != val[i]) c.fail("mnemonic", base[i]);
	}
	dnstable_entry_type back;
	bool known = std::find(base.begin(), base.end() - 1, s) != base.end() - 1;
	if ((dnstable_entry_type_from_string(&back, s.c_str()) == dnstable_res_success) != known) c.fail("mnemonic", "[" + s + "]");
}
static void parameters(vf::Ctx &c) {
	int qt = c.choose(4), id = c.choose(7), len = c.choose(18); bool null = c.choose(2); c.mine();
	QP p(qt); u64 v[3] = {1500, 0, 0};
	bool ok = dnstable_query_set_filter_parameter(p.q, (dnstable_filter_parameter_type)(id < 6 ? id : 1000), null ? NULL : v, len) == dnstable_res_success;
	if (ok != (id < 4 && len == 8)) c.fail("acceptance", fmt("filter parameter %d of %d bytes", id, len));
	if (!ok) { const char *m = dnstable_query_get_error(p.q); if (!m || !*m) c.fail("error text", "filter parameter"); }
	c.step(); c.state(fmt("%d %d %d %d", qt, id, len, null)); c.trace("filter parameter %d of %d bytes", id, len);
}
static void misplaced(vf::Ctx &c) {
	static const int qts[] = {RR, RN, RI, RW, DNSTABLE_QUERY_TYPE_SOURCE_INFO, DNSTABLE_QUERY_TYPE_TIME_RANGE, DNSTABLE_QUERY_TYPE_VERSION};
	int qt = qts[c.choose(7)]; static const strs v = {"", "a", ".", "1.2.3.4", "00", "rrset", "*.a"}; str s = c.pick(v); int op = c.choose(2); c.mine();
	QP p(qt);
	c.state(fmt("%d %d", qt, op) + s); c.trace("query type %d: [%s]", qt, s.c_str()); c.step();
	if (op == 0) { if (qt != DNSTABLE_QUERY_TYPE_SOURCE_INFO && qt != DNSTABLE_QUERY_TYPE_TIME_RANGE) return;
		if (dnstable_query_set_data(p.q, s.c_str()) == dnstable_res_success) c.fail("acceptance", fmt("query type %d takes [%s]", qt, s.c_str())); }
	else if (op == 1) { bool ok = dnstable_query_set_bailiwick(p.q, s.c_str()) == dnstable_res_success; if (ok != (qt == RR && !s.empty())) c.fail("acceptance", fmt("bailiwick [%s] for query type %d", s.c_str(), qt)); if (ok) return; }
	const char *m = dnstable_query_get_error(p.q); if (!m || !*m) c.fail("error text", "misplaced parameter");
}
// every string of at most two bytes, and every one of three over the interesting bytes, for every kind
static void bytes(vf::Ctx &c) {
	int n = c.choose(3); str s;
	static const str few = str("\0", 0) + ".*+\\-/:0129afAFgxX \t\x01\x7f\x80\xff@#";
	if (n < 2) for (int i = 0; i <= n; i++) { s += u8(1 + c.choose(255)); if (i == 0) c.mine(); }
	else for (int i = 0; i < 3; i++) { s += few[c.choose((int)few.size())]; if (i == 0) c.mine(); }
	for (int qt : {RR, RN, RI, RW, (int)DNSTABLE_QUERY_TYPE_VERSION}) {
		QP p(qt);
		bool ok = dnstable_query_set_data(p.q, s.c_str()) == dnstable_res_success;
		if (!ok) { const char *m = dnstable_query_get_error(p.q); if (!m || !*m) c.fail("error text", hex(s)); }
		if (qt == RW && ok != (n != 2 && n == 1 && isxdigit((uint8_t)s[0]) && isxdigit((uint8_t)s[1]))) c.fail("acceptance", "raw " + hex(s));
		B addr; if (qt == RI && ok != parse_addr(s, &addr)) c.fail("acceptance", "address " + hex(s));
		if ((qt == RR || qt == RN) && s.find('\\') == str::npos) {
			strs tok; for (char x : s) tok.push_back(str(1, x));
			Q w; w.qtype = qt; bool want = name_verdict(tok, &w) == ACCEPT;
			if (ok != want) c.fail("acceptance", "name " + hex(s));
			if (ok && w.vtype != -9) { Iter it; it.it = dnstable_reader_query(fx->r(), p.q); compare(c, drain(c, it.it), canons(answer(fx->whole, w)), "name " + hex(s)); }
		} else { Iter it; it.it = dnstable_reader_query(fx->r(), p.q); drain(c, it.it); }
		if (qt == RR) { bool b = dnstable_query_set_bailiwick(p.q, s.c_str()) == dnstable_res_success; if (b != ok) c.fail("acceptance", "bailiwick " + hex(s)); }
		dnstable_query_set_rrtype(p.q, s.c_str());
		c.step();
	}
	c.state(s); c.trace("%s", hex(s).c_str());
}
// texts far longer than any parameter needs
static void long_texts(vf::Ctx &c) {
	static const strs units = {"a", "a.", "*", "*.", "+", ".", "0", "1", "1.", "f", "ff:", ":", "/", "-", "/1", "-1", "\\", "\\0", "\\046", "\\000", " ", "\xff", "xn--", "TYPE", "9", "rrset", "10.1.2.3", "10.1.2.3/", "10.1.2.3-"};
	static const strs ends = {"", ".", "a", "/24", "-10.1.2.4", "0", "g", " "};
	static const std::vector<size_t> lens = {16, 45, 46, 47, 63, 64, 127, 128, 253, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20};
	str u = c.pick(units); size_t n = c.pick(lens); c.mine(); str end = c.pick(ends);
	if (n > 65537 && !c.thorough() && !end.empty()) throw vf::Cut();
	str s; while (s.size() + u.size() <= n) s += u; s += end;
	c.state(u + end + fmt("%zu", n)); c.trace("%zu of [%s] and [%s]", n, u.c_str(), end.c_str());
	bool slash = s.find('\\') != str::npos;
	for (int qt : {RR, RN}) {
		Q want; want.qtype = qt; Verdict v = EITHER;
		if (!slash) { strs tok; str cur; for (char x : s) if (x == '.') { if (!cur.empty()) tok.push_back(cur); cur.clear(); tok.push_back("."); } else cur += x; if (!cur.empty()) tok.push_back(cur); v = name_verdict(tok, &want); parameter(c, qt, s, v, want, q_name(qt, "ns.a")); }
		QP p(qt); bool ok = dnstable_query_set_data(p.q, s.c_str()) == dnstable_res_success; const char *m = dnstable_query_get_error(p.q);
		if (!ok && (!m || !*m)) c.fail("error text", "name");
		if (ok && s.size() > 1200) c.fail("acceptance", fmt("a name of %zu characters", s.size()));
		if (qt == RR) { bool b = dnstable_query_set_bailiwick(p.q, s.c_str()) == dnstable_res_success; if (b != ok) c.fail("acceptance", fmt("bailiwick of %zu characters", s.size())); }
		Iter it; it.it = dnstable_reader_query(fx->r(), p.q); drain(c, it.it);
	}
	{ Q want; want.qtype = RI; want.ip_text = s; Verdict v = ip_verdict(s, &want); parameter(c, RI, s, v, want, q_ip(ip4(10, 1, 3, 0), "", "10.1.3.0")); }
	{ Q want; want.qtype = RW; Verdict v = s.size() % 2 == 0 ? ACCEPT : REFUSE; for (char x : s) if (!isxdigit((unsigned char)x)) v = REFUSE; if (v == ACCEPT) for (size_t i = 0; i < s.size(); i += 2) want.raw += u8(strtoul(s.substr(i, 2).c_str(), nullptr, 16)); parameter(c, RW, s, v, want, q_raw(nm("ns.a"))); }
	QP p(DNSTABLE_QUERY_TYPE_VERSION); if (dnstable_query_set_data(p.q, s.c_str()) == dnstable_res_success) c.fail("acceptance", "entry type"); const char *m = dnstable_query_get_error(p.q); if (!m || !*m) c.fail("error text", "entry type");
	QP r(RR); if (dnstable_query_set_rrtype(r.q, s.c_str()) == dnstable_res_success && s.compare(0, 4, "TYPE")) c.fail("acceptance", "RR type"); else if (s.compare(0, 4, "TYPE")) { m = dnstable_query_get_error(r.q); if (!m || !*m) c.fail("error text", "RR type"); }
	dnstable_entry_type t; if (dnstable_entry_type_from_string(&t, s.c_str()) == dnstable_res_success) c.fail("mnemonic", "long");
	c.step();
}
static void body(vf::Ctx &c) {
	if (!fx) {
		DB z = zoo(1, true);
		z.push_back(mk_rrset(nm("*"), A, nm(""), {"x"})); z.push_back(mk_rrset(nm("a.*.b"), A, nm(""), {"x"})); z.push_back(mk_rrset(nm("b.+a"), A, nm(""), {"x"})); z.push_back(mk_rrset(nm("a*.a"), A, nm(""), {"x"}));
		z.push_back(mk_rrset(nm(""), NS, nm(""), {"x"})); z.push_back(mk_rrset(nm("ns"), NS, nm(""), {"x"}));
		for (auto n : {"*", "a.*.b", "b.+a", "a*.a", "", "ns"}) z.push_back(mk_name(RRSET_NAME, nm(n)));
		z.push_back(mk_rdata(nm("*"), NS, nm("q"))); z.push_back(mk_rdata(nm("ns.+"), NS, nm("q"))); z.push_back(mk_rdata(nm(""), NS, nm("q"))); z.push_back(mk_rdata(nm("ns"), NS, nm("q")));
		for (auto n : {"*", "ns.+", "", "ns"}) z.push_back(mk_name(RDATA_NAME, nm(n)));
		for (auto &a : {ip4(0, 0, 0, 0), ip4(255, 255, 255, 255), ip4(127, 255, 255, 255), ip4(128, 0, 0, 0), ip4(10, 1, 2, 0)}) z.push_back(mk_rdata(a, A, nm("q")));
		for (auto &a : {ip6w({}), B(16, '\xff'), ip6w({0,0,0,0,0,0,0,1}), ip6w({0x8000}), ip6w({0x7fff, 0xffff})}) z.push_back(mk_rdata(a, AAAA, nm("q")));
		sort_db(z);
		fx = new Fixture(-1, z);
	}
	switch (c.choose(11)) {
	case 9: long_texts(c); break;
	case 0: names(c); break; case 1: long_names(c); break; case 2: addresses(c); break; case 3: prefixes(c); break; case 4: hexes(c); break;
	case 5: types(c); break; case 6: entry_types(c); break; case 7: parameters(c); break; case 8: misplaced(c); break; default: bytes(c);
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
