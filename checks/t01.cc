// T01: the lookup tool prints exactly the library's answer for its options.
// The real main() runs for every command line of several families; what it prints is compared with
// what the library returns for the query which the documentation says the command line means.
#include "srcs.hpp"
#include "bulk.hpp"
#include "tool.hpp"
using namespace dns;

enum { SINGLE, SET, UNAGG };	// where the data is
struct Cmd { int qtype; str data; bool has_data = true; str type; bool has_type = false; str bail; bool has_bail = false; strs words; };
struct Opt {
	int src = SINGLE; bool json = false, Json = false, raw = false, n = false, C = false, c = false; int stats = 0; u64 off = 0;
	bool has[4] = {}; u64 at[4] = {};	// a A b B
	int t = 0, i = 0;
};
struct Answer { bool ok = false; str out; u64 entries = 0; bool timeout = false; std::vector<std::pair<str, u64>> stats; };

static Fixture *fx[3], *many[3];	// many: hundreds of entries, for long runs
static std::map<str, struct dnstable_reader *> readers;
static struct dnstable_reader *reader_for(int src) { return fx[src]->r(); }

static str entry_text(const Opt &o, struct dnstable_entry *e) {
	char *s; bool nl;
	if (o.json || o.Json) {
		struct dnstable_formatter *f = dnstable_formatter_init();
		dnstable_formatter_set_output_format(f, dnstable_output_format_json);
		dnstable_formatter_set_date_format(f, o.json ? dnstable_date_format_unix : dnstable_date_format_rfc3339);
		dnstable_formatter_set_raw_rdata(f, o.raw);
		s = dnstable_entry_format(f, e); nl = true;
		dnstable_formatter_destroy(&f);
	} else { s = dnstable_entry_to_text(e); nl = dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_RRSET; }
	str r = s; free(s);
	if (r.empty()) return r;
	return r + (nl ? "\n" : "");
}
// what the library says; not ok: the library refuses some setting
static Answer library(const Cmd &m, const Opt &o, struct dnstable_reader *r) {
	Answer a;
	struct dnstable_query *q = dnstable_query_init((dnstable_query_type)m.qtype);
	struct dnstable_iter *it = nullptr;
	bool ok = dnstable_query_set_case_sensitive(q, o.C) == dnstable_res_success;
	if (m.qtype != DNSTABLE_QUERY_TYPE_TIME_RANGE) ok = ok && dnstable_query_set_data(q, m.has_data ? m.data.c_str() : NULL) == dnstable_res_success;
	if (m.has_type) ok = ok && dnstable_query_set_rrtype(q, m.type.c_str()) == dnstable_res_success;
	if (m.has_bail) ok = ok && dnstable_query_set_bailiwick(q, m.bail.c_str()) == dnstable_res_success;
	bool meta = m.qtype > DNSTABLE_QUERY_TYPE_RDATA_RAW;
	if (!meta) {
		// strict: both ends of a record's time span lie within the limits
		bool h[4]; u64 v[4]; memcpy(h, o.has, sizeof h); memcpy(v, o.at, sizeof v);
		if (o.c) {
			if (h[1]) { v[0] = h[0] ? std::max(v[0], v[1]) : v[1]; h[0] = true; h[1] = false; }
			if (h[3]) { v[2] = h[2] ? std::min(v[2], v[3]) : v[3]; h[2] = true; h[3] = false; }
		}
		static const dnstable_filter_parameter_type p[4] = {DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER,
			DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE};
		for (int i = 0; i < 4; i++) if (h[i]) ok = ok && set_fence(q, p[i], v[i]);
	}
	if (o.off) ok = ok && dnstable_query_set_offset(q, o.off) == dnstable_res_success;
	ok = ok && dnstable_query_set_aggregated(q, o.src != UNAGG) == dnstable_res_success;
	if (ok) it = dnstable_reader_query(r, q);
	if (it) {
		a.ok = true;
		struct dnstable_entry *e = nullptr; dnstable_res res;
		while ((res = dnstable_iter_next(it, &e)) == dnstable_res_success) { if (!o.n) a.out += entry_text(o, e); a.entries++; dnstable_entry_destroy(&e); }
		if (o.stats) {
			for (int cat = 0; dnstable_stat_category_to_str((dnstable_stat_category)cat) && o.stats == 1; cat++) {
				u64 total = 0;
				for (int st = 0; dnstable_stat_stage_to_str((dnstable_stat_stage)st); st++) {
					bool ex = false; uint64_t n = 0;
					dnstable_iter_get_count(it, (dnstable_stat_stage)st, (dnstable_stat_category)cat, &ex, &n);
					if (ex) total += n;
				}
				a.stats.push_back({dnstable_stat_category_to_str((dnstable_stat_category)cat), total});
			}
			for (int st = 0; dnstable_stat_stage_to_str((dnstable_stat_stage)st) && o.stats > 1; st++)
				for (int cat = 0; dnstable_stat_category_to_str((dnstable_stat_category)cat); cat++) {
					bool ex = false; uint64_t n = 0;
					dnstable_iter_get_count(it, (dnstable_stat_stage)st, (dnstable_stat_category)cat, &ex, &n);
					if (ex) a.stats.push_back({str(dnstable_stat_stage_to_str((dnstable_stat_stage)st)) + " " + dnstable_stat_category_to_str((dnstable_stat_category)cat), n});
				}
		}
	}
	dnstable_iter_destroy(&it); dnstable_query_destroy(&q);
	return a;
}
static str line_of(const strs &w) { str s; for (auto &x : w) s += "[" + x + "]"; return s; }

// standard error of a run which succeeded: blocks of statistics, then the summary
struct Err { struct Block { std::vector<std::pair<str, u64>> v; u64 entries = 0; double elapsed = -1; }; std::vector<Block> blocks; bool timed_out = false, dumped = false; u64 count = 0; };
static Err read_err(vf::Ctx &c, const str &s, const str &what) {
	Err r; Err::Block b; bool open = false; size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find('\n', i); c.check(j != str::npos, "messages", what + ": last line of messages is not ended: " + s);
		str l = s.substr(i, j - i); i = j + 1;
		if (l.empty()) continue;
		if (l == ";;; timed out") { r.timed_out = true; continue; }
		unsigned long long n; int used = 0;
		if (sscanf(l.c_str(), ";;; Dumped %llu entries.%n", &n, &used) == 1 && used == (int)l.size()) { c.check(!r.dumped, "messages", what + ": two summaries"); r.dumped = true; r.count = n; continue; }
		size_t k = l.find(" : "); c.check(k != str::npos, "messages", what + ": unexpected message: " + l);
		str name = l.substr(0, k), val = l.substr(k + 3);
		while (!name.empty() && name.back() == ' ') name.pop_back();
		open = true;
		if (name == "elapsed") { unsigned long long sec, ns; c.check(sscanf(val.c_str(), "%llu.%9llus%n", &sec, &ns, &used) == 2 && used == (int)val.size() && val.size() - val.find('.') == 11, "messages", what + ": unreadable elapsed time: " + val); b.elapsed = sec + ns / 1e9; r.blocks.push_back(b); b = Err::Block(); open = false; continue; }
		c.check(sscanf(val.c_str(), "%llu%n", &n, &used) == 1 && used == (int)val.size(), "messages", what + ": not a number: " + l);
		if (name == "entries") b.entries = n; else b.v.push_back({name, n});
	}
	c.check(!open, "messages", what + ": statistics without elapsed time: " + s);
	return r;
}
static void set_env(int src, const char *dbs = "xyz") {
	unsetenv("DNSTABLE_FNAME"); unsetenv("DNSTABLE_SETFILE");
	str d = str(1, dbs[src]) + (src == SINGLE ? "db" : "set");
	setenv(src == SINGLE ? "DNSTABLE_FNAME" : "DNSTABLE_SETFILE", d.c_str(), 1);
}
static strs opt_words(const Opt &o, bool cluster) {
	strs w; str fl;
	auto f = [&](const char *x) { if (cluster) fl += x; else w.push_back(str("-") + x); };
	if (o.json) f("j"); if (o.Json) f("J"); if (o.raw) f("R"); if (o.n) f("n"); if (o.C) f("C"); if (o.c) f("c");
	for (int i = 0; i < o.stats; i++) f("s");
	if (o.src == UNAGG) f("u");
	auto v = [&](char x, const str &val) { if (cluster && !fl.empty()) { w.push_back("-" + fl + x + val); fl = ""; } else { w.push_back(str("-") + x); w.push_back(val); } };
	if (o.off) v('O', num(o.off));
	for (int i = 0; i < 4; i++) if (o.has[i]) v("aAbB"[i], num(o.at[i]));
	if (o.t) v('t', num(o.t)); if (o.i) v('i', num(o.i));
	if (!fl.empty()) w.push_back("-" + fl);
	return w;
}
static void refused(vf::Ctx &c, const tool::Out &r, const str &what) {
	c.check(r.status != 0, "misuse accepted", what + ": exit status 0");
	c.check(r.out.empty(), "misuse accepted", what + ": something was printed: " + r.out);
	c.check(!r.err.empty(), "misuse not reported", what + ": no message");
	c.step();
}
static void answered(vf::Ctx &c, const tool::Out &r, const Opt &o, const Answer &a, const str &what) {
	c.check(r.status == 0, "failed", what + fmt(": exit status %d: ", r.status) + r.err);
	c.eqs(r.out, a.out, what + ": output");
	Err e = read_err(c, r.err, what);
	c.check(!e.timed_out, "messages", what + ": claims a timeout");
	if (o.json || o.Json) c.check(!e.dumped, "messages", what + ": summary with JSON");
	else { c.check(e.dumped, "messages", what + ": no summary: " + r.err); c.eq(e.count, a.entries, what + ": number of entries"); }
	c.eq(e.blocks.size(), o.stats ? 1 : 0, what + ": blocks of statistics");
	if (o.stats) {
		auto &b = e.blocks[0];
		c.eq(b.entries, a.entries, what + ": entries in the statistics");
		c.check(b.elapsed >= 0 && b.elapsed <= r.passed / 1e9 + 1e-6, "elapsed", what + fmt(": elapsed %f, at most %f passed", b.elapsed, r.passed / 1e9));
		str x, y; for (auto &p : b.v) x += p.first + "=" + num(p.second) + " "; for (auto &p : a.stats) y += p.first + "=" + num(p.second) + " ";
		c.eqs(x, y, what + ": statistics");
	}
}
static void run_and_compare(vf::Ctx &c, const Cmd &m, const Opt &o, const strs &args) {
	str what = line_of(args) + fmt(" source %d", o.src);
	c.note(what); c.trace("%s", what.c_str());
	set_env(o.src);
	tool::Out r = tool::run(args);
	Answer a = library(m, o, reader_for(o.src));
	c.state(what);
	if (a.ok) answered(c, r, o, a, what); else refused(c, r, what);
}
static Cmd cmd(int qt, const str &data, const char *type = nullptr, const char *bail = nullptr) {
	Cmd m; m.qtype = qt; m.data = data;
	if (type) { m.has_type = true; m.type = type; } if (bail) { m.has_bail = true; m.bail = bail; }
	switch (qt) {
	case DNSTABLE_QUERY_TYPE_RRSET: m.words = {"rrset"}; break;
	case DNSTABLE_QUERY_TYPE_RDATA_IP: m.words = {"rdata", "ip"}; break;
	case DNSTABLE_QUERY_TYPE_RDATA_RAW: m.words = {"rdata", "raw"}; break;
	case DNSTABLE_QUERY_TYPE_RDATA_NAME: m.words = {"rdata", "name"}; break;
	case DNSTABLE_QUERY_TYPE_VERSION: m.words = {"version"}; break;
	default: m.words = {"time_range"};
	}
	if (qt == DNSTABLE_QUERY_TYPE_TIME_RANGE || (qt == DNSTABLE_QUERY_TYPE_VERSION && data.empty())) m.has_data = false; else m.words.push_back(data);
	if (type) m.words.push_back(type); if (bail) m.words.push_back(bail);
	return m;
}
static std::vector<Cmd> commands() {
	std::vector<Cmd> v;
	for (auto &q : zoo_queries(false)) {
		str t = q.rrtype >= 0 ? rrtype_text(q.rrtype) : "ANY", b = q.has_bail ? pres(q.bail) : "";
		if (q.qtype == DNSTABLE_QUERY_TYPE_RDATA_IP && q.rrtype >= 0) continue;	// the tool takes no type there
		v.push_back(cmd(q.qtype, q.data(), q.rrtype >= 0 || q.has_bail ? t.c_str() : nullptr, q.has_bail ? b.c_str() : nullptr));
	}
	v.push_back(cmd(DNSTABLE_QUERY_TYPE_RRSET, "B.A")); v.push_back(cmd(DNSTABLE_QUERY_TYPE_RDATA_NAME, "NS.a", "ns"));
	v.push_back(cmd(DNSTABLE_QUERY_TYPE_RDATA_RAW, "zz")); v.push_back(cmd(DNSTABLE_QUERY_TYPE_RRSET, "a", "NOSUCH")); v.push_back(cmd(DNSTABLE_QUERY_TYPE_RDATA_IP, "1.2.3.4/99"));
	v.push_back(cmd(DNSTABLE_QUERY_TYPE_RRSET, "*.a", "A", "*.x..")); v.push_back(cmd(DNSTABLE_QUERY_TYPE_RDATA_NAME, str(300, 'x'))); v.push_back(cmd(DNSTABLE_QUERY_TYPE_RDATA_NAME, "a", "QQ"));
	v.push_back(cmd(DNSTABLE_QUERY_TYPE_TIME_RANGE, ""));
	for (auto t : {"", "rrset", "rrset_name", "rdata", "rdata_name", "nonsense"}) v.push_back(cmd(DNSTABLE_QUERY_TYPE_VERSION, t));
	return v;
}
static const u64 BASE = 1500000000;
static void init() {
	if (fx[0]) return;
	DB z = zoo();
	z.push_back(mk_rrset(nm("B.a"), A, nm("a"), {ip4(1, 1, 1, 1)})); z.push_back(mk_rrset(nm("%s%%n.a"), TXT, nm("a"), {"\3%d%"})); z.push_back(mk_rdata(nm("%n%s.a"), MX, nm("%x"))); z.push_back(mk_rdata(nm("Ns.a"), NS, nm("q")));
	z.push_back(mk_name(RRSET_NAME, nm("B.a"))); z.push_back(mk_name(RDATA_NAME, nm("Ns.a")));
	sort_db(z);
	for (size_t i = 0; i < z.size(); i++) {
		if (z[i].kind == TIME_RANGE) { z[i].first = BASE; z[i].last = BASE + 2000; }
		else if (z[i].kind == RRSET || z[i].kind == RDATA) { z[i].first = BASE + i % 7; z[i].last = BASE + 1000 + i % 5; z[i].count = 1 + i * 37; }
	}
	DB w; for (int i = 0; i < 300; i++) w.push_back(mk_rrset(nm("x" + num(i) + ".a"), A, nm("a"), {ip4(1, 1, 1, 1)}, BASE, BASE + 1, 1));
	sort_db(w); many[SINGLE] = new Fixture(-1, w, "m"); many[SET] = new Fixture(1, w, "n"); many[UNAGG] = new Fixture(0, w, "o");
	fx[SINGLE] = new Fixture(-1, z, "x"); fx[SET] = new Fixture(1, z, "y"); fx[UNAGG] = new Fixture(0, z, "z");
	setlocale(LC_ALL, "C");
}
static void set_format(Opt &o, int f) { o.json = f == 1 || f == 3; o.Json = f == 2 || f == 4; o.raw = f >= 3 && f <= 4; o.n = f == 5; }
static strs with(const strs &opts, const strs &words, int layout) {
	strs a = {"dnstable_lookup"};
	auto put = [&](const strs &v) { a.insert(a.end(), v.begin(), v.end()); };
	if (layout == 0) { put(opts); put(words); } else if (layout == 1) { put(words); put(opts); } else if (layout == 2) { put(opts); a.push_back("--"); put(words); }
	else { a.push_back(words[0]); put(opts); a.insert(a.end(), words.begin() + 1, words.end()); }
	return a;
}
// every valid combination of options
static void valid(vf::Ctx &c) {
	static std::vector<Cmd> cs = commands();
	int k = c.choose((int)cs.size(), "command"); const Cmd &m = cs[k];
	bool meta = m.qtype > DNSTABLE_QUERY_TYPE_RDATA_RAW;
	Opt o; o.src = c.choose(3, "source"); set_format(o, c.choose(6, "format"));
	c.mine();
	if (meta && o.raw) throw vf::Cut();
	o.stats = c.choose(3, "statistics");
	if (!meta) { static const std::vector<u64> offs = {0, 1, 3, 1000, 4294967297ULL, 9223372036854775807ULL}; o.off = c.pick(offs, "offset"); }
	o.C = c.flip("case");
	int layout = c.choose(c.T(2, 4), "layout"); bool cluster = c.thorough() ? c.flip("cluster") : layout;
	// fences: none, one, or one and strict
	int f = c.choose(c.T(5, 9), "fence");
	if (f) { int w = (f - 1) % 4; o.has[w] = true; o.at[w] = BASE + (w == 0 || w == 3 ? 3 : 1002); o.c = f > 4; }
	run_and_compare(c, m, o, with(opt_words(o, cluster), m.words, layout));
}
// all combinations of four fences, strict or not
static void fences(vf::Ctx &c) {
	static std::vector<Cmd> cs = {cmd(DNSTABLE_QUERY_TYPE_RRSET, "*.a"), cmd(DNSTABLE_QUERY_TYPE_RDATA_IP, "10.1.2.0/24"), cmd(DNSTABLE_QUERY_TYPE_RDATA_NAME, "*.a"),
		cmd(DNSTABLE_QUERY_TYPE_RDATA_RAW, "026e73016100"), cmd(DNSTABLE_QUERY_TYPE_TIME_RANGE, ""), cmd(DNSTABLE_QUERY_TYPE_VERSION, "rdata")};
	const Cmd &m = cs[c.choose((int)cs.size(), "command")];
	Opt o; o.src = c.choose(3, "source"); o.c = c.flip("strict"); set_format(o, c.choose(2));
	static const std::vector<u64> few = {0, BASE + 2, BASE + 4, BASE + 1001, BASE + 1003}, many = {0, BASE, BASE + 2, BASE + 3, BASE + 4, BASE + 1000, BASE + 1001, BASE + 1003, BASE + 5000};
	auto &vals = c.thorough() ? many : few;
	for (int i = 0; i < 4; i++) { o.at[i] = c.pick(vals); o.has[i] = o.at[i] != 0; if (i == 0) c.mine(); }
	run_and_compare(c, m, o, with(opt_words(o, false), m.words, 0));
}
// which sets of flags are accepted, with which sources
static void flags(vf::Ctx &c) {
	static std::vector<Cmd> cs = {cmd(DNSTABLE_QUERY_TYPE_RRSET, "a"), cmd(DNSTABLE_QUERY_TYPE_RDATA_NAME, "*.a", "ns"), cmd(DNSTABLE_QUERY_TYPE_RDATA_IP, "10.1.2.3"),
		cmd(DNSTABLE_QUERY_TYPE_RDATA_RAW, "026e73016100", "ns"), cmd(DNSTABLE_QUERY_TYPE_VERSION, ""), cmd(DNSTABLE_QUERY_TYPE_VERSION, "rdata"), cmd(DNSTABLE_QUERY_TYPE_TIME_RANGE, "")};
	const Cmd &m = cs[c.choose((int)cs.size(), "command")];
	int env = c.choose(7, "environment");	// none, file, set, both, file which cannot be opened, both with an unusable file, empty file name
	c.mine();
	Opt o; int b = c.choose(512, "flags");
	o.json = b & 1; o.Json = b & 2; o.n = b & 4; o.raw = b & 8; bool u = b & 16; o.off = b & 32 ? 1 : 0; o.C = b & 64; o.c = b & 128; o.stats = b & 256 ? 1 : 0;
	o.src = u ? UNAGG : env == 2 ? SET : SINGLE;
	strs a = with(opt_words(o, false), m.words, 0);
	str what = line_of(a) + fmt(" environment %d", env);
	c.note(what); c.trace("%s", what.c_str()); c.state(what);
	unsetenv("DNSTABLE_FNAME"); unsetenv("DNSTABLE_SETFILE");
	if (env == 1 || env == 3) setenv("DNSTABLE_FNAME", "xdb", 1);
	if (env == 4 || env == 5) setenv("DNSTABLE_FNAME", "nosuch", 1);
	if (env == 6) setenv("DNSTABLE_FNAME", "", 1);
	if (env == 2 || env == 3 || env == 5) setenv("DNSTABLE_SETFILE", u ? "zset" : "yset", 1);
	bool meta = m.qtype > DNSTABLE_QUERY_TYPE_RDATA_RAW;
	bool good = (env == 1 || env == 2) && !(meta && (o.off || o.raw)) && !(o.n && (o.json || o.Json || o.raw)) && !(o.json && o.Json) && !(o.raw && !o.json && !o.Json) && !(u && env == 1);
	tool::Out r = tool::run(a);
	if (good) answered(c, r, o, library(m, o, reader_for(o.src)), what); else refused(c, r, what);
}
// every sequence of words
static void words(vf::Ctx &c) {
	static const strs w = {"rrset", "rdata", "ip", "raw", "name", "version", "time_range", "a", "10.1.2.3", "026e73016100", "A", "a/b", "", "RRSET", "*.a"};
	strs a; int n = c.choose(c.T(5, 6), "words");
	for (int i = 0; i < n; i++) { a.push_back(c.pick(w)); if (i == 1) c.mine(); }
	Opt o; o.src = SINGLE;
	Cmd m; bool good = false;
	if (n >= 2 && n <= 4 && a[0] == "rrset") { good = a[1].find('/') == str::npos; m.qtype = DNSTABLE_QUERY_TYPE_RRSET; m.data = a[1]; if (n > 2) { m.has_type = true; m.type = a[2]; } if (n > 3) { m.has_bail = true; m.bail = a[3]; } }
	else if (n >= 3 && a[0] == "rdata") {
		m.data = a[2];
		if (a[1] == "ip") { m.qtype = DNSTABLE_QUERY_TYPE_RDATA_IP; good = n == 3; }
		if (a[1] == "raw" || a[1] == "name") { m.qtype = a[1] == "raw" ? DNSTABLE_QUERY_TYPE_RDATA_RAW : DNSTABLE_QUERY_TYPE_RDATA_NAME; good = n <= 4; if (n > 3) { m.has_type = true; m.type = a[3]; } }
	} else if (n >= 1 && n <= 2 && a[0] == "version") { good = true; m.qtype = DNSTABLE_QUERY_TYPE_VERSION; m.has_data = n == 2; if (n == 2) m.data = a[1]; }
	else if (n == 1 && a[0] == "time_range") { good = true; m.qtype = DNSTABLE_QUERY_TYPE_TIME_RANGE; m.has_data = false; }
	strs full = {"dnstable_lookup"}; full.insert(full.end(), a.begin(), a.end());
	if (good) { run_and_compare(c, m, o, full); return; }
	c.note(line_of(full)); c.trace("%s", line_of(full).c_str()); c.state(line_of(full)); set_env(SINGLE);
	refused(c, tool::run(full), line_of(full));
}
// option arguments which are refused, unknown options
static void bad_options(vf::Ctx &c) {
	static const std::vector<strs> bad = {{"-O", "0"}, {"-O", "-1"}, {"-O", "abc"}, {"-O", ""}, {"-t", "0"}, {"-t", "-5"}, {"-t", "x"}, {"-i", "0"}, {"-i", "-1"}, {"-i", ""}, {"-x"}, {"-jx"}, {"--nosuch"}, {"-jJ"}, {"-h"}, {"-?"}};
	static const strs lacking = {"-O", "-t", "-i", "-a", "-A", "-b", "-B", "-jO"};
	Opt o; o.src = SINGLE; set_env(SINGLE);
	int k = c.choose(2); strs a = {"dnstable_lookup"};
	if (k == 0) { auto &b = c.pick(bad); bool after = c.flip(); if (after) { a.push_back("rrset"); a.push_back("a"); } a.insert(a.end(), b.begin(), b.end()); if (!after) { a.push_back("rrset"); a.push_back("a"); } }
	else { a.push_back("rrset"); a.push_back("a"); a.push_back(c.pick(lacking)); }
	c.mine();
	str what = line_of(a); c.note(what); c.state(what);
	refused(c, tool::run(a), what);
}
// ---------------------------------------------------------------- times
typedef __int128 big;
static int64_t days(int y, int m, int d) {	// from 1970-01-01
	y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + (int64_t)doe - 719468;
}
static const int64_t NOW = 1600000000;
static void try_time(vf::Ctx &c, const str &text, big t, int64_t slack = 0) {	// t <= 0: refused
	int w = c.choose(4, "which");
	c.mine();
	if (t > 0) {
		// records just before, at and just after the time
		DB d; for (int i = -1; i <= 1; i++) { u64 x = (u64)t + i; if (x == 0 || (t == (big)INT64_MAX && i > 0)) continue; d.push_back(mk_rrset(nm("t"), 300 + i, nm("t"), {"x"}, x, x, 1)); }
		sort_db(d); install("tdb", d);
	} else install("tdb", {});
	unsetenv("DNSTABLE_SETFILE"); setenv("DNSTABLE_FNAME", "tdb", 1);
	Cmd m = cmd(DNSTABLE_QUERY_TYPE_RRSET, "t");
	strs a = {"dnstable_lookup", str("-") + "aAbB"[w], text, "rrset", "t"};
	str what = line_of(a); c.note(what); c.trace("%s", what.c_str()); c.state(what);
	tool::Out r = tool::run(a);
	if (t <= 0) { refused(c, r, what); return; }
	Opt o; o.has[w] = true; o.at[w] = (u64)t;
	Reader rd("tdb");
	answered(c, r, o, library(m, o, rd.r), what);
}
static void dates(vf::Ctx &c) {
	static const std::vector<int> ys = {1, 1583, 1900, 1968, 1969, 1970, 1971, 1999, 2000, 2001, 2004, 2020, 2021, 2024, 2038, 2100, 2400, 9999}, ms = {1, 2, 3, 7, 11, 12}, ds = {1, 2, 28, 29, 30, 31};
	static const std::vector<std::array<int, 3>> ts = {{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {12, 34, 56}, {23, 59, 59}, {23, 0, 0}, {0, 59, 9}};
	int y = c.pick(ys, "year"), m = c.pick(ms, "month"), d = c.pick(ds, "day");
	static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	if (d > len[m - 1] + (m == 2 && y % 4 == 0 && (y % 100 || y % 400 == 0))) throw vf::Cut();
	int f = c.choose(4, "form");
	big t = (big)days(y, m, d) * 86400; str s = fmt("%04d-%02d-%02d", y, m, d);
	if (f) { auto &h = c.pick(ts, "time"); t += h[0] * 3600 + h[1] * 60 + h[2]; s += fmt("%c%02d:%02d:%02d%s", f == 1 ? ' ' : 'T', h[0], h[1], h[2], f == 3 ? "Z" : ""); }
	try_time(c, s, t);
}
static void bad_dates(vf::Ctx &c) {
	static const strs v = {"2022-13-01", "2022-00-10", "2022-01-32", "2022-01-00", "2022-01-01T24:00:00", "2022-01-01T10:60:00", "2022-01-01 10:00:99", "2022-01-01x", "2022-01", "2022-01-01T", "2022-01-01T10:00",
		"2022-01-01T10:00:00ZZ", "2022-01-01 10:00:00Z ", "2022-01-01T10:00:00+01:00", "2022/01/01", "01-01-2022", "today", "x", "", "-", "w", "1x", "1w2", "3d-1h", "1w-", "0w", "0", "-0", "1d0h", "1.5", "1e9", "0x10", "1ww", "1w d"};
	const str &s = c.pick(v);
	big t = 0;
	if (s == "1w2") t = NOW - 604802;
	try_time(c, s, t);
}
static void relative(vf::Ctx &c) {
	static const strs nums = {"1", "2", "10", "007", "52", "100000", "1600000000", "9223372036854775807", "1317624576693540", "4611686018427387904"};
	static const str units = "wdhmsWDHMS"; static const int mul[] = {604800, 86400, 3600, 60, 1};
	int n = 1 + c.choose(c.T(2, 3), "parts"); str s; big total = 0;
	for (int i = 0; i < n; i++) {
		const str &x = i && !c.thorough() ? nums[std::vector<int>{0, 1, 4, 7}[c.choose(4)]] : c.pick(nums);
		bool last = i + 1 == n; int u = c.choose(10 + (last && n > 1), "unit");
		s += x; if (u < 10) s += units[u];
		total += (big)strtoll(x.c_str(), nullptr, 10) * (u < 10 ? mul[u % 5] : 1);
	}
	try_time(c, s, total > NOW ? 0 : NOW - total);
}
static void numbers(vf::Ctx &c) {
	static const std::vector<int64_t> v = {1, 2, 3, 59, 127, 128, 255, 256, 65535, 65536, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, NOW - 1, NOW, NOW + 1, (1LL << 62), INT64_MAX - 1, INT64_MAX,
		-1, -2, -300, -86400, -NOW + 2, -NOW + 1, -NOW, -NOW - 1, -2147483648LL, -4294967297LL, INT64_MIN};
	int64_t x = c.pick(v);
	try_time(c, fmt("%lld", (long long)x), x > 0 ? (big)x : (big)NOW + x);
}
// ---------------------------------------------------------------- time limits and intervals
static void limits(vf::Ctx &c) {
	static const std::vector<Cmd> cs = {cmd(DNSTABLE_QUERY_TYPE_RRSET, "*.a"), cmd(DNSTABLE_QUERY_TYPE_RDATA_NAME, "*.a", "mx"), cmd(DNSTABLE_QUERY_TYPE_RDATA_IP, "10.1.0.0/16"), cmd(DNSTABLE_QUERY_TYPE_RDATA_RAW, "0a"), cmd(DNSTABLE_QUERY_TYPE_RRSET, "nothing.*")};
	static const std::vector<int64_t> steps = {0, 100000000, 400000000, 999999999, 1000000000, 3000000000LL, 100000000000LL};
	// two databases: with few entries, and with hundreds of entries read quickly one after the other
	bool large = c.flip("large");
	static const std::vector<int64_t> quick = {7000000, 20000000, 45000000};
	const Cmd &m = large ? cs[0] : c.pick(cs, "command");
	Opt o; o.src = c.choose(3, "source"); set_format(o, std::vector<int>{0, 1, 5}[c.choose(3)]);
	c.mine();
	int64_t step = c.pick(large ? quick : steps, "step");
	static const std::vector<int> ts = {0, 1, 2, 3, 10, 1000000}, is = {0, 1, 2, 5, 1000000};
	o.t = c.pick(ts, "limit"); o.i = c.pick(is, "interval"); o.stats = c.choose(3, "statistics"); o.off = c.flip() ? 2 : 0;
	strs args = with(opt_words(o, false), m.words, 0);
	str what = line_of(args) + fmt(" source %d, %lld ns per entry read", o.src, (long long)step); c.note(what); c.trace("%s", what.c_str()); c.state(what);
	set_env(o.src, large ? "mno" : "xyz");
	tool::Out r = tool::run(args, step);
	Answer a = library(m, o, (large ? many : fx)[o.src]->r());
	c.check(r.status == 0, "failed", what + ": exit status");
	Err e = read_err(c, r.err, what);
	double total = r.passed / 1e9, s = step / 1e9, eps = 1e-4;
	if (r.out != a.out) c.check(o.t && r.out.size() < a.out.size() && a.out.compare(0, r.out.size(), r.out) == 0, "output", what + ": output [" + r.out + "] is not a part of [" + a.out + "]");
	// the limit: nothing is left out before it, and reading stops soon after it
	bool stats = o.stats || o.i;
	u64 shown = 0;
	if (!o.json) { c.check(e.dumped, "messages", what + ": no summary"); shown = e.count; c.check(shown <= a.entries, "summary", what + ": more entries than there are");
		if (!e.timed_out) c.eq(shown, a.entries, what + ": number of entries"); }
	if (!o.t) { c.check(!e.timed_out, "messages", what + ": claims a timeout"); c.eqs(r.out, a.out, what + ": output"); }
	else if (total < o.t) { c.check(!e.timed_out, "messages", what + ": early timeout"); c.eqs(r.out, a.out, what + ": output"); if (!o.json) c.eq(shown, a.entries, what + ": entries"); }
	if (o.t) c.check(total <= o.t + 8 * s + eps, "limit", what + fmt(": went on for %f s", total));
	if (e.timed_out) c.check(total >= o.t, "messages", what + ": timeout before the limit");
	// the statistics: at the end, and after every interval
	if (!stats) c.eq(e.blocks.size(), 0, what + ": blocks");
	else {
		c.check(!e.blocks.empty(), "statistics", what + ": none");
		double prev = 0; u64 pe = 0;
		for (size_t k = 0; k < e.blocks.size(); k++) {
			auto &b = e.blocks[k]; bool last = k + 1 == e.blocks.size();
			c.check(b.entries >= pe, "statistics", what + ": fewer entries than before"); pe = b.entries;
			c.check(b.elapsed >= prev - 1e-9 && b.elapsed <= total + eps, "elapsed", what + fmt(": elapsed %f after %f, total %f", b.elapsed, prev, total));
			if (!last) c.check(o.i && b.elapsed - prev >= o.i - (k ? 0 : 8 * s) - eps, "interval", what + fmt(": statistics after %f s", b.elapsed - prev));
			if (o.i) c.check(b.elapsed - prev <= o.i + 8 * s + eps, "interval", what + fmt(": no statistics for %f s", b.elapsed - prev));
			prev = b.elapsed;
			c.step();
		}
		c.check(e.blocks.back().elapsed >= total - 8 * s - eps, "statistics", what + fmt(": last at %f of %f", prev, total));
		if (r.out == a.out && !e.timed_out && !o.n && !o.t) c.eq(e.blocks.back().entries, a.entries, what + ": entries");
		if (!o.json) c.eq(e.blocks.back().entries, shown, what + ": entries in the statistics");
		// after an uninterrupted run: the library's numbers
		if (e.blocks.size() == 1 && !e.timed_out && (!o.t || total < o.t)) {
			Opt o2 = o; o2.stats = std::max(1, o.stats); Answer a2 = library(m, o2, (large ? many : fx)[o.src]->r());
			str x, y; for (auto &p : e.blocks[0].v) x += p.first + "=" + num(p.second) + " "; for (auto &p : a2.stats) y += p.first + "=" + num(p.second) + " ";
			c.eqs(x, y, what + ": statistics");
		}
	}
}
// large databases, long data and long results
static void large(vf::Ctx &c) {
	const int RR = DNSTABLE_QUERY_TYPE_RRSET, RN = DNSTABLE_QUERY_TYPE_RDATA_NAME, RAW = DNSTABLE_QUERY_TYPE_RDATA_RAW;
	static const str q126 = [] { str x; for (int i = 0; i < 126; i++) x += "q."; return x; }();
	static const std::vector<Cmd> cs = {cmd(RR, "*.a"), cmd(RR, "+.a"), cmd(RR, "t.*"), cmd(RR, "t.a", "A"), cmd(RR, "t.a", "ANY", "b69"), cmd(RR, "m.a"), cmd(RR, "l65535.a"), cmd(RR, "l32767.a", "TYPE300"), cmd(RR, q126), cmd(RR, q126, "A", q126.c_str()), cmd(RR, "+.m.m"),
		cmd(RN, "*.a"), cmd(RN, "t.a", "NS"), cmd(RN, q126), cmd(RN, "ns69.*"), cmd(DNSTABLE_QUERY_TYPE_RDATA_IP, "10.0.0.0/8"), cmd(DNSTABLE_QUERY_TYPE_RDATA_IP, "10.0.0.9"), cmd(RAW, vf::hex(str(40000, 'L'))), cmd(RAW, vf::hex(str(65535, 'L')), "TYPE300"), cmd(RAW, "4c4c"), cmd(RAW, vf::hex(str(70000, 'L')))};
	int shape = c.choose(BULK + 1, "database"); const Cmd &m = cs[c.choose((int)cs.size(), "command")];
	if (shape == BULK && m.words != cs[0].words) throw vf::Cut();
	c.mine();
	Opt o; set_format(o, shape == BULK ? 5 * c.choose(2) : c.choose(6, "format")); o.src = SINGLE; o.stats = c.choose(2, "statistics"); static const std::vector<u64> offs = {0, 255, 256, 600, 65535, 65536}; o.off = offs[c.choose(shape == BULK ? 6 : 4, "offset")];
	static std::map<int, Fixture *> fb; if (!fb[shape]) { vf::Uncounted u; DB d; if (shape < BULK) d = bulk(shape, c.T(700, 3000)); else for (int i = 0; i < 66000; i++) d.push_back(mk_rrset(nm("x" + num(i) + ".a"), A, nm("a"), {ip4(1, 1, 1, 1)})); sort_db(d); fb[shape] = new Fixture(-1, d, fmt("large%d", shape).c_str()); }
	strs a = with(opt_words(o, false), m.words, 0); str what = line_of(a).substr(0, 300) + fmt(" on large database %d", shape);
	c.note(what); c.trace("%s", what.c_str()); c.state(line_of(a) + fmt("%d", shape));
	unsetenv("DNSTABLE_SETFILE"); setenv("DNSTABLE_FNAME", fmt("large%ddb", shape).c_str(), 1);
	tool::Out r = tool::run(a);
	Answer x = library(m, o, fb[shape]->r());
	if (x.ok) answered(c, r, o, x, what); else refused(c, r, what);
}
static void body(vf::Ctx &c) {
	init();
	switch (c.choose(10, "family")) { case 9: large(c); break;
	case 0: valid(c); break; case 1: fences(c); break; case 2: flags(c); break; case 3: words(c); break; case 4: bad_options(c); break;
	case 5: dates(c); break; case 6: bad_dates(c); break; case 7: if (c.flip()) numbers(c); else relative(c); break; default: limits(c);
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
