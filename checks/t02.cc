// T02: the dump tool prints exactly the selected section.
// The real main() runs for every sequence of arguments and for every small database.
#include "srcs.hpp"
#include "tool.hpp"
#include "bulk.hpp"
using namespace dns;

static const Kind sections[7] = {RRSET, RDATA, RRSET_NAME, RDATA_NAME, TIME_RANGE, VERSION, SOURCE};
struct Arg { const char *text; int what; bool on; };	// 0..6 section, 7 json, 8 raw, 9 file, 10 missing file, 11 refused, 12.. combinations
static const std::vector<Arg> vocab = {
	{"-r", 0, true}, {"--rrset_full", 0, true}, {"-d", 1, true}, {"--rdata_full", 1, true}, {"--rrset_names", 2, true}, {"--rdata_names", 3, true}, {"-t", 4, true}, {"--time_range", 4, true},
	{"-v", 5, true}, {"--version_entries", 5, true}, {"-s", 6, true}, {"--source_info_entries", 6, true}, {"-j", 7, true}, {"--json", 7, true}, {"-R", 8, true}, {"--raw", 8, true},
	{"xdb", 9, true}, {"nosuch", 10, true}, {"-x", 11, true}, {"--nosuch", 11, true}, {"-jR", 12, true}, {"-Rr", 13, true}, {"-dj", 14, true}, {"-rd", 15, true},
	{"-r=no", 0, false}, {"--json=no", 7, false}, {"-R=no", 8, false}, {"--rdata_names=no", 3, false}, {"", 16, true}, {"--rdata_names=yes", 3, true},
};
static DB whole;

static str entry_text(bool json, bool raw, struct dnstable_entry *e) {
	char *s;
	if (json) {
		struct dnstable_formatter *f = dnstable_formatter_init();
		dnstable_formatter_set_output_format(f, dnstable_output_format_json);
		dnstable_formatter_set_date_format(f, dnstable_date_format_unix);
		dnstable_formatter_set_raw_rdata(f, raw);
		s = dnstable_entry_format(f, e);
		dnstable_formatter_destroy(&f);
	} else s = dnstable_entry_to_text(e);
	str r = s; free(s);
	return r + (!json && dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_RDATA ? "" : "\n");
}
// what must be printed: each entry of the section, in the order of the keys
static str expected(vf::Ctx &c, const DB &db, int sec, bool json, bool raw) {
	DB d; for (auto &e : db) if (e.kind == sections[sec]) d.push_back(e);
	install("one", d);
	Reader r("one"); str out; size_t n = 0;
	struct dnstable_reader *q = r.r;
	struct dnstable_iter *it = sec == 0 ? dnstable_reader_iter_rrset(q) : sec == 1 ? dnstable_reader_iter_rdata(q) : sec == 2 ? dnstable_reader_iter_rrset_names(q) : sec == 3 ? dnstable_reader_iter_rdata_names(q) :
		sec == 4 ? dnstable_reader_iter_time_range(q) : sec == 5 ? dnstable_reader_iter_version(q) : dnstable_reader_iter_source_info(q);
	struct dnstable_entry *e = nullptr;
	while (dnstable_iter_next(it, &e) == dnstable_res_success) { out += entry_text(json, raw, e); n++; dnstable_entry_destroy(&e); c.step(); }
	dnstable_iter_destroy(&it);
	c.eq(n, d.size(), "entries listed by the library");
	return out;
}
static str line_of(const strs &w) { str s; for (auto &x : w) s += "[" + x + "]"; return s; }
static void printed(vf::Ctx &c, const tool::Out &r, const str &want, const str &what) {
	c.check(r.status == 0, "failed", what + fmt(": exit status %d: ", r.status) + r.err);
	c.eqs(r.out, want, what + ": output");
	c.check(r.err.empty(), "messages", what + ": " + r.err);
}
static void refused(vf::Ctx &c, const tool::Out &r, const str &what) {
	c.check(r.status != 0, "misuse accepted", what + ": exit status 0");
	c.check(r.out.empty(), "misuse accepted", what + ": something was printed: " + r.out);
	c.check(!r.err.empty(), "misuse not reported", what + ": no message");
	c.step();
}
static void arguments(vf::Ctx &c) {
	int n = c.choose(c.T(5, 6), "arguments"); strs a = {"dnstable_dump"};
	bool used[7] = {}, on[7] = {}, json = false, raw = false, bad = false; int files = 0, missing = 0;
	for (int i = 0; i < n; i++) {
		auto &x = c.pick(vocab); a.push_back(x.text);
		if (i == 1 || n == 1) c.mine();
		switch (x.what) {
		case 7: json = x.on; break; case 8: raw = x.on; break; case 9: files++; break; case 10: case 16: files++; missing++; break; case 11: bad = true; break;
		case 12: json = raw = true; break; case 13: raw = used[0] = on[0] = true; break; case 14: used[1] = on[1] = json = true; break; case 15: used[0] = used[1] = on[0] = on[1] = true; break;
		default: used[x.what] = true; on[x.what] = x.on;
		}
	}
	int u = 0, sec = -1; for (int i = 0; i < 7; i++) { u += used[i]; if (on[i]) sec = i; }
	bool good = !bad && u == 1 && sec >= 0 && files == 1 && !missing && !(raw && (!json || sec > 1));
	str what = line_of(a); c.note(what); c.trace("%s", what.c_str()); c.state(what);
	tool::Out r = tool::run(a);
	if (good) printed(c, r, expected(c, whole, sec, json, raw), what); else refused(c, r, what);
}
static void databases(vf::Ctx &c) {
	static std::vector<Ent> es;
	if (es.empty()) {
		es = {mk_rrset(nm("a"), A, nm(""), {ip4(10, 1, 2, 3)}, 0, 0, 0), mk_rrset(nm("50%%s%n.a"), TXT, nm("a"), {"\1x", "\2%d"}, 1, (u64)-1, (u64)-1), mk_rdata(nm("ns.a"), NS, nm("a")), mk_rdata("\5he%so", TXT, nm("%x%n"), 5, 5, 7), mk_rdata(be16(5) + nm("mx.a"), MX, nm("a")),
			mk_name(RRSET_NAME, nm("a"), type_union({A, TXT})), mk_name(RRSET_NAME, nm("b%%.a"), ""), mk_name(RDATA_NAME, nm("ns.a"), type_union({NS})), mk_time_range(1000, 2000), mk_version(0, 1), mk_version(2, 77), mk_source("one"), mk_source("t%sw%no")};
		if (c.thorough()) { es.push_back(mk_rrset(nm("z"), 65280, nm("z"), {"", "abc"})); es.push_back(mk_rdata(ip6w({0x2001, 0xdb8}), AAAA, nm("c.a"))); es.push_back(mk_name(RDATA_NAME, nm(""), type_union({NS, MX, 65535}))); es.push_back(mk_version(200, 3)); }
	}
	int sec = c.choose(7, "section"), f = c.choose(3, "format");
	DB d; for (auto &e : es) if (c.flip()) d.push_back(e);
	c.mine();
	if (f == 2 && sec > 1) throw vf::Cut();
	sort_db(d); install("some", d);
	static const char *opts[7] = {"-r", "-d", "--rrset_names", "--rdata_names", "-t", "-v", "-s"};
	strs a = {"dnstable_dump", opts[sec]}; if (f) a.push_back(f == 1 ? "-j" : "-jR"); a.push_back("some");
	str what = line_of(a) + " of " + db_text(d); c.note(what); c.trace("%s", what.c_str()); c.state(what);
	tool::Out r = tool::run(a);
	printed(c, r, expected(c, d, sec, f > 0, f > 1), what);
}
static void large(vf::Ctx &c) {
	int shape = c.choose(BULK, "database"), sec = c.choose(7, "section"), f = c.choose(3, "format");
	c.mine();
	if (f == 2 && sec > 1) throw vf::Cut();
	static std::map<int, DB> dbs;
	if (!dbs.count(shape)) { vf::Uncounted u; DB d = bulk(shape, c.T(700, 3000)); if (shape == 0) for (int i = 0; i < 255; i++) { d.push_back(mk_version(i, i * 7)); d.push_back(mk_source(str(i * 3, 's') + num(i))); } sort_db(d); dbs[shape] = d; }
	const DB &d = dbs[shape]; str name = fmt("large%d", shape); install(name.c_str(), d);
	static const char *opts[7] = {"-r", "-d", "--rrset_names", "--rdata_names", "-t", "-v", "-s"};
	strs a = {"dnstable_dump", opts[sec]}; if (f) a.push_back(f == 1 ? "-j" : "-jR"); a.push_back(name);
	str what = line_of(a); c.note(what); c.trace("%s", what.c_str()); c.state(what);
	tool::Out r = tool::run(a);
	printed(c, r, expected(c, d, sec, f > 0, f > 1), what);
	install(name.c_str(), {});
}
static void body(vf::Ctx &c) {
	static bool once;
	if (!once) { once = true; setlocale(LC_ALL, "C"); whole = zoo(); install("xdb", whole); }
	unsetenv("GLOBAL_ARGV");
	switch (c.choose(3, "family")) { case 0: arguments(c); break; case 1: databases(c); break; default: large(c); }
}
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
