// Q13: iterator statistics count what actually happened.
#include "srcs.hpp"
using namespace dns;

static Fixture &fixture(int mode) {
	static Fixture *f[3];
	if (!f[mode + 1]) {
		DB z = zoo();
		z.push_back(mk_rdata(nm("ns.a"), TXT, nm("t"))); z.push_back(mk_rdata(nm("ns.a"), 300, nm("a"))); z.push_back(mk_rdata(nm("ns.z"), 300, nm("a")));
		z.push_back(mk_rrset(nm("b.a"), A, nm("b.a"), {"zzzz"}));
		int i = 0; for (auto &e : z) { if (e.kind == RRSET || e.kind == RDATA) { e.first = 1000 + i % 5; e.last = 2000 + i % 7; i++; } if (e.kind == TIME_RANGE) { e.first = 1000; e.last = 2006; } }
		sort_db(z);
		f[mode + 1] = new Fixture(mode, z, mode < 0 ? "s" : mode ? "a" : "u");
	}
	return *f[mode + 1];
}
static bool stat(struct dnstable_iter *it, int stage, int cat, u64 *n) {
	bool ex = false; *n = 0;
	dnstable_res r = dnstable_iter_get_count(it, (dnstable_stat_stage)stage, (dnstable_stat_category)cat, &ex, n);
	return r == dnstable_res_success && ex;
}
static void counts(vf::Ctx &c) {
	int mode = c.choose(3) - 1;
	static const std::vector<Q> qs = [] { std::vector<Q> v = zoo_queries(true);
		v.push_back(q_name(DNSTABLE_QUERY_TYPE_RRSET, "*.a", NS)); v.push_back(q_name(DNSTABLE_QUERY_TYPE_RRSET, "*.nothing", A)); v.push_back(q_raw(nm("ns.a"), TXT));
		Q q = q_name(DNSTABLE_QUERY_TYPE_RRSET, "*.a", A); q.has_bail = true; q.bail = nm("b.a"); v.push_back(q); return v; }();
	Q q = c.pick(qs);
	Fixture &f = fixture(mode);
	q = f.fit(q);
	bool rec = q.qtype <= DNSTABLE_QUERY_TYPE_RDATA_RAW;
	int fence = rec ? c.choose(8) : 0;
	c.mine();
	if (fence & 1) { q.fb = true; q.vfb = 1002; } if (fence & 2) { q.la = true; q.vla = 2003; } if (fence & 4) { q.fa = true; q.vfa = 1001; }
	q.offset = c.choose(4); q.has_offset = q.offset > 0;
	u64 seeks0 = standin_seeks;
	Iter it; it.q = make(c, q); it.it = dnstable_reader_query(f.r(), it.q);
	auto ans = answer(f.whole, q);
	c.trace("%s: %s", mode_name(mode), q.text().c_str()); c.state(fmt("%d ", mode) + q.text());
	u64 n, m; size_t k = 0;
	str what = str(mode_name(mode)) + " " + q.text();
	for (;; k++) {
		struct dnstable_entry *e = nullptr;
		dnstable_res r = dnstable_iter_next(it.it, &e);
		bool ex = stat(it.it, DNSTABLE_STAT_STAGE_FILTER_OFFSET, DNSTABLE_STAT_CATEGORY_FILTERED, &n);
		if (ex != q.has_offset) c.fail("offset stage presence", what);
		u64 want = r == dnstable_res_success ? q.offset : std::min<u64>(q.offset, ans.size());
		if (ex && n != want) c.fail("offset count", fmt("%llu skipped, expected %llu: ", (unsigned long long)n, (unsigned long long)want) + what);
		c.step();
		if (r != dnstable_res_success) break;
		dnstable_entry_destroy(&e);
	}
	if (k != (ans.size() > q.offset ? ans.size() - q.offset : 0)) c.fail("results", what);
	// stages not in use are absent, stages in use are present
	for (int stage : {DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, DNSTABLE_STAT_STAGE_FILTER_TIME})
		if (stat(it.it, stage, DNSTABLE_STAT_CATEGORY_FILTERED, &n) && !fence) c.fail("time stage without fences", what);
	if (stat(it.it, DNSTABLE_STAT_STAGE_FILTER_BAILIWICK, DNSTABLE_STAT_CATEGORY_FILTERED, &n) && !q.has_bail) c.fail("bailiwick stage without bailiwick", what);
	bool plus = q.left == '+' || q.right == '+';
	if (stat(it.it, DNSTABLE_STAT_STAGE_FILTER_SINGLE_LABEL, DNSTABLE_STAT_CATEGORY_FILTERED, &n) != plus) c.fail("single label stage", what);
	bool dance = mode == 1 && fence;
	for (int stage : {DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_STAGE_LJOIN}) if (stat(it.it, stage, DNSTABLE_STAT_CATEGORY_MERGED, &n) && !dance) c.fail("merge stage in a plain lookup", what);
	if (stat(it.it, DNSTABLE_STAT_STAGE_REMOVE_STRICT, DNSTABLE_STAT_CATEGORY_FILTERED, &n) && !(dance && (fence & 4))) c.fail("remove stage in a plain lookup", what);
	for (int stage = 0; stage < 10; stage++) {	// categories which make no sense for a stage
		u64 x;
		if (stage != DNSTABLE_STAT_STAGE_FILESET && stage != DNSTABLE_STAT_STAGE_FILL_MERGER && stage != DNSTABLE_STAT_STAGE_REMOVE_STRICT && stat(it.it, stage, DNSTABLE_STAT_CATEGORY_FILES, &x)) c.fail("files of a filter", what);
		if (stage >= DNSTABLE_STAT_STAGE_FILTER_SINGLE_LABEL && stage <= DNSTABLE_STAT_STAGE_REMOVE_STRICT && stat(it.it, stage, DNSTABLE_STAT_CATEGORY_MERGED, &x)) c.fail("merges of a filter", what);
	}
	bool ex; if (dnstable_iter_get_count(it.it, (dnstable_stat_stage)10, DNSTABLE_STAT_CATEGORY_FILTERED, &ex, &n) == dnstable_res_success && ex) c.fail("unknown stage", what);
	if (mode >= 0) {
		if (!stat(it.it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILES, &n)) c.fail("no file count", what);
		if (!fence && n != 3) c.fail("file count", fmt("%llu files instead of 3: ", (unsigned long long)n) + what);
		if (n > 3) c.fail("file count", fmt("%llu files out of 3: ", (unsigned long long)n) + what);
		c.step();
	}
	// what each filter rejected (not defined for filters which seek, or behind a name index)
	Q nof = q; nof.fb = nof.fa = nof.la = nof.lb = false;
	Q nob = nof; nob.has_bail = false;
	bool indirect = (q.qtype == 0 && q.right) || (q.qtype == 1 && q.left);
	if (mode < 0 && !indirect) {
		u64 sum = 0, x; for (int stage = 0; stage < 10; stage++) if (stat(it.it, stage, DNSTABLE_STAT_CATEGORY_SEEK, &x)) sum += x;
		if (sum != standin_seeks - seeks0) c.fail("seek count", fmt("%llu seeks counted, %llu made: ", (unsigned long long)sum, (unsigned long long)(standin_seeks - seeks0)) + what);
		c.step();
	}
	if (fence && mode < 0) {	// files of a set may be left out as a whole
		u64 a = answer(f.whole, nof).size() - ans.size();
		n = m = 0; stat(it.it, DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, DNSTABLE_STAT_CATEGORY_FILTERED, &n); stat(it.it, DNSTABLE_STAT_STAGE_FILTER_TIME, DNSTABLE_STAT_CATEGORY_FILTERED, &m);
		if (n + m != a) c.fail("time count", fmt("%llu rejected by time, expected %llu: ", (unsigned long long)(n + m), (unsigned long long)a) + what);
		c.step();
	}
	if (q.has_bail && !dance && stat(it.it, DNSTABLE_STAT_STAGE_FILTER_BAILIWICK, DNSTABLE_STAT_CATEGORY_FILTERED, &n)) {
		u64 a = answer(f.whole, nob).size() - answer(f.whole, nof).size();
		if (n != a) c.fail("bailiwick count", fmt("%llu rejected by bailiwick, expected %llu: ", (unsigned long long)n, (unsigned long long)a) + what);
		c.step();
	}
	if (!dance && !indirect && stat(it.it, DNSTABLE_STAT_STAGE_FILTER_RRTYPE, DNSTABLE_STAT_CATEGORY_FILTERED, &n)) {
		u64 a = 0; bool known = true;
		if (q.qtype == DNSTABLE_QUERY_TYPE_RRSET && q.left) { Q x = nob; x.rrtype = -1; a = answer(f.whole, x).size() - answer(f.whole, nob).size(); }
		else if (q.qtype == DNSTABLE_QUERY_TYPE_RDATA_RAW) { Q x = nof; x.rrtype = -1; a = answer(f.whole, x).size() - answer(f.whole, nof).size(); }
		else if (q.qtype == DNSTABLE_QUERY_TYPE_RDATA_NAME && !q.left && (q.rrtype < 0 || q.rrtype == SOA || q.right)) {
			B pre = wire(q.labels); if (q.right) pre.pop_back();
			for (auto &e : f.whole) if (e.kind == RDATA && e.srdata().compare(0, pre.size(), pre) == 0 && e.srdata().size() >= pre.size() && !(q.rrtype < 0 ? name_bearing(e.type) : e.type == (unsigned)q.rrtype)) a++;
			if (q.right == '+') known = false;
		} else known = false;
		if (known && n != a) c.fail("type count", fmt("%llu rejected by type, expected %llu: ", (unsigned long long)n, (unsigned long long)a) + what);
		c.step();
	}
	c.trace("%zu results", k);
}
static void names(vf::Ctx &c) {
	c.mine();
	std::set<str> seen;
	auto each = [&](bool stage, int i, const char *s) {
		if (!s || !*s) c.fail("name", fmt("no name for %s %d", stage ? "stage" : "category", i));
		if (!seen.insert(str(stage ? "s:" : "c:") + s).second) c.fail("name", str("ambiguous name ") + s);
		int back = -1;
		if (stage) { dnstable_stat_stage x; if (dnstable_stat_str_to_stage(s, &x) == dnstable_res_success) back = x; }
		else { dnstable_stat_category x; if (dnstable_stat_str_to_category(s, &x) == dnstable_res_success) back = x; }
		if (back != i) c.fail("name", fmt("%s %d -> \"%s\" -> %d", stage ? "stage" : "category", i, s, back));
		c.step(); c.state(str(s));
	};
	for (int i = 0; i < 10; i++) each(true, i, dnstable_stat_stage_to_str((dnstable_stat_stage)i));
	for (int i = 0; i < 4; i++) each(false, i, dnstable_stat_category_to_str((dnstable_stat_category)i));
	for (int i : {10, 11, 255, 1 << 20}) { if (dnstable_stat_stage_to_str((dnstable_stat_stage)i)) c.fail("name", "a name for an unknown stage"); }
	for (int i : {4, 5, 10, 255, 1 << 20}) { if (dnstable_stat_category_to_str((dnstable_stat_category)i)) c.fail("name", "a name for an unknown category"); }
	// every prefix, extension and one-byte change of a name is refused unless it is (but for case) a name
	strs all(seen.begin(), seen.end());
	for (auto &full : all) for (int stage = 0; stage < 2; stage++) {
		str s = full.substr(2); strs var;
		for (size_t k = 0; k < s.size(); k++) { var.push_back(s.substr(0, k)); str t = s; t[k] = '#'; var.push_back(t); }
		var.push_back(s + " "); var.push_back(" " + s); var.push_back(s + "s"); var.push_back(s);
		for (auto &v : var) {
			dnstable_stat_stage a; dnstable_stat_category b;
			bool got = stage ? dnstable_stat_str_to_stage(v.c_str(), &a) == dnstable_res_success : dnstable_stat_str_to_category(v.c_str(), &b) == dnstable_res_success;
			if (got != (seen.count(str(stage ? "s:" : "c:") + v) > 0)) c.fail("name", "[" + v + (got ? "] accepted" : "] refused"));
			c.step();
		}
	}
	dnstable_stat_stage a; dnstable_stat_category b;
	if (dnstable_stat_str_to_stage(NULL, &a) || dnstable_stat_str_to_category(NULL, &b)) c.fail("name", "NULL accepted");
	c.trace("names of 10 stages and 4 categories and their variants");
}
// the files of a set are each counted where they are used: as answering, as only filling in, or as only ruling out
static void files(vf::Ctx &c) {
	static const struct { u64 lo, hi; } spans[] = {{10, 20}, {15, 30}, {40, 50}, {0, 0}};
	bool agg = !c.flip();
	int sp[3]; str sets;
	for (int k = 0; k < 3; k++) sp[k] = c.choose(k ? 4 : 3);
	c.mine();
	standin_reset();
	for (int k = 0; k < 3; k++) {
		u64 lo = spans[sp[k]].lo, hi = spans[sp[k]].hi;
		DB d;
		if (hi) d.push_back(mk_time_range(lo, hi)); else { lo = 12; hi = 18; }
		Ent e = mk_rrset(nm("a"), A, nm("a"), {ip4(1, 2, 3, 4)}); e.first = lo; e.last = hi; d.push_back(e);
		e = mk_rrset(nm("a.b"), A, nm("a"), {ip4(1, 2, 3, (uint8_t)k)}); e.first = lo; e.last = hi; d.push_back(e);
		e = mk_rdata(nm("x"), NS, nm("a")); e.first = lo; e.last = lo; d.push_back(e);
		d.push_back(mk_name(RRSET_NAME, nm("a"))); d.push_back(mk_name(RRSET_NAME, nm("a.b"))); d.back().types = d[d.size() - 2].types = type_union({A});
		sort_db(d);
		str n = fmt("mem:%d", k); install(n.c_str(), d); sets += n + "\n";
	}
	standin_setfile("mem:set", sets.c_str());
	struct dnstable_reader *r = dnstable_reader_init_setfile("mem:set");
	static const std::vector<Q> qs = {q_name(DNSTABLE_QUERY_TYPE_RRSET, "a"), q_name(DNSTABLE_QUERY_TYPE_RRSET, "a.*"), q_name(DNSTABLE_QUERY_TYPE_RDATA_NAME, "x", NS)};
	std::vector<u64> vals = {5, 12, 20, 25, 35, 50, 60};
	for (auto &q0 : qs) for (int fence = 0; fence < 16; fence++) for (u64 v : vals) for (u64 w : (fence & 3) && (fence & 12) ? vals : std::vector<u64>{v}) {
		Q q = q0; q.aggregated = agg;
		if (fence & 1) { q.fb = true; q.vfb = w; } if (fence & 2) { q.lb = true; q.vlb = w; }
		if (fence & 4) { q.fa = true; q.vfa = v; } if (fence & 8) { q.la = true; q.vla = v; }
		u64 added = standin_added, merges = standin_merges, setm = standin_set_merges;
		Iter it; it.q = make(c, q); it.it = dnstable_reader_query(r, it.q);
		str what = fmt("files %d%d%d, %s", sp[0], sp[1], sp[2], q.text().c_str());
		u64 n = 0, fill = 0, rem = 0, mg = 0, fmg = 0;
		for (;;) { struct dnstable_entry *e = nullptr; if (dnstable_iter_next(it.it, &e) != dnstable_res_success) break; dnstable_entry_destroy(&e); }
		if (!stat(it.it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILES, &n)) c.fail("no file count", what);
		bool hf = stat(it.it, DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_CATEGORY_FILES, &fill), hr = stat(it.it, DNSTABLE_STAT_STAGE_REMOVE_STRICT, DNSTABLE_STAT_CATEGORY_FILES, &rem);
		if (n != standin_files) c.fail("file count", fmt("%llu files counted, %llu answer: ", (unsigned long long)n, (unsigned long long)standin_files) + what);
		if (hf && fill != standin_added - added) c.fail("fill file count", fmt("%llu files counted, %llu fill in: ", (unsigned long long)fill, (unsigned long long)(standin_added - added)) + what);
		if (!hf && standin_added != added) c.fail("fill file count", "files fill in but are not counted: " + what);
		if (agg && fence && n + fill + (hr ? rem : 0) != 3) c.fail("file counts", fmt("%llu+%llu+%llu files out of 3: ", (unsigned long long)n, (unsigned long long)fill, (unsigned long long)rem) + what);
		if (!stat(it.it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_MERGED, &mg)) c.fail("no merge count", what);
		if (hf) stat(it.it, DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_CATEGORY_MERGED, &fmg);
		if (mg != standin_set_merges - setm) c.fail("merge count", fmt("%llu merges counted of %llu: ", (unsigned long long)mg, (unsigned long long)(standin_set_merges - setm)) + what);
		if (mg + fmg != standin_merges - merges) c.fail("merge count", fmt("%llu+%llu merges counted of %llu: ", (unsigned long long)mg, (unsigned long long)fmg, (unsigned long long)(standin_merges - merges)) + what);
		c.state(what); c.step(4);
	}
	c.trace("files %d %d %d, %s", sp[0], sp[1], sp[2], agg ? "aggregated" : "not aggregated");
	dnstable_reader_destroy(&r);
	standin_reset();
}
// counts beyond 16 bits
static void large(vf::Ctx &c) {
	const int N = 66500; int kind = c.choose(6);
	c.mine();
	standin_reset();
	DB d; for (int i = 0; i < N; i++) d.push_back(mk_rrset(nm("x" + num(i) + ".a"), A, nm("a"), {ip4(1, 1, 1, 1)}));
	sort_db(d); install("mem:0", d); install("mem:1", d); standin_setfile("mem:set", "mem:0\nmem:1\n");
	Q q = q_name(DNSTABLE_QUERY_TYPE_RRSET, "*.a"); size_t want = 0; std::vector<int> stages; int cat = DNSTABLE_STAT_CATEGORY_FILTERED;
	switch (kind) {
	case 0: q.rrtype = AAAA; stages = {DNSTABLE_STAT_STAGE_FILTER_RRTYPE}; break;
	case 1: q.has_bail = true; q.bail = nm("b"); stages = {DNSTABLE_STAT_STAGE_FILTER_BAILIWICK}; break;
	case 2: q.fb = true; q.vfb = 500; stages = {DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, DNSTABLE_STAT_STAGE_FILTER_TIME}; break;
	case 3: q.offset = N; q.has_offset = true; stages = {DNSTABLE_STAT_STAGE_FILTER_OFFSET}; break;
	case 4: q.la = true; q.vla = 3000; stages = {DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, DNSTABLE_STAT_STAGE_FILTER_TIME}; break;
	default: stages = {DNSTABLE_STAT_STAGE_FILESET}; cat = DNSTABLE_STAT_CATEGORY_MERGED; want = N;
	}
	{
		Reader one("mem:0"); struct dnstable_reader *set = kind == 5 ? dnstable_reader_init_setfile("mem:set") : nullptr;
		u64 merges = standin_merges;
		Iter it; it.q = make(c, q); it.it = dnstable_reader_query(set ? set : one.r, it.q);
		size_t k = 0; struct dnstable_entry *e = nullptr; while (dnstable_iter_next(it.it, &e) == dnstable_res_success) { dnstable_entry_destroy(&e); k++; }
		u64 sum = 0, n; for (int s : stages) if (stat(it.it, s, cat, &n)) sum += n;
		str what = fmt("%d records, ", N) + q.text();
		if (k != want) c.fail("results", fmt("%zu: ", k) + what);
		u64 exp = kind == 5 ? standin_merges - merges : N;
		if (sum != exp) c.fail("large count", fmt("%llu counted, expected %llu: ", (unsigned long long)sum, (unsigned long long)exp) + what);
		c.trace("%s: %llu", what.c_str(), (unsigned long long)sum); c.state(what + fmt("%d", kind));
		dnstable_iter_destroy(&it.it);
		if (set) dnstable_reader_destroy(&set);
	}
	standin_reset();
}
static void body(vf::Ctx &c) { switch (c.choose(4)) { case 3: large(c); break; case 0: counts(c); break; case 1: names(c); break; default: files(c); } }
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
