// Q15: iterators may be abandoned or destroyed at any point, in any allowed order, without harm.
// Allowed: an iterator is destroyed before its query and its reader; entries belong to the caller
// and may outlive everything.  Every allocation of an execution must have been released at its end.
#include "srcs.hpp"
#include "meta.hpp"
using namespace dns;

static bool controlled; static long long readings, jump_at;
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
	if (!controlled) return __real_clock_gettime(id, ts);
	ts->tv_sec = readings++ >= jump_at ? 2000 : 1000; ts->tv_nsec = 5;
	return 0;
}
struct Src {		// an open reader, opened within the execution
	struct mtbl_reader *m = nullptr; struct dnstable_reader *r = nullptr;
	Src(int mode) {
		if (mode < 0) { m = mtbl_reader_init("sdb", NULL); r = dnstable_reader_init(mtbl_reader_source(m)); }
		else r = dnstable_reader_init_setfile(mode ? "aset" : "uset");
	}
	void close() { dnstable_reader_destroy(&r); dnstable_reader_destroy(&r); mtbl_reader_destroy(&m); }
};
static Fixture &fixture(int mode) {
	static Fixture *f[3];
	if (!f[mode + 1]) {
		DB z = zoo(); int i = 0;
		for (auto &e : z) { if (e.kind == RRSET || e.kind == RDATA) { e.first = 1000 + 10 * (i % 3); e.last = 2000 - 10 * (i % 4); i++; } }
		f[mode + 1] = new Fixture(mode, z, mode < 0 ? "s" : mode ? "a" : "u");
	}
	return *f[mode + 1];
}
// one thing to iterate: a query or a section listing
struct Thing { bool list; int kind; Q q; str text() const { return list ? "listing of " + kind_name(kind) : q.text(); } };
static strs expected(Fixture &f, const Thing &t) {
	if (!t.list) return canons(answer(f.whole, t.q), t.q.offset);
	strs w; for (auto &e : f.whole) if (t.kind < 0 || (int)e.kind == t.kind) w.push_back(e.canon());
	return w;
}
static void queries(vf::Ctx &c) {
	int mode = c.choose(3) - 1;
	Fixture &f = fixture(mode);
	static const std::vector<Q> qs = zoo_queries(true);
	static const std::vector<int> ks = {-1, 0, 1, 2, 3, 253, 254, 255};
	int which = c.choose((int)qs.size() + (mode == 0 ? 0 : (int)ks.size()));
	Thing a; a.list = which >= (int)qs.size();
	if (a.list) a.kind = ks[which - qs.size()]; else a.q = f.fit(qs[which]);
	int extra = a.list ? 0 : c.choose(5);
	c.mine();
	if (extra == 1 && a.q.qtype <= DNSTABLE_QUERY_TYPE_RDATA_RAW) { a.q.la = true; a.q.vla = 1975; a.q.fb = true; a.q.vfb = 1015; }
	else if (extra == 2 && a.q.qtype <= DNSTABLE_QUERY_TYPE_RDATA_RAW) { a.q.fa = true; a.q.vfa = 1005; a.q.lb = true; a.q.vlb = 1995; }
	else if (extra == 3) { a.q.has_offset = true; a.q.offset = 1; }
	else if (extra && extra != 4) throw vf::Cut();
	strs wa = expected(f, a);
	bool timed = extra == 4;
	jump_at = timed ? c.choose(c.T(14, 40)) : -1;
	size_t stop = c.choose((int)std::min<size_t>(wa.size(), c.T(4, 12)) + 2);		// 0..4 results, or to the end and beyond
	bool to_end = stop == std::min<size_t>(wa.size(), c.T(4, 12)) + 1;
	int other = c.choose(4);	// none, the same query object, another lookup, a listing (or a lookup with the same text)
	int order = c.choose(6);
	int first_end = other ? c.choose(2) : 0;		// which iterator ends first
	c.trace("%s: %s stop %zu%s other %d order %d", mode_name(mode), a.text().c_str(), stop, to_end ? "(end)" : "", other, order);
	c.state(fmt("%d %zu %d %d %d %lld|", mode, stop, other, order, first_end, jump_at) + a.text());
	str what = str(mode_name(mode)) + " " + a.text();

	int iters0 = standin_live_iters, sources0 = standin_live_sources, objects0 = standin_live_objects;
	Src src(mode);
	struct dnstable_query *qa = a.list ? nullptr : make(c, a.q), *qb = nullptr;
	struct timespec dl = {1500, 0};
	if (timed) dnstable_query_set_deadline(qa, &dl);
	readings = 0; controlled = timed;
	struct dnstable_iter *ia = a.list ? listing(src.r, a.kind) : dnstable_reader_query(src.r, qa), *ib = nullptr;
	// the other iterator, which must not notice anything
	Thing b; b.list = false;
	if (other == 1) { b = a; ib = a.list ? listing(src.r, a.kind) : dnstable_reader_query(src.r, qa); }
	else if (other == 2) { b.q = f.fit(q_name(DNSTABLE_QUERY_TYPE_RDATA_NAME, "*.a")); qb = make(c, b.q); ib = dnstable_reader_query(src.r, qb); }
	else if (other == 3) { b.list = mode != 0; b.kind = 2; if (mode == 0) { b.q = f.fit(q_name(DNSTABLE_QUERY_TYPE_RRSET, "a.*")); qb = make(c, b.q); ib = dnstable_reader_query(src.r, qb); } else ib = listing(src.r, b.kind); }
	strs wb, gb; if (ib) wb = expected(f, b);
	std::vector<struct dnstable_entry *> kept; std::vector<str> kept_text;
	auto step_b = [&](size_t k) {
		controlled = false;
		bool t = timed && other == 1; if (t) { controlled = true; }
		for (size_t i = 0; ib && i < k; i++) {
			struct dnstable_entry *e = nullptr; dnstable_res r = dnstable_iter_next(ib, &e); c.step();
			if (r == dnstable_res_success) { gb.push_back(canon(e)); dnstable_entry_destroy(&e); }
			else if (r == dnstable_res_timeout) { jump_at = 1LL << 60; }
			else break;
		}
		controlled = timed;
	};
	step_b(1);
	bool ended = false, timeout = false;
	for (size_t i = 0; to_end || i < stop; i++) {
		struct dnstable_entry *e = nullptr;
		dnstable_res r = dnstable_iter_next(ia, &e);
		c.step();
		if (r == dnstable_res_success) { kept.push_back(e); kept_text.push_back(canon(e)); if (kept.size() > wa.size()) break; }
		else if (r == dnstable_res_timeout) { timeout = true; if (!to_end) break; jump_at = 1LL << 60; }
		else { ended = true; break; }
		if (i == 1) step_b(1);
	}
	if (ended) for (int i = 0; i < 3; i++) {		// the end stays the end
		struct dnstable_entry *e = nullptr;
		if (dnstable_iter_next(ia, &e) == dnstable_res_success) c.fail("end", "a result after the end: " + what);
	}
	if (ended && kept.size() != wa.size()) c.fail("results", fmt("%zu results, expected %zu: ", kept.size(), wa.size()) + what);
	for (size_t i = 0; i < kept.size() && i < wa.size(); i++) if (kept_text[i] != wa[i]) c.fail("results", kept_text[i] + " instead of " + wa[i] + ": " + what);
	if (first_end) {
		step_b(1000);
		dnstable_iter_destroy(&ib);
		// continuing after its neighbour has gone
		struct dnstable_entry *e = nullptr;
		dnstable_res r = dnstable_iter_next(ia, &e);
		if (r == dnstable_res_success) { kept.push_back(e); kept_text.push_back(canon(e)); if (kept.size() > wa.size() || kept_text.back() != wa[kept.size() - 1]) c.fail("results", "disturbed by its neighbour: " + what); }
		dnstable_iter_destroy(&ia);
	} else {
		dnstable_iter_destroy(&ia); dnstable_iter_destroy(&ia);
		step_b(1000);
		dnstable_iter_destroy(&ib);
	}
	if (other && gb != wb) c.fail("neighbour", fmt("the other iterator (%s) yields %zu results, expected %zu: ", b.text().c_str(), gb.size(), wb.size()) + what);
	controlled = false;
	// entries, queries, reader: in any order
	static const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
	for (int k = 0; k < 3; k++) {
		if (perm[order][k] == 0) {
			for (size_t i = 0; i < kept.size(); i++) {
				str now = canon(kept[i]);
				if (now != kept_text[i]) c.fail("entry", "an entry has changed from " + kept_text[i] + " to " + now + ": " + what);
				dnstable_entry_destroy(&kept[i]); dnstable_entry_destroy(&kept[i]);
			}
		} else if (perm[order][k] == 1) { dnstable_query_destroy(&qa); dnstable_query_destroy(&qb); dnstable_query_destroy(&qa); }
		else src.close();
	}
	if (standin_live_iters != iters0) c.fail("leak", fmt("%d database iterators left open: ", (int)(standin_live_iters - iters0)) + what);
	if (standin_live_sources != sources0) c.fail("leak", fmt("%d sources left open: ", (int)(standin_live_sources - sources0)) + what);
	if (standin_live_objects != objects0) c.fail("leak", fmt("%d database objects left open: ", (int)(standin_live_objects - objects0)) + what);
	(void)timeout;
}
// queries set up in every way, never or badly used
static void unused(vf::Ctx &c) {
	int mode = c.choose(3) - 1; fixture(mode);
	int qi = c.choose(7); static const int qts[] = {DNSTABLE_QUERY_TYPE_RRSET, DNSTABLE_QUERY_TYPE_RDATA_NAME, DNSTABLE_QUERY_TYPE_RDATA_IP, DNSTABLE_QUERY_TYPE_RDATA_RAW, DNSTABLE_QUERY_TYPE_TIME_RANGE, DNSTABLE_QUERY_TYPE_SOURCE_INFO, DNSTABLE_QUERY_TYPE_VERSION}; int qt = qts[qi];
	int n = c.T(3, 4);
	c.mine();
	Src src(mode);
	struct dnstable_query *q = dnstable_query_init((dnstable_query_type)qt);
	static const char *data[7][4] = {{"a", "*.a", "a.+", nullptr}, {"ns.a", "*.a", "ns.*", nullptr}, {"10.1.2.3", "10.1.2.0/24", "::1", nullptr}, {"00", "0a01", "zz", nullptr}, {nullptr, "x", "", nullptr}, {"x", nullptr, "", nullptr}, {"rrset", "nonsense", "rdata", nullptr}};
	std::vector<struct dnstable_iter *> its;
	str hist;
	for (int i = 0; i < n; i++) {
		int op = c.choose(12);
		hist += fmt("%d ", op);
		struct timespec ts = {5, 0}; u64 v = 1500;
		if (op < 4) {
			// an iterator must not outlive a change of its query's name
			for (auto &x : its) dnstable_iter_destroy(&x);
			its.clear();
			dnstable_query_set_data(q, data[qi][op]);
		}
		else if (op == 4) { dnstable_query_set_rrtype(q, "A"); }
		else if (op == 5) { for (auto &x : its) dnstable_iter_destroy(&x); its.clear(); dnstable_query_set_bailiwick(q, "a"); }
		else if (op == 6) { dnstable_query_set_timeout(q, &ts); dnstable_query_set_deadline(q, NULL); }
		else if (op == 7) { dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, &v, 8); }
		else if (op == 8) { its.push_back(dnstable_reader_query(src.r, q)); }
		else if (op == 9) { struct dnstable_iter *it = dnstable_reader_query(src.r, q); struct dnstable_entry *e; if (dnstable_iter_next(it, &e) == dnstable_res_success) dnstable_entry_destroy(&e); its.push_back(it); }
		else if (op == 10) { if (its.empty()) throw vf::Cut(); dnstable_iter_destroy(&its.back()); its.pop_back(); }
		else { const char *e = dnstable_query_get_error(q); if (!e || !*e) c.fail("error text", "none"); }
		c.step();
	}
	c.state(fmt("%d %d ", mode, qt) + hist); c.trace("%s query type %d: %s", mode_name(mode), qt, hist.c_str());
	for (auto &x : its) dnstable_iter_destroy(&x);
	if (c.flip()) { dnstable_query_destroy(&q); src.close(); } else { src.close(); dnstable_query_destroy(&q); }
}
static void body(vf::Ctx &c) {
	struct timespec t; (void)t;
	controlled = false;
	if (c.choose(2)) unused(c); else queries(c);
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
