// Q08: an offset skips exactly that many results and stays with the query.
#include "srcs.hpp"
using namespace dns;

static Fixture &fixture(int mode) {
	static Fixture *f[3];
	if (!f[mode + 1]) {
		DB z = zoo(); int i = 0;
		for (auto &e : z) { if (e.kind == RRSET || e.kind == RDATA) { e.first = 1000 + i % 5; e.last = 2000 + i % 7; i++; } if (e.kind == TIME_RANGE) { e.first = 1000; e.last = 2006; } }
		f[mode + 1] = new Fixture(mode, z, mode < 0 ? "s" : mode ? "a" : "u");
	}
	return *f[mode + 1];
}
static strs expect(const Fixture &f, const Q &q) { return canons(answer(f.whole, q), q.offset); }

static void pages(vf::Ctx &c) {
	int mode = c.choose(3) - 1;
	static const std::vector<Q> qs = zoo_queries(true);
	Q q = c.pick(qs);
	c.mine();
	Fixture &f = fixture(mode);
	q = f.fit(q);
	// fences: none, or any two of four (with la+fb and fa+lb needing a check of the merged result)
	int fence = q.qtype <= DNSTABLE_QUERY_TYPE_RDATA_RAW ? c.choose(11) : 0;
	static const int pairs[11] = {0, 1, 2, 4, 8, 3, 5, 9, 6, 10, 12};
	int m = pairs[fence];
	if (m & 1) { q.fb = true; q.vfb = 1002; } if (m & 2) { q.la = true; q.vla = 2002; }
	if (m & 4) { q.fa = true; q.vfa = 1001; } if (m & 8) { q.lb = true; q.vlb = 2004; }
	size_t total = answer(f.whole, q).size();
	static const u64 big[] = {100, 1ULL << 32, 1ULL << 63, ~0ULL};
	int n = c.choose((int)total + 3 + 4);
	q.has_offset = true; q.offset = n < (int)total + 3 ? n : big[n - total - 3];
	c.trace("%s: %s", mode_name(mode), q.text().c_str());
	c.state(fmt("%d", mode) + q.text());
	// the same query object is used for several lookups
	Iter it; it.q = make(c, q);
	for (int round = 0; round < 3; round++) {
		it.it = dnstable_reader_query(f.r(), it.q);
		strs got = drain(c, it.it);
		compare(c, got, expect(f, q), fmt("%s, use %d of the query: %s", mode_name(mode), round + 1, q.text().c_str()));
		if (round == 0) { struct dnstable_entry *e = nullptr; c.eq((int)dnstable_iter_next(it.it, &e), 0, "next after the end"); }
		dnstable_iter_destroy(&it.it);
	}
	// changing and clearing the offset
	q.offset = 1; dnstable_query_set_offset(it.q, 1);
	it.it = dnstable_reader_query(f.r(), it.q);
	compare(c, drain(c, it.it), expect(f, q), "offset changed to 1: " + q.text());
	dnstable_iter_destroy(&it.it);
	q.offset = 0; dnstable_query_set_offset(it.q, 0);
	it.it = dnstable_reader_query(f.r(), it.q);
	compare(c, drain(c, it.it), expect(f, q), "offset cleared: " + q.text());
}
// several iterators of one query open at once, stepped in every order
static void together(vf::Ctx &c) {
	int mode = c.choose(3) - 1;
	const int RR = DNSTABLE_QUERY_TYPE_RRSET, RN = DNSTABLE_QUERY_TYPE_RDATA_NAME;
	static const std::vector<Q> qs = {q_name(RR, "a"), q_name(RR, "a.*", A), q_name(RN, "ns.a", NS), q_name(RN, "+.a", MX), q_ip(ip4(10, 1, 2, 3), "", "10.1.2.3"), q_name(RN, "ns.a", SOA), q_meta(DNSTABLE_QUERY_TYPE_VERSION)};
	Q q = c.pick(qs);
	q.has_offset = true; q.offset = 1 + c.choose(2);
	Fixture &f = fixture(mode);
	q = f.fit(q);
	strs want = expect(f, q);
	if (want.size() > 3) want.resize(3);
	int k = c.T(2, 3);
	struct dnstable_query *dq = make(c, q);
	std::vector<struct dnstable_iter *> it(k, nullptr);
	std::vector<int> at(k, -1);		// -1 not opened
	c.trace("%s: %s, %d iterators", mode_name(mode), q.text().c_str(), k);
	int depth = 0;
	for (;;) {
		std::vector<int> can;
		for (int i = 0; i < k; i++) if (at[i] <= (int)want.size() && (i == 0 || at[i - 1] >= 0)) can.push_back(i);
		if (can.empty()) break;
		int i = can[c.choose((int)can.size())];
		if (++depth == 3) c.mine();
		if (at[i] < 0) { it[i] = dnstable_reader_query(f.r(), dq); at[i] = 0; c.trace("open %d", i); continue; }
		struct dnstable_entry *e = nullptr;
		dnstable_res res = dnstable_iter_next(it[i], &e);
		str got = res == dnstable_res_success ? canon(e) : str("end");
		dnstable_entry_destroy(&e);
		str w = at[i] < (int)want.size() ? want[at[i]] : expect(f, q).size() > want.size() ? got : str("end");
		c.trace("next %d", i);
		c.eqs(got, w, "next of one of several iterators");
		at[i]++;
		str st = q.text(); for (int a : at) st += fmt(" %d", a); c.state(st + fmt("m%d", mode));
	}
	for (auto &x : it) dnstable_iter_destroy(&x);
	dnstable_query_destroy(&dq);
}
// offsets around every power of two in a large table
static void large(vf::Ctx &c) {
	const int N = 66000;
	int mode = c.choose(2) - 1;		// a table, or a set of files with every other record in each
	int fenced = c.choose(2);
	c.mine();
	auto kv = [&](int from, int step) { std::map<B, B> m; for (int i = from; i < N; i += step) m[mk_rrset(wire({fmt("h%05d", i), "a"}), A, nm(""), {"r"}).key()] = triplet(1000 + i % 2, 2000, 1 + i); return m; };
	static struct dnstable_reader *rs[2];
	struct dnstable_reader *&r = rs[mode + 1];
	if (!r && mode < 0) { install_kv("mem:big", kv(0, 1)); r = dnstable_reader_init(mtbl_reader_source(mtbl_reader_init("mem:big", nullptr))); }
	else if (!r) { install_kv("mem:big0", kv(0, 2)); install_kv("mem:big1", kv(1, 2)); standin_setfile("mem:bigset", "mem:big0\nmem:big1\n"); r = dnstable_reader_init_setfile("mem:bigset"); }
	struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET); (void)!dnstable_query_set_data(q, "*.a");
	u64 fa = 1001; if (fenced) (void)!dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, &fa, 8);
	const int total = fenced ? N / 2 : N;
	std::vector<u64> offs; for (int b = 7; b <= 16; b++) for (int d = -1; d <= 1; d++) offs.push_back((1 << b) + d);
	for (int d = -2; d <= 1; d++) offs.push_back(total + d);
	for (int b : {31, 32, 33, 48, 63}) for (int d = -1; d <= 1; d++) offs.push_back((1ULL << b) + d);
	for (u64 o : offs) {
		(void)!dnstable_query_set_offset(q, o);
		struct dnstable_iter *it = dnstable_reader_query(r, q); struct dnstable_entry *e = nullptr;
		dnstable_res res = dnstable_iter_next(it, &e); u64 n = 0; if (e) (void)!dnstable_entry_get_count(e, &n);
		u64 want = o < (u64)total ? (fenced ? 2 * o + 2 : o + 1) : 0;
		c.step(); c.state(fmt("%d %d %llu", mode, fenced, (unsigned long long)o));
		if ((res == dnstable_res_success ? n : 0) != want) c.fail("large offset", fmt("offset %llu of %d records: record %llu comes first instead of %llu", (unsigned long long)o, total, (unsigned long long)n, (unsigned long long)want));
		dnstable_entry_destroy(&e); dnstable_iter_destroy(&it);
	}
	dnstable_query_destroy(&q);
}
static void body(vf::Ctx &c) { int f = c.choose(3); if (f == 2) large(c); else if (f) together(c); else pages(c); }
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
