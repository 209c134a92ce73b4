// Q09: timeouts and deadlines lose or repeat nothing.
// The clock is the environment: at every reading the explorer decides whether it has jumped past
// the limit (at most J jumps per execution); or it advances with every reading.
#include "srcs.hpp"
using namespace dns;

static const long long SEC = 1000000000LL;
static bool controlled, each_read; static long long fake_ns; static vf::Ctx *cc; static int jumps, maxj; static uint64_t reads; static long long unit;
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
	if (!controlled) return __real_clock_gettime(id, ts);
	reads++;
	if (each_read) fake_ns += unit;
	else if (jumps < maxj && cc->flip()) { jumps++; fake_ns += 10 * SEC; cc->trace("clock jumps"); }
	ts->tv_sec = fake_ns / SEC; ts->tv_nsec = fake_ns % SEC;
	return 0;
}
static Fixture &fixture(int mode) {
	static Fixture *f[3];
	if (!f[mode + 1]) f[mode + 1] = new Fixture(mode, zoo(), mode < 0 ? "s" : mode ? "a" : "u");
	return *f[mode + 1];
}
struct Control { Control(vf::Ctx &c, int j, bool each) { cc = &c; jumps = 0; maxj = j; each_read = each; unit = SEC; fake_ns = 1000 * SEC + 999999999; reads = 0; controlled = true; } ~Control() { controlled = false; } };

static void jumping(vf::Ctx &c) {
	int mode = c.choose(3) - 1;
	static const std::vector<Q> qs = zoo_queries(true);
	Q q = c.pick(qs);
	Fixture &f = fixture(mode);
	q = f.fit(q);
	int extra = c.choose(3);
	if (extra == 1 && q.qtype <= DNSTABLE_QUERY_TYPE_RDATA_RAW) { q.la = true; q.vla = 1500; q.fb = true; q.vfb = 3000; }
	else if (extra == 2) { q.has_offset = true; q.offset = 1; }
	else if (extra) throw vf::Cut();
	int kind = c.choose(4);		// relative, absolute, both (either one first)
	// the limits may be changed while the lookup is open, after the first timeout or the first result
	int change = c.choose(6), when = change ? c.choose(2) : 0;
	if (change && extra) throw vf::Cut();
	c.mine();
	strs want = canons(answer(f.whole, q), q.offset);
	struct timespec rel = {5, 0}, abs_ = {1000, 0}, none = {0, 0};
	(void)none;
	Iter it; it.q = make(c, q);
	Control ctl(c, c.T(2, 3), false);
	long long t0 = fake_ns, limit_rel = -1, limit_abs = -1;
	if (kind != 1) {
		if (kind == 2) { rel.tv_sec = 50; rel.tv_nsec = 1; }
		dnstable_query_set_timeout(it.q, &rel); limit_rel = rel.tv_sec * SEC + rel.tv_nsec;
	}
	if (kind) {
		long long d = t0 + (kind == 3 ? 100 : 7) * SEC; abs_.tv_sec = d / SEC; abs_.tv_nsec = d % SEC; limit_abs = d;
		dnstable_query_set_deadline(it.q, &abs_);
	}
	c.trace("%s: %s limit kind %d", mode_name(mode), q.text().c_str(), kind);
	it.it = dnstable_reader_query(f.r(), it.q);
	strs got; int stuck = 0, timeouts = 0;
	auto alter = [&]() {
		const char *how = "";
		struct timespec t = {fake_ns / SEC + 3, fake_ns % SEC};
		switch (change) {
		case 1: how = "no deadline"; dnstable_query_set_deadline(it.q, nullptr); limit_abs = -1; break;
		case 2: how = "no limits"; dnstable_query_set_timeout(it.q, nullptr); dnstable_query_set_deadline(it.q, nullptr); limit_abs = limit_rel = -1; break;
		case 3: how = "later deadline"; dnstable_query_set_deadline(it.q, &t); limit_abs = fake_ns + 3 * SEC; break;
		case 4: how = "no timeout"; dnstable_query_set_timeout(it.q, nullptr); limit_rel = -1; break;
		case 5: how = "a timeout"; t.tv_sec = 2; t.tv_nsec = 0; dnstable_query_set_timeout(it.q, &t); dnstable_query_set_deadline(it.q, nullptr); limit_rel = 2 * SEC; limit_abs = -1; break;
		}
		c.trace("from now on: %s", how); change = 0; stuck = 0;
	};
	for (;;) {
		if (change && (when == 0 ? timeouts > 0 : !got.empty())) alter();
		long long start = fake_ns;
		struct dnstable_entry *e = nullptr;
		dnstable_res res = dnstable_iter_next(it.it, &e);
		c.step();
		if (res == dnstable_res_success) { got.push_back(canon(e)); dnstable_entry_destroy(&e); c.trace("result %zu", got.size()); if (got.size() > want.size()) break; }
		else if (res == dnstable_res_timeout) {
			timeouts++;
			c.trace("timeout");
			bool due = (limit_rel >= 0 && fake_ns >= start + limit_rel) || (limit_abs >= 0 && fake_ns >= limit_abs);
			if (!due) c.fail("early timeout", "timeout reported before the limit: " + q.text());
			if (limit_abs >= 0 && fake_ns >= limit_abs && ++stuck > 2) break;	// the deadline stays passed
			if (timeouts > 100) c.fail("endless timeouts", q.text());
		} else break;
	}
	c.state(fmt("%d %d t%d r%zu j%d ", mode, kind, timeouts, got.size(), jumps) + q.text());
	if (stuck > 2) { if (got.size() > want.size()) c.fail("results", "too many results"); want.resize(std::min(want.size(), got.size())); }
	compare(c, got, want, fmt("%s with %d timeouts: %s", mode_name(mode), timeouts, q.text().c_str()));
}
// lookups which scan many entries without finding one must report the timeout
static void scanning(vf::Ctx &c) {
	const int RR = DNSTABLE_QUERY_TYPE_RRSET, RN = DNSTABLE_QUERY_TYPE_RDATA_NAME;
	const int N = 300;
	static Fixture *fs[2][3];
	int mode = c.choose(3), exact = c.choose(2);		// type sets of the name indexes: none, or exact, so that the index alone decides
	Fixture **f = fs[exact];
	if (!f[mode]) {
		DB d;
		for (int i = 0; i < N; i++) {
			B l = fmt("h%03d", i);
			d.push_back(mk_rrset(wire({l, "a"}), A, nm("a"), {ip4(1, 2, 3, 4)}));
			d.push_back(mk_rrset(wire({"r", l}), A, nm("a"), {ip4(1, 2, 3, 4)}));
			d.push_back(mk_rdata(nm("n"), CNAME, wire({l, "a"})));
			d.push_back(mk_rdata(wire({"k", l}), CNAME, nm("a")));
			d.push_back(mk_rdata(wire({l, "j"}), CNAME, nm("a")));
			d.push_back(mk_rrset(wire({"s", l, "x"}), A, nm("a"), {ip4(1, 2, 3, 4)}));
			d.push_back(mk_rdata(wire({"x", l, "w"}), CNAME, nm("a")));
			d.push_back(mk_rdata(ip4(1, 2, i >> 8, i & 255) + "zz", TXT, nm("t")));
			d.push_back(mk_rdata(ip4(9, 9, 9, i & 255) + u8(i >> 8), 300, nm("t")));
		}
		add_indexes(d, exact); sort_db(d);
		static const char *pfx[] = {"S", "U", "A", "SX", "UX", "AX"};
		f[mode] = new Fixture(mode - 1, d, pfx[3 * exact + mode]);
	}
	static std::vector<Q> qs = [] {
		std::vector<Q> v = {q_name(RR, "*.a", NS), q_name(RR, "+.a", NS), q_name(RR, "r.*", NS), q_name(RN, "n", SOA), q_name(RN, "k.*", SOA), q_name(RN, "*.j", SOA), q_raw(ip4(9, 9, 9, 9).substr(0, 3), A),
			q_ip(ip4(1, 2, 0, 0), ip4(1, 2, 255, 255), "1.2.0.0/16")};
		Q q = q_name(RR, "*.a"); q.has_bail = true; q.bail = nm("zz"); v.push_back(q);
		q = q_name(RR, "r.*"); q.has_bail = true; q.bail = nm("zz"); v.push_back(q);
		q = q_name(RR, "*.a"); q.fa = true; q.vfa = 5000; v.push_back(q);
		q = q_name(RN, "n"); q.lb = true; q.vlb = 1; v.push_back(q);
		q = q_name(RN, "*.j"); q.la = true; q.vla = 5000; v.push_back(q);
		q = q_name(RR, "*.a"); q.has_offset = true; q.offset = 100000; v.push_back(q);
		q = q_name(RN, "k.*"); q.has_offset = true; q.offset = 100000; v.push_back(q);
		v.push_back(q_name(RR, "s.+")); v.push_back(q_name(RN, "+.w")); v.push_back(q_name(RR, "+.x"));
		return v;
	}();
	Q q = f[mode]->fit(c.pick(qs));
	int kind = c.choose(6);		// a timeout, a deadline, or both: the timeout earlier, the deadline earlier; 4, 5: likewise, both within one second
	int limit = 2 + c.choose(c.T(8, 60));
	c.mine();
	Iter it; it.q = make(c, q);
	Control ctl(c, 0, true);
	long long far = 1000000;
	if (kind >= 4) { unit = 1000000; far = 800; fake_ns = 1000 * SEC + SEC / 10; }
	auto ts = [](long long ns) { struct timespec t = {ns / SEC, ns % SEC}; return t; };
	if (kind != 1) { struct timespec t = ts((kind % 2 && kind > 1 ? far : limit) * unit); dnstable_query_set_timeout(it.q, &t); }
	if (kind) { struct timespec t = ts((kind >= 4 ? fake_ns : fake_ns / SEC * SEC) + (kind % 2 ? limit : far) * unit); dnstable_query_set_deadline(it.q, &t); }
	it.it = dnstable_reader_query(f[mode]->r(), it.q);
	struct dnstable_entry *e = nullptr;
	uint64_t n0 = standin_nexts;
	dnstable_res res = it.it ? dnstable_iter_next(it.it, &e) : dnstable_res_timeout;
	uint64_t scanned = standin_nexts - n0;
	c.step(); c.state(fmt("%d %d %d ", mode, kind, limit) + q.text());
	c.trace("%s: %s limit %d: res %d after %llu entries", mode_name(mode - 1), q.text().c_str(), limit, (int)res, (unsigned long long)scanned);
	if (res == dnstable_res_success) { dnstable_entry_destroy(&e); c.fail("results", "a result for " + q.text()); }
	if (res != dnstable_res_timeout && scanned > 0 && reads > (uint64_t)limit + 64) c.fail("no timeout", fmt("scan of %llu entries past a limit of %d did not time out: %s", (unsigned long long)scanned, limit, q.text().c_str()));
	if (res != dnstable_res_timeout && scanned > 200) c.fail("no timeout", fmt("scan of %llu entries without a timeout: %s", (unsigned long long)scanned, q.text().c_str()));
	if (res == dnstable_res_timeout && kind % 2 == 0 && reads < (uint64_t)limit) c.fail("early timeout", q.text());
	// all the way to the end: nothing is found, however often it times out
	int n = 0;
	const long long dl = 1000 * SEC + SEC / 10 + far * unit;
	if (kind % 2 == 0) while ((res = dnstable_iter_next(it.it, &e)) == dnstable_res_timeout && !(kind == 4 && fake_ns >= dl)) if (++n > 5000) c.fail("endless timeouts", q.text());
	if (res == dnstable_res_success) c.fail("results", "a result for " + q.text());
}
static void body(vf::Ctx &c) { controlled = false; if (c.choose(2)) scanning(c); else jumping(c); }
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
