// Q05: time filters keep exactly the records inside the fences, for every RRset and rdata lookup kind.
#include "bulk.hpp"
using namespace dns;

// a database in which every lookup kind has one answer per pair of times
static DB &timed(bool deep) {
	static DB d = [&] {
		std::vector<u64> t = {1, 2, 128, 0x100000000ULL, 0x8000000000000000ULL, ~0ULL};
		if (deep) { t.push_back(127); t.push_back(0x7fffffffffffffffULL); }
		DB d; int i = 0;
		std::vector<std::pair<u64, u64>> p; p.push_back({0, 0}); p.push_back({0, 2}); p.push_back({0, ~0ULL});
		for (u64 f : t) for (u64 l : t) if (f <= l) p.push_back({f, l});
		for (auto &x : p) {
			B id = u8(10 + i++);
			d.push_back(mk_rrset(nm("a.b"), A, nm("b"), {ip4(1, 1, 1, i)}, x.first, x.second));
			d.push_back(mk_rrset(wire({id, "c"}), A, nm("c"), {ip4(1, 1, 1, 1)}, x.first, x.second));
			d.push_back(mk_rrset(wire({"d", id}), A, nm(""), {ip4(1, 1, 1, 1)}, x.first, x.second));
			d.push_back(mk_rdata(ip4(1, 1, 1, i), A, nm("o"), x.first, x.second));
			d.push_back(mk_rdata(nm("n.m"), NS, wire({id}), x.first, x.second));
			d.push_back(mk_rdata(wire({id, "k"}), NS, nm("o"), x.first, x.second));
			d.push_back(mk_rdata(wire({"j", id}), NS, nm("o"), x.first, x.second));
		}
		add_indexes(d, 0);
		sort_db(d);
		return d;
	}();
	return d;
}
static void small(vf::Ctx &c) {
	DB &db = timed(c.thorough());
	const int RR = DNSTABLE_QUERY_TYPE_RRSET, RN = DNSTABLE_QUERY_TYPE_RDATA_NAME;
	static std::vector<Q> kinds = { q_name(RR, "a.b"), q_name(RR, "*.c"), q_name(RR, "+.c"), q_name(RR, "d.*"), q_name(RR, "d.+", A), q_name(RN, "n.m"), q_name(RN, "*.k"),
		q_name(RN, "+.k", NS), q_name(RN, "j.*"), q_name(RN, "j.+", NS), q_ip(ip4(1, 1, 1, 0), ip4(1, 1, 1, 255), "1.1.1.0/24"), q_raw(nm("n.m")), q_raw(ip4(1, 1, 1, 3)) };
	Q q = c.pick(kinds);
	std::vector<u64> v = {0, 1, 2, 128, 0x100000000ULL, 0x8000000000000000ULL, ~0ULL};
	if (c.thorough()) { v.push_back(3); v.push_back(0x7fffffffffffffffULL); }
	int n = (int)v.size();
	int a = c.choose(n + 1), b = c.choose(n + 1); c.mine();
	int d = c.choose(n + 1), e = c.choose(n + 1);
	if (a) { q.fb = true; q.vfb = v[a - 1]; }
	if (b) { q.fa = true; q.vfa = v[b - 1]; }
	if (d) { q.lb = true; q.vlb = v[d - 1]; }
	if (e) { q.la = true; q.vla = v[e - 1]; }
	static bool installed = false; static Reader *r = nullptr; static std::map<str, DB> subset;
	if (!installed) { install("mem:t", db); r = new Reader("mem:t"); installed = true; }
	// the records of this lookup without fences, once per kind
	Q bare = q; bare.fb = bare.fa = bare.lb = bare.la = false;
	auto s = subset.find(bare.text());
	if (s == subset.end()) {
		DB x; for (auto *p : answer(db, bare)) x.push_back(*p);
		s = subset.insert({bare.text(), x}).first;
	}
	strs want; for (auto &x : s->second) if (q.times_ok(x)) want.push_back(x.canon());
	c.trace("query %s", q.text().c_str());
	strs got = run_query(c, r->r, q);
	c.state(q.text());
	compare(c, got, want, q.text());
	c.trace("%zu results of %zu", got.size(), s->second.size());
}
// large databases with times of every length
static void in_bulk(vf::Ctx &c) {
	const int RR = DNSTABLE_QUERY_TYPE_RRSET, RN = DNSTABLE_QUERY_TYPE_RDATA_NAME;
	static const std::vector<Q> kinds = {q_name(RR, "*.a"), q_name(RR, "+.a", A), q_name(RR, "t.*"), q_name(RR, "t.a", A), q_name(RR, "+.m.m"), q_name(RR, "q.+"), q_name(RN, "*.a"), q_name(RN, "t.a"), q_name(RN, "ns69.*"), q_name(RN, "+.q"), q_ip(ip4(10, 0, 0, 0), ip4(10, 255, 255, 255), "10.0.0.0/8"), q_raw(nm("t.a")), q_raw(B(100, 'L'))};
	int shape = c.choose(BULK), f = 1 + c.choose(15); Q q = c.pick(kinds); c.mine();
	u64 at = c.pick(std::vector<u64>{999, 1040, 1ULL << 32, (1ULL << 32) + 40});
	static std::map<int, DB> dbs;
	if (!dbs.count(shape)) { vf::Uncounted u; DB d = bulk(shape, c.T(700, 3000)); u64 i = 0; for (auto &e : d) if (e.kind == RRSET || e.kind == RDATA) { e.first = 1000 + i % 53 + (i % 3 ? 0 : 1ULL << 32); e.last = e.first + i % 97 + (i % 5 ? 0 : 1ULL << 32); i++; } dbs[shape] = d; }
	if (f & 1) { q.fb = true; q.vfb = at + 3; } if (f & 2) { q.fa = true; q.vfa = at - 3; } if (f & 4) { q.lb = true; q.vlb = at + 50; } if (f & 8) { q.la = true; q.vla = at; }
	install("mem:bulk", dbs[shape]);
	{
		Reader r("mem:bulk");
		strs want = canons(answer(dbs[shape], q)), got = run_query(c, r.r, q);
		c.trace("large database %d: %s: %zu results", shape, q.text().c_str(), got.size()); c.state(fmt("bulk %d ", shape) + q.text());
		compare(c, got, want, q.text() + fmt(" on large database %d", shape));
	}
	install("mem:bulk", {});
}
static void body(vf::Ctx &c) { if (c.choose(2)) in_bulk(c); else small(c); }
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
