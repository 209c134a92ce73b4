// Q11: the record filter agrees with what a lookup would return.
#include "zoo.hpp"
using namespace dns;

static void body(vf::Ctx &c) {
	static DB db; static std::vector<Q> qs;
	if (db.empty()) {
		DB z = zoo(1, false);
		z.push_back(mk_rdata(nm("ns.a"), TXT, nm("t"))); z.push_back(mk_rdata(nm("ns.a") + u8(1), NSEC, nm("a"))); z.push_back(mk_rdata(nm("ns.a"), RP, nm("a")));
		z.push_back(mk_rdata(nm("ns.a"), 256, nm("a"))); z.push_back(mk_rdata(nm("ns.a"), 65535, nm("a"))); z.push_back(mk_rdata(be16(1) + nm("ns.a"), SVCB, nm("a")));
		z.push_back(mk_rdata(be16(1) + nm("ns.a"), HTTPS, nm("a"))); z.push_back(mk_rdata(B(6, '\1') + nm("ns.a"), SRV, nm("a"))); z.push_back(mk_rdata(nm("ns.a"), DNAME, nm("a"))); z.push_back(mk_rdata(nm("ns.a"), NXT, nm("a")));
		z.push_back(mk_rrset(nm("a"), A, wire(Bs(127, "q")), {"x"})); z.push_back(mk_rrset(nm("a"), A, nm("b.a"), {"x"})); z.push_back(mk_rrset(nm("a"), 65535, nm("ab"), {"x"}));
		u64 t[] = {1, 5, 5, 9, 0x8000000000000000ULL}, l[] = {1, 5, 9, 9, ~0ULL};
		int i = 0;
		for (auto &e : z) if (e.kind == RRSET || e.kind == RDATA) for (int k = 0; k < 5; k++) { Ent x = e; x.first = t[k]; x.last = l[k]; x.count = ++i; db.push_back(x); }
		qs = zoo_queries(false);
		Q q = q_name(DNSTABLE_QUERY_TYPE_RRSET, "a"); q.has_bail = true;
		for (auto b : {"", "b.a", "A", "ab", "zz"}) { q.bail = nm(b); qs.push_back(q); }
		q.bail = wire(Bs(127, "q")); qs.push_back(q);
		qs.push_back(q_name(DNSTABLE_QUERY_TYPE_RRSET, "a", 65535)); qs.push_back(q_name(DNSTABLE_QUERY_TYPE_RDATA_NAME, "ns.a", 256)); qs.push_back(q_name(DNSTABLE_QUERY_TYPE_RDATA_NAME, "ns.a", 65535));
		qs.push_back(q_ip(ip4(10, 1, 2, 3), "", "10.1.2.3", AAAA));
	}
	Q q = c.pick(qs);
	static const std::vector<u64> v = {1, 5, 9, 0x8000000000000000ULL, ~0ULL, 0, 6};
	int n = c.T(5, 7);
	int f = c.choose(n + 1), g = c.choose(n + 1); c.mine();
	int h = c.choose(n + 1), k = c.choose(n + 1);
	if (!c.thorough() && (f != 0) + (g != 0) + (h != 0) + (k != 0) > 2) throw vf::Cut();
	if (f) { q.fb = true; q.vfb = v[f - 1]; } if (g) { q.fa = true; q.vfa = v[g - 1]; }
	if (h) { q.lb = true; q.vlb = v[h - 1]; } if (k) { q.la = true; q.vla = v[k - 1]; }
	struct dnstable_query *dq = make(c, q);
	c.trace("%s", q.text().c_str());
	c.state(q.text());
	static std::vector<struct dnstable_entry *> ents;
	if (ents.empty()) for (auto &e : db) { B key = e.key(), val = e.val(); ents.push_back(dnstable_entry_decode((const uint8_t *)key.data(), key.size(), (const uint8_t *)val.data(), val.size())); if (!ents.back()) c.fail("decode", e.canon()); }
	int passed = 0;
	for (size_t i = 0; i < db.size(); i++) {
		const Ent &e = db[i];
		if (e.kind != (q.qtype == DNSTABLE_QUERY_TYPE_RRSET ? RRSET : RDATA)) continue;
		bool want = q.rrtype < 0 || e.type == (unsigned)q.rrtype;
		if (q.qtype == DNSTABLE_QUERY_TYPE_RDATA_NAME && q.rrtype < 0) want = name_bearing(e.type);
		if (q.qtype == DNSTABLE_QUERY_TYPE_RDATA_IP && e.type != (q.ip1.size() == 4 ? A : AAAA)) want = false;
		if (q.has_bail && e.bail != lower(q.bail)) want = false;
		if (!q.times_ok(e)) want = false;
		if (matches(e, q) && !want) c.fail("model", "the reference answer disagrees with itself");
		bool pass = !want;
		dnstable_res res = dnstable_query_filter(dq, ents[i], &pass);
		c.step();
		if (res != dnstable_res_success) c.fail("filter failed", q.text() + " on " + e.canon());
		if (pass != want) c.fail("filter", q.text() + (pass ? " passes " : " rejects ") + e.canon());
		passed += pass;
	}
	c.trace("%d records pass", passed);
	dnstable_query_destroy(&dq);
}
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
