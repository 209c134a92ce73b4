// Databases far larger than those enumerated: many names, many types, long names, large values. Each is fixed;
// what is enumerated is the database and the lookup.
#pragma once
#include "zoo.hpp"
namespace dns {
enum { BULK = 5 };
inline B ip_n(unsigned n) { return be32(0x0a000000u + n); }
inline DB bulk(int shape, int n) {
	DB d;
	if (shape == 0)			// many owners in three zones
		for (int i = 0; i < n; i++) {
			B o = nm(fmt("h%d.z%d.a", i, i % 3)), z = nm(fmt("z%d.a", i % 3));
			d.push_back(mk_rrset(o, i % 7 ? A : 258, i % 2 ? z : nm("a"), {ip_n(i)}));
			d.push_back(mk_rdata(ip_n(i), i % 7 ? A : 258, o));
			d.push_back(mk_rdata(nm(fmt("ns%d.z%d.a", i, i % 3)), i % 5 ? NS : CNAME, o));
		}
	else if (shape == 1)		// one name with every kind of type and many bailiwicks
		for (int i = 1; i < n; i++) {
			unsigned t = i < 400 ? i : (i * 37u) % 65536; if (t == 255 || !t) continue;
			d.push_back(mk_rrset(nm("t.a"), t, nm(""), {"r"}));
			d.push_back(mk_rrset(nm("t.a"), A, nm(fmt("b%d", i)), {ip_n(i)}));
			if (!name_bearing(t) && t != AAAA) d.push_back(mk_rdata(ip_n(7), t, nm("t.a")));
			d.push_back(mk_rdata(nm("t.a"), NS, nm(fmt("o%d", i))));
			d.push_back(mk_rdata(ip_n(9), A, nm(fmt("o%d", i))));
		}
	else if (shape == 2) {		// large values
		Bs many; for (int i = 0; i < n; i++) many.push_back(ip_n(i));
		d.push_back(mk_rrset(nm("m.a"), A, nm("a"), many));
		for (unsigned l : {127u, 128u, 255u, 256u, 16383u, 16384u, 32767u, 32768u, 65535u}) {
			d.push_back(mk_rrset(nm(fmt("l%u.a", l)), 300, nm("a"), {B(l, 'L'), "x", B(l, 'M')}));
			d.push_back(mk_rdata(B(l, 'L'), 300, nm(fmt("l%u.a", l))));
		}
	} else if (shape == 3)		// long names which share all but a few bytes, at either end
		for (int i = 0; i < n / 8; i++) {
			B x = fmt("%03d", i);
			B o = i % 2 ? wire({B(63, 'm'), B(63, 'm'), B(63, 'm'), B(58, 'm') + x}) : wire({x + B(58, 'm'), B(63, 'm'), B(63, 'm'), B(63, 'm')});
			d.push_back(mk_rrset(o, A, i % 3 ? o : nm(""), {ip_n(i)}));
			d.push_back(mk_rdata(o, NS, i % 3 ? o : nm("o")));
			d.push_back(mk_rdata(be16(i) + o, MX, o));
			d.push_back(mk_rdata(ip_n(i / 4), A, o));
		}
	else				// as deep as names go
		for (int i = 1; i <= 127; i++) {
			B o = wire(Bs(i, "q")), p = wire([&] { Bs l(i, "q"); l[0] = "r"; return l; }());
			d.push_back(mk_rrset(o, A, i % 2 ? o : nm("q"), {ip_n(i)}));
			if (i > 1) d.push_back(mk_rrset(p, A, nm("q"), {ip_n(i)}));
			d.push_back(mk_rdata(o, NS, p)); d.push_back(mk_rdata(be16(1) + p, MX, o)); d.push_back(mk_rdata(ip_n(5), A, o));
		}
	add_indexes(d, 1);
	sort_db(d);
	d.erase(std::unique(d.begin(), d.end(), [](const Ent &a, const Ent &b) { return a.key() == b.key(); }), d.end());
	return d;
}
// a lookup in a large database, compared with the reference answer, record by record
inline void bulk_case(vf::Ctx &c, const std::vector<Q> &qs) {
	standin_knobs.null_iters = 0;
	int shape = c.choose(BULK); Q q = c.pick(qs);
	c.mine();
	static std::map<int, DB> dbs;
	int n = c.T(700, 4000);
	if (!dbs.count(shape)) { vf::Uncounted u; dbs[shape] = bulk(shape, n); }
	const DB &db = dbs[shape];
	install("mem:db", db);
	{
		Reader r("mem:db");
		strs want = canons(answer(db, q)), got = run_query(c, r.r, q);
		c.trace("large database %d of %zu records: %s: %zu results", shape, db.size(), q.text().c_str(), got.size());
		c.state(fmt("bulk %d %zu ", shape, want.size()) + q.text());
		compare(c, got, want, q.text() + fmt(" on large database %d", shape));
	}
	standin_reset();
}
}
