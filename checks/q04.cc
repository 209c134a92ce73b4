// Q04: raw (hex) rdata lookups select exactly the records whose searchable bytes start with those given.
#include "bulk.hpp"
using namespace dns;

static const DB &universe() {
	static DB u = [] {
		DB d;
		d.push_back(mk_rdata(ip4(1, 2, 3, 4), A, nm("a")));
		d.push_back(mk_rdata(ip4(1, 2, 3, 4), A, nm("b.a")));
		d.push_back(mk_rdata(ip4(1, 2, 3, 4), TXT, nm("a")));
		d.push_back(mk_rdata(ip4(1, 2, 3, 4) + u8(1), 300, nm("a")));
		d.push_back(mk_rdata(ip4(1, 2, 3, 5), A, nm("a")));
		d.push_back(mk_rdata(nm("n.a"), NS, nm("a")));
		d.push_back(mk_rdata(be16(0x0102) + nm("n.a"), MX, nm("a")));		// preference is not searchable
		d.push_back(mk_rdata(B("\1\2\3\4\5\6", 6) + nm("n.a"), SRV, nm("a")));
		d.push_back(mk_rdata(B(16, '\xff'), AAAA, nm("a")));
		d.push_back(mk_rdata(B("\xff\x00\xAB", 3), 65535, nm("a")));
		d.push_back(mk_rdata("", 300, nm("a")));					// empty rdata
		d.push_back(mk_rdata(be16(7), MX, nm("a")));					// nothing searchable
		d.push_back(mk_rdata(B(300, 'L'), TXT, nm("long")));
		return d;
	}();
	return u;
}
static void pools(vf::Ctx &c) {
	standin_knobs.null_iters = 0;
	const DB &u = universe();
	DB db; size_t from = 0; int left = c.T(3, 6);
	while (left-- > 0) { size_t k = c.choose((int)(u.size() - from) + 1); if (!k) break; db.push_back(u[from + k - 1]); from += k; }
	c.mine();
	// every prefix of a record's bytes (with the type number that follows them), or a neighbour of one
	const Ent &e = c.pick(u);
	B all = e.srdata() + varint(e.type);
	std::vector<size_t> lens; for (size_t i = 1; i <= all.size(); i++) if (i < 18 || i > all.size() - 3) lens.push_back(i);
	Q q = q_raw(all.substr(0, c.pick(lens)));
	if (c.flip()) q.raw.back() = (char)(q.raw.back() + 1);
	int t = c.choose(4);
	if (t == 1) q.rrtype = e.type;
	if (t == 2) q.rrtype = A;
	if (t == 3) { q.rrtype = NS; q.raw = lower(q.raw); }
	if (db.size() < 3) standin_knobs.null_iters = c.flip();
	// a refused value in between changes nothing
	static const strs bad = {"", "0", "abc", "zz", "0g00", "0x10", "12 34", "1234 ", " 1234", "12-34", "1.2.3.4", "\xff\xff", "g0"};
	int badi = db.size() < 2 ? c.choose((int)bad.size() + 1) : 0;
	bool upper = db.size() == 1 && c.flip();
	sort_db(db);
	install("mem:db", db);
	{
		Reader r("mem:db");
		c.trace("db: %s; query %s", db_text(db).c_str(), q.text().c_str());
		Iter it; it.q = make(c, q);
		if (upper) { str s = q.data(); for (auto &ch : s) ch = toupper(ch); if (dnstable_query_set_data(it.q, s.c_str()) != dnstable_res_success) c.fail("upper", "upper-case hex refused: " + s); }
		if (badi) {
			if (dnstable_query_set_data(it.q, bad[badi - 1].c_str()) == dnstable_res_success) c.fail("malformed", "malformed hex accepted: [" + bad[badi - 1] + "]");
			const char *m = dnstable_query_get_error(it.q);
			if (!m || !*m) c.fail("error text", "no error text for [" + bad[badi - 1] + "]");
			c.step();
		}
		it.it = dnstable_reader_query(r.r, it.q);
		strs got = drain(c, it.it);
		auto want = answer(db, q);
		c.state(db_text(db) + "#" + q.text());
		compare(c, got, canons(want), q.text() + " on " + db_text(db));
		c.trace("%zu results", got.size());
	}
	standin_reset();
}
static void in_bulk(vf::Ctx &c) {
	static const std::vector<Q> qs = [] {
		std::vector<Q> v; Bs raws = {ip_n(7), ip_n(9), ip_n(699), ip_n(1).substr(0, 3), ip_n(1).substr(0, 1), nm("t.a"), nm("ns1.z1.a"), wire(Bs(127, "q")), wire(Bs(126, "q")).substr(0, 252), u8(63) + B(63, 'm') + u8(63) + B(63, 'm') + u8(63) + B(63, 'm') + u8(61) + B(58, 'm') + "077", nm("nothing")};
		for (size_t l : {1u, 126u, 127u, 128u, 255u, 256u, 257u, 16383u, 16384u, 32768u, 65534u, 65535u}) { raws.push_back(B(l, 'L')); raws.push_back(B(l, 'L') + varint(300)); }
		for (auto &b : raws) for (int t : {-1, (int)A, (int)NS, 300, 20000}) v.push_back(q_raw(b, t));
		return v;
	}();
	bulk_case(c, qs);
}
static void body(vf::Ctx &c) { if (c.choose(2)) in_bulk(c); else pools(c); }
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
