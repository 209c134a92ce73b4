// Q02: rdata-name lookups return exactly the records holding that name.
#include "bulk.hpp"
using namespace dns;

static const DB &universe() {
	static DB u = [] {
		DB d; B n = nm("n.a");
		d.push_back(mk_rdata(n, NS, nm("o")));
		d.push_back(mk_rdata(n, CNAME, nm("o")));
		d.push_back(mk_rdata(be16(10) + n, MX, nm("o")));
		d.push_back(mk_rdata(be16(0x0161) + n, MX, nm("p")));
		d.push_back(mk_rdata(be16(1) + be16(2) + be16(3) + n, SRV, nm("o")));
		d.push_back(mk_rdata(soa(n, nm("h.a")), SOA, nm("o")));
		d.push_back(mk_rdata(be16(1) + n + be16(3) + be16(2) + be16(443), HTTPS, nm("o")));
		d.push_back(mk_rdata(n + u8(0) + u8(1) + u8(0x40), NSEC, nm("o")));
		d.push_back(mk_rdata(n, TXT, nm("o")));				// same bytes, not a name
		d.push_back(mk_rdata(nm("m.n.a"), PTR, nm("o")));
		d.push_back(mk_rdata(nm("a"), NS, nm("o")));
		d.push_back(mk_rdata(nm("n.ab"), DNAME, nm("o")));
		d.push_back(mk_rdata(nm("n"), NS, nm("n.a")));
		d.push_back(mk_rdata(nm(""), NS, nm("o")));
		d.push_back(mk_rdata(B("\1a\0\2", 4), A, nm("n")));		// starts like the name a., then like type NS
		d.push_back(mk_rdata(B("\1n\1a\0\2\1o\0\0\0\0\0\0\0\0", 16), AAAA, nm("o")));
		return d;
	}();
	return u;
}
static const DB &odd() {
	static DB u = [] {
		DB d; int ty[] = {NS, CNAME, PTR, MX, SRV, SVCB, HTTPS, SOA, DNAME, NSEC, RP, NXT};
		Bs l63(3, B(63, 'x')); l63.push_back(B(61, 'y'));
		Bs names = {wire(l63), wire(Bs(127, "q")), wire({B(63, 'x'), "a"}), wire({B("\0", 1), "a"}), wire({"\xff", "a"}), wire({"\xff\xff", "a"}),
			wire({"\xff"}), wire({"x\1*"}), wire({"a", "x\1+"}), wire({"a.b"}), wire({"a", "a", "a", "a"}), wire({"Up", "a"}), wire({"up", "a"})};
		int i = 0;
		for (auto &n : names) {
			int t = ty[i++ % 12];
			B pre = t == SRV ? B(6, '\7') : rdata_off(t) ? B(2, '\7') : B();
			B post = t == SOA ? nm("h") + B(20, '\1') : t == SVCB || t == HTTPS ? B() : t == NSEC || t == NXT ? B("\0\1\x40", 3) : t == RP ? nm("t") : B();
			d.push_back(mk_rdata(pre + n + post, t, nm("o")));
			if (i < 9) d.push_back(mk_rdata(n, NS, wire({"a", "b"})));
		}
		// owned by the root, the shortest keys
		d.push_back(mk_rdata(nm("ns.a"), NS, nm("")));
		d.push_back(mk_rdata(nm("up.a"), CNAME, nm("")));
		d.push_back(mk_rdata(be16(1) + nm("up.a"), MX, nm("")));
		d.push_back(mk_rdata(B(6, '\1') + nm("up.a"), SRV, nm("")));
		d.push_back(mk_rdata(nm(""), NS, nm("")));
		return d;
	}();
	return u;
}
static void one(vf::Ctx &c, DB &db, const Q &q) {
	sort_db(db);
	install("mem:db", db);
	Reader r("mem:db");
	c.trace("db: %s; query %s", db_text(db).c_str(), q.text().c_str());
	auto want = answer(db, q);
	strs got = run_query(c, r.r, q);
	c.state(db_text(db) + "#" + q.text());
	compare(c, got, canons(want), q.text() + " on " + db_text(db));
	c.trace("%zu results", got.size());
	standin_reset();
}
static bool left_indexed(const DB &db) { for (auto &e : db) if (e.kind == RDATA && name_bearing(e.type) && !indexed_type(e.type)) return false; return true; }

static void structural(vf::Ctx &c) {
	const DB &u = universe();
	DB db; size_t from = 0; int left = c.T(3, 5);
	while (left-- > 0) { size_t k = c.choose((int)(u.size() - from) + 1); if (!k) break; db.push_back(u[from + k - 1]); from += k; }
	c.mine();
	static const std::vector<Bs> names = {{"n", "a"}, {"a"}, {"n"}, {}, {"m", "n", "a"}, {"N", "a"}, {"n", "ab"}, {"b"}};
	Q q; q.qtype = DNSTABLE_QUERY_TYPE_RDATA_NAME;
	q.labels = c.pick(names);
	int w = c.choose(5);
	if (w == 1) q.left = '*'; if (w == 2) q.left = '+'; if (w == 3) q.right = '*'; if (w == 4) q.right = '+';
	static const std::vector<int> types = {-1, NS, CNAME, MX, SOA, SRV, HTTPS, NSEC, PTR};
	q.rrtype = c.pick(types);
	if (q.left && (q.rrtype == NSEC || !left_indexed(db))) throw vf::Cut();
	if (q.labels == Bs{"N", "a"}) q.case_sensitive = c.flip();
	add_indexes(db, q.left ? c.choose(4) : 1);
	if (q.left && c.flip()) for (auto n : {"x.a", "n.n.a", "zz"}) db.push_back(mk_name(RDATA_NAME, nm(n), type_union({NS, MX})));	// names without records
	one(c, db, q);
}
static void boundary(vf::Ctx &c) {
	const DB &u = odd();
	int i = c.choose((int)u.size()), j = c.choose((int)u.size() + 1);
	c.mine();
	DB db = {u[i]};
	if (j && j - 1 > i) db.push_back(u[j - 1]); else if (j) throw vf::Cut();
	standin_knobs.null_iters = c.flip();
	const Ent &e = db[c.choose((int)db.size())];
	Bs lab = labels(target(e));
	Q q; q.qtype = DNSTABLE_QUERY_TYPE_RDATA_NAME; q.labels = lab;
	std::vector<int> cuts = {0, 1, 2}; if (lab.size() > 3) cuts.push_back((int)lab.size() - 1);
	int w = c.choose(5);
	if (w) {
		size_t cut = c.pick(cuts);
		if (cut > lab.size()) throw vf::Cut();
		if (w <= 2) { q.labels.erase(q.labels.begin(), q.labels.begin() + cut); q.left = w == 1 ? '*' : '+'; }
		else { q.labels.resize(lab.size() - cut); q.right = w == 3 ? '*' : '+'; }
		if (wire(q.labels).size() > 253) throw vf::Cut();
	}
	if (c.flip()) q.rrtype = e.type;
	if (q.left && (!left_indexed(db) || (q.rrtype >= 0 && !indexed_type(q.rrtype)))) throw vf::Cut();
	q.case_sensitive = c.flip();
	add_indexes(db, q.left ? c.choose(3) : 1);
	one(c, db, q);
	standin_knobs.null_iters = 0;
}
// keys which are no records, their last label ending before, at or beyond the end of the key
static void malformed(vf::Ctx &c) {
	static const std::vector<int> lens = {1, 2, 3, 4, 5, 63, 64, 65, 127, 128, 130, 191, 192, 250, 251, 252, 253, 254, 255};
	DB db = {mk_rdata(nm("a"), NS, nm("o")), mk_rdata(nm("a.mm"), NS, nm("")), mk_rdata(nm("a.mmm"), CNAME, nm("o")), mk_rdata(wire({"a", B(63, 'z')}), PTR, nm("o")), mk_rdata(nm("a.y.x"), NS, nm("o")), mk_rdata(nm("b"), NS, nm("o")),
		mk_rdata(nm("mm.a"), NS, nm("o")), mk_rdata(nm("mmm.a"), NS, nm("o")), mk_rdata(nm("mmm.mmm.a"), NS, nm("o"))};
	static const std::vector<const char *> names = {"a.+", "a.*", "+.a", "+.", "*.", "a"};
	Q q = q_name(DNSTABLE_QUERY_TYPE_RDATA_NAME, c.pick(names));
	int len = c.pick(lens), fill = c.choose(5);
	c.mine();
	if (c.flip()) q.rrtype = NS;
	add_indexes(db, 1); sort_db(db);
	bool index = q.left && !q.labels.empty();
	std::map<B, B> kv; for (auto &e : db) kv[e.key()] = e.val();
	for (int i = 0, n = 1 + c.choose(2); i < n; i++) {
		B bad = u8(index ? 3 : 2) + "\1a" + u8(i ? c.pick(lens) : len) + B(fill, 'm');
		if (i && c.flip()) bad += B(61, 'm');
		kv[bad] = index ? B() : triplet(1, 2, 3);
		c.trace("bad key %s", hex(bad).c_str());
	}
	kv[u8(2)] = triplet(1, 2, 3); kv[u8(2) + "m"] = triplet(1, 2, 3);
	install_kv("mem:db", kv);
	Reader r("mem:db");
	strs want = canons(answer(db, q)), got = run_query(c, r.r, q);
	c.state(fmt("m%d %d ", len, fill) + q.text());
	compare(c, got, want, q.text() + " with malformed keys");
	standin_reset();
}
static void in_bulk(vf::Ctx &c) {
	const int RN = DNSTABLE_QUERY_TYPE_RDATA_NAME;
	static const std::vector<Q> qs = [&] {
		std::vector<Q> v;
		for (auto n : {"ns1.z1.a", "*.z1.a", "+.a", "ns699.*", "ns69.+", "+.", "*.", "t.a", "t.*", "*.a", "*.q.q", "+.q.q.q", "q.*", "q.q.+", "r.*", "nothing.a", "+.z9.a"})
			for (int t : {-1, (int)NS, (int)CNAME, (int)MX}) v.push_back(q_name(RN, n, t));
		for (auto l : {Bs{B(63, 'm'), B(63, 'm'), B(63, 'm'), B(58, 'm') + "077"}, Bs{"078" + B(58, 'm'), B(63, 'm'), B(63, 'm'), B(63, 'm')}}) {
			Q q; q.qtype = RN; q.labels = l; v.push_back(q); q.rrtype = MX; v.push_back(q); q.rrtype = -1;
			Q s = q; s.left = '+'; s.labels.erase(s.labels.begin()); v.push_back(s); s.left = '*'; s.rrtype = MX; v.push_back(s);
			s = q; s.right = '+'; s.labels.pop_back(); v.push_back(s); s.labels.pop_back(); v.push_back(s);
		}
		for (int k : {126, 127}) { Q q; q.qtype = RN; q.labels = Bs(k, "q"); v.push_back(q); if (k < 127) { q.left = '+'; v.push_back(q); q.left = 0; q.right = '*'; v.push_back(q); } }
		return v;
	}();
	bulk_case(c, qs);
}
static void body(vf::Ctx &c) { standin_knobs.null_iters = 0; int f = c.choose(4); if (f == 3) return in_bulk(c); if (f == 2) malformed(c); else if (f) boundary(c); else structural(c); }
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
