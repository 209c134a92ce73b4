// Q03: IP address, prefix and range lookups return exactly the addresses inside.
#include "bulk.hpp"
using namespace dns;

static const DB &universe() {
	static DB u = [] {
		DB d;
		d.push_back(mk_rdata(ip4(0, 0, 0, 0), A, nm("a")));
		d.push_back(mk_rdata(ip4(0, 0, 0, 1), A, nm("a")));
		d.push_back(mk_rdata(ip4(1, 2, 3, 4), A, nm("a")));
		d.push_back(mk_rdata(ip4(1, 2, 3, 4), A, nm("a.b")));
		d.push_back(mk_rdata(ip4(1, 2, 3, 5), A, nm("a")));
		d.push_back(mk_rdata(ip4(1, 2, 3, 255), A, wire({"\xff\xff"})));
		d.push_back(mk_rdata(ip4(1, 2, 4, 0), A, nm("")));
		d.push_back(mk_rdata(ip4(1, 255, 255, 255), A, nm("x")));
		d.push_back(mk_rdata(ip4(255, 255, 255, 254), A, nm("a")));
		d.push_back(mk_rdata(ip4(255, 255, 255, 255), A, nm("a")));
		// records of other types whose keys interleave with those
		d.push_back(mk_rdata(ip6w({0x0102, 0x0304}), AAAA, nm("v")));				// then type byte 0
		d.push_back(mk_rdata(ip6w({0x0102, 0x0304, 0x0101, 0x6100, 0x0400, 0xffff}), AAAA, nm("v")));	// ... looks like type A, owner a.
		d.push_back(mk_rdata(ip6w({0x0102, 0x0304, 0x01ff}), AAAA, nm("v")));			// ... type A, bad label
		d.push_back(mk_rdata(ip6w({0x0102, 0x0304, 0x0103, 0x6161}), AAAA, nm("v")));		// ... type A, label runs on
		d.push_back(mk_rdata(ip6w({0x0102, 0x0304, 0x0200}), AAAA, nm("v")));			// sorts after type A
		d.push_back(mk_rdata(ip6w({0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff}), AAAA, nm("v")));
		d.push_back(mk_rdata(ip6w({0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xfffe}), AAAA, nm("v")));
		d.push_back(mk_rdata(ip6w({0}), AAAA, nm("v")));
		d.push_back(mk_rdata(ip4(1, 2, 3, 4), TXT, nm("t")));
		d.push_back(mk_rdata(ip4(1, 2, 3, 4) + "\1\1a", TXT, nm("t")));
		d.push_back(mk_rdata(ip4(1, 2, 3, 4) + B("\1\1a\0\4\0zz", 8), TXT, nm("t")));
		d.push_back(mk_rdata(B("\1\2", 2), TXT, nm("t")));
		d.push_back(mk_rdata(B("\1\2\3\4\1\77aaa", 9), TXT, nm("t")));
		d.push_back(mk_rdata(B(16, '\xff'), 300, nm("t")));
		return d;
	}();
	return u;
}
static std::vector<Q> make_queries(bool deep) {
	std::vector<Q> v;
	Bs b4 = {ip4(0, 0, 0, 0), ip4(0, 0, 0, 1), ip4(1, 2, 3, 4), ip4(1, 2, 3, 255), ip4(1, 2, 4, 0), ip4(255, 255, 255, 254), ip4(255, 255, 255, 255)};
	if (deep) { b4.push_back(ip4(1, 2, 3, 3)); b4.push_back(ip4(1, 2, 3, 5)); b4.push_back(ip4(2, 0, 0, 0)); }
	for (auto &x : b4) {
		v.push_back(q_ip(x, "", ip_str(x)));
		for (auto &y : b4) if (y >= x) v.push_back(q_ip(x, y, ip_str(x) + "-" + ip_str(y)));
	}
	auto prefix = [&](const B &x, unsigned len) {
		B lo = x, hi = x;
		for (unsigned i = 0; i < x.size() * 8; i++) if (i >= len) { lo[i / 8] &= ~(0x80 >> (i % 8)); hi[i / 8] |= 0x80 >> (i % 8); }
		v.push_back(q_ip(lo, hi, ip_str(x) + fmt("/%u", len)));
	};
	for (unsigned n : {0u, 1u, 7u, 8u, 15u, 16u, 22u, 23u, 24u, 25u, 30u, 31u, 32u}) { prefix(ip4(1, 2, 3, 4), n); if (deep) { prefix(ip4(255, 255, 255, 255), n); prefix(ip4(0, 0, 0, 0), n); } }
	prefix(ip4(255, 255, 255, 255), 31); prefix(ip4(0, 0, 0, 1), 31); prefix(ip4(255, 0, 0, 0), 1);
	Bs b6 = {ip6w({0}), ip6w({0x0102, 0x0304}), ip6w({0x0102, 0x0304, 0x0101, 0x6100, 0x0400, 0xffff}), ip6w({0x0102, 0x0304, 0x01ff}),
		 B(16, '\xff'), B(15, '\xff') + "\xfe"};
	for (auto &x : b6) {
		v.push_back(q_ip(x, "", ip_str(x)));
		for (auto &y : b6) if (y >= x) v.push_back(q_ip(x, y, ip_str(x) + "-" + ip_str(y)));
	}
	for (unsigned n : {0u, 1u, 32u, 33u, 47u, 48u, 64u, 65u, 96u, 127u, 128u}) { prefix(ip6w({0x0102, 0x0304, 0x0101, 0x6100, 0x0400, 0xffff}), n); if (deep) prefix(B(16, '\xff'), n); }
	prefix(B(16, '\xff'), 127);
	// descending ranges hold nothing
	v.push_back(q_ip(ip4(1, 2, 3, 5), ip4(1, 2, 3, 4), "1.2.3.5-1.2.3.4"));
	v.push_back(q_ip(ip4(255, 255, 255, 255), ip4(0, 0, 0, 0), "255.255.255.255-0.0.0.0"));
	return v;
}
// Records of other types whose bytes run on exactly where the owner of an address record would start:
// each kind of label length there, against address records with owners of every first-label length.
static void intruders(vf::Ctx &c) {
	standin_knobs.null_iters = 0;
	static const std::vector<int> firsts = {0, 1, 2, 4, 5, 61, 62, 63, 64, 65, 127, 128, 191, 192, 193, 254, 255};
	static const std::vector<B> owners = {nm(""), nm("a"), wire({B("\xff", 1)}), wire({B(62, 'm')}), wire({B(63, 'm')}), wire({B(63, '\xff')}), wire({"x", B(63, 'm')}), wire({B(63, 'm'), B(63, 'm'), B(63, 'm'), B(61, 'm')}), wire(Bs(127, "m"))};
	static const std::vector<B> fills = {B(), B(1, '\0'), B(3, 'm'), B(3, '\xff'), B(64, 'm'), B(64, '\0')};
	bool v6 = c.flip();
	B addr = v6 ? ip6w({0x2001, 0xdb8, 0, 0, 0, 0, 0, 0x1ff}) : ip4(1, 2, 3, 255);
	B next = v6 ? ip6w({0x2001, 0xdb8, 0, 0, 0, 0, 0, 0x200}) : ip4(1, 2, 4, 0);
	unsigned mine = v6 ? AAAA : A;
	int at = c.choose(3);		// the intruder shares the address; the type byte is lower, equal or higher
	int first = c.pick(firsts);
	c.mine();
	B fill = c.pick(fills);
	B body = addr + u8(mine - 1 + at) + u8(first) + fill;
	int how = c.choose(v6 ? 2 : 3);	// as text, as an unknown type, or (beyond IPv4) as an IPv6 address
	Ent in;
	if (how == 2) { if (body.size() > 16) throw vf::Cut(); in = mk_rdata(body + B(16 - body.size(), c.flip() ? '\xff' : '\0'), AAAA, nm("v")); }
	else in = mk_rdata(body, how ? 300 : TXT, nm("t"));
	Ent in2; bool two = c.thorough() ? c.flip() : false;
	if (two) in2 = mk_rdata(addr + u8(mine) + u8(c.pick(firsts)) + "mm", TXT, nm("u"));
	c.trace("intruder %s", hex(in.key()).c_str());
	for (size_t i = 0; i < owners.size(); i++) for (int more = 0; more < 3; more++) {
		DB db = {in, mk_rdata(addr, mine, owners[i])};
		if (two && in2.key() != in.key()) db.push_back(in2);
		if (more >= 1) db.push_back(mk_rdata(next, mine, owners[(i + 1) % owners.size()]));
		if (more >= 2) db.push_back(mk_rdata(addr, mine, owners[(i + 4) % owners.size()]));
		sort_db(db);
		install("mem:db", db);
		Reader r("mem:db");
		B lo = addr, hi = addr; lo.back() = 0; B top(addr.size(), '\xff');
		auto range = [](const B &x, const B &y) { return q_ip(x, y, ip_str(x) + "-" + ip_str(y)); };
		for (auto &q : {q_ip(addr, "", ip_str(addr)), range(lo, hi), range(lo, next), range(addr, top), range(next, top)}) {
			auto want = answer(db, q);
			strs got = run_query(c, r.r, q);
			c.state(hex(in.key()) + fmt("#%zu %d ", i, more) + q.text());
			compare(c, got, canons(want), q.text() + " on " + db_text(db));
		}
	}
	standin_reset();
}
// Records of other types whose bytes read on as the whole owner of an address record, and further: names
// that are complete and followed by anything, and labels which end at, before or after the end of the key.
static void lookalikes(vf::Ctx &c) {
	standin_knobs.null_iters = 0;
	static const std::vector<Bs> starts = {{}, {"m"}, {B("\xff", 1)}, {"m", "m"}, {B(63, 'n')}};
	static const std::vector<int> tails = {-1, 0, 3, 4, 5, 15, 16, 17, 255};
	bool v6 = c.flip();
	B addr = v6 ? ip6w({0x2001, 0xdb8, 0, 0, 0, 0, 0, 0x1ff}) : ip4(1, 2, 3, 255);
	unsigned mine = v6 ? AAAA : A;
	Bs start = c.pick(starts);
	B part = wire(start); part.pop_back();
	unsigned type = c.flip() ? 300 : TXT;
	B body = addr + u8(mine) + part;
	B as = "m";			// the label the last bytes would be
	if (c.flip()) {			// a complete name, then up to three more bytes
		body += u8(0);
		c.mine();
		for (int i = 0; i < 3; i++) { int t = c.pick(tails); if (t < 0) break; body += u8(t); }
	} else {
		int fill = c.choose(c.T(3, 6));
		c.mine();
		int off = c.choose(13) - 6;	// where the label ends, counted from the end of the key
		int rest = fill + (int)mk_rdata("", type, nm("t")).key().size() - 1;
		if (rest + off < 1) throw vf::Cut();
		body += u8(rest + off) + B(fill, 'm');
		as = (mk_rdata(body, type, nm("t")).key().substr(1 + body.size() - fill) + B(16, '\0')).substr(0, rest + off);
	}
	Ent in = mk_rdata(body, type, nm("t"));
	// owners around what those bytes look like
	std::vector<B> owners = {wire(start)};
	auto with = [&](const B &l) { Bs x = start; x.push_back(l); owners.push_back(wire(x)); };
	with(as); { B y = as; y.back()++; with(y); } with(B(as.size(), '\xff')); with(as + "\1"); if (as.size() > 1) with(as.substr(1));
	{ Bs x = start; x.push_back(as); x.push_back("m"); owners.push_back(wire(x)); }
	c.trace("lookalike %s", hex(in.key()).c_str());
	for (size_t i = 0; i < owners.size(); i++) for (int two = 0; two < 2; two++) {
		DB db = {in, mk_rdata(addr, mine, rev(owners[i]))};
		if (two) { db.push_back(mk_rdata(addr, mine, rev(owners[(i + 1) % owners.size()]))); Ent x = in; x.owner = nm("u"); db.push_back(x); }
		sort_db(db);
		install("mem:db", db);
		Reader r("mem:db");
		B lo = addr, hi = addr; lo.back() = 0; hi.back() = '\xff';
		for (auto &q : {q_ip(addr, "", ip_str(addr)), q_ip(lo, hi, ip_str(lo) + "-" + ip_str(hi))}) {
			auto want = answer(db, q);
			strs got = run_query(c, r.r, q);
			c.state(hex(in.key()) + fmt("/%zu %d ", i, two) + q.text());
			compare(c, got, canons(want), q.text() + " on " + db_text(db));
		}
	}
	standin_reset();
}
// Records of other types whose whole key is shorter than an address: the address such a key becomes when it is
// filled up with zeros is where the search goes on, and must itself be found.
static void shorts(vf::Ctx &c) {
	standin_knobs.null_iters = 0;
	bool v6 = c.flip();
	int len = c.choose(v6 ? 14 : 3);		// bytes of the short record
	static const std::vector<B> owners = {nm(""), nm("a"), wire({"\xff"})};
	B own = c.pick(owners); unsigned type = c.pick(std::vector<unsigned>{TXT, 1000, 2}); int up = c.choose(4);
	c.mine();
	size_t alen = v6 ? 16 : 4;
	B body(len, '\x20'); if (len) body[len - 1] = 1;
	if (type == 2) body = nm("z").substr(0, 0) + nm("z");
	Ent in = mk_rdata(body, type, own);
	B k = in.key().substr(1);
	if (k.size() >= alen) throw vf::Cut();
	B at = k + B(alen - k.size(), '\0'), after = at, before = at; after.back() = 1;
	for (size_t i = alen; i-- > 0;) if (before[i]--) break;
	std::vector<B> addrs = {at}; if (up & 1) addrs.push_back(after); if (up & 2) addrs.push_back(before);
	static const std::vector<B> mine = {nm(""), nm("a"), wire({B("\xff", 1)})};
	for (size_t o = 0; o < mine.size(); o++) for (int shortonly = 0; shortonly < 2; shortonly++) {
		DB db = {in}; for (size_t i = shortonly; i < addrs.size(); i++) db.push_back(mk_rdata(addrs[i], v6 ? AAAA : A, mine[(o + i) % 3]));
		sort_db(db); install("mem:db", db); Reader r("mem:db");
		B zero(alen, '\0'), top(alen, '\xff'), lo = at; for (size_t i = len ? len - 1 : 0; i < alen; i++) lo[i] = 0;
		auto range = [](const B &x, const B &y) { return q_ip(x, y, ip_str(x) + "-" + ip_str(y)); };
		for (auto &q : {q_ip(at, "", ip_str(at)), range(zero, top), range(zero, at), range(lo, at), range(lo, top), range(at, top), range(before, after)}) {
			auto want = answer(db, q);
			strs got = run_query(c, r.r, q);
			c.state(hex(in.key()) + fmt("-%zu %d ", o, shortonly) + q.text());
			compare(c, got, canons(want), q.text() + " on " + db_text(db));
		}
	}
	c.trace("short key %s", hex(in.key()).c_str());
	standin_reset();
}
static void pools(vf::Ctx &c) {
	standin_knobs.null_iters = 0;
	const DB &u = universe();
	DB db; size_t from = 0; int left = c.T(3, 5);
	while (left-- > 0) { size_t k = c.choose((int)(u.size() - from) + 1); if (!k) break; db.push_back(u[from + k - 1]); from += k; }
	c.mine();
	static std::vector<Q> qs = make_queries(c.thorough());
	Q q = c.pick(qs);
	int t = c.choose(c.thorough() ? 4 : 2);
	if (t == 1) q.rrtype = q.ip1.size() == 4 ? A : AAAA;
	if (t == 2) q.rrtype = q.ip1.size() == 4 ? AAAA : A;
	if (t == 3) q.rrtype = TXT;
	if (!c.thorough() && t == 1 && db.size() < 2) q.rrtype = db.empty() ? TXT : (q.ip1.size() == 4 ? AAAA : A);
	if (db.size() < 3) standin_knobs.null_iters = c.flip();
	sort_db(db);
	install("mem:db", db);
	{
		Reader r("mem:db");
		c.trace("db: %s; query %s", db_text(db).c_str(), q.text().c_str());
		auto want = answer(db, q);
		strs got = run_query(c, r.r, q);
		c.state(db_text(db) + "#" + q.text());
		compare(c, got, canons(want), q.text() + " on " + db_text(db));
		c.trace("%zu results", got.size());
	}
	standin_reset();
}
static void in_bulk(vf::Ctx &c) {
	static const std::vector<Q> qs = [] {
		std::vector<Q> v;
		auto range = [&](unsigned a, unsigned b) { v.push_back(q_ip(ip_n(a), ip_n(b), ip_str(ip_n(a)) + "-" + ip_str(ip_n(b)))); };
		for (unsigned a : {0u, 5u, 7u, 9u, 255u, 256u, 698u, 699u, 700u}) { v.push_back(q_ip(ip_n(a), "", ip_str(ip_n(a)))); for (unsigned b : {5u, 9u, 127u, 255u, 256u, 699u, 65536u}) if (b >= a) range(a, b); }
		v.push_back(q_ip(ip4(10, 0, 0, 0), ip4(10, 0, 255, 255), "10.0.0.0/16")); v.push_back(q_ip(ip4(10, 0, 1, 0), ip4(10, 0, 1, 255), "10.0.1.0/24")); v.push_back(q_ip(ip4(0, 0, 0, 0), ip4(255, 255, 255, 255), "0.0.0.0/0"));
		B z(16, '\0'), t(16, '\xff'); v.push_back(q_ip(z, t, "::/0"));
		size_t k = v.size(); for (size_t i = 0; i < k; i++) { Q q = v[i]; q.rrtype = q.ip1.size() == 4 ? A : AAAA; v.push_back(q); }
		return v;
	}();
	bulk_case(c, qs);
}
static void body(vf::Ctx &c) { int f = c.choose(5); if (f == 4) return in_bulk(c); if (f == 3) shorts(c); else if (f == 2) lookalikes(c); else if (f) intruders(c); else pools(c); }
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
