// Q01: RRset owner-name lookups return exactly the matching records.
// Every database made of at most k records of an adversarial universe, under every shape of the
// forward-name index, times every query of a family; compared with the reference answer.
#include "bulk.hpp"
using namespace dns;

static B rep(char c, int n) { return B(n, c); }

static const DB &universe() {
	static DB u = [] {
		DB d; Bs ad = {B("\1\2\3\4", 4)}, nsd = {nm("ns.a")};
		d.push_back(mk_rrset(nm("a"), A, nm(""), ad));
		d.push_back(mk_rrset(nm("a"), A, nm("a"), ad));
		d.push_back(mk_rrset(nm("a"), NS, nm("a"), nsd));
		d.push_back(mk_rrset(nm("a"), 258, nm("a"), {"x"}));
		d.push_back(mk_rrset(nm("b.a"), A, nm("a"), ad));
		d.push_back(mk_rrset(nm("b.a"), AAAA, nm("b.a"), {rep(1, 16)}));
		d.push_back(mk_rrset(nm("c.b.a"), A, nm("a"), ad));
		d.push_back(mk_rrset(nm("a.b"), A, nm("b"), ad));
		d.push_back(mk_rrset(nm("aa.a"), A, nm("a"), ad));
		d.push_back(mk_rrset(nm("aa"), A, nm(""), ad));
		d.push_back(mk_rrset(nm(""), NS, nm(""), nsd));
		d.push_back(mk_rrset(nm("a.c.a"), A, nm("c.a"), ad));
		return d;
	}();
	return u;
}

// long and odd names, RR types at every varint length
static const DB &odd() {
	static DB u = [] {
		DB d;
		Bs names;
		Bs l63(3, rep('x', 63)); l63.push_back(rep('y', 61));		// 255 bytes
		names.push_back(wire(l63));
		Bs l127(127, "q");						// 255 bytes, 127 labels
		names.push_back(wire(l127));
		names.push_back(wire({rep('x', 63), "a"}));
		names.push_back(wire({rep('x', 62), "a"}));
		names.push_back(wire({B("\0", 1), "a"}));
		names.push_back(wire({"\xff", "a"}));
		names.push_back(wire({"\xff\xff", "a"}));
		names.push_back(wire({"\xfe\xff", "\xff"}));
		names.push_back(wire({"\xff"}));
		names.push_back(wire({"x\1*"}));				// ends like a wildcard
		names.push_back(wire({"x\1*", "a"}));
		names.push_back(wire({"a", "x\1+"}));
		names.push_back(wire({"a.b"}));
		names.push_back(wire({"a b\\\"", "c"}));
		names.push_back(wire({"*", "a"}));
		names.push_back(wire({"a", "a", "a", "a"}));
		int t[] = {1, 127, 128, 254, 256, 16383, 16384, 32768, 65535};
		int i = 0;
		for (auto &n : names) {
			int ty = t[i++ % 9];
			d.push_back(mk_rrset(n, ty, i % 2 ? n : nm(""), {"r"}));
		}
		// one owner with every type length
		for (int ty : t) d.push_back(mk_rrset(nm("t.a"), ty, nm("a"), {"r"}));
		// stored in upper case
		d.push_back(mk_rrset(nm("Up.a"), A, nm("a"), {"r"}));
		d.push_back(mk_rrset(nm("up.a"), A, nm("a"), {"r"}));
		// the shortest keys
		d.push_back(mk_rrset(nm("t.a"), 100, nm(""), {}));
		d.push_back(mk_rrset(nm(""), A, nm(""), {}));
		return d;
	}();
	return u;
}

static void add_index(DB &d, int mode) {
	std::map<B, std::set<unsigned>> t;
	for (auto &e : d) if (e.kind == RRSET) t[e.owner].insert(e.type);
	DB x;
	for (auto &kv : t) {
		auto ty = kv.second;
		if (mode == 2) { ty.insert(5); ty.insert(65534); }
		x.push_back(mk_name(RRSET_NAME, kv.first, mode == 0 ? B() : type_union(ty)));
	}
	if (mode == 2)	// names which have no records (any more)
		for (auto n : {"a", "a.b.c", "b", "zz", "c.a"}) if (!t.count(nm(n))) x.push_back(mk_name(RRSET_NAME, nm(n), type_union({1, 2})));
	if (mode == 3) for (auto &e : x) e.types = B("\0\x21\xff", 3);	// corrupt: must not hide anything
	d.insert(d.end(), x.begin(), x.end());
}

static void one(vf::Ctx &c, const DB &db, const Q &q) {
	install("mem:db", db);
	Reader r("mem:db");
	c.trace("db: %s; query %s", db_text(db).c_str(), q.text().c_str());
	auto want = answer(db, q);
	strs got = run_query(c, r.r, q);
	c.state(db_text(db) + "#" + q.text());
	compare(c, got, canons(want), q.text() + " on " + db_text(db));
	c.trace("%zu results", got.size());
	standin_reset();
}

static void structural(vf::Ctx &c) {
	const DB &u = universe();
	DB db; size_t from = 0; int left = c.T(3, 5);
	while (left-- > 0) {		// next record, or stop
		size_t k = c.choose((int)(u.size() - from) + 1);
		if (k == 0) break;
		db.push_back(u[from + k - 1]);
		from += k;
	}
	c.mine();
	static const std::vector<Bs> names = {{"a"}, {"b", "a"}, {"c", "b", "a"}, {"a", "b"}, {"aa"}, {"aa", "a"}, {}, {"b"}, {"A"}, {"B", "a"}};
	Q q;
	q.labels = c.pick(names);
	int w = c.choose(5);
	if (w == 1) q.left = '*'; if (w == 2) q.left = '+'; if (w == 3) q.right = '*'; if (w == 4) q.right = '+';
	static const std::vector<int> types = {-1, A, NS, 258, AAAA};
	q.rrtype = c.pick(types);
	static const std::vector<const char *> bails = {"", "a", "A", "b.a"};
	int b = c.choose(5);
	if (b) { q.has_bail = true; q.bail = nm(bails[b - 1]); }
	if (w >= 3) add_index(db, c.choose(4)); else add_index(db, 0);
	if (q.labels == Bs{"A"} || q.labels == Bs{"B", "a"} || b == 3) q.case_sensitive = c.flip();
	one(c, db, q);
}

static void boundary(vf::Ctx &c) {
	const DB &u = odd();
	int i = c.choose((int)u.size()), j = c.choose((int)u.size() + 1);
	c.mine();
	DB db = {u[i]};
	if (j && j - 1 > i) db.push_back(u[j - 1]); else if (j) throw vf::Cut();
	standin_knobs.null_iters = c.flip();
	// a query made from a record: its name, with labels cut off and a wildcard in their place
	const Ent &e = db[c.choose((int)db.size())];
	Bs lab = labels(e.owner);
	Q q; q.labels = lab;
	std::vector<int> cuts = {0, 1, 2}; if (lab.size() > 3) cuts.push_back((int)lab.size() - 1);
	int w = c.choose(5);
	if (w) {
		size_t cut = c.pick(cuts);
		if (cut > lab.size()) throw vf::Cut();
		if (w <= 2) { q.labels.erase(q.labels.begin(), q.labels.begin() + cut); q.left = w == 1 ? '*' : '+'; }
		else { q.labels.resize(lab.size() - cut); q.right = w == 3 ? '*' : '+'; }
		if (wire(q.labels).size() > 253) throw vf::Cut();	// no room for the wildcard label
		// a name which itself ends or starts with a lone wildcard label is not a plain name
	}
	if (!q.labels.empty() && ((q.labels[0] == "*" && !q.left) || (q.labels.back() == "*" && !q.right) || (q.left && q.labels.back() == "*") || (q.right && q.labels[0] == "*"))) throw vf::Cut();
	switch (c.choose(4)) { case 1: q.rrtype = e.type; break; case 2: q.rrtype = e.type ^ 128; break; case 3: q.rrtype = e.type ^ 16384; break; }
	if (q.rrtype == 0 || q.rrtype == 255) throw vf::Cut();
	switch (c.choose(3)) { case 1: q.has_bail = true; q.bail = e.bail; break; case 2: q.has_bail = true; q.bail = nm("a"); break; }
	q.case_sensitive = c.flip();
	add_index(db, w >= 3 ? c.choose(3) : 1);
	one(c, db, q);
	standin_knobs.null_iters = 0;
}

// keys which are no records, their last label ending before, at or beyond the end of the key
static void malformed(vf::Ctx &c) {
	static const std::vector<int> lens = {1, 2, 3, 4, 5, 63, 64, 65, 127, 128, 130, 191, 192, 250, 251, 252, 253, 254, 255};
	DB db = {mk_rrset(nm("a"), A, nm(""), {"r"}), mk_rrset(nm("mm.a"), A, nm(""), {"r"}), mk_rrset(nm("mmm.a"), A, nm(""), {"r"}), mk_rrset(wire({B(63, 'z'), "a"}), 200, nm(""), {}), mk_rrset(nm("x.y.a"), A, nm(""), {"r"}), mk_rrset(nm("b"), A, nm(""), {"r"})};
	for (auto n : {"a.mm", "a.mmm", "a.mmm.mmm"}) db.push_back(mk_rrset(nm(n), A, nm(""), {"r"}));
	static const std::vector<const char *> names = {"+.a", "*.a", "a.+", "+.", "*.", "a"};
	Q q = q_name(DNSTABLE_QUERY_TYPE_RRSET, c.pick(names));
	int len = c.pick(lens), fill = c.choose(5);
	c.mine();
	if (c.flip()) q.rrtype = A;
	if (c.flip()) { q.has_bail = true; q.bail = nm(""); }
	add_index(db, 1);
	sort_db(db);
	std::map<B, B> kv; for (auto &e : db) kv[e.key()] = e.val();
	for (int i = 0, n = 1 + c.choose(2); i < n; i++) {
		B bad = u8(q.right ? 1 : 0) + "\1a" + u8(i ? c.pick(lens) : len) + B(fill, 'm');
		if (i && c.flip()) bad += B(61, 'm');
		kv[bad] = q.right ? B() : triplet(1, 2, 3);
		c.trace("bad key %s", hex(bad).c_str());
	}
	kv[u8(0)] = triplet(1, 2, 3);
	install_kv("mem:db", kv);
	Reader r("mem:db");
	strs want = canons(answer(db, q)), got = run_query(c, r.r, q);
	c.state(fmt("m%d %d ", len, fill) + q.text());
	compare(c, got, want, q.text() + " with malformed keys");
	standin_reset();
}
static void in_bulk(vf::Ctx &c) {
	const int RR = DNSTABLE_QUERY_TYPE_RRSET;
	static const std::vector<Q> qs = [&] {
		std::vector<Q> v;
		for (auto n : {"h1.z1.a", "*.z1.a", "+.a", "h699.*", "h69.+", "+.", "*.", "t.a", "t.*", "*.a", "m.a", "l65535.a", "l128.a", "*.q.q", "+.q.q.q", "q.*", "q.q.+", "r.*", "nothing.a", "+.z9.a"})
			for (int t : {-1, (int)A, 258, 300, 301}) v.push_back(q_name(RR, n, t));
		for (auto b : {"", "a", "z1.a", "b699", "b69", "q"}) for (auto n : {"t.a", "+.a", "t.*", "q.q.q", "*.z1.a"}) for (int t : {-1, (int)A}) { Q q = q_name(RR, n, t); q.has_bail = true; q.bail = nm(b); v.push_back(q); }
		for (auto l : {Bs{B(63, 'm'), B(63, 'm'), B(63, 'm'), B(58, 'm') + "077"}, Bs{"078" + B(58, 'm'), B(63, 'm'), B(63, 'm'), B(63, 'm')}}) {
			Q q; q.qtype = RR; q.labels = l; v.push_back(q); q.rrtype = A; v.push_back(q); q.has_bail = true; q.bail = wire(l); v.push_back(q); q.has_bail = false; q.rrtype = -1;
			Q s = q; s.left = '+'; s.labels.erase(s.labels.begin()); v.push_back(s); s.left = '*'; v.push_back(s);
			s = q; s.right = '+'; s.labels.pop_back(); v.push_back(s); s.labels.pop_back(); v.push_back(s);
		}
		for (int k : {126, 127}) { Q q; q.qtype = RR; q.labels = Bs(k, "q"); v.push_back(q); if (k < 127) { q.left = '+'; v.push_back(q); q.left = 0; q.right = '*'; v.push_back(q); } }
		return v;
	}();
	bulk_case(c, qs);
}
static void body(vf::Ctx &c) { standin_knobs.null_iters = 0; int f = c.choose(4); if (f == 3) return in_bulk(c); if (f == 2) malformed(c); else if (f) boundary(c); else structural(c); }
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
