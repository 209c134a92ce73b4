// R01: section listings yield exactly the entries of their kind.
#include "meta.hpp"
#include "bulk.hpp"
using namespace dns;

static const std::vector<Raw> &universe(bool deep) {
	static const std::vector<Raw> u = [deep] {
		std::vector<Raw> v;
		v.push_back(raw(mk_rrset(nm(""), 0, nm(""), {})));
		v.push_back(raw(mk_rrset(maxname(), 65535, maxname(), {B(300, '\xff')}, 0, ~0ULL, ~0ULL)));
		v.push_back(bad("\xff", "")); v.back() = {B("\0", 1), "\1\1\1", "", 0};
		v.push_back(raw(mk_name(RRSET_NAME, nm("")))); v.push_back(raw(mk_name(RRSET_NAME, maxname(), le16(65535))));
		v.push_back(raw(mk_rdata("", 65535, nm("")))); v.push_back(raw(mk_rdata(B(300, '\xff'), 65535, maxname(), 0, ~0ULL, 0)));
		v.push_back(raw(mk_name(RDATA_NAME, nm("")))); v.push_back(raw(mk_name(RDATA_NAME, maxname(), u8(6))));
		v.push_back(raw(mk_source(""))); v.push_back(raw(mk_source("\xff\xff\xff")));
		v.push_back(raw(mk_time_range(0, ~0ULL)));
		v.push_back(raw(mk_version(0, 0))); v.push_back(raw(mk_version(255, 0xffffffffu)));
		v.push_back(bad("\xff", "\1"));
		if (deep) {
			v.push_back(bad("\1\x40", "")); v.push_back(bad("\2", "\1\1\1")); v.push_back(bad(B("\xff\0\0", 3), "\1"));
			v.push_back(foreign("\4", "")); v.push_back(foreign("\xfc\xff", "\1"));
		}
		return v;
	}();
	return u;
}
static void list(vf::Ctx &c, struct dnstable_reader *r, const std::map<B, Raw> &m, const str &what) {
	bool unknown = false;
	for (auto &x : m) if (x.second.kind < 0) unknown = true;
	for (int k : kinds()) {
		if (k < 0 && unknown) continue;		// what an entry of an unknown kind looks like is not specified
		strs want;
		for (auto &x : m) if (!x.second.canon.empty() && (k < 0 || x.second.kind == k)) want.push_back(x.second.canon);
		struct dnstable_iter *it = listing(r, k);
		strs got = drain(c, it);
		struct dnstable_entry *e; if (dnstable_iter_next(it, &e) == dnstable_res_success) c.fail("end", "more after the end");
		dnstable_iter_destroy(&it);
		c.state(fmt("%d|", k) + join(want));
		compare(c, got, want, what + ": listing of " + kind_name(k));
	}
}
static void subsets(vf::Ctx &c) {
	auto &u = universe(c.thorough());
	std::map<B, Raw> m; str t;
	for (size_t i = 0; i < u.size(); i++) { if (i == 6) c.mine(); if (c.flip()) { m[u[i].key] = u[i]; t += fmt("%zu ", i); } }
	std::map<B, B> kv; for (auto &x : m) kv[x.first] = x.second.val;
	install_kv("t", kv);
	c.trace("subset %s", t.c_str());
	Reader r("t");
	list(c, r.r, m, "{" + t + "}");
}
// a set of files: every deal of entries over two files, before and after a reload
static void filesets(vf::Ctx &c) {
	static const std::vector<Ent> base = { mk_rrset(nm("a"), A, nm(""), {"x"}, 5, 9, 2), mk_name(RRSET_NAME, nm("a"), u8(1)), mk_rdata("x", A, nm("a"), 7, 7, 1),
		mk_name(RDATA_NAME, nm("a"), u8(2)), mk_source("s"), mk_time_range(10, 20), mk_version(0, 2) };
	static const std::vector<Ent> alt = { mk_rrset(nm("a"), A, nm(""), {"x"}, 4, 8, 3), mk_name(RRSET_NAME, nm("a"), u8(5)), mk_rdata("x", A, nm("a"), 6, 9, ~0ULL - 1),
		mk_name(RDATA_NAME, nm("a")), mk_source("s"), mk_time_range(15, 30), mk_version(0, 1) };
	DB f[2]; str t;
	for (size_t i = 0; i < base.size(); i++) { if (i == 4) c.mine(); int k = c.choose(4); if (k & 1) f[0].push_back(base[i]); if (k & 2) f[1].push_back(alt[i]); t += fmt("%d", k); }
	install("f0", f[0]); install("f1", f[1]);
	int order = c.choose(3);	// which files are listed before the reload
	standin_setfile("set", order == 0 ? "f0\n" : order == 1 ? "f1\n" : "");
	struct dnstable_reader *r = dnstable_reader_init_setfile("set");
	auto expect = [&](std::vector<DB> fs) { std::map<B, Raw> m; for (auto &e : merge_dbs(fs)) m[e.key()] = raw(e); return m; };
	c.trace("deal %s order %d", t.c_str(), order);
	list(c, r, expect(order == 2 ? std::vector<DB>{} : std::vector<DB>{f[order]}), fmt("deal %s before reload %d", t.c_str(), order));
	standin_setfile("set", "f0\nf1\n");
	dnstable_reader_reload_setfile(r);
	list(c, r, expect({f[0], f[1]}), "deal " + t + " after reload");
	dnstable_reader_destroy(&r);
}
// large databases, whole or dealt over two files
static void in_bulk(vf::Ctx &c) {
	standin_knobs.null_iters = 0;
	int shape = c.choose(BULK), mode = c.choose(2);
	c.mine();
	DB d = bulk(shape, c.T(700, 4000)), f[2];
	for (auto x : {mk_source("made by hand"), mk_time_range(1, 2), mk_version(0, 1), mk_version(200, 2)}) d.push_back(x);
	std::map<B, Raw> m; for (size_t i = 0; i < d.size(); i++) { m[d[i].key()] = raw(d[i]); f[i * 7 / 3 % 2].push_back(d[i]); }
	c.trace("large database %d, mode %d", shape, mode);
	if (!mode) { install("t", d); Reader r("t"); list(c, r.r, m, fmt("large database %d", shape)); return; }
	install("f0", f[0]); install("f1", f[1]); standin_setfile("set", "f0\nf1\n");
	struct dnstable_reader *r = dnstable_reader_init_setfile("set");
	list(c, r, m, fmt("large database %d over two files", shape));
	dnstable_reader_destroy(&r);
}
static void body(vf::Ctx &c) { int f = c.choose(3); if (f == 2) in_bulk(c); else if (f) filesets(c); else subsets(c); }
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
