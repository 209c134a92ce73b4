// Q14: metadata lookups return exactly the requested metadata entries.
#include "meta.hpp"
using namespace dns;

static const std::vector<Raw> &universe(bool deep) {
	static const std::vector<Raw> u = [deep] {
		std::vector<Raw> v;
		for (unsigned t = 0; t < 4; t++) v.push_back(raw(mk_version(t, t == 2 ? 0xffffffffu : t * 300)));
		v.push_back(raw(mk_version(255, 7)));
		v.push_back(bad("\xff", "\1")); v.push_back(bad(B("\xff\2\0", 3), "\1"));
		v.push_back(raw(mk_time_range(5, 9)));
		v.push_back(raw(mk_source(""))); v.push_back(raw(mk_source("\xff\xff")));
		v.push_back(raw(mk_name(RDATA_NAME, maxname()))); v.push_back(raw(mk_rrset(nm(""), 0, nm(""), {})));
		if (deep) { v.push_back(raw(mk_version(253, 1))); v.push_back(raw(mk_source("\0"))); v.back() = raw(mk_source("a"));
			v.push_back(raw(mk_rdata("", 65535, nm("")))); v.push_back(foreign("\xfc\xff", "\1")); v.push_back(bad(B("\xff\1", 2), "")); v.back().canon = ""; }
		return v;
	}();
	return u;
}
static const std::vector<Q> &queries() {
	static const std::vector<Q> q = { q_meta(DNSTABLE_QUERY_TYPE_TIME_RANGE), q_meta(DNSTABLE_QUERY_TYPE_SOURCE_INFO), q_meta(DNSTABLE_QUERY_TYPE_VERSION),
		q_meta(DNSTABLE_QUERY_TYPE_VERSION, 0), q_meta(DNSTABLE_QUERY_TYPE_VERSION, 1), q_meta(DNSTABLE_QUERY_TYPE_VERSION, 2), q_meta(DNSTABLE_QUERY_TYPE_VERSION, 3) };
	return q;
}
static bool wanted(const Raw &x, const Q &q) {
	if (x.canon.empty()) return false;
	switch (q.qtype) {
	case DNSTABLE_QUERY_TYPE_TIME_RANGE: return x.kind == TIME_RANGE;
	case DNSTABLE_QUERY_TYPE_SOURCE_INFO: return x.kind == SOURCE;
	default: return x.kind == VERSION && (q.vtype < 0 || (uint8_t)x.key[1] == (unsigned)q.vtype);
	}
}
static void subsets(vf::Ctx &c) {
	auto &u = universe(c.thorough());
	std::map<B, Raw> m; str t;
	for (size_t i = 0; i < u.size(); i++) {
		if (i == 6) c.mine();
		if (!c.flip()) continue;
		if (m.count(u[i].key)) throw vf::Cut();
		m[u[i].key] = u[i]; t += fmt("%zu ", i);
	}
	std::map<B, B> kv; for (auto &x : m) kv[x.first] = x.second.val;
	install_kv("t", kv);
	c.trace("subset %s", t.c_str());
	Reader r("t");
	for (auto &q : queries()) {
		strs want; for (auto &x : m) if (wanted(x.second, q)) want.push_back(x.second.canon);
		c.state(q.text() + fmt("%d|", q.vtype) + join(want));
		compare(c, run_query(c, r.r, q), want, "{" + t + "} " + q.text() + fmt(" version of %d", q.vtype));
	}
}
static void filesets(vf::Ctx &c) {
	static const std::vector<Ent> e = { mk_version(0, 2), mk_version(1, 300), mk_version(3, 9), mk_time_range(10, 20), mk_source("s"), mk_source("t"), mk_rdata("x", A, nm("a")) };
	static const std::vector<Ent> alt = { mk_version(0, 1), mk_version(1, 300), mk_version(3, 128), mk_time_range(15, 300), mk_source("s"), mk_source("t"), mk_rdata("x", A, nm("a")) };
	DB f[2]; str t;
	for (size_t i = 0; i < e.size(); i++) { if (i == 4) c.mine(); int k = c.choose(4); if (k & 1) f[0].push_back(e[i]); if (k & 2) f[1].push_back(alt[i]); t += fmt("%d", k); }
	int agg = c.choose(2);
	install("f0", f[0]); install("f1", f[1]); standin_setfile("set", "f0\nf1\n");
	struct dnstable_reader *r = dnstable_reader_init_setfile("set");
	c.trace("deal %s aggregated %d", t.c_str(), agg);
	for (auto q : queries()) {
		strs want;
		if (agg) want = canons(answer(merge_dbs({f[0], f[1]}), q));
		else {
			std::vector<std::pair<std::pair<B, B>, str>> all;
			for (auto &d : f) for (auto *x : answer(d, q)) all.push_back({{x->key(), x->val()}, x->canon()});
			std::stable_sort(all.begin(), all.end());
			for (auto &x : all) want.push_back(x.second);
		}
		q.aggregated = agg;
		c.state(q.text() + fmt("%d|", q.vtype) + join(want));
		strs got = run_query(c, r, q);
		if (!agg) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }	// the order of equal metadata of several files is not specified
		compare(c, got, want, "deal " + t + " " + q.text() + fmt(" version of %d", q.vtype));
	}
	dnstable_reader_destroy(&r);
}
static void body(vf::Ctx &c) { if (c.choose(2)) filesets(c); else subsets(c); }
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
