// Lookups over sets of files (Q06 aggregated, Q07 unaggregated).
#include "zoo.hpp"
using namespace dns;

#ifndef AGG
#error
#endif

static str fname(int i) { return fmt("f%d", i); }

// the answer over the files
static strs expected(const std::vector<DB> &files, const Q &q) {
#if AGG
	return canons(answer(merge_dbs(files), q), q.offset);
#else
	// every file's own answer, in key order, equal records ordered by their values
	std::vector<std::pair<std::pair<B, B>, const Ent *>> v;
	bool by_owner = q.qtype == DNSTABLE_QUERY_TYPE_RRSET && q.right && !q.labels.empty();
	bool by_target = q.qtype == DNSTABLE_QUERY_TYPE_RDATA_NAME && q.left && !q.labels.empty();
	for (auto &f : files) for (auto *e : answer(f, q))
		v.push_back({{by_owner ? e->owner : by_target ? rev(target(*e)) : B(), e->key()}, e});
	std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) {
		if (a.first != b.first) return a.first < b.first;
		return std::make_tuple(a.second->first, a.second->last, a.second->count) < std::make_tuple(b.second->first, b.second->last, b.second->count);
	});
	strs r; for (size_t i = q.offset; i < v.size(); i++) r.push_back(v[i].second->canon());
	return r;
#endif
}
// equal records with equal times may come in either order
static strs normal(strs v) {
#if !AGG
	auto head = [](const str &s) { return s.substr(0, s.rfind(" c=")); };
	for (size_t i = 0; i < v.size();) {
		size_t j = i + 1; while (j < v.size() && head(v[j]) == head(v[i])) j++;
		std::sort(v.begin() + i, v.begin() + j, [](const str &a, const str &b) { return a.size() != b.size() ? a.size() < b.size() : a < b; });
		i = j;
	}
#endif
	return v;
}
static void query(vf::Ctx &c, struct dnstable_reader *r, const std::vector<DB> &files, Q q, const str &what) {
	if (AGG) q.aggregated = (vf::hash_str(q.text()) & 1) ? 1 : -1;	// the default is aggregated
	 else q.aggregated = 0;
	strs got = run_query(c, r, q);
	q.aggregated = AGG;
	compare(c, normal(got), expected(files, q), what + "; " + q.text());
	c.trace("%s: %zu results", q.text().c_str(), got.size());
}
static void add_time_range(DB &d, int mode) {	// 0 exact, 1 wider, 2 absent
	u64 f = ~0ULL, l = 0;
	for (auto &e : d) if (e.kind == RRSET || e.kind == RDATA) { f = std::min(f, e.first); l = std::max(l, e.last); }
	if (mode == 2) return;
	if (f > l) { if (mode == 0) return; f = l = 0; }	// an empty file has no range
	if (mode == 1) { f = f ? f - 1 : 0; l = l + 1; }
	d.push_back(mk_time_range(f, l));
}
static void fences(vf::Ctx &c, Q &q, int max, int at_most) {
	int v[4], n = 0;
	for (int i = 0; i < 4; i++) { v[i] = c.choose(max + 1); n += v[i] != 0; }
	if (n > at_most) throw vf::Cut();
	if (v[0]) { q.fb = true; q.vfb = v[0]; }
	if (v[1]) { q.fa = true; q.vfa = v[1]; }
	if (v[2]) { q.lb = true; q.vlb = v[2]; }
	if (v[3]) { q.la = true; q.vla = v[3]; }
}
static void open_and_query(vf::Ctx &c, std::vector<DB> &files, const Q &q) {
	str set, what;
	for (size_t i = 0; i < files.size(); i++) { sort_db(files[i]); install(fname(i).c_str(), files[i]); set += fname(i) + "\n"; what += "file: " + db_text(files[i]); }
	standin_setfile("set", set.c_str());
	struct dnstable_reader *r = dnstable_reader_init_setfile("set");
	c.trace("%s", what.c_str());
	c.state(what + q.text());
	query(c, r, files, q, what);
	dnstable_reader_destroy(&r);
	standin_reset();
}
static const std::vector<std::pair<int, int>> &times() { static std::vector<std::pair<int, int>> t = {{1, 1}, {1, 2}, {1, 3}, {2, 2}, {2, 3}, {3, 3}}; return t; }

// the same record in up to n files, at every combination of times, under every combination of fences
static void one_key(vf::Ctx &c) {
	int nf = 3;
	std::vector<DB> files(nf);
	for (int i = 0; i < nf; i++) {
		int k = c.choose((int)times().size() + 1);
		if (k) files[i].push_back(mk_rrset(nm("b.a"), A, nm("a"), {ip4(1, 1, 1, 1)}, times()[k - 1].first, times()[k - 1].second, 1 << i));
	}
	c.mine();
	Q q = q_name(DNSTABLE_QUERY_TYPE_RRSET, "b.a");
	fences(c, q, 3, c.T(3, 4));
	int mode = c.choose(3);
	if (mode == 0 && c.flip()) {		// the same around the middle of the range of times
		const u64 up = 0x7ffffffffffffffeULL;
		for (auto &f : files) for (auto &e : f) { e.first += up; e.last += up; }
		for (u64 *v : {&q.vfb, &q.vfa, &q.vlb, &q.vla}) *v += up;
	}
	for (auto &f : files) add_time_range(f, mode);
	standin_knobs.lazy_filter = mode == 0 && c.thorough() ? c.flip() : 0;
	standin_knobs.merge_reverse = c.thorough() ? c.flip() : mode == 1;
	open_and_query(c, files, q);
}
// two records in two files, through every way of finding them
static void two_keys(vf::Ctx &c) {
	const int RR = DNSTABLE_QUERY_TYPE_RRSET, RN = DNSTABLE_QUERY_TYPE_RDATA_NAME;
	static std::vector<Q> kinds = { q_name(RR, "a.*"), q_name(RR, "*.a", A), q_name(RN, "*.n"), q_name(RN, "x.n"), q_ip(ip4(1, 1, 1, 0), ip4(1, 1, 1, 255), "1.1.1.0/24"), q_raw(nm("x.n")), q_name(RR, "a.+", A), q_name(RN, "+.n", NS) };
	std::vector<DB> files(2);
	int kind = c.choose((int)kinds.size());
	for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) {
		int t = c.choose((int)times().size() + 1);
		if (!t) continue;
		if (!c.thorough() && kind && t == 2) throw vf::Cut();
		auto p = times()[t - 1];
		u64 n = 1 << (2 * i + k);
		switch (kind) {
		case 0: case 1: case 6: files[i].push_back(mk_rrset(k ? nm("a.c") : nm("a.a"), A, nm(""), {ip4(1, 1, 1, 1)}, p.first, p.second, n));
			if (kind == 1 && k) { files[i].pop_back(); files[i].push_back(mk_rrset(nm("b.a"), A, nm(""), {ip4(1, 1, 1, 1)}, p.first, p.second, n)); } break;
		case 4: files[i].push_back(mk_rdata(ip4(1, 1, 1, k), A, nm("o"), p.first, p.second, n)); break;
		default: files[i].push_back(mk_rdata(k && (kind == 2 || kind == 7) ? nm("y.n") : nm("x.n"), NS, k ? nm("o") : nm("p"), p.first, p.second, n)); break;
		}
	}
	c.mine();
	Q q = kinds[kind];
	fences(c, q, 3, c.T(1, 2));
	int mode = c.thorough() ? c.choose(3) : kind % 3;
	for (auto &f : files) { add_indexes(f, 1); add_time_range(f, mode); }
	standin_knobs.lazy_filter = c.thorough() ? c.flip() : kind & 1;
	standin_knobs.merge_reverse = 0;
	open_and_query(c, files, q);
}
#if AGG
struct Section { const char *name; struct dnstable_iter *(*f)(struct dnstable_reader *); int kind; };
static const Section sections[] = {
	{"all", dnstable_reader_iter, -1}, {"rrset", dnstable_reader_iter_rrset, RRSET}, {"rrset_names", dnstable_reader_iter_rrset_names, RRSET_NAME},
	{"rdata", dnstable_reader_iter_rdata, RDATA}, {"rdata_names", dnstable_reader_iter_rdata_names, RDATA_NAME},
	{"time_range", dnstable_reader_iter_time_range, TIME_RANGE}, {"version", dnstable_reader_iter_version, VERSION}, {"source_info", dnstable_reader_iter_source_info, SOURCE},
};
#endif
// the zoo dealt out over three files in every "shape", all lookups and listings, with set file edits and reloads
static void dealt(vf::Ctx &c) {
	std::vector<DB> files(3);
	int shape = c.choose(7);
	DB z = zoo(0, true);
	int i = 0;
	for (auto &e : z) {
		if (e.kind == RRSET_NAME || e.kind == RDATA_NAME) continue;
		int m = 1 + (i * (shape + 1) + shape) % 7;
		for (int f = 0; f < 3; f++) if (m & 1 << f) {
			Ent x = e; x.first = 1000 + 7 * ((i + f * shape) % 5); x.last = x.first + 100 * f; x.count = 1 + f + i;
			if (x.kind == VERSION) x.version = 1 + (i + f) % 3;
			if (x.kind == TIME_RANGE) { x.first = 1000; x.last = 3000 + f; }
			files[f].push_back(x);
		}
		i++;
	}
	for (int f = 0; f < 3; f++) { add_indexes(files[f], shape % 3); sort_db(files[f]); }
	// set file contents over time
	static const std::vector<std::vector<int>> sets = {{0, 1, 2}, {2, 1, 0}, {1}, {}, {0, 2}, {2, 0, 1}, {1, 2}};
	int steps = c.T(2, 3);
	standin_knobs.lazy_filter = c.flip(); standin_knobs.merge_reverse = 0;
	std::vector<int> hist;
	for (int s = 0; s < steps; s++) hist.push_back(c.choose((int)sets.size()));
	c.mine();
	for (int f = 0; f < 3; f++) install(fname(f).c_str(), files[f]);
	struct dnstable_reader *r = nullptr;
	for (int s = 0; s < steps; s++) {
		str set; std::vector<DB> now;
		for (int f : sets[hist[s]]) { set += fname(f) + "\n"; now.push_back(files[f]); }
		standin_setfile("set", set.c_str());
		if (s == 0) r = dnstable_reader_init_setfile("set"); else dnstable_reader_reload_setfile(r);
		c.trace("set file: %s", set.c_str());
		c.state(fmt("dealt %d %d %d", shape, s ? hist[s - 1] : -1, hist[s]));
		static const std::vector<Q> qs = zoo_queries(true);
		for (auto q : qs) {
			if (!AGG && q.qtype > DNSTABLE_QUERY_TYPE_RDATA_RAW) continue;	// metadata: values are not ordered
			query(c, r, now, q, fmt("shape %d set %s", shape, set.c_str()));
			q.has_offset = true; q.offset = 2;
			query(c, r, now, q, fmt("shape %d set %s", shape, set.c_str()));
			if (q.qtype <= DNSTABLE_QUERY_TYPE_RDATA_RAW) {
				q.offset = 0; q.has_offset = false; q.la = true; q.vla = 1110; query(c, r, now, q, fmt("shape %d set %s", shape, set.c_str()));
				q.fa = true; q.vfa = 1007; query(c, r, now, q, fmt("shape %d set %s", shape, set.c_str()));
			}
		}
#if AGG
		DB m = merge_dbs(now);
		for (auto &s : sections) {
			struct dnstable_iter *it = s.f(r);
			strs want; for (auto &e : m) if (s.kind < 0 || e.kind == s.kind) want.push_back(e.canon());
			strs got = drain(c, it);
			dnstable_iter_destroy(&it);
			compare(c, got, want, str("listing ") + s.name + " set " + set);
		}
#endif
	}
	dnstable_reader_destroy(&r);
	standin_reset();
}
// many files: each holds a share of the records, some hold none, some the same
static void many(vf::Ctx &c) {
	static const std::vector<int> counts = {4, 7, 8, 9, 16, 17, 31, 33, 64, 65, 128, 257};
	int n = c.pick(counts), deal = c.choose(4), mode = c.choose(3), reload = c.choose(3); c.mine();
	if (n > 65 && !c.thorough() && (deal + mode + reload) % 3) throw vf::Cut();
	standin_knobs.merge_reverse = c.choose(2); standin_knobs.lazy_filter = mode == 1;
	std::vector<DB> files(n);
	for (int i = 0; i < n; i++) {
		DB &f = files[i];
		u64 a = 1000 + (deal == 1 ? i : (i * 37) % 101), b = a + (deal == 2 ? 0 : (i * 11) % 50);
		if (deal == 3 && i % 3) continue;					// most are empty
		f.push_back(mk_rrset(nm("b.a"), A, nm("a"), {ip4(1, 1, 1, 1)}, a, b, 1 + i));
		f.push_back(mk_rdata(ip4(1, 1, 1, 1), A, nm("b.a"), a + 1, b + 1, 100 + i));
		if (i % 5 == 0) f.push_back(mk_rrset(nm("c.a"), NS, nm("a"), {nm("x.n")}, a, b, 1));
		f.push_back(mk_rdata(nm("x.n"), NS, nm(fmt("o%d", i % 7).c_str()), a, b, 1));
		add_indexes(f, 1); add_time_range(f, mode); sort_db(f);
	}
	auto list = [&](int upto) { str s; for (int i = 0; i < upto; i++) s += fname(i) + "\n"; return s; };
	for (int i = 0; i < n; i++) install(fname(i).c_str(), files[i]);
	int first = reload == 0 ? n : reload == 1 ? n / 2 : n;
	standin_setfile("set", list(first).c_str());
	struct dnstable_reader *r = dnstable_reader_init_setfile("set");
	if (reload) { standin_setfile("set", list(reload == 1 ? n : n - 1).c_str()); dnstable_reader_reload_setfile(r); if (reload == 2) files.resize(n - 1); }
	const int RR = DNSTABLE_QUERY_TYPE_RRSET, RN = DNSTABLE_QUERY_TYPE_RDATA_NAME;
	str what = fmt("%d files, deal %d, ranges %d, reload %d", n, deal, mode, reload); c.state(what); c.trace("%s", what.c_str());
	for (Q q : {q_name(RR, "b.a"), q_name(RR, "*.a"), q_name(RR, "b.*"), q_name(RN, "x.n"), q_name(RN, "*.n"), q_ip(ip4(1, 1, 1, 1), "", "1.1.1.1"), q_raw(nm("x.n"))})
		for (int f = 0; f < 6; f++) {
			Q k = q;
			switch (f) { case 1: k.la = true; k.vla = 1030; break; case 2: k.fb = true; k.vfb = 1010; break; case 3: k.fa = true; k.vfa = 1000 + (deal == 1 ? 0 : 20); k.lb = true; k.vlb = 1040; break; case 4: k.lb = true; k.vlb = 1200; k.fb = true; k.vfb = 1000; break; case 5: k.has_offset = true; k.offset = 3; break; }
			query(c, r, files, k, what);
		}
	dnstable_reader_destroy(&r);
	standin_reset();
}
static void body(vf::Ctx &c) {
	standin_reset();
	standin_knobs.null_iters = standin_knobs.lazy_filter = standin_knobs.merge_reverse = 0;
	switch (c.choose(4)) { case 3: many(c); break; case 0: one_key(c); break; case 1: two_keys(c); break; case 2: dealt(c); break; }
}
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
