// R02: join, filter and remove streams behave as ordered-set operations under every next/seek history.
#include "dns.hpp"
#include <list>
extern "C" {	// dnstable-private.h is C only
typedef mtbl_res (*filter_mtbl_func)(void *, struct mtbl_iter *, const uint8_t *, size_t, const uint8_t *, size_t, bool *);
struct ljoin_mtbl *ljoin_mtbl_init(const struct mtbl_source *, const struct mtbl_source *, mtbl_merge_func, void *);
const struct mtbl_source *ljoin_mtbl_source(const struct ljoin_mtbl *);
void ljoin_mtbl_destroy(struct ljoin_mtbl **);
struct filter_mtbl *filter_mtbl_init(const struct mtbl_source *, filter_mtbl_func, void *);
const struct mtbl_source *filter_mtbl_source(const struct filter_mtbl *);
void filter_mtbl_destroy(struct filter_mtbl **);
struct remove_mtbl *remove_mtbl_init(void);
void remove_mtbl_add_source(struct remove_mtbl *, const struct mtbl_source *);
void remove_mtbl_set_upstream(struct remove_mtbl *, const struct mtbl_source *);
const struct mtbl_source *remove_mtbl_source(const struct remove_mtbl *);
void remove_mtbl_destroy(struct remove_mtbl **);
}
using namespace dns;
typedef std::map<B, B> M;
static const Bs KEYS = {"a", "ab", "b", "ba"};
static const Bs SEEKS = {"a", "aa", "ab", "b", "c", "ba"};
struct Mode { const char *name; int kind; B k1, k2; };
static const Mode MODES[] = {{"all", 0, "", ""}, {"prefix a", 1, "a", ""}, {"range ab..b", 2, "ab", "b"}, {"get ab", 3, "ab", ""}, {"range a..a", 2, "a", "a"}, {"prefix b", 1, "b", ""}, {"range a..ba", 2, "a", "ba"}};
static bool inside(const Mode &m, const B &k) { return m.kind == 0 ? true : m.kind == 1 ? k.compare(0, m.k1.size(), m.k1) == 0 : m.kind == 2 ? k >= m.k1 && k <= m.k2 : k == m.k1; }
static struct mtbl_iter *open_(const struct mtbl_source *s, const Mode &m) {
	const uint8_t *a = (const uint8_t *)m.k1.data(), *b = (const uint8_t *)m.k2.data();
	switch (m.kind) { case 0: return mtbl_source_iter(s); case 1: return mtbl_source_get_prefix(s, a, m.k1.size()); case 2: return mtbl_source_get_range(s, a, m.k1.size(), b, m.k2.size()); default: return mtbl_source_get(s, a, m.k1.size()); }
}
static void cat(void *, const uint8_t *, size_t, const uint8_t *a, size_t la, const uint8_t *b, size_t lb, uint8_t **m, size_t *lm) {
	*m = (uint8_t *)malloc(la + lb + 1); memcpy(*m, a, la); (*m)[la] = '+'; memcpy(*m + la + 1, b, lb); *lm = la + lb + 1;
}
struct Filt { std::set<B> accept; int how; B stop; };
static mtbl_res filt(void *u, struct mtbl_iter *seek, const uint8_t *key, size_t lk, const uint8_t *, size_t, bool *match) {
	Filt *f = (Filt *)u; B k((const char *)key, lk);
	if (!f->stop.empty() && k >= f->stop) return mtbl_res_failure;
	*match = f->accept.count(k);
	if (!*match && f->how) {
		auto it = f->accept.upper_bound(k);
		B to = it == f->accept.end() ? B("\xff") : *it;
		if (mtbl_iter_seek(seek, (const uint8_t *)to.data(), to.size()) != mtbl_res_success) return mtbl_res_failure;
	}
	return mtbl_res_success;
}
struct Tab { struct mtbl_reader *r; Tab(const char *n, const M &m) { install_kv(n, m); r = mtbl_reader_init(n, NULL); } ~Tab() { mtbl_reader_destroy(&r); } const struct mtbl_source *src() { return mtbl_reader_source(r); } };
static M table(vf::Ctx &c, int n, const char *tag) { M m; int bits = c.choose(1 << n); for (int i = 0; i < n; i++) if (bits >> i & 1) m[KEYS[i]] = str(tag) + (i & 1 ? "" : "-value-of-") + KEYS[i]; return m; }
static str show(const M &m) { str s = "{"; for (auto &x : m) s += x.first + " "; return s + "}"; }

static void drive(vf::Ctx &c, const struct mtbl_source *s, const M &want, const Mode &m, int depth, const str &what, const B &stop = "") {
	// two iterators of the same source: the second is moved only now and then, and must not disturb the first
	struct mtbl_iter *it = open_(s, m);
	M w; for (auto &x : want) if (inside(m, x.first) && (stop.empty() || x.first < stop)) w.insert(x);
	auto pos = w.begin(); bool stopped = false;
	std::vector<B> seeks; for (auto &k : SEEKS) if (inside(m, k)) seeks.push_back(k);
	str hist;
	int n = 0;
	for (;; n++) {
		int op = n < depth ? c.choose((int)seeks.size() + 2) : 0;	// then to the end
		if (op == (int)seeks.size() + 1) break;				// abandoned here
		if (op == 0) {
			const uint8_t *k, *v; size_t lk, lv;
			mtbl_res r = mtbl_iter_next(it, &k, &lk, &v, &lv);
			c.step(); hist += " next";
			str got = r == mtbl_res_success ? str((const char *)k, lk) + "=" + str((const char *)v, lv) : str("end");
			if (r == mtbl_res_success) { vf::hex(k, lk); vf::hex(v, lv); }
			str exp = pos == w.end() ? str("end") : pos->first + "=" + pos->second;
			if (got != exp) { mtbl_iter_destroy(&it); c.fail("stream", what + " (" + m.name + "):" + hist + " gives " + got + " instead of " + exp); }
			if (pos == w.end()) { if (n >= depth) break; }
			else ++pos;
		} else {
			const B &k = seeks[op - 1]; hist += " seek(" + k + ")";
			(void)!mtbl_iter_seek(it, (const uint8_t *)k.data(), k.size());
			pos = w.lower_bound(k); c.step();
		}
	}
	c.trace("%s (%s):%s", what.c_str(), m.name, hist.c_str());
	(void)stopped;
	mtbl_iter_destroy(&it);
}
// long keys and values, many keys, and many removal sources
static void large(vf::Ctx &c) {
	int kind = c.choose(3), len = c.pick(std::vector<int>{1, 8, 255, 256, 300, 1023, 1024, 1025, 4096, 65535, 65536, 70000}), vlen = c.pick(std::vector<int>{0, 1, 255, 256, 65536}), nsrc = c.pick(std::vector<int>{1, 2, 3, 8, 17, 33}); c.mine();
	int nk = len > 5000 ? 12 : c.pick(std::vector<int>{12, 100, 1000});
	if ((kind != 2 && nsrc > 1) || (vlen > 256 && nk > 12) || (nk > 100 && len > 300)) throw vf::Cut();
	standin_knobs.null_iters = c.choose(2);
	// keys which differ in their last bytes, and keys which are prefixes of others
	Bs keys; for (int i = 0; i < nk; i++) { B k(len, 'k'); if (i % 3 == 2) k += "x"; k += u8(i >> 8) + u8(i); keys.push_back(k); if (i % 4 == 0) keys.push_back(k + u8(0)); }
	std::sort(keys.begin(), keys.end());
	M l, r; std::vector<M> rem(nsrc); std::set<B> gone; int i = 0;
	for (auto &k : keys) { if (i % 5) l[k] = B(vlen, 'l') + num(i); if (i % 3) r[k] = B(vlen, 'r') + num(i); if (i % 7 == 1) { rem[i % nsrc][k] = "x"; gone.insert(k); if (i % 2) rem[(i + 1) % nsrc][k] = "y"; } i++; }
	Tab tl("l", l), tr("r", r); M w; const struct mtbl_source *s;
	struct ljoin_mtbl *j = nullptr; struct filter_mtbl *x = nullptr; struct remove_mtbl *y = nullptr; std::list<Tab> tabs; Filt f;
	if (kind == 0) { j = ljoin_mtbl_init(tl.src(), tr.src(), cat, NULL); s = ljoin_mtbl_source(j); for (auto &e : l) w[e.first] = r.count(e.first) ? e.second + "+" + r[e.first] : e.second; }
	else if (kind == 1) { f.how = c.choose(2); i = 0; for (auto &k : keys) if (i++ % 3 == 0) f.accept.insert(k); x = filter_mtbl_init(tl.src(), filt, &f); s = filter_mtbl_source(x); for (auto &e : l) if (f.accept.count(e.first)) w.insert(e); }
	else { y = remove_mtbl_init(); remove_mtbl_set_upstream(y, tl.src()); for (int k = 0; k < nsrc; k++) { tabs.emplace_back(fmt("rem%d", k).c_str(), rem[k]); remove_mtbl_add_source(y, tabs.back().src()); } s = remove_mtbl_source(y); for (auto &e : l) if (!gone.count(e.first)) w.insert(e); }
	struct D { struct ljoin_mtbl **j; struct remove_mtbl **y; struct filter_mtbl **x; ~D() { ljoin_mtbl_destroy(j); remove_mtbl_destroy(y); filter_mtbl_destroy(x); } } d{&j, &y, &x};
	str what = fmt("%s over %zu keys of %d bytes, values of %d, %d sources", kind == 0 ? "join" : kind == 1 ? "filter" : "removal", keys.size(), len, vlen, nsrc); c.state(what); c.trace("%s", what.c_str());
	auto next = [&](struct mtbl_iter *it, M::iterator &p, M::iterator end) {
		const uint8_t *k, *v; size_t lk, lv; mtbl_res rs = mtbl_iter_next(it, &k, &lk, &v, &lv); c.step();
		if ((rs == mtbl_res_success) != (p != end)) c.fail("stream", what + (p == end ? ": more than expected" : ": ends early"));
		if (p == end) return false;
		if (B((char *)k, lk) != p->first) c.fail("stream", what + ": a wrong key"); if (B((char *)v, lv) != p->second) c.fail("stream", what + ": a wrong value");
		++p; return true;
	};
	struct It { struct mtbl_iter *i; ~It() { mtbl_iter_destroy(&i); } };
	{ It it{mtbl_source_iter(s)}; auto p = w.begin(); while (next(it.i, p, w.end())); next(it.i, p, w.end()); }
	// seek to every key in turn, and back
	It it{mtbl_source_iter(s)}; int step = std::max<int>(1, keys.size() / 40);
	for (int back = 0; back < 2; back++) for (size_t k = 0; k < keys.size(); k += step) { const B &to = keys[back ? keys.size() - 1 - k : k]; (void)!mtbl_iter_seek(it.i, (const uint8_t *)to.data(), to.size()); auto p = w.lower_bound(to); next(it.i, p, w.end()); if (p != w.end() && k % 3 == 0) next(it.i, p, w.end()); }
	// every exact key and its prefix
	for (size_t k = 0; k < keys.size(); k += step) {
		{ It g{mtbl_source_get(s, (const uint8_t *)keys[k].data(), keys[k].size())}; M one; auto f = w.find(keys[k]); if (f != w.end()) one.insert(*f); auto p = one.begin(); if (g.i) while (next(g.i, p, one.end())); else if (!one.empty()) c.fail("stream", what + ": no iterator"); }
		{ It g{mtbl_source_get_prefix(s, (const uint8_t *)keys[k].data(), keys[k].size())}; M some; for (auto f = w.lower_bound(keys[k]); f != w.end() && f->first.compare(0, keys[k].size(), keys[k]) == 0; ++f) some.insert(*f); auto p = some.begin(); if (g.i) while (next(g.i, p, some.end())); else if (!some.empty()) c.fail("stream", what + ": no iterator"); }
	}
}
static void body(vf::Ctx &c) {
	int n = 4;
	int what = c.choose(5);
	if (what == 4) { large(c); return; }
	const Mode &m = MODES[c.choose(7)];
	standin_knobs.null_iters = 0;
	if (what == 0) {
		M l = table(c, n, "l"), r = table(c, n, "r"); c.mine(); standin_knobs.null_iters = c.choose(2);
		Tab tl("l", l), tr("r", r);
		struct ljoin_mtbl *j = ljoin_mtbl_init(tl.src(), tr.src(), cat, NULL);
		M w; for (auto &x : l) w[x.first] = r.count(x.first) ? x.second + "+" + r[x.first] : x.second;
		c.state(m.name + show(l) + show(r));
		struct D { struct ljoin_mtbl **j; ~D() { ljoin_mtbl_destroy(j); } } d{&j};
		drive(c, ljoin_mtbl_source(j), w, m, c.T(4, 6), "join of " + show(l) + " and " + show(r));
	} else if (what == 1) {
		M u = table(c, n, "u"); int acc = c.choose(1 << n); int how = c.choose(2); int stop = c.choose(n + 1); c.mine();
		Filt f; f.how = how; for (int i = 0; i < n; i++) if (acc >> i & 1) f.accept.insert(KEYS[i]);
		if (stop) f.stop = KEYS[stop - 1];
		Tab tu("u", u); struct filter_mtbl *x = filter_mtbl_init(tu.src(), filt, &f);
		M w; for (auto &e : u) if (f.accept.count(e.first)) w.insert(e);
		c.state(m.name + show(u) + fmt("%d%d%d", acc, how, stop));
		struct D { struct filter_mtbl **j; ~D() { filter_mtbl_destroy(j); } } d{&x};
		// a rejecting filter seeks within the iteration only; with a bound, the end need not be permanent
		if (stop && how) throw vf::Cut();
		if (stop) { // after the filter ends the iteration, only a new seek gives meaning to next
			struct mtbl_iter *it = open_(filter_mtbl_source(x), m); strs got, exp; const uint8_t *k, *v; size_t lk, lv;
			for (auto &e : w) if (inside(m, e.first) && e.first < f.stop) exp.push_back(e.first);
			while (mtbl_iter_next(it, &k, &lk, &v, &lv) == mtbl_res_success) got.push_back(str((const char *)k, lk));
			mtbl_iter_destroy(&it); compare(c, got, exp, "filter which stops at " + f.stop + " over " + show(u));
			return;
		}
		drive(c, filter_mtbl_source(x), w, m, c.T(4, 5), "filter of " + show(u) + fmt(" accepting %d", acc) + (how ? " with seeks" : ""));
	} else if (what == 2) {
		M u = table(c, n, "u"), a = table(c, n, "a"); c.mine(); M b = table(c, c.T(3, 3), "b"); standin_knobs.null_iters = c.choose(2); int third = c.choose(2);
		if (third && b.size() > 1) throw vf::Cut();
		Tab tu("u", u), ta("a", a), tb("b", b);
		struct remove_mtbl *x = remove_mtbl_init(); remove_mtbl_set_upstream(x, tu.src()); remove_mtbl_add_source(x, ta.src());
		if (third) remove_mtbl_add_source(x, tb.src());	// the same source may be listed twice
		remove_mtbl_add_source(x, tb.src());
		M w; for (auto &e : u) if (!a.count(e.first) && !b.count(e.first)) w.insert(e);
		c.state(m.name + show(u) + show(a) + show(b));
		struct D { struct remove_mtbl **j; ~D() { remove_mtbl_destroy(j); } } d{&x};
		drive(c, remove_mtbl_source(x), w, m, third ? 2 : c.T(3, 4), "removal of " + show(a) + " and " + show(b) + " from " + show(u));
	} else {	// all three stacked, as an aggregated time-fenced lookup stacks them
		M u = table(c, 3, "u"), a = table(c, 3, "a"), r = table(c, 3, "r"); c.mine(); int acc = c.choose(8);
		Filt f; f.how = 0; for (int i = 0; i < 3; i++) if (acc >> i & 1) f.accept.insert(KEYS[i]);
		Tab tu("u", u), ta("a", a), tr("r", r);
		struct filter_mtbl *x = filter_mtbl_init(tu.src(), filt, &f);
		struct remove_mtbl *y = remove_mtbl_init(); remove_mtbl_set_upstream(y, filter_mtbl_source(x)); remove_mtbl_add_source(y, ta.src());
		struct ljoin_mtbl *j = ljoin_mtbl_init(remove_mtbl_source(y), tr.src(), cat, NULL);
		M w; for (auto &e : u) if (f.accept.count(e.first) && !a.count(e.first)) w[e.first] = r.count(e.first) ? e.second + "+" + r[e.first] : e.second;
		c.state(m.name + show(u) + show(a) + show(r) + num(acc));
		struct D { struct ljoin_mtbl **j; struct remove_mtbl **y; struct filter_mtbl **x; ~D() { ljoin_mtbl_destroy(j); remove_mtbl_destroy(y); filter_mtbl_destroy(x); } } d{&j, &y, &x};
		drive(c, ljoin_mtbl_source(j), w, m, c.T(2, 3), "stack over " + show(u));
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
