// C01: lookups in different threads, each with objects of its own over one open table, get what they get alone.
#define SCHED_RUNTIME
#include "sched.hpp"
#include "merges.hpp"
#include "render.hpp"
#include <malloc.h>
#include <arpa/inet.h>
using namespace dns;

// libc functions with hidden static storage: another thread may come right after the call
static void *hidden(void *p) { sched::point(); return p; }
#define WRAP1(f, R, A) extern "C" { R __real_##f(A); R __wrap_##f(A a) { R r = __real_##f(a); hidden(nullptr); return r; } }
WRAP1(gmtime, struct tm *, const time_t *) WRAP1(localtime, struct tm *, const time_t *) WRAP1(ctime, char *, const time_t *)
WRAP1(asctime, char *, const struct tm *) WRAP1(strerror, char *, int) WRAP1(inet_ntoa, char *, struct in_addr) WRAP1(mktime, time_t, struct tm *)
WRAP1(getenv, char *, const char *)
extern "C" { char *__real_strtok(char *, const char *); char *__wrap_strtok(char *s, const char *d) { char *r = __real_strtok(s, d); hidden(nullptr); return r; } }
extern "C" { int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { sched::World *w = sched::W(); if (w) w->acquire(o); static_assert(sizeof *o == 4, ""); if (!*(int *)o) { f(); if (w && w->cur >= 0) w->touch((uint8_t *)o, 4); *(int *)o = 2; } if (w) w->release(o); return 0; }
	int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (sched::W()) sched::W()->acquire(l); return 0; }
	int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (sched::W()) sched::W()->acquire(l); return 0; }
	int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) { if (sched::W()) sched::W()->release(l); return 0; } }

// another thread may come right before these calls, whatever their arguments
extern "C" void c01_before_call() { sched::World *w = sched::W(); if (w && w->calls) w->point(); }
#define BEFORE(f) asm(".text\n.globl __wrap_" #f "\n__wrap_" #f ":\n push %rbp\n mov %rsp,%rbp\n push %rdi\n push %rsi\n push %rdx\n push %rcx\n push %r8\n push %r9\n push %rax\n push %r10\n sub $64,%rsp\n" \
	" movups %xmm0,(%rsp)\n movups %xmm1,16(%rsp)\n movups %xmm2,32(%rsp)\n movups %xmm3,48(%rsp)\n call c01_before_call\n movups (%rsp),%xmm0\n movups 16(%rsp),%xmm1\n movups 32(%rsp),%xmm2\n movups 48(%rsp),%xmm3\n add $64,%rsp\n" \
	" pop %r10\n pop %rax\n pop %r9\n pop %r8\n pop %rcx\n pop %rdx\n pop %rsi\n pop %rdi\n pop %rbp\n jmp __real_" #f "\n");
BEFORE(wdns_domain_to_str) BEFORE(wdns_reverse_name) BEFORE(wdns_rdata_to_str) BEFORE(wdns_len_uname) BEFORE(wdns_str_to_name) BEFORE(wdns_str_to_name_case) BEFORE(wdns_str_to_rrtype) BEFORE(wdns_rrtype_to_str) BEFORE(wdns_downcase_name)
BEFORE(strtok_r) BEFORE(strftime) BEFORE(gmtime_r) BEFORE(localtime_r) BEFORE(inet_pton) BEFORE(inet_ntop) BEFORE(strtol) BEFORE(strtoul) BEFORE(strtoull) BEFORE(snprintf) BEFORE(memcmp) BEFORE(strcmp) BEFORE(strcasecmp) BEFORE(strdup)
static void P() { sched::point(); }
typedef struct dnstable_reader *R;
static str take(char *s) { str r = s ? s : "(null)"; free(s); return r; }
// every result of a query, rendered by f
static str results(struct dnstable_query *q, R r, std::function<str(struct dnstable_entry *)> f) {
	str s; struct dnstable_iter *it = dnstable_reader_query(r, q); P();
	const char *err = it ? nullptr : dnstable_query_get_error(q);
	for (;;) {
		if (!it) break;
		struct dnstable_entry *e = nullptr;
		dnstable_res res = dnstable_iter_next(it, &e); P();
		if (res != dnstable_res_success) { s += res == dnstable_res_timeout ? "timeout" : "end"; break; }
		s += f(e); s += "|"; dnstable_entry_destroy(&e);
	}
	for (int st = 0; it && st < 10; st++) { u64 n; bool ex = false; if (dnstable_iter_get_count(it, (dnstable_stat_stage)st, DNSTABLE_STAT_CATEGORY_FILTERED, &ex, &n) == dnstable_res_success && ex) s += num(n) + ","; }
	dnstable_iter_destroy(&it);
	if (err) s += str("error ") + err;
	return s;
}
static struct dnstable_query *query(int type, const char *data, const char *rrtype = nullptr, const char *bail = nullptr) {
	struct dnstable_query *q = dnstable_query_init((dnstable_query_type)type); P();
	dnstable_res a = data ? dnstable_query_set_data(q, data) : dnstable_res_success; P();
	if (rrtype && dnstable_query_set_rrtype(q, rrtype) != dnstable_res_success) a = dnstable_res_failure;
	if (bail) { P(); if (dnstable_query_set_bailiwick(q, bail) != dnstable_res_success) a = dnstable_res_failure; }
	if (a != dnstable_res_success) { dnstable_query_destroy(&q); return nullptr; }
	P(); return q;
}
struct Query { struct dnstable_query *q; Query(struct dnstable_query *x) : q(x) {} ~Query() { dnstable_query_destroy(&q); } };
static str run_one(R r, struct dnstable_query *q_, std::function<str(struct dnstable_entry *)> f) { Query q(q_); return q.q ? results(q.q, r, f) : str("refused"); }
static str text(struct dnstable_entry *e) { char *s = dnstable_entry_to_text(e); P(); return take(s); }
static str json(struct dnstable_entry *e) { char *s = dnstable_entry_to_json(e); P(); return take(s); }
static const int RR = DNSTABLE_QUERY_TYPE_RRSET, RN = DNSTABLE_QUERY_TYPE_RDATA_NAME, IP = DNSTABLE_QUERY_TYPE_RDATA_IP, RAW = DNSTABLE_QUERY_TYPE_RDATA_RAW;

// what threads do: each program has two shapes (paths through the code), each with data of its own for either thread
typedef std::function<str(R, int, int)> Prog;
static const std::vector<Prog> &progs() {
	static const std::vector<Prog> p = {
		[](R r, int s, int v) { return run_one(r, query(RR, s ? (v ? "b.*" : "a.*") : v ? "b.b.a" : "a.b"), text); },
		[](R r, int s, int v) { return run_one(r, query(RN, s ? (v ? "mx.b.*" : "ns.b.*") : v ? "*.mx.a" : "*.b"), json); },
		[](R r, int s, int v) { return run_one(r, query(IP, s ? (v ? "10.1.3.0/24" : "2001:db8::/127") : v ? "2001:db8::-2001:db8::1" : "10.1.2.4-10.1.3.0"), [](struct dnstable_entry *e) { return canon(e); }); },
		[](R r, int s, int v) { return run_one(r, query(RAW, s ? (v ? "0a010300" : "0A010204") : v ? "026D78016201" : "0568656c6c6f", s ? "A" : nullptr), [](struct dnstable_entry *e) { dnstable_entry_set_iszone(e, true); return render(e, true, true, true, true); }); },
		[](R r, int s, int v) { Query q(s ? query(RR, v ? "*.a" : "*.c", v ? "TYPE300" : "A", v ? "a" : "C") : query(RN, v ? "+.a" : "+.b.a")); u64 a = 999 + v, b = 2000 - v;
			set_fence(q.q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, a); P(); set_fence(q.q, s ? DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER : DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, b); dnstable_query_set_offset(q.q, v); return results(q.q, r, [](struct dnstable_entry *e) { return canon(e); }); },
		[](R, int s, int v) {		// refusals and their reasons
			Query q(dnstable_query_init((dnstable_query_type)(s ? IP : RR))), t(dnstable_query_init((dnstable_query_type)RAW)); str o; const char *e;
			o += num(dnstable_query_set_data(q.q, s ? (v ? "1.2.3.4/99" : "1.2.3.4-x") : v ? "a..b" : "b\\")); P(); e = dnstable_query_get_error(q.q); P(); o += e ? e : "-";
			o += num(dnstable_query_set_rrtype(q.q, v ? "NOSUCH" : "TYPE65536")); P(); o += (e = dnstable_query_get_error(q.q)) ? e : "-";
			o += num(dnstable_query_set_data(t.q, v ? "0g" : "012")); P(); o += (e = dnstable_query_get_error(t.q)) ? e : "-"; P(); o += (e = dnstable_query_get_error(q.q)) ? e : "-"; return o; },
		[](R r, int s, int v) { str o = dnstable_entry_type_to_string((dnstable_entry_type)(v ? 254 : 0)); P(); o += dnstable_stat_stage_to_str((dnstable_stat_stage)v); P(); o += dnstable_stat_category_to_str((dnstable_stat_category)v);
			struct dnstable_iter *it = s ? (v ? dnstable_reader_iter_version(r) : dnstable_reader_iter_time_range(r)) : v ? dnstable_reader_iter_source_info(r) : dnstable_reader_iter_rdata_names(r); P(); struct dnstable_entry *e = nullptr;
			for (int n = 0; n < 3 && dnstable_iter_next(it, &e) == dnstable_res_success; n++) { P(); o += s ? json(e) : text(e); dnstable_entry_destroy(&e); }
			dnstable_iter_destroy(&it); return o; },
		[](R, int s, int v) {		// an entry of one's own, in every form
			Ent x = s ? mk_rdata(be16(7 + v) + nm(v ? "svc.b" : "v"), v ? SVCB : MX, nm(v ? "w" : "u"), 86400 * (3 + v), 86400 * (700 + v), 12345678901ULL - v) : mk_rrset(nm(v ? "x.y" : "q.y.y"), 300 + v, nm("y"), {v ? "ab" : "", "c"}, 951782400 - v * 1000000, 1709164800 + v * 1000000, 17 + v);
			B k = x.key(), w = x.val(); str o; struct dnstable_entry *e = decode(k, w); P();
			for (int f = 0; f < 4; f++) { o += render(e, f & 1, f & 2, f & 1, f & 2); P(); }
			dnstable_entry_destroy(&e); return o; },
		[](R, int s, int v) {		// merging
			B k = s ? mk_name(v ? RRSET_NAME : RDATA_NAME, nm("a.b")).key() : v ? mk_rdata(ip4(1, 2, 3, 4), A, nm("q")).key() : mk_time_range(0, 0).key();
			auto mrg = [&](const B &a, const B &b) { uint8_t *o = nullptr; size_t n = 0; dnstable_merge_func(nullptr, (const uint8_t *)k.data(), k.size(), (const uint8_t *)a.data(), a.size(), (const uint8_t *)b.data(), b.size(), &o, &n); P(); B r((char *)o, o ? n : 0); free(o); return r; };
			B a = s ? (v ? mrg(type_union({1, 2, 300}), type_union({28})) : mrg(type_union({5, 600, 6}), type_union({40000}))) : v ? mrg(triplet(5, 900, 70000), triplet(4, 1000000, 3)) : mrg(pair(70, 900), pair(60, 800)); P();
			struct dnstable_entry *e = decode(k, a); str o = hex(a) + (v ? text(e) : json(e)); dnstable_entry_destroy(&e); return o; },
		[](R r, int s, int v) { return run_one(r, query(IP, s ? (v ? "10.1.2.4" : "10.1.3.0") : v ? "2001:db8::" : "2001:db8::1"), [](struct dnstable_entry *e) { return canon(e); }); },
		[](R r, int s, int v) { Query q(query(RN, "ns.a", v ? "MX" : "SOA")); struct timespec ts = {s ? 1 + v : 4000000000LL + v, 0}; dnstable_query_set_deadline(q.q, &ts); P(); dnstable_query_set_case_sensitive(q.q, v); return results(q.q, r, text); },
		[](R r, int s, int v) {	// is this entry within the query?
			Query q(s ? query(RR, v ? "*.A" : "b.A", v ? "AAAA" : "A", v ? nullptr : "a") : query(RR, "c", nullptr, v ? "A" : "c")); str o; struct dnstable_iter *it = dnstable_reader_iter_rrset(r); struct dnstable_entry *e = nullptr; int n = 0;
			while (n++ < 9 && dnstable_iter_next(it, &e) == dnstable_res_success) { bool p = false; dnstable_query_filter(q.q, e, &p); P(); o += p ? "y" : "n"; dnstable_entry_destroy(&e); }
			dnstable_iter_destroy(&it); return o; },
		[](R, int s, int v) {		// what has no name of its own
			str o; std::vector<Ent> x; if (s) x = { mk_rrset(nm("o"), v ? 1300 : 301, nm("."), {v ? "1" : "22"}), mk_rdata("q", v ? 65281 : 1234, nm("t")) }; else x = { mk_name(RRSET_NAME, nm("n"), type_union({v ? 4000u : 500u})), mk_version(v ? 99 : 7, 5 + v) };
			for (auto &e : x) { B k = e.key(), w = e.val(); struct dnstable_entry *d = decode(k, w); P(); o += render(d, false, false); P(); o += render(d, true, v, true, true); P(); dnstable_entry_destroy(&d); }
			return o; },
	};
	return p;
}
struct Db {		// the shared open table
	struct mtbl_reader *m; struct dnstable_reader *r;
	Db() { m = mtbl_reader_init("c01", NULL); r = dnstable_reader_init(mtbl_reader_source(m)); }
	~Db() { dnstable_reader_destroy(&r); mtbl_reader_destroy(&m); }
};
struct Thread { int p, s, v; bool operator<(const Thread &o) const { return std::tie(p, s, v) < std::tie(o.p, o.s, o.v); } };
static void world(vf::Ctx &c, sched::World &w, Db &d, Db &d2, bool shared, bool calls, const std::vector<Thread> &what, strs &got) {
	w.shared_only = true; w.calls = calls; w.prune = false;
	got.assign(what.size(), "unfinished");
	for (size_t i = 0; i < what.size(); i++) { Thread t = what[i]; R r = shared || i == 0 ? d.r : d2.r; w.spawn([&got, i, t, r] { got[i] = progs()[t.p](r, t.s, t.v); }); }
	if (shared) w.share(d.r, malloc_usable_size(d.r));
	c.check(w.run(), "deadlock", "the threads block each other for ever");
}
static const str &alone(vf::Ctx &c, const Thread &t) {
	static std::map<Thread, str> m; auto it = m.find(t); if (it != m.end()) return it->second;
	vf::Uncounted u; Db d, d2; strs got; { sched::World w(c); world(c, w, d, d2, false, false, {t}, got); }
	return m[t] = got[0];
}
static void body(vf::Ctx &c) {
	static bool once = (install("c01", zoo()), true); (void)once;
	int n = (int)progs().size();
	int form = c.choose(4);		// once at any call or access; several times at accesses to what is shared; the table shared; three threads
	Thread a{c.choose(n), c.choose(2), 0}, b{c.choose(n), c.choose(2), 1};
	if (a.p != b.p && !c.thorough() && (a.s != ((a.p + b.p) & 1) || b.s == a.s)) throw vf::Cut();
	std::vector<Thread> what = {a, b};
	if (form == 3) { if (!c.thorough() && (a.p != b.p || a.s != b.s)) throw vf::Cut(); int p = c.choose(n); what.push_back({p, (a.s + p) & 1, 0}); }
	c.mine();
	str tag = fmt("%d", form); for (auto &x : what) tag += fmt(" %d%c%d", x.p, 'a' + x.s, x.v);
	c.trace("threads %s", tag.c_str());
	strs want; for (auto &x : what) want.push_back(alone(c, x));
	Db d, d2; strs got;
	{
		sched::World w(c, false, form == 0 ? 1 : c.T(2, 3));
		w.enabled = [&](int) { return true; };
		world(c, w, d, d2, form != 1, form == 0, what, got);
		c.state(vf::mix(vf::hash_str(tag) + w.schedule));
	}
	for (size_t i = 0; i < what.size(); i++) c.eqs(got[i], want[i], fmt("thread %zu of %s", i, tag.c_str()).c_str());
}
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
