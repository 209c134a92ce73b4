S = []
S.append(dict(id='merge-static-sets', prop='C01', edits=[('dnstable/merge.c', "	rrtype_unpacked_set rrtype_set_1, rrtype_set_2, rrtype_set_merged;\n", "	/* several hundred kilobytes: keep these off the stack */\n	static rrtype_unpacked_set rrtype_set_1, rrtype_set_2, rrtype_set_merged;\n")],
 needs="Two threads merging name index entries at the same time.",
 breaks="The unpacked type sets are shared between threads, so the merged set of one thread gets types of the other's.",
 demo=r'''#include "kit.hpp"
#include <thread>
#include <atomic>
#include <chrono>
#include <set>
static B set_of(std::set<unsigned> t) { B r; while (!t.empty()) { unsigned w = *t.begin() >> 8; B bits; while (!t.empty() && *t.begin() >> 8 == w) { unsigned lo = *t.begin() & 255; while (bits.size() <= lo / 8) bits += u8(0); bits[lo / 8] |= 0x80 >> (lo % 8); t.erase(t.begin()); } r += u8(w) + u8(bits.size()) + bits; } return r; }
static B merge(const B &k, const B &a, const B &b) { uint8_t *v = NULL; size_t n = 0; dnstable_merge_func(NULL, (const uint8_t *)k.data(), k.size(), (const uint8_t *)a.data(), a.size(), (const uint8_t *)b.data(), b.size(), &v, &n); B r((char *)v, v ? n : 0); free(v); return r; }
int main() {
	std::atomic<bool> bad(false), stop(false); std::vector<std::thread> th;
	B k = rrname("a.z", "").first;
	for (int i = 0; i < 4; i++) th.emplace_back([&, i] {
		std::set<unsigned> x, y, both; for (unsigned j = 1; j < 1500; j++) { if ((j + i) % 5 == 0) x.insert(j); if ((j + i) % 7 == 0) y.insert(j); } both = x; both.insert(y.begin(), y.end());
		B a = set_of(x), b = set_of(y), want = set_of(both);
		while (!stop) if (merge(k, a, b) != want) { bad = true; stop = true; }
	});
	for (int i = 0; i < 60 && !stop; i++) std::this_thread::sleep_for(std::chrono::milliseconds(100));
	stop = true; for (auto &t : th) t.join();
	if (bad) printf("a merged set is wrong\n");
	return bad;
}
'''))
S.append(dict(id='date-shared-tm', prop='C01', edits=[('dnstable/entry.c', '''	struct tm gm, *r;
	time_t tm = v;
	char s[sizeof("4294967295-12-31 23:59:59 -0000")];
	size_t len;

	r = gmtime_r(&tm, &gm);
''', '''	struct tm *r;
	time_t tm = v;
	char s[sizeof("4294967295-12-31 23:59:59 -0000")];
	size_t len;

	r = gmtime(&tm);
''')],
 needs="Two threads rendering entries as text at the same time.",
 breaks="The broken-down time is shared by all threads, so dates of other threads' entries are printed.",
 demo=r'''#include "kit.hpp"
#include <thread>
#include <atomic>
#include <chrono>
int main() {
	std::atomic<bool> bad(false), stop(false); std::vector<std::thread> th;
	for (int i = 0; i < 4; i++) th.emplace_back([&, i] {
		KV x = rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 86400ULL * 400 * (i + 1) + i, 86400ULL * 5000 + i * 100000, 1);
		struct dnstable_entry *e = dnstable_entry_decode((const uint8_t *)x.first.data(), x.first.size(), (const uint8_t *)x.second.data(), x.second.size());
		const char *day[] = {"1971-02-05 00:00:00", "1972-03-11 00:00:01", "1973-04-15 00:00:02", "1974-05-20 00:00:03"};
		while (!stop) if (text(e).find(day[i]) == B::npos) { bad = true; stop = true; }
		dnstable_entry_destroy(&e);
	});
	for (int i = 0; i < 60 && !stop; i++) std::this_thread::sleep_for(std::chrono::milliseconds(100));
	stop = true; for (auto &t : th) t.join();
	if (bad) printf("another entry's date\n");
	return bad;
}
'''))
S.append(dict(id='later-limit-wins', prop='Q09', edits=[('dnstable/query.c', "my_timespec_cmp(&q->deadline, &it->deadline) < 0", "my_timespec_cmp(&it->deadline, &q->deadline) < 0")],
 needs="A lookup with both a timeout per step and a deadline which comes before it.",
 breaks="The later of the two limits applies, so the deadline passes unnoticed.",
 demo=r'''#include "kit.hpp"
#include <time.h>
int main() {
	table("t", {rrset("a.z", 1, "z", {ip4(1,1,1,1)})});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET); assert(dnstable_query_set_data(q, "a.z") == dnstable_res_success);
	struct timespec past = {1, 0}, hour = {3600, 0};
	assert(dnstable_query_set_deadline(q, &past) == dnstable_res_success && dnstable_query_set_timeout(q, &hour) == dnstable_res_success);
	struct dnstable_iter *it = dnstable_reader_query(t.r, q); struct dnstable_entry *e = NULL;
	dnstable_res r = dnstable_iter_next(it, &e); dnstable_entry_destroy(&e); dnstable_iter_destroy(&it); dnstable_query_destroy(&q);
	printf("%d\n", r); return r != dnstable_res_timeout;
}
'''))
S.append(dict(id='fence-wider-value', prop='Q12', edits=[('dnstable/query.c', "	if (len_param != sizeof(uint64_t))\n", "	if (len_param < sizeof(uint64_t))\n")],
 needs="A time fence given as a value longer than eight bytes.",
 breaks="A filter value of the wrong size is accepted.",
 demo=r'''#include "kit.hpp"
int main() {
	struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET); u64 v[2] = {5, 6};
	dnstable_res r = dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, v, 16); dnstable_query_destroy(&q);
	printf("%d\n", r); return r == dnstable_res_success;
}
'''))
S.append(dict(id='rdlen-slack', prop='Q02', edits=[('dnstable/query.c', '''		if ((size_t)rdlen + 2 >= len_key)
			return''', '''		if ((size_t)rdlen + 6 >= len_key)
			return''')],
 needs="A name lookup with an RR type for a record owned by the root, which has the shortest possible key.",
 breaks="Records with a key of less than seven bytes besides the rdata are taken for damaged and are not found.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {rdata(nm("ns.z"), 2, "."), rdata(nm("ns.z"), 2, "a")});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_NAME);
	assert(dnstable_query_set_data(q, "ns.z") == dnstable_res_success && dnstable_query_set_rrtype(q, "NS") == dnstable_res_success);
	Bs r = run(q, t.r); dnstable_query_destroy(&q);
	printf("%zu\n", r.size()); return r.size() != 2;
}
'''))
S.append(dict(id='fence-zeroed', prop='Q10', edits=[('dnstable/query.c', "		(q)->do_##p_name = false; \\\n", "		(q)->p_name = 0; \\\n")],
 needs="A time fence which is set and then cleared with a null value.",
 breaks="Clearing a fence leaves it in force with the value zero.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 100, 500)});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET); assert(dnstable_query_set_data(q, "a.z") == dnstable_res_success); u64 v = 50;
	assert(dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, &v, 8) == dnstable_res_success);
	assert(dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, NULL, 8) == dnstable_res_success);
	Bs r = run(q, t.r); dnstable_query_destroy(&q);
	printf("%zu\n", r.size()); return r.size() != 1;
}
'''))
S.append(dict(id='time-sign', prop='Q06', edits=[('dnstable/query.c', "(q->time_first_after > max_time_last)", "((int64_t)q->time_first_after > (int64_t)max_time_last)")],
 needs="A set of files, one of which declares that its records reach beyond 2^63 seconds, and a first-seen-after limit.",
 breaks="Such a file is left out although it has matching records.",
 demo=r'''#include "kit.hpp"
int main() {
	table("x", {trange(100, ~0ULL), rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 500, ~0ULL)});
	standin_setfile("set", "x\n"); struct dnstable_reader *rd = dnstable_reader_init_setfile("set");
	struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET); dnstable_query_set_data(q, "a.z"); u64 v = 400;
	assert(dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, &v, 8) == dnstable_res_success);
	Bs r = run(q, rd); dnstable_query_destroy(&q); dnstable_reader_destroy(&rd);
	printf("%zu\n", r.size()); return r.size() != 1;
}
'''))

S.append(dict(id='fill-counts-twice', prop='Q13', edits=[('dnstable/query.c', "count_merge_func, &it->stats.fill_merged", "count_merge_func, &it->stats.fileset_merged")],
 needs="PLACEHOLDER", breaks="PLACEHOLDER", demo=None))
S.pop()
