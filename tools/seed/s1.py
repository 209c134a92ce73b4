S = []
S.append(dict(id='plus-seek-siblings', prop='Q01', edits=[('dnstable/query.c', "	increment_key(seek_key, next_len - 1);\n", "	increment_key(seek_key, qks);\n")],
 needs="A '+.' (single label) lookup over a zone where a deeper name (two or more extra labels) sorts before a matching sibling whose label has the same length.",
 breaks="After a name with too many labels the search skips every sibling label of the same length instead of only that label's subtree, so matching records are lost.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {rrset("x.aa.z", 1, "z", {ip4(1,1,1,1)}), rrset("aa.z", 1, "z", {ip4(1,1,1,2)}), rrset("bb.z", 1, "z", {ip4(1,1,1,3)}), rrset("c.z", 1, "z", {ip4(1,1,1,4)}), rrset("ccc.z", 1, "z", {ip4(1,1,1,5)})});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET);
	assert(dnstable_query_set_data(q, "+.z") == dnstable_res_success);
	Bs r = run(q, t.r), names; for (auto &x : r) { size_t i = x.find("\"rrname\":\"") + 10; names.push_back(x.substr(i, x.find('"', i) - i)); }
	dnstable_query_destroy(&q);
	return differ("+.z", names, {"c.z.", "aa.z.", "bb.z.", "ccc.z."});
}
'''))
S.append(dict(id='slice-bound-soa', prop='Q02', edits=[('dnstable/query.c', """			else if (it->query->do_rrtype) {
				switch(wanted_rrtype) {
				CASE_RDATA_NAME_TYPE_STANDALONE:
					add_rrtype_to_key(full_key, wanted_rrtype);
				}
			}
""", """			else if (it->query->do_rrtype) {
				switch(wanted_rrtype) {
				CASE_RDATA_NAME_TYPE_ALL:
					add_rrtype_to_key(full_key, wanted_rrtype);
				}
			}
""")],
 needs="A left-wildcard rdata name lookup ('*.a') restricted to a type whose rdata continues after the name (SOA).",
 breaks="The record lookup behind the reversed-name index appends the type right after the name although SOA rdata has more fields there, so all SOA records are lost.",
 demo=r'''#include "kit.hpp"
int main() {
	B soa = nm("ns.a") + nm("h.a") + B(20, '\1');
	table("t", {rdata(soa, 6, "z"), rdata(nm("ns.a"), 2, "z"), rdname("ns.a", "")});
	Table t("t"); int bad = 0;
	for (auto ty : {"SOA", "NS"}) {
		struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_NAME);
		assert(dnstable_query_set_data(q, "*.a") == dnstable_res_success);
		assert(dnstable_query_set_rrtype(q, ty) == dnstable_res_success);
		Bs r = run(q, t.r); if (r.size() != 1) { printf("*.a/%s: %zu results\n", ty, r.size()); bad = 1; }
		dnstable_query_destroy(&q);
	}
	return bad;
}
'''))
S.append(dict(id='ip-long-label', prop='Q03', edits=[('dnstable/query.c', "		if (key[ubuf_size(seek_key)] > max_llen) {\n", "		if (key[ubuf_size(seek_key)] >= max_llen) {\n")],
 needs="An A range lookup meeting an AAAA key which shares the address's first four bytes and the type byte and whose next byte is 0x3f, while that address also has an owner whose top label is 63 bytes long.",
 breaks="A 63-byte label length is taken for an impossible one, so the search moves on to the next address and loses the owners still to come at this one.",
 demo=r'''#include "kit.hpp"
int main() {
	B six = ip4(10,1,2,3) + u8(1) + u8(63) + B(10, '\0');
	B top(63, 'm');
	table("t", {rdata(ip4(10,1,2,3), 1, "w." + top), rdata(six, 28, "v"), rdata(ip4(10,1,2,4), 1, "n")});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_IP);
	assert(dnstable_query_set_data(q, "10.1.2.0/24") == dnstable_res_success);
	Bs r = run(q, t.r); dnstable_query_destroy(&q);
	if (r.size() != 2) { printf("%zu results\n", r.size()); return 1; }
	return 0;
}
'''))
S.append(dict(id='fence-pair-files', prop='Q06', edits=[('dnstable/query.c', "	if (q->do_time_first_before && !q->do_time_last_after &&\n	    (q->time_first_before < min_time_first)) {\n", "	if (q->do_time_first_before &&\n	    (q->time_first_before < min_time_first)) {\n")],
 needs="An aggregated time-fenced set lookup with both 'first before' and 'last after', on a record whose early observation and late observation are in different files.",
 breaks="Both files are put aside for filling in, none is left to be searched, and the record (whose merged times satisfy both fences) is lost.",
 demo=r'''#include "kit.hpp"
int main() {
	table("old", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 100, 200, 1), trange(100, 200)});
	table("new", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 500, 600, 1), trange(500, 600)});
	standin_setfile("set", "old\nnew\n");
	struct dnstable_reader *rd = dnstable_reader_init_setfile("set");
	struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET);
	assert(dnstable_query_set_data(q, "a.z") == dnstable_res_success);
	uint64_t fb = 300, la = 550;
	dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, &fb, 8);
	dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &la, 8);
	Bs r = run(q, rd); dnstable_query_destroy(&q); dnstable_reader_destroy(&rd);
	if (r.size() != 1) { printf("%zu results\n", r.size()); return 1; }
	return 0;
}
'''))
S.append(dict(id='offset-before-fence', prop='Q08', edits=[('dnstable/query.c', """	/* Note: some combinations of time filters may not require this stage. */
	if (it->filter_time_prefilter != NULL) {
		FILTER_SET(filter_time, source);
	}

	/* Seeing if we've hit the user supplied offset is always the first check */
	if (q->offset > 0) {
		it->offset = q->offset;
		FILTER_SET(filter_offset, source);
	}
""", """	/* Seeing if we've hit the user supplied offset is always the first check */
	if (q->offset > 0) {
		it->offset = q->offset;
		FILTER_SET(filter_offset, source);
	}

	/* Note: some combinations of time filters may not require this stage. */
	if (it->filter_time_prefilter != NULL) {
		FILTER_SET(filter_time, source);
	}
""")],
 needs="An offset together with both 'first before' and 'last after' fences, so that a record passes the prefilter and is only rejected by the final time filter.",
 breaks="The offset counts records which the time filter then rejects, so too few matching records are skipped.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 400, 900, 1), rrset("b.z", 1, "z", {ip4(1,1,1,1)}, 100, 900, 1), rrset("c.z", 1, "z", {ip4(1,1,1,1)}, 100, 900, 2)});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET);
	assert(dnstable_query_set_data(q, "*.z") == dnstable_res_success);
	uint64_t fb = 300, la = 550;
	dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, &fb, 8);
	dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &la, 8);
	dnstable_query_set_offset(q, 1);
	Bs r = run(q, t.r); dnstable_query_destroy(&q);
	if (r.size() != 1 || r[0].find("c.z.") == B::npos) { printf("%zu results\n", r.size()); return 1; }
	return 0;
}
'''))
S.append(dict(id='timeout-after-read', prop='Q09', edits=[('dnstable/query_mtbl.c', """	struct timespec now;

	my_gettime(CLOCK_MONOTONIC, &now);
	if (my_timespec_cmp(&now, to_it->timeout->deadline) >= 0)
		longjmp(*to_it->timeout->expire_env, 1);

	return mtbl_iter_next(to_it->it, key, len_key, val, len_val);
""", """	struct timespec now;
	mtbl_res res;

	res = mtbl_iter_next(to_it->it, key, len_key, val, len_val);

	my_gettime(CLOCK_MONOTONIC, &now);
	if (my_timespec_cmp(&now, to_it->timeout->deadline) >= 0)
		longjmp(*to_it->timeout->expire_env, 1);

	return res;
""")],
 needs="A lookup whose deadline expires and which is then resumed.",
 breaks="The clock is looked at after the entry was taken from the source, so each timeout discards one entry and the resumed lookup misses it.",
 demo=r'''#include "kit.hpp"
#include <time.h>
int main() {
	table("t", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}), rrset("b.z", 1, "z", {ip4(1,1,1,1)}), rrset("c.z", 1, "z", {ip4(1,1,1,1)})});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET);
	assert(dnstable_query_set_data(q, "*.z") == dnstable_res_success);
	struct timespec past = {0, 0}; dnstable_query_set_deadline(q, &past);
	struct dnstable_iter *it = dnstable_reader_query(t.r, q); struct dnstable_entry *e = NULL;
	if (dnstable_iter_next(it, &e) != dnstable_res_timeout) { printf("no timeout\n"); return 1; }
	struct timespec now; clock_gettime(CLOCK_MONOTONIC, &now); now.tv_sec += 3600; dnstable_query_set_deadline(q, &now);
	Bs r = drain(it); dnstable_iter_destroy(&it); dnstable_query_destroy(&q);
	if (r.size() != 3) { printf("%zu results after the timeout\n", r.size()); return 1; }
	return 0;
}
'''))
S.append(dict(id='rrtype-any-sticky', prop='Q10', edits=[('dnstable/query.c', """	    strcasecmp(s_rrtype, "ANY-DNSSEC") == 0)
	{
		q->do_rrtype = false;
		return (dnstable_res_success);
	}
""", """	    strcasecmp(s_rrtype, "ANY-DNSSEC") == 0)
	{
		/* no filtering by type */
		return (dnstable_res_success);
	}
""")],
 needs="A query object whose type is first set to a specific one and then to ANY.",
 breaks="The earlier type filter stays in force after the query was widened to ANY.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}), rrset("a.z", 2, "z", {nm("ns.z")})});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET);
	assert(dnstable_query_set_data(q, "a.z") == dnstable_res_success);
	dnstable_query_set_rrtype(q, "NS"); dnstable_query_set_rrtype(q, "ANY");
	Bs r = run(q, t.r); dnstable_query_destroy(&q);
	if (r.size() != 2) { printf("%zu results\n", r.size()); return 1; }
	return 0;
}
'''))
S.append(dict(id='filter-last-before-edge', prop='Q11', edits=[('dnstable/query.c', "		if (q->do_time_last_before && q->time_last_before < time_last)\n", "		if (q->do_time_last_before && q->time_last_before <= time_last)\n")],
 needs="The record filter applied to a record whose last-seen time is exactly the 'last before' fence.",
 breaks="The record filter rejects a record which the corresponding lookup returns.",
 demo=r'''#include "kit.hpp"
int main() {
	KV e = rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 100, 200, 1);
	struct dnstable_entry *d = dnstable_entry_decode((const uint8_t *)e.first.data(), e.first.size(), (const uint8_t *)e.second.data(), e.second.size());
	int bad = 0;
	for (uint64_t v = 199; v <= 201; v++) {
		struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET); bool pass = false;
		dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, &v, 8);
		assert(dnstable_query_filter(q, d, &pass) == dnstable_res_success);
		if (pass != (v >= 200)) { printf("last before %d: %d\n", (int)v, pass); bad = 1; }
		dnstable_query_destroy(&q);
	}
	dnstable_entry_destroy(&d); return bad;
}
'''))
S.append(dict(id='version-type-refused', prop='Q12', edits=[('dnstable/query.c', """	switch(type) {
	case ENTRY_TYPE_RRSET:
	case ENTRY_TYPE_RRSET_NAME_FWD:
	case ENTRY_TYPE_RDATA:
	case ENTRY_TYPE_RDATA_NAME_REV:
		q->has_v_type = true;
		q->v_type = (uint8_t)type;
		return (dnstable_res_success);
""", """	q->has_v_type = true;
	q->v_type = (uint8_t)type;

	switch(type) {
	case ENTRY_TYPE_RRSET:
	case ENTRY_TYPE_RRSET_NAME_FWD:
	case ENTRY_TYPE_RDATA:
	case ENTRY_TYPE_RDATA_NAME_REV:
		return (dnstable_res_success);
""")],
 needs="A version query which is given an entry type that has no version (refused) and is then used all the same.",
 breaks="A refused parameter is nevertheless stored and changes what the query returns.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {version(0, 1), version(2, 2)});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_VERSION);
	if (dnstable_query_set_data(q, "time_range") == dnstable_res_success) { printf("accepted\n"); return 1; }
	Bs r = run(q, t.r); dnstable_query_destroy(&q);
	if (r.size() != 2) { printf("%zu results\n", r.size()); return 1; }
	return 0;
}
'''))
S.append(dict(id='fileset-files-count', prop='Q13', edits=[('dnstable/query.c', """	if (!(fill || remove))
		it->stats.fileset_files++;
""", """	if (!remove)
		it->stats.fileset_files++;
""")],
 needs="A time-fenced aggregated lookup over a set where some file is only used for filling in.",
 breaks="The file is counted both among the searched and among the fill files.",
 demo=r'''#include "kit.hpp"
int main() {
	table("old", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 100, 200, 1), trange(100, 200)});
	table("new", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 500, 600, 1), trange(500, 600)});
	standin_setfile("set", "old\nnew\n");
	struct dnstable_reader *rd = dnstable_reader_init_setfile("set");
	struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET);
	dnstable_query_set_data(q, "a.z"); uint64_t la = 550; dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &la, 8);
	struct dnstable_iter *it = dnstable_reader_query(rd, q); drain(it);
	bool ex; uint64_t a = 99, b = 99;
	dnstable_iter_get_count(it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILES, &ex, &a);
	dnstable_iter_get_count(it, DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_CATEGORY_FILES, &ex, &b);
	dnstable_iter_destroy(&it); dnstable_query_destroy(&q); dnstable_reader_destroy(&rd);
	if (a != 1 || b != 1) { printf("files %d, fill %d\n", (int)a, (int)b); return 1; }
	return 0;
}
'''))
S.append(dict(id='version-rrset-all', prop='Q14', edits=[('dnstable/query.c', "	if (it->query->has_v_type)\n		ubuf_add(it->key, it->query->v_type);\n", "	if (it->query->v_type)\n		ubuf_add(it->key, it->query->v_type);\n")],
 needs="A version lookup for the entry type numbered zero (rrset), or a type that was set and cleared again.",
 breaks="Asking for the rrset version returns the versions of all entry types.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {version(0, 1), version(2, 2)});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_VERSION);
	dnstable_query_set_data(q, "rrset");
	Bs r = run(q, t.r); dnstable_query_destroy(&q);
	if (r.size() != 1) { printf("%zu results\n", r.size()); return 1; }
	return 0;
}
'''))
S.append(dict(id='index-iter-leak', prop='Q15', edits=[('dnstable/query.c', "	mtbl_iter_destroy(&it->m_iter);\n	mtbl_iter_destroy(&it->m_iter2);\n	ljoin_mtbl_destroy", "	mtbl_iter_destroy(&it->m_iter);\n	if (it->m_iter == NULL && it->key2 != NULL)\n		mtbl_iter_destroy(&it->m_iter2);\n	ljoin_mtbl_destroy")],
 needs="A lookup through a name index (right-wildcard rrset or left-wildcard rdata) destroyed before its first result was asked for.",
 breaks="The index iterator is never released.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}), rrname("a.z", "")});
	Table t("t"); int bad = 0;
	for (int n = 0; n < 3; n++) {
		uint64_t before = standin_live_iters;
		struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET); dnstable_query_set_data(q, "a.*");
		struct dnstable_iter *it = dnstable_reader_query(t.r, q);
		for (int i = 0; i < n; i++) { struct dnstable_entry *e = NULL; dnstable_iter_next(it, &e); dnstable_entry_destroy(&e); }
		dnstable_iter_destroy(&it); dnstable_query_destroy(&q);
		if (standin_live_iters != before) { printf("%d iterators left after %d results\n", (int)(standin_live_iters - before), n); bad = 1; }
	}
	return bad;
}
'''))
S.append(dict(id='ljoin-seek-back', prop='R02', edits=[('dnstable/query_mtbl.c', "	it->right_finished = false;\n	it->right_key = NULL;\n	res = mtbl_iter_seek(it->iter_right", "	it->right_key = NULL;\n	res = mtbl_iter_seek(it->iter_right")],
 needs="A left join whose right side has been exhausted and which is then moved back to an earlier key.",
 breaks="The right side stays marked as exhausted, so keys after the seek come without their right-hand values merged in.",
 demo=r'''#include "kit.hpp"
extern "C" {
struct ljoin_mtbl *ljoin_mtbl_init(const struct mtbl_source *, const struct mtbl_source *, mtbl_merge_func, void *);
void ljoin_mtbl_destroy(struct ljoin_mtbl **); const struct mtbl_source *ljoin_mtbl_source(const struct ljoin_mtbl *);
}
static void cat(void *, const uint8_t *, size_t, const uint8_t *a, size_t la, const uint8_t *b, size_t lb, uint8_t **m, size_t *lm) { *m = (uint8_t *)malloc(la + lb); memcpy(*m, a, la); memcpy(*m + la, b, lb); *lm = la + lb; }
int main() {
	table("l", {{"a", "1"}, {"c", "3"}}); table("r", {{"a", "x"}});
	Table l("l"), r("r");
	struct ljoin_mtbl *j = ljoin_mtbl_init(mtbl_reader_source(l.m), mtbl_reader_source(r.m), cat, NULL);
	struct mtbl_iter *it = mtbl_source_iter(ljoin_mtbl_source(j)); const uint8_t *k, *v; size_t lk, lv; B got;
	while (mtbl_iter_next(it, &k, &lk, &v, &lv) == mtbl_res_success) got += B((const char *)v, lv) + " ";
	if (mtbl_iter_seek(it, (const uint8_t *)"a", 1) != mtbl_res_success) return 1;
	while (mtbl_iter_next(it, &k, &lk, &v, &lv) == mtbl_res_success) got += B((const char *)v, lv) + " ";
	mtbl_iter_destroy(&it); ljoin_mtbl_destroy(&j);
	printf("%s\n", got.c_str()); return got != "1x 3 1x 3 ";
}
'''))
S.append(dict(id='remove-seek-back', prop='R02', edits=[('dnstable/query_mtbl.c', """		if (re->finished ||
		    (bytes_compare(re->key, re->len_key, key, len_key) > 0)) {
			res = mtbl_iter_seek""", """		if (!re->finished &&
		    (bytes_compare(re->key, re->len_key, key, len_key) > 0)) {
			res = mtbl_iter_seek""")],
 needs="A remove stream one of whose removal sources has been exhausted and which is then moved back.",
 breaks="The exhausted removal source no longer removes anything, so removed keys show up again.",
 demo=r'''#include "kit.hpp"
extern "C" {
struct remove_mtbl *remove_mtbl_init(void); void remove_mtbl_destroy(struct remove_mtbl **); const struct mtbl_source *remove_mtbl_source(const struct remove_mtbl *);
void remove_mtbl_add_source(struct remove_mtbl *, const struct mtbl_source *); void remove_mtbl_set_upstream(struct remove_mtbl *, const struct mtbl_source *);
}
int main() {
	table("u", {{"a", "1"}, {"b", "2"}, {"c", "3"}}); table("r", {{"b", "x"}});
	Table u("u"), r("r");
	struct remove_mtbl *m = remove_mtbl_init(); remove_mtbl_add_source(m, mtbl_reader_source(r.m)); remove_mtbl_set_upstream(m, mtbl_reader_source(u.m));
	struct mtbl_iter *it = mtbl_source_iter(remove_mtbl_source(m)); const uint8_t *k, *v; size_t lk, lv; B got;
	while (mtbl_iter_next(it, &k, &lk, &v, &lv) == mtbl_res_success) got += B((const char *)k, lk);
	if (mtbl_iter_seek(it, (const uint8_t *)"a", 1) != mtbl_res_success) return 1;
	while (mtbl_iter_next(it, &k, &lk, &v, &lv) == mtbl_res_success) got += B((const char *)k, lk);
	mtbl_iter_destroy(&it); remove_mtbl_destroy(&m);
	printf("%s\n", got.c_str()); return got != "acac";
}
'''))
S.append(dict(id='merge-count-32', prop='M01', edits=[('dnstable/merge.c', "		count0 += count1;\n", "		count0 += (uint32_t) count1;\n")],
 needs="Merging observations one of which counts more than 2^32 - 1.",
 breaks="The total loses the upper half of the second count.",
 demo=r'''#include "kit.hpp"
int main() {
	table("x", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 100, 200, 5)});
	table("y", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 100, 200, 1ULL << 33)});
	standin_setfile("set", "x\ny\n"); struct dnstable_reader *rd = dnstable_reader_init_setfile("set");
	struct dnstable_iter *it = dnstable_reader_iter_rrset(rd); Bs r = drain(it); dnstable_iter_destroy(&it); dnstable_reader_destroy(&rd);
	if (r.size() != 1 || r[0].find("\"count\":8589934597,") == B::npos) { printf("%s\n", r[0].c_str()); return 1; }
	return 0;
}
'''))
S.append(dict(id='bitmap-window-stale', prop='M02', edits=[('dnstable/merge.c', "			memset(bitmap, 0, sizeof(bitmap));\n			window_block = cur_window;\n", "			window_block = cur_window;\n")],
 needs="Merging type sets whose union covers two windows (types below and above 256).",
 breaks="The bits of the first window leak into the second, so types appear which no file has.",
 demo=r'''#include "kit.hpp"
int main() {
	table("x", {rrname("a.z", u8(2))}); table("y", {rrname("a.z", le16(257 + 8))});
	standin_setfile("set", "x\ny\n"); struct dnstable_reader *rd = dnstable_reader_init_setfile("set");
	struct dnstable_iter *it = dnstable_reader_iter_rrset_names(rd); Bs r = drain(it); dnstable_iter_destroy(&it); dnstable_reader_destroy(&rd);
	return differ("names", r, {"{\"rrset_name\":\"a.z.\",\"rrtypes\":[\"NS\",\"TYPE265\"]}"});
}
'''))
S.append(dict(id='time-range-unknown', prop='M03', edits=[('dnstable/merge.c', """		if ((len_val0 == 0) || (len_val1 == 0)) {
			*merged_val = my_malloc(1);
			*len_merged_val = 0;
			return;
		}

		res = pair_unpack""", """		if ((len_val0 == 0) || (len_val1 == 0)) {
			/* nothing known on one side, keep the other */
			*len_merged_val = len_val0 + len_val1;
			*merged_val = my_malloc(*len_merged_val + 1);
			memcpy(*merged_val, len_val0 ? val0 : val1, *len_merged_val);
			return;
		}

		res = pair_unpack""")],
 needs="Merging three or more time ranges one of which is unknown (empty).",
 breaks="The merged range claims bounds which the file of unknown range need not satisfy.",
 demo=r'''#include "kit.hpp"
int main() {
	table("x", {trange(100, 200), version(0, 1)}); table("y", {{u8(254), ""}}); table("w", {trange(50, 60)});
	standin_setfile("set", "x\ny\nw\n"); struct dnstable_reader *rd = dnstable_reader_init_setfile("set");
	struct dnstable_iter *it = dnstable_reader_iter_time_range(rd); Bs r = drain(it); dnstable_iter_destroy(&it); dnstable_reader_destroy(&rd);
	return differ("time range", r, {});
}
'''))
S.append(dict(id='unpack-window-zero', prop='M04', edits=[('dnstable/entry.c', "			uint8_t a = rrtype_map[i];\n			for (unsigned j = 1; j <= 8; j++) {\n", "			uint8_t a = rrtype_map[i];\n			if (a == 0)\n				continue;\n			for (unsigned j = 1; j <= 8; j++) {\n")],
 needs="Listing a type set whose bitmap has an all-zero byte before a set bit.",
 breaks="The types after a zero byte are listed with numbers too low by eight.",
 demo=r'''#include "kit.hpp"
int main() {
	table("x", {rrname("a.z", B("\0\4\x60\0\0\x08", 6))});
	Table t("x"); struct dnstable_iter *it = dnstable_reader_iter_rrset_names(t.r); Bs r = drain(it); dnstable_iter_destroy(&it);
	return differ("names", r, {"{\"rrset_name\":\"a.z.\",\"rrtypes\":[\"A\",\"NS\",\"AAAA\"]}"});
}
'''))
S.append(dict(id='slice-order', prop='E01', edits=[('dnstable/entry.c', """		memcpy(rdata->data, slice, len_slice);
		memcpy(rdata->data + len_slice, data, len_data);
""", """		if (len_slice == sizeof(uint16_t))
			memcpy(rdata->data, slice, sizeof(uint16_t));
		else
			memcpy(rdata->data, slice, sizeof(uint32_t));
		memcpy(rdata->data + len_slice, data, len_data);
""")],
 needs="Decoding an SRV rdata entry, whose leading part is six bytes long.",
 breaks="Two bytes of the leading part (the SRV port) are left unset.",
 demo=r'''#include "kit.hpp"
int main() {
	B rd = be16(1) + be16(2) + be16(5060) + nm("s.a"); KV e = rdata(rd, 33, "o.z");
	struct dnstable_entry *d = dnstable_entry_decode((const uint8_t *)e.first.data(), e.first.size(), (const uint8_t *)e.second.data(), e.second.size());
	const uint8_t *p; size_t n; if (!d || dnstable_entry_get_rdata(d, 0, &p, &n) != dnstable_res_success) return 1;
	B got((const char *)p, n); dnstable_entry_destroy(&d);
	if (got != rd) { printf("rdata differs\n"); return 1; }
	return 0;
}
'''))
S.append(dict(id='rdata-len-odd', prop='E02', edits=[('dnstable/entry.c', "		if (len_rdata > end - p)\n			return (dnstable_res_failure);\n\n		rdata = my_malloc", "		if (p > end)\n			return (dnstable_res_failure);\n\n		rdata = my_malloc")] if False else [('dnstable/entry.c', "	if (len_data > end - p)\n		return (dnstable_res_failure);\n	p += len_data;\n", "	if (p > end)\n		return (dnstable_res_failure);\n	p += len_data;\n")],
 needs="Decoding an rdata entry whose recorded length is larger than the key.",
 breaks="The decoder runs beyond the end of the key.",
 demo=r'''#include "kit.hpp"
int main() {
	B k = u8(2) + ip4(1,2,3,4) + vi(1) + nm("a") + le16(60000), v = trip(1, 2, 3);
	uint8_t *a = (uint8_t *)malloc(k.size()); memcpy(a, k.data(), k.size());
	struct dnstable_entry *d = dnstable_entry_decode(a, k.size(), (const uint8_t *)v.data(), v.size());
	free(a); if (d) { printf("decoded\n"); return 1; }
	return 0;
}
'''))
S.append(dict(id='zone-last-seen', prop='E03', edits=[('dnstable/entry.c', """		/* last seen */
		if (e->iszone)
			ubuf_append_cstr_lit(u, "\\n;;  last seen in zone file: ");
		else
			ubuf_append_cstr_lit(u, "\\n;;  last seen: ");
		time_formatter(u, e->time_last);
""", """		/* last seen */
		if (e->iszone)
			ubuf_append_cstr_lit(u, "\\n;;  last seen in zone file: ");
		else
			ubuf_append_cstr_lit(u, "\\n;;  last seen: ");
		fmt_time(u, e->time_last);
""")],
 needs="Text rendering of an RRset in the RFC 3339 date format.",
 breaks="The last-seen time is given in the other format than the one asked for.",
 demo=r'''#include "kit.hpp"
int main() {
	KV e = rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 100, 200, 1);
	struct dnstable_entry *d = dnstable_entry_decode((const uint8_t *)e.first.data(), e.first.size(), (const uint8_t *)e.second.data(), e.second.size());
	struct dnstable_formatter *f = dnstable_formatter_init(); dnstable_formatter_set_output_format(f, dnstable_output_format_text); dnstable_formatter_set_date_format(f, dnstable_date_format_rfc3339);
	char *s = dnstable_entry_format(f, d); B r = s; free(s); dnstable_formatter_destroy(&f); dnstable_entry_destroy(&d);
	printf("%s", r.c_str()); return r.find("1970-01-01T00:01:40Z") == B::npos || r.find("1970-01-01T00:03:20Z") == B::npos;
}
'''))
S.append(dict(id='raw-rdata-type', prop='E04', edits=[('dnstable/entry.c', "				size_t rrtype_str_len = mtbl_varint_encode32(rrtype, e->rrtype);\n", "				size_t rrtype_str_len = mtbl_varint_encode32(rrtype, e->rrtype & 0x3fff);\n")],
 needs="JSON rendering with raw rdata of an RRset whose type is 16384 or above.",
 breaks="The raw rdata names another type.",
 demo=r'''#include "kit.hpp"
int main() {
	KV e = rrset("a.z", 32769, "z", {"xy"}, 100, 200, 1);
	struct dnstable_entry *d = dnstable_entry_decode((const uint8_t *)e.first.data(), e.first.size(), (const uint8_t *)e.second.data(), e.second.size());
	struct dnstable_formatter *f = dnstable_formatter_init(); dnstable_formatter_set_output_format(f, dnstable_output_format_json); dnstable_formatter_set_raw_rdata(f, true);
	char *s = dnstable_entry_format(f, d); B r = s; free(s); dnstable_formatter_destroy(&f); dnstable_entry_destroy(&d);
	printf("%s\n", r.c_str()); return r.find("\"7879818002\"") == B::npos;
}
'''))
