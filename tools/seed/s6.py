S=[]
S.append(dict(id='deadline-same-second', prop='Q09', edits=[('dnstable/query.c', "if (q->do_deadline && my_timespec_cmp(&q->deadline, &it->deadline) < 0) {", "if (q->do_deadline && q->deadline.tv_sec < it->deadline.tv_sec) {")],
 needs="A query with both a timeout and a deadline which end within the same second, the deadline first.",
 breaks="The deadline passes unnoticed; the lookup goes on until the timeout.",
 demo=r'''#include "kit.hpp"
#include <time.h>
extern "C" int clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = 1000; t->tv_nsec = 100000000; return 0; }
int main() {
	table("t", {rrset("a.z", 1, "z", {ip4(1,1,1,1)})});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET); assert(dnstable_query_set_data(q, "a.z") == dnstable_res_success);
	struct timespec dl = {1000, 50000000}, to = {0, 500000000};
	assert(dnstable_query_set_deadline(q, &dl) == dnstable_res_success && dnstable_query_set_timeout(q, &to) == dnstable_res_success);
	struct dnstable_iter *it = dnstable_reader_query(t.r, q); struct dnstable_entry *e = NULL;
	dnstable_res r = dnstable_iter_next(it, &e); dnstable_entry_destroy(&e); dnstable_iter_destroy(&it); dnstable_query_destroy(&q);
	printf("%d\n", r); return r != dnstable_res_timeout;
}
'''))
S.append(dict(id='crc-long-tail', prop='L07', kind='c', flags='-O1', edits=[('libmy/crc32c-sse42.c', "	for (size_t i = 0; i < len / sizeof(uint64_t); i++) {", "	for (uint16_t i = 0; i < len / sizeof(uint64_t) && i < UINT16_MAX; i++) {")],
 needs="A buffer of more than half a million bytes.",
 breaks="The hardware version leaves out most of the buffer, so the two implementations disagree.",
 srcs='"$R/libmy/crc32c.c" "$R/libmy/crc32c-slicing.c" "$R/libmy/crc32c-sse42.c"',
 demo=r'''#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
uint32_t my_crc32c_slicing(const uint8_t *, size_t), my_crc32c_sse42(const uint8_t *, size_t); bool my_crc32c_sse42_supported(void);
static uint8_t b[700000];
int main(void) {
	for (size_t i = 0; i < sizeof b; i++) b[i] = i * 7 + i / 256;
	if (!my_crc32c_sse42_supported()) return 0;
	int bad = 0;
	for (size_t n = 524200; n < 524400; n++) bad += my_crc32c_slicing(b, n) != my_crc32c_sse42(b, n);
	bad += my_crc32c_slicing(b, sizeof b) != my_crc32c_sse42(b, sizeof b);
	printf("%d\n", bad); return bad != 0;
}
'''))
S.append(dict(id='entry-long-name-leak', prop='Q15', edits=[('dnstable/iter.c', "PLACE","PLACE")], needs="", breaks="", demo=""))
S.pop()
