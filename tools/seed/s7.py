S=[]
S.append(dict(id='queue-narrow-slot', prop='L01', kind='c', flags='-O1', edits=[('libmy/my_queue_mb.c', "	unsigned head = q->head;\n	unsigned tail = MY_ACCESS_ONCE(q->tail);\n	unsigned space", "	uint16_t head = q->head;\n	unsigned tail = MY_ACCESS_ONCE(q->tail);\n	unsigned space")],
 needs="A queue of more than 65536 slots which holds more than 65536 elements.",
 breaks="The writer's index wraps at 16 bits, so elements are stored over earlier ones and the queue never fills.",
 srcs='',
 demo=r'''#include <stdio.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include "libmy/my_queue.h"
#include "libmy/my_queue_mb.c"
int main(void) {
	struct my_queue *q = my_queue_mb_init(1 << 17, sizeof(uint32_t)); if (!q) return 2;
	unsigned bad = 0, n = 100000;
	for (uint32_t i = 0; i < n; i++) bad += !my_queue_mb_insert(q, &i, NULL);
	for (uint32_t i = 0, x; i < n; i++) { x = ~0u; bad += !my_queue_mb_remove(q, &x, NULL) || x != i; }
	my_queue_mb_destroy(&q); printf("%u\n", bad); return bad != 0;
}
'''))
S.append(dict(id='replace-narrow-gap', prop='L17', kind='c', flags='-O1', edits=[('libmy/string_replace.h', "		size_t offset = (size_t) (ret - str);", "		uint16_t offset = (uint16_t) (ret - str);")],
 needs="A text with more than 65535 characters before a match.",
 breaks="The text before the match is cut to its length modulo 65536, and the search restarts in the middle of it.",
 srcs='',
 demo=r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <assert.h>
#include "libmy/string_replace.h"
int main(void) {
	static char s[70010], w[70020]; memset(s, 'a', 70000); strcpy(s + 70000, "b"); memset(w, 'a', 70000); strcpy(w + 70000, "xyz");
	char *r = string_replace(s, "b", "xyz"); int bad = strcmp(r, w) != 0; free(r); printf("%d\n", bad); return bad;
}
'''))
S.append(dict(id='type-filter-signed-length', prop='Q04', edits=[('dnstable/query.c', "	struct query_iter *it = user;\n	size_t len;\n	uint16_t rdlen;\n	uint32_t rrtype;\n\n	(void)seek_iter;", "	struct query_iter *it = user;\n	size_t len;\n	int16_t rdlen;\n	uint32_t rrtype;\n\n	(void)seek_iter;")],
 needs="A raw rdata lookup with an RR type, and a record with more than 32767 bytes of rdata.",
 breaks="The length is taken for negative, so the record is left out.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {rdata(B(40000, 'L'), 300, "o.z"), rdata(B(20, 'L'), 300, "o.z")});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_RAW);
	assert(dnstable_query_set_data(q, "4c4c") == dnstable_res_success && dnstable_query_set_rrtype(q, "TYPE300") == dnstable_res_success);
	Bs v = run(q, t.r); dnstable_query_destroy(&q);
	printf("%zu\n", v.size()); return v.size() != 2;
}
'''))
