S=[]
S.append(dict(id='crc-short-misaligned', prop='L07', kind='c', srcs='"$R/libmy/crc32c-slicing.c"', edits=[('libmy/crc32c-slicing.c', '''(sizeof(uint32_t) - 1)) != 0 &&
	     len > 0; ++p, --len)''', '''(sizeof(uint32_t) - 1)) != 0;
	     ++p, --len)''')],
 needs="The table-driven checksum (processors without the instruction) on a buffer that ends before the next four-byte boundary.",
 breaks="The checksum takes in bytes beyond the end of the buffer and the remaining length wraps.",
 demo=r'''#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
uint32_t my_crc32c_slicing(const uint8_t *, size_t);
static void die(int s) { _exit(3); }
int main(void) {
	signal(SIGSEGV, die); signal(SIGBUS, die); signal(SIGALRM, die); alarm(20);
	uint8_t *b = malloc(3); b[0] = 'x'; b[1] = 'a'; b[2] = 'b';
	uint32_t c = my_crc32c_slicing(b + 1, 2), w = 0xffffffff;
	for (int i = 1; i < 3; i++) { w ^= b[i]; for (int k = 0; k < 8; k++) w = w & 1 ? (w >> 1) ^ 0x82f63b78u : w >> 1; }
	printf("%08x %08x\n", c, ~w); return c != ~w;
}
'''))
S.append(dict(id='heapify-skips-root', prop='L08', kind='c', srcs='"$R/libmy/heap.c"', edits=[('libmy/heap.c', "for (size_t i = ptrvec_size(h->vec)/2; i-- > 0; ) {", "for (size_t i = ptrvec_size(h->vec)/2; i > 0; i--) {")],
 needs="Bulk loading: elements added without ordering, the smallest of them not under the first, then heapify.",
 breaks="The first element is never sifted, so peeking and popping do not return the minimum.",
 demo=r'''#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdbool.h>
#include "libmy/heap.h"
static int cmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
int main(void) {
	int v[] = {5, 3, 4, 1}; struct heap *h = heap_init(cmp);
	for (int i = 0; i < 4; i++) heap_add(h, &v[i]);
	heap_heapify(h); int last = 0, bad = 0; void *p;
	while ((p = heap_pop(h))) { printf("%d ", *(int *)p); if (*(int *)p < last) bad = 1; last = *(int *)p; }
	heap_destroy(&h); printf("\n"); return bad;
}
'''))
S.append(dict(id='fileset-older-mtime', prop='L02', kind='c', srcs='"$R/libmy/my_fileset.c"', edits=[('libmy/my_fileset.c', "fs->last_mtime != ss.st_mtime)", "fs->last_mtime < ss.st_mtime)")],
 needs="A set file which is rewritten in place and given an earlier modification time (restored by a tool which keeps times).",
 breaks="The reload takes the set file for unchanged and keeps the former members.",
 demo=r'''#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdbool.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "libmy/my_fileset.h"
static void put(const char *n, const char *s, time_t t) { FILE *f = fopen(n, "w"); fputs(s, f); fclose(f); struct timespec ts[2] = {{t, 0}, {t, 0}}; utimensat(AT_FDCWD, n, ts, 0); }
static int loads;
static void *load(struct my_fileset *fs, const char *f) { loads++; return NULL; }
int main(void) {
	put("a", "", 5); put("b", "", 5); put("set", "a\n", 2000);
	struct my_fileset *fs = my_fileset_init("./set", load, NULL, NULL); my_fileset_reload(fs);
	put("set", "a\nb\n", 1000); my_fileset_reload(fs);
	const char *n; void *p; bool two = my_fileset_get(fs, 1, &n, &p);
	my_fileset_destroy(&fs); printf("%d loads\n", loads); return !(two && loads == 2);
}
'''))
S.append(dict(id='spool-hidden-file', prop='L03', kind='c', srcs='"$R/libmy/spooldir.c"', edits=[('libmy/spooldir.c', "			if (de->d_name[0] == '.')\n", "			if (de->d_name[0] == '.' && (de->d_name[1] == '\\0' || de->d_name[1] == '.'))\n")],
 needs="A producer which is still writing its file under a temporary name beginning with a dot.",
 breaks="The half-written file is delivered.",
 demo=r'''#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdbool.h>
#include <sys/stat.h>
#include <unistd.h>
#include "libmy/spooldir.h"
int main(void) {
	mkdir("s", 0755); mkdir("s/incoming", 0755); FILE *f = fopen("s/incoming/.part", "w"); fclose(f);
	struct spooldir *s = spooldir_init("s"); char *n = spooldir_next(s);
	printf("%s\n", n ? n : "none"); int bad = n != NULL || access("s/incoming/.part", F_OK) != 0; free(n); spooldir_destroy(&s); return bad;
}
'''))
S.append(dict(id='ubuf-lone-terminator', prop='L10', kind='c', edits=[('libmy/ubuf.h', '''ubuf_add_cstr(ubuf *u, const char *s)
{
	if (ubuf_size(u) > 0 &&''', '''ubuf_add_cstr(ubuf *u, const char *s)
{
	if (ubuf_size(u) > 1 &&''')],
 needs="An empty buffer which was read as a string before a string is added to it.",
 breaks="The terminator stays in front of the added string.",
 demo=r'''#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdbool.h>
#include "libmy/ubuf.h"
int main(void) {
	ubuf *u = ubuf_new(); ubuf_cstr(u); ubuf_add_cstr(u, "abc");
	int bad = strcmp(ubuf_cstr(u), "abc") != 0; printf("'%s'\n", ubuf_cstr(u)); ubuf_destroy(&u); return bad;
}
'''))
S.append(dict(id='cidr-octal-length', prop='Q12', edits=[('dnstable/query.c', "plen = strtol(prefix_length, &endptr, 10);", "plen = strtol(prefix_length, &endptr, 0);")],
 needs="A prefix length with a leading zero or in hexadecimal.",
 breaks="A malformed prefix length such as 0x8 is accepted and one such as 024 is read in octal.",
 demo=r'''#include "kit.hpp"
int main() {
	struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_IP);
	dnstable_res r = dnstable_query_set_data(q, "10.0.0.0/0x8"); dnstable_query_destroy(&q);
	printf("%d\n", r); return r == dnstable_res_success;
}
'''))
S.append(dict(id='removal-range-end', prop='R02', edits=[('dnstable/query_mtbl.c', "		rit->len_key2 = len_key2;", "		rit->len_key2 = (len_key2 < len_key) ? len_key2 : len_key;")],
 needs="A range of keys of different lengths whose upper end is longer than its lower end, over a removal stream.",
 breaks="The removal sources are read only up to the shortened end, so keys to be removed come through.",
 demo=r'''#include "kit.hpp"
extern "C" {
struct remove_mtbl *remove_mtbl_init(void); void remove_mtbl_destroy(struct remove_mtbl **); const struct mtbl_source *remove_mtbl_source(const struct remove_mtbl *);
void remove_mtbl_add_source(struct remove_mtbl *, const struct mtbl_source *); void remove_mtbl_set_upstream(struct remove_mtbl *, const struct mtbl_source *);
}
int main() {
	table("u", {{"a", "1"}, {"bb", "2"}, {"bbc", "3"}}); table("x", {{"bbc", ""}});
	struct mtbl_reader *u = mtbl_reader_init("u", NULL), *x = mtbl_reader_init("x", NULL);
	struct remove_mtbl *rm = remove_mtbl_init(); remove_mtbl_set_upstream(rm, mtbl_reader_source(u)); remove_mtbl_add_source(rm, mtbl_reader_source(x));
	struct mtbl_iter *it = mtbl_source_get_range(remove_mtbl_source(rm), (const uint8_t *)"a", 1, (const uint8_t *)"bbz", 3);
	const uint8_t *k, *v; size_t lk, lv; int n = 0; while (mtbl_iter_next(it, &k, &lk, &v, &lv) == mtbl_res_success) { printf("%.*s\n", (int)lk, k); n++; }
	mtbl_iter_destroy(&it); remove_mtbl_destroy(&rm); mtbl_reader_destroy(&u); mtbl_reader_destroy(&x);
	return n != 2;
}
'''))
S.append(dict(id='timespec-narrow', prop='L21', kind='c', edits=[('libmy/my_time.h', '''	if (a->tv_sec < b->tv_sec)
		return (-1);
	else if (a->tv_sec > b->tv_sec)
		return (1);
''', '''	if (a->tv_sec != b->tv_sec)
		return ((int) (a->tv_sec - b->tv_sec));
''')],
 needs="Two times more than 2^31 seconds apart.",
 breaks="The difference is cut to 32 bits, so the later time compares as the earlier one or as equal.",
 demo=r'''#define HAVE_CLOCK_GETTIME 1
#include <stdio.h>
#include <stdlib.h>
#include "libmy/my_time.h"
int main(void) {
	struct timespec a = {0, 0}, b = {3000000000LL, 0}, c = {1LL << 32, 0};
	printf("%d %d\n", my_timespec_cmp(&a, &b), my_timespec_cmp(&a, &c)); return !(my_timespec_cmp(&a, &b) < 0 && my_timespec_cmp(&a, &c) < 0);
}
'''))
S.append(dict(id='aaaa-key-v4-length', prop='Q03', edits=[('dnstable/query.c', "rdlen = htole16(16);", "rdlen = htole16(4);")],
 needs="PLACE", breaks="PLACE", demo="int main(){return 0;}"))
S.pop()
S.append(dict(id='nanosleep-restarts', prop='L21', kind='c', edits=[('libmy/my_time.h', "for (rqt = *ts; nanosleep(&rqt, &rmt) < 0 && errno == EINTR; rqt = rmt)", "for (rqt = rmt = *ts; nanosleep(&rqt, &rmt) < 0 && errno == EINTR; rqt.tv_nsec = rmt.tv_nsec)")],
 needs="A sleep of more than a second which a signal interrupts.",
 breaks="The whole seconds start again after each interruption.",
 demo=r'''#define HAVE_CLOCK_GETTIME 1
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
static int calls; static struct timespec second;
static int fake(const struct timespec *rq, struct timespec *rm) { if (calls++ == 0) { rm->tv_sec = rq->tv_sec - 2; rm->tv_nsec = 7; errno = EINTR; return -1; } second = *rq; return 0; }
#define nanosleep fake
#include "libmy/my_time.h"
int main(void) {
	struct timespec t = {5, 0}; my_nanosleep(&t); printf("%d calls, then %ld.%09ld\n", calls, (long)second.tv_sec, second.tv_nsec); return !(calls == 2 && second.tv_sec == 3 && second.tv_nsec == 7);
}
'''))
S.append(dict(id='ip-cut-label', prop='Q03', edits=[('dnstable/query.c', "				memset(ubuf_ptr(seek_key), 0, extra);", "				memset(ubuf_ptr(seek_key), 0xff, extra);")],
 needs="An address lookup which meets a record of another type whose bytes read as an address record with an owner name cut off in the middle of a label, and an address record whose owner starts with exactly these bytes.",
 breaks="The search goes on behind every owner that starts with the cut label, so such records are lost.",
 demo=r'''#include "kit.hpp"
int main() {
	// a TXT record whose key continues like an owner with a label of 12 bytes, of which 6 are there
	B body = ip4(1, 2, 3, 4) + u8(1) + u8(12) + "m";
	KV in = rdata(body, 16, "t"); B as = in.first.substr(1 + 6); as += B(12 - as.size(), '\1');
	KV own = {u8(2) + ip4(1, 2, 3, 4) + vi(1) + u8(12) + as + u8(0) + le16(4), trip(1, 2, 3)};
	table("t", {in, own}); Table t("t");
	struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_IP); assert(dnstable_query_set_data(q, "1.2.3.4") == dnstable_res_success);
	Bs r = run(q, t.r); dnstable_query_destroy(&q);
	printf("%zu\n", r.size()); return r.size() != 1;
}
'''))
