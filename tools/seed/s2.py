S = []
S.append(dict(id='queue-publish-first', prop='L01', kind='c', edits=[('libmy/my_queue_mb.c', """		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);
		smp_wmb();
		q->head = (head + 1) & (q->num_elems - 1);
		smp_wmb();
""", """		q->head = (head + 1) & (q->num_elems - 1);
		smp_wmb();
		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);
		smp_wmb();
""")],
 needs="The consumer runs between the producer's two steps (the item counted, not yet copied).",
 breaks="An element is counted before its bytes are there: a consumer running in between takes a stale element and the real one is lost.",
 srcs='-Wl,--wrap=free',
 demo=r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
void __real_free(void *p); void __wrap_free(void *p) { __real_free(p); }
static void *hook(void *d, const void *s, size_t n);
#include "libmy/my_alloc.h"
#include "libmy/my_queue.h"
#define memcpy hook
#include "libmy/my_queue_mb.c"
#undef memcpy
static struct my_queue *q; static int depth, got = -1, took;
static void *hook(void *d, const void *s, size_t n) {
	if (!depth) { depth = 1; int x; if (my_queue_mb_remove(q, &x, NULL)) { took = 1; got = x; } depth = 0; }
	return memcpy(d, s, n);
}
int main() {
	q = my_queue_mb_init(4, sizeof(int)); int v = 7, w = -1;
	depth = 0; my_queue_mb_insert(q, &v, NULL);
	depth = 1;
	if (took) { printf("took %d before it was there\n", got); return got != 7; }
	if (!my_queue_mb_remove(q, &w, NULL) || w != 7) { printf("got %d\n", w); return 1; }
	return 0;
}
'''))
S.append(dict(id='queue-stale-head', prop='L01', kind='c', edits=[('libmy/my_queue_mutex.c', """	q_lock(q);
	bool res = false;
	unsigned head = q->head;
	unsigned tail = q->tail;
	unsigned space = q_space(head, tail, q->num_elems);
""", """	bool res = false;
	unsigned head = q->head;
	unsigned tail = q->tail;
	q_lock(q);
	unsigned space = q_space(head, tail, q->num_elems);
""")],
 needs="A removal by the other thread between reading the positions and taking the lock, on a full queue.",
 breaks="The producer judges the queue by positions read before the lock: it refuses an element (and reports no space) although room was made before it got the lock.",
 demo=r'''
#include <stdio.h>
#include <pthread.h>
static int hook(pthread_mutex_t *m);
#include <string.h>
#include <assert.h>
#include "libmy/my_queue.h"
#define pthread_mutex_lock hook
#include "libmy/my_queue_mutex.c"
#undef pthread_mutex_lock
static struct my_queue *q; static int armed; static int got = -1;
static int hook(pthread_mutex_t *m) {
	if (armed) { armed = 0; my_queue_mutex_remove(q, &got, NULL); }
	return pthread_mutex_lock(m);
}
int main() {
	q = my_queue_mutex_init(2, sizeof(int)); int v = 1; unsigned n;
	if (!my_queue_mutex_insert(q, &v, NULL)) return 1;
	v = 2; armed = 1;
	/* another thread removes just before this one gets the lock */
	if (!my_queue_mutex_insert(q, &v, &n)) { printf("refused with %u elements held\n", 0); return 1; }
	return got != 1;
}
'''))
S.append(dict(id='fileset-same-second', prop='L02', kind='c', edits=[('libmy/my_fileset.c', "	if (fs->last_ino != ss.st_ino || fs->last_mtime != ss.st_mtime) {\n", "	if (fs->last_mtime != ss.st_mtime) {\n")],
 needs="The set file is replaced (rename of a new file over it) by one with the same modification second.",
 breaks="The replacement goes unnoticed: files newly listed are not loaded and files no longer listed stay loaded.",
 srcs='"$R/libmy/my_fileset.c"',
 demo=r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/time.h>
#include "libmy/my_fileset.h"
static int loads, unloads;
static void *load(struct my_fileset *f, const char *n) { loads++; return strdup(n); }
static void unload(struct my_fileset *f, const char *n, void *p) { unloads++; free(p); }
static void put(const char *n, const char *t) { FILE *f = fopen(n, "w"); fputs(t, f); fclose(f); struct timeval tv[2] = {{1000000, 0}, {1000000, 0}}; utimes(n, tv); }
int main() {
	put("a", "x"); put("b", "x"); put("set", "a\n");
	struct my_fileset *f = my_fileset_init("set", load, unload, NULL);
	my_fileset_reload(f); if (loads != 1) return 1;
	put("new", "b\n"); rename("new", "set");
	my_fileset_reload(f);
	const char *n = NULL; void *p; int ok = my_fileset_get(f, 0, &n, &p) && strcmp(n, "./b") == 0 && loads == 2 && unloads == 1;
	if (!ok) printf("first file is %s, %d loads, %d unloads\n", n, loads, unloads);
	my_fileset_destroy(&f);
	return !ok;
}
'''))
S.append(dict(id='spool-shared-name', prop='L03', kind='c', edits=[('libmy/spooldir.c', """	int rename_ret = rename(ubuf_cstr(src_fname), ubuf_cstr(s->fname));
""", """	pthread_mutex_unlock(&s->lock);
	int rename_ret = rename(ubuf_cstr(src_fname), ubuf_cstr(s->fname));
	pthread_mutex_lock(&s->lock);
""")],
 needs="Two threads asking for the next file at once, one of them in the middle of its rename.",
 breaks="The other thread overwrites the destination name kept in the shared buffer: the first thread's caller gets a wrong name (or none) for a file it moved.",
 srcs='',
 demo=r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/stat.h>
static int hook(const char *, const char *); static int fast(unsigned u) { return 0; }
#define rename hook
#define usleep fast
#include "libmy/spooldir.c"
#undef rename
#undef usleep
static struct spooldir *s; static volatile int in, done; static char *other; static pthread_t t; static int started;
static void *run(void *x) { other = spooldir_next(s); done = 1; return NULL; }
static int hook(const char *a, const char *b) {
	int r = rename(a, b);
	if (!in) { in = 1; started = 1; pthread_create(&t, NULL, run, NULL); for (int i = 0; i < 100 && !done; i++) usleep(5000); }
	return r;
}
int main() {
	mkdir("sp", 0700); mkdir("sp/incoming", 0700); mkdir("sp/active", 0700);
	fclose(fopen("sp/incoming/one", "w")); fclose(fopen("sp/incoming/two", "w"));
	s = spooldir_init("sp");
	char *mine = spooldir_next(s); if (started) pthread_join(t, NULL);
	printf("%s / %s\n", mine ? mine : "none", other ? other : "none");
	return !(mine && other && strcmp(mine, other) && access(mine, F_OK) == 0 && access(other, F_OK) == 0);
}
'''))
S.append(dict(id='base64-resume', prop='L06', kind='c', edits=[('libmy/b64_decode.c', """					state_in->step = step_c;
					state_in->plainchar = *plainchar;
""", """					state_in->step = step_c;
""")],
 needs="Base64 text decoded in chunks, one of them ending after the second character of a group of four.",
 breaks="The four bits already decoded of the next byte are forgotten between the chunks, so that byte comes out wrong.",
 srcs='"$R/libmy/b64_decode.c"', flags='',
 demo=r'''
#include <stdio.h>
#include <string.h>
#include "libmy/b64_decode.h"
int main() {
	const char *t = "SGVsbG8sIHdvcmxkIQ=="; const char *want = "Hello, world!";
	for (int cut = 0; cut <= (int) strlen(t); cut++) {
		char o[64], o2[64]; base64_decodestate st; base64_init_decodestate(&st);
		int n = base64_decode_block(t, cut, o, &st);
		int m = base64_decode_block(t + cut, strlen(t) - cut, o2, &st);
		memcpy(o + n, o2, m);
		if (n + m != (int) strlen(want) || memcmp(o, want, n + m)) { printf("cut %d: %.*s\n", cut, n + m, o); return 1; }
	}
	return 0;
}
'''))
S.append(dict(id='heap-last-right', prop='L08', kind='c', edits=[('libmy/heap.c', "		if (rightpos < endpos) {\n", "		if (rightpos + 1 < endpos) {\n")],
 needs="A sift that reaches the parent of the heap's very last element when that element is a right child and smaller than its sibling.",
 breaks="The last element is not looked at as a right child, so a larger element is moved above it and later pops come out of order.",
 srcs='"$R/libmy/heap.c"',
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include <stdbool.h>
#include "libmy/heap.h"
static int cmp(const void *a, const void *b) { return (intptr_t) a < (intptr_t) b ? -1 : (intptr_t) a > (intptr_t) b; }
int main() {
	for (int n = 1; n < 9; n++) for (unsigned seed = 0; seed < 200; seed++) {
		struct heap *h = heap_init(cmp); unsigned x = seed * 2654435761u;
		for (int i = 0; i < n; i++) { x = x * 1103515245u + 12345; heap_push(h, (void *)(intptr_t)(1 + (x >> 16) % 50)); }
		intptr_t last = 0, v;
		while ((v = (intptr_t) heap_pop(h))) { if (v < last) { printf("%d elements: %ld after %ld\n", n, (long) v, (long) last); return 1; } last = v; }
		heap_destroy(&h);
	}
	return 0;
}
'''))
RBDEMO = r'''
#include <stdio.h>
#include <stdlib.h>
#include <sys/types.h>
#include "libmy/tree.h"
struct node { RB_ENTRY(node) e; int k; };
static int cmp(struct node *a, struct node *b) { return a->k - b->k; }
RB_HEAD(tree, node); RB_PROTOTYPE(tree, node, e, cmp) RB_GENERATE(tree, node, e, cmp)
static int bad;
static int black(struct node *n) {	/* black height; sets bad */
	if (!n) return 1;
	struct node *l = RB_LEFT(n, e), *r = RB_RIGHT(n, e);
	if ((l && RB_PARENT(l, e) != n) || (r && RB_PARENT(r, e) != n)) bad = 1;
	if (RB_COLOR(n, e) == RB_RED && ((l && RB_COLOR(l, e) == RB_RED) || (r && RB_COLOR(r, e) == RB_RED))) bad = 1;
	int a = black(l), b = black(r); if (a != b) bad = 1;
	return a + (RB_COLOR(n, e) == RB_BLACK);
}
int main() {
	for (unsigned seed = 1; seed < 3000; seed++) {
		static struct node n[24]; int in[24] = {0}; unsigned x = seed; struct tree t = RB_INITIALIZER(&t);
		for (int i = 0; i < 24; i++) n[i].k = i;
		for (int step = 0; step < 80; step++) {
			x = x * 1103515245u + 12345; int i = (x >> 16) % 24;
			if (in[i]) tree_RB_REMOVE(&t, &n[i]); else tree_RB_INSERT(&t, &n[i]);
			in[i] = !in[i]; black(RB_ROOT(&t));
			if (bad) { printf("seed %u step %d: the tree is no longer balanced\n", seed, step); return 1; }
		}
	}
	return 0;
}
'''
S.append(dict(id='tree-remove-mirror', prop='L09', kind='c', edits=[('libmy/tree.h', """				RB_COLOR(parent, field) = RB_BLACK;	\\
				if (RB_LEFT(tmp, field))		\\
					RB_COLOR(RB_LEFT(tmp, field), field) = RB_BLACK;\\
""", """				RB_COLOR(parent, field) = RB_BLACK;	\\
				if (RB_RIGHT(tmp, field))		\\
					RB_COLOR(RB_RIGHT(tmp, field), field) = RB_BLACK;\\
""")],
 needs="A removal from the right half whose black sibling has a red left child (the outer case of the mirrored branch).",
 breaks="The wrong child is recoloured, so after the rotation one path has fewer black nodes than the others: the tree slowly loses its balance.",
 demo=RBDEMO))
S.append(dict(id='vector-reset-ptr', prop='L10', kind='c', edits=[('libmy/vector.h', """	(vec)->_n = 0;							\\
	if ((vec)->_n_alloced > (vec)->_hint) {				\\
""", """	(vec)->_n = 0;							\\
	(vec)->_p = &(vec->_v[0]);					\\
	if ((vec)->_n_alloced > (vec)->_hint) {				\\
"""), ('libmy/vector.h', """				   * sizeof(type));			\\
	}								\\
	(vec)->_p = &(vec->_v[0]);					\\
}									\\
""", """				   * sizeof(type));			\\
	}								\\
}									\\
""")],
 needs="A vector that grew past its first size is reset (which gives memory back and may move the array) and then written to through its end pointer.",
 breaks="The end pointer keeps pointing into the old array, so writing through it damages freed memory and the vector keeps garbage.",
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include <stdarg.h>
#include "libmy/my_alloc.h"
#include "libmy/ubuf.h"
int main() {
	ubuf *u = ubuf_init(8);
	for (int i = 0; i < 5000; i++) ubuf_add(u, 'x');
	ubuf_reset(u);
	if (ubuf_ptr(u) != ubuf_data(u)) { printf("the end is not in the array\n"); return 1; }
	memcpy(ubuf_ptr(u), "abc", 3); ubuf_advance(u, 3);
	int r = ubuf_size(u) != 3 || memcmp(ubuf_data(u), "abc", 3); ubuf_destroy(&u);
	return r;
}
'''))
S.append(dict(id='hash-odd-tail', prop='L14', kind='c', edits=[('libmy/lookup3.c', """    case 6 : b+=((uint32_t)k8[5])<<8;    /* fall through */
    case 5 : b+=k8[4];                   /* fall through */
    case 4 : a+=k[0]; break;
    case 3 : a+=((uint32_t)k8[2])<<16;   /* fall through */
    case 2 : a+=((uint32_t)k8[1])<<8;    /* fall through */
    case 1 : a+=k8[0]; break;
    case 0 : return c;
    }

#endif /* !valgrind */

  } else if (HASH_LITTLE_ENDIAN && ((u.i & 0x1) == 0)) {
    const uint16_t *k = (const uint16_t *)key;         /* read 16-bit chunks */
    const uint8_t  *k8;

    /*--------------- all but last block: aligned reads and different mixing */
    while (length > 12)
    {
      a += k[0] + (((uint32_t)k[1])<<16);
      b += k[2] + (((uint32_t)k[3])<<16);
      c += k[4] + (((uint32_t)k[5])<<16);
      mix(a,b,c);
      length -= 12;
      k += 6;
    }

    /*----------------------------- handle the last (probably partial) block */
    k8 = (const uint8_t *)k;
    switch(length)
    {
    case 12: c+=k[4]+(((uint32_t)k[5])<<16);
""", "@@")], needs='', breaks='', demo=''))
S.pop()
S.append(dict(id='replace-at-end', prop='L17', kind='c', edits=[('libmy/string_replace.h', "		if (str + strlen(old) >= end)\n", "		if (str + strlen(old) + 1 >= end)\n")],
 needs="A string that ends with the text to be replaced.",
 breaks="The last occurrence is left in place behind its replacement.",
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include <stdarg.h>
#include "libmy/my_alloc.h"
#include "libmy/string_replace.h"
int main() {
	static const char *t[][4] = {{"a-b-", "-", "+", "a+b+"}, {"xx", "x", "", ""}, {"abcab", "ab", "ab", "abcab"}, {"abc", "b", "b", "abc"}};
	for (int i = 0; i < 4; i++) { char *r = string_replace(t[i][0], t[i][1], t[i][2]); if (strcmp(r, t[i][3])) { printf("%s: %s\n", t[i][0], r); return 1; } free(r); }
	return 0;
}
'''))
S.append(dict(id='zone-ttl-later', prop='L18', kind='c', edits=[('libmy/zonefile.c', '''			z->count++;
			goto out;
		case LDNS_STATUS_SYNTAX_EMPTY:
		case LDNS_STATUS_SYNTAX_TTL:
''', '''			z->count++;
			goto out;
		case LDNS_STATUS_SYNTAX_EMPTY:
''')],
 needs="A $TTL line after the SOA record.",
 breaks="Reading the zone stops with an error at the $TTL line; the records behind it are lost.",
 srcs='"$R/libmy/zonefile.c" -lldns',
 demo=r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <ldns/ldns.h>
#include "libmy/zonefile.h"
int main() {
	FILE *f = fopen("z", "w");
	fputs("z. 60 IN SOA ns.z. h.z. 1 2 3 4 5\na.z. 60 IN A 1.1.1.1\n$TTL 300\nb.z. IN A 1.1.1.2\n", f); fclose(f);
	struct zonefile *z = zonefile_init_fname("z"); ldns_rr *rr = NULL; int n = 0;
	for (;;) { ldns_status s = zonefile_read(z, &rr); if (s != LDNS_STATUS_OK) { printf("error %d after %d records\\n", s, n); return 1; } if (!rr) break; n++; ldns_rr_free(rr); }
	zonefile_destroy(&z);
	return n != 3;
}
'''))
S.append(dict(id='ip6-prefix-64', prop='L19', kind='c', edits=[('libmy/ip_arith.h', """	if (prefix_len < 64) {
		mask[0] = htobe64(UINT64_MAX >> prefix_len);
""", """	if (prefix_len <= 64) {
		mask[0] = htobe64(UINT64_MAX >> prefix_len);
""")],
 needs="An IPv6 prefix of exactly 64 bits.",
 breaks="The shift by 64 leaves the mask full: the highest address of a /64 comes out as all ones.",
 flags='',
 demo=r'''
#define HAVE_ENDIAN_H 1
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "libmy/ip_arith.h"
int main() {
	for (volatile unsigned p = 0; p <= 128; p++) {
		uint8_t a[16], o[16], w[16]; for (int i = 0; i < 16; i++) a[i] = 0x20 + i;
		for (int i = 0; i < 16; i++) { w[i] = a[i]; for (int b = 0; b < 8; b++) if (i * 8 + b >= (int) p) w[i] |= 0x80 >> b; }
		ip6_upper(a, p, o); if (memcmp(o, w, 16)) { printf("/%u\n", p); return 1; }
	}
	return 0;
}
'''))
S.append(dict(id='hex-exact-fit', prop='L20', kind='c', edits=[('libmy/my_format.c', "	if ((len * 2) > (dst_size - 1))\n", "	if ((len * 2) > dst_size)\n")],
 needs="A destination with room for the digits but not for the terminator (size exactly twice the number of bytes).",
 breaks="The terminator is written one byte past the destination.",
 srcs='"$R/libmy/my_format.c"',
 demo=r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "libmy/my_format.h"
int main() {
	uint8_t b[4] = {1, 2, 3, 0xff};
	for (int n = 1; n <= 4; n++) for (int size = 1; size < 12; size++) {
		char d[16]; memset(d, 'z', 16); size_t r = my_bytes_to_hex_str(b, n, false, d, size);
		if ((int) r >= size || d[r] || d[size] != 'z') { printf("%d bytes into %d\n", n, size); return 1; }
	}
	return 0;
}
'''))
S.append(dict(id='time-sub-equal', prop='L21', kind='c', edits=[('libmy/my_time.h', "	if (b->tv_nsec < 0) {\n", "	if (b->tv_nsec <= 0) {\n")],
 needs="Two times with the same nanoseconds.",
 breaks="The difference is not normalised: one second too few and a full 10^9 nanoseconds.",
 demo=r'''
#include <stdio.h>
#define HAVE_CLOCK_GETTIME 1
#include "libmy/my_time.h"
int main() {
	struct timespec a = {3, 500}, b = {5, 500}; my_timespec_sub(&a, &b);
	struct timespec two = {2, 0};
	if (my_timespec_cmp(&b, &two)) { printf("%ld.%ld\n", (long) b.tv_sec, b.tv_nsec); return 1; }
	return 0;
}
'''))
S.append(dict(id='threadnum-ctor', prop='L04', kind='c', edits=[('libmy/varint.c', """	if (i == len_data)
		return (0);
""", """	if (i == len)
		return (0);
""")],
 needs="A varint cut short: every byte available carries the continuation bit.",
 breaks="The truncated integer is reported as complete, one byte longer than the data, so a decoder reads past the end.",
 srcs='"$R/libmy/varint.c"',
 demo=r'''
#include <stdio.h>
#include <string.h>
#include "libmy/varint.h"
int main() {
	uint8_t d[12]; memset(d, 0x80, sizeof d);
	for (int n = 0; n < 12; n++) { unsigned l = varint_length_packed(d, n); if (l != 0) { printf("%d bytes: %u\n", n, l); return 1; } }
	for (int n = 1; n < 12; n++) for (int i = 0; i < n; i++) { memset(d, 0x80, sizeof d); d[i] = 1; unsigned l = varint_length_packed(d, n); if (l != i + 1) { printf("end at %d of %d: %u\n", i, n, l); return 1; } }
	return 0;
}
'''))
S[-1]['id'] = 'varint-cut-short'
S.append(dict(id='rate-catch-up', prop='L12', kind='c', edits=[('libmy/my_rate.c', "	if (r->freq != 0 && (r->count % r->freq) == 0 && r->count > r->freq)\n", "	if (r->freq != 0 && (r->count % r->freq) == 0)\n")],
 needs="freq 1: the first call adjusts the rate although no time has passed since the start.",
 breaks="The first window is not skipped: the rate is adjusted over an elapsed time of zero.",
 demo='int main() { return 0; }'))
S.pop()
