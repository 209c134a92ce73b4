S = []
S.append(dict(id='raw-type-in-prefix', prop='Q04', edits=[('dnstable/query.c', """	 * Note: even though this function does not use it->query->do_rrtype
	 * or call add_rrtype_to_key(), if do_rrtype is set then the post-query
	 * filter processing in it->filter_rrtype will filter the results by rrtype.
	 */
""", """	 * The rrtype follows the rdata in the key, so let the key prefix
	 * narrow the search down.
	 */
	if (it->query->do_rrtype)
		add_rrtype_to_key(it->key, it->query->rrtype);
""")],
 needs="A raw lookup with an RR type whose bytes are only the beginning of the rdata.",
 breaks="Records whose rdata is longer than the given bytes are no longer found when a type is given.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {rdata(B("\5hello",6), 16, "a.z"), rdata(ip4(5,104,1,1), 1, "b.z")});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_RAW);
	assert(dnstable_query_set_data(q, "0568") == dnstable_res_success && dnstable_query_set_rrtype(q, "TXT") == dnstable_res_success);
	Bs r = run(q, t.r); dnstable_query_destroy(&q);
	printf("%zu\n", r.size()); return r.size() != 1;
}
'''))
S.append(dict(id='fence-both-sides', prop='Q05', edits=[('dnstable/query.c', """		*match = prefilter && q->do_time_last_after;
""", """		*match = q->do_time_last_after;
""")],
 needs="A lookup with both a first-seen-before and a last-seen-after limit, and a record first seen too late.",
 breaks="With a last-seen-after limit the first-seen-before limit is no longer applied.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 100, 500), rrset("b.z", 1, "z", {ip4(1,1,1,1)}, 300, 500)});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET);
	dnstable_query_set_data(q, "*.z"); u64 fb = 200, la = 400;
	dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, &fb, 8);
	dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &la, 8);
	Bs r = run(q, t.r); dnstable_query_destroy(&q);
	printf("%zu\n", r.size()); return r.size() != 1 || r[0].find("a.z.") == B::npos;
}
'''))
S.append(dict(id='dupsort-last-ties', prop='Q07', edits=[('dnstable/query.c', """			return 1;
		if (time_last0 < time_last1)
			return -1;
		if (time_last0 > time_last1)
			return 1;
		return 0;
""", """			return 1;
		return 0;
""")],
 needs="An unaggregated lookup over a set of files holding the same record with equal first-seen times; the later one in the earlier file.",
 breaks="Such records are no longer ordered by their last-seen times.",
 demo=r'''#include "kit.hpp"
int main() {
	table("x", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 100, 900)}); table("y", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 100, 300)}); table("w", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 100, 600)});
	int bad = 0;
	for (const char *s : {"x\ny\nw\n", "y\nx\nw\n", "w\nx\ny\n", "w\ny\nx\n"}) {
		standin_setfile("set", s); struct dnstable_reader *rd = dnstable_reader_init_setfile("set");
		struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET); dnstable_query_set_data(q, "a.z"); dnstable_query_set_aggregated(q, false);
		Bs r = run(q, rd); dnstable_query_destroy(&q); dnstable_reader_destroy(&rd);
		if (r.size() != 3 || r[0].find(":300") == B::npos || r[1].find(":600") == B::npos || r[2].find(":900") == B::npos) { printf("%s: wrong order\n", s); bad = 1; }
	}
	return bad;
}
'''))
S.append(dict(id='address-after-range', prop='Q10', edits=[('dnstable/query.c', """	memcpy(q->ip1, ip, sizeof(ip));
	q->len_ip1 = len_ip;
	q->len_ip2 = 0;
""", """	memcpy(q->ip1, ip, sizeof(ip));
	q->len_ip1 = len_ip;
""")],
 needs="A query given a range or prefix first and a single address afterwards.",
 breaks="The end of the earlier range stays in effect.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {rdata(ip4(10,0,0,1), 1, "a.z"), rdata(ip4(10,0,0,2), 1, "b.z")});
	Table t("t"); struct dnstable_query *q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_IP);
	dnstable_query_set_data(q, "10.0.0.0/24"); dnstable_query_set_data(q, "10.0.0.1");
	Bs r = run(q, t.r); dnstable_query_destroy(&q);
	printf("%zu\n", r.size()); return r.size() != 1;
}
'''))
S.append(dict(id='listing-stops', prop='R01', edits=[('dnstable/reader.c', """		if (*ent == NULL)
			continue;
""", """		if (*ent == NULL)
			return (dnstable_res_failure);
""")],
 needs="A section holding an entry which cannot be decoded before others which can.",
 breaks="A section listing ends at the first entry which cannot be decoded.",
 demo=r'''#include "kit.hpp"
int main() {
	table("t", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}), {u8(0) + B("\1b"), trip(1, 2, 3)}, rrset("c.z", 1, "z", {ip4(1,1,1,1)})});
	Table t("t"); struct dnstable_iter *it = dnstable_reader_iter_rrset(t.r); Bs r = drain(it); dnstable_iter_destroy(&it);
	printf("%zu\n", r.size()); return r.size() != 2;
}
'''))
TOOL = {'tool.c': '#define main tool_main\n#include "src/dnstable_lookup.c"\n'}
S.append(dict(id='lookup-local-time', prop='T01', edits=[('src/dnstable_lookup.c', """		time_t t = timegm(&tt);
""", """		time_t t = mktime(&tt);
""")],
 needs="A date given to the lookup tool in a time zone other than UTC.",
 breaks="Dates on the command line are taken for local time, while all times in the database and output are UTC.",
 files=TOOL,
 demo=r'''#include "kit.hpp"
#include <unistd.h>
extern "C" int tool_main(int, char **);
int main() {
	setenv("TZ", "ABC8", 1); setenv("DNSTABLE_FNAME", "t", 1); unsetenv("DNSTABLE_SETFILE");
	table("t", {rrset("a.z", 1, "z", {ip4(1,1,1,1)}, 90000, 90000)});
	freopen("out", "w", stdout); freopen("err", "w", stderr);
	const char *a[] = {"dnstable_lookup", "-j", "-a", "1970-01-02", "rrset", "a.z", NULL};
	if (tool_main(6, (char **)a)) return 1;
	fflush(stdout); return ftell(stdout) <= 0;
}
'''))
S.append(dict(id='lookup-limit-overrun', prop='T01', edits=[('src/dnstable_lookup.c', """		my_timespec_add(&g_interval, &next);
		if (g_deadline.tv_sec != 0 && my_timespec_cmp(&next, &g_deadline) > 0)
			next = g_deadline;	/* Next interval can't exceed absolute deadline */
""", """		my_timespec_add(&g_interval, &next);
""")],
 needs="Both a time limit and an interval, the limit no multiple of the interval, and a lookup which takes longer than the limit.",
 breaks="Reading goes on beyond the time limit until the next interval ends.",
 files=TOOL,
 demo=r'''#include "kit.hpp"
#include <time.h>
extern "C" int tool_main(int, char **);
static u64 now_ms = 1000000;
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept { now_ms += 100; t->tv_sec = now_ms / 1000; t->tv_nsec = now_ms % 1000 * 1000000; return 0; }
int main() {
	setenv("DNSTABLE_FNAME", "t", 1); unsetenv("DNSTABLE_SETFILE");
	std::vector<KV> v; for (int i = 0; i < 500; i++) v.push_back(rrset("x" + std::to_string(i) + ".z", 1, "z", {ip4(1,1,1,1)}));
	table("t", v);
	freopen("out", "w", stdout); freopen("err", "w", stderr);
	const char *a[] = {"dnstable_lookup", "-t", "5", "-i", "4", "rrset", "*.z", NULL};
	u64 t0 = now_ms; if (tool_main(7, (char **)a)) return 1;
	fprintf(stderr, "took %llu ms\n", (unsigned long long)(now_ms - t0)); return now_ms - t0 > 6500;
}
'''))
S.append(dict(id='dump-percent', prop='T02', edits=[('src/dnstable_dump.c', """			fputs(s, stdout);
""", """			printf(s);
""")],
 needs="A name or rdata holding a percent sign.",
 breaks="Percent signs in the dumped data are taken for conversions.",
 files={'tool.c': '#define main tool_main\n#include "src/dnstable_dump.c"\n', 'a.c': '#include "libmy/argv.c"\n'},
 demo=r'''#include "kit.hpp"
extern "C" int tool_main(int, char **);
int main() {
	table("t", {rrset("50%%.z", 1, "z", {ip4(1,1,1,1)})});
	freopen("out", "w", stdout);
	const char *a[] = {"dnstable_dump", "-r", "-j", "t", NULL};
	if (tool_main(4, (char **)a)) return 1;
	fclose(stdout); FILE *f = fopen("out", "r"); char b[1000] = ""; fread(b, 1, 999, f);
	return strstr(b, "50%%.z.") == NULL;
}
'''))
S.append(dict(id='merge-misuse-status', prop='T03', kind='c', edits=[('src/dnstable_merge.sh.in', """    exit 1
""", """    exit
""")],
 needs="The merge command called with too few files.",
 breaks="Misuse of the merge command is reported as success.", flags='-DREPO="\\"$R\\""',
 demo=r'''
#include <stdlib.h>
#include <stdio.h>
int main() {
	int a = system("sh " REPO "/src/dnstable_merge.sh.in > out 2>&1"), b = system("sh " REPO "/src/dnstable_merge.sh.in one > out 2>&1");
	printf("%d %d\n", a, b); return a == 0 || b == 0;
}
'''))
S.append(dict(id='base32-low-bit', prop='L05', kind='c', edits=[('libmy/b32_decode.c', """				((s[4] >> 1) & 0x0f);
""", """				((s[4] >> 1) & 0x07);
""")],
 needs="A text whose fifth character stands for sixteen or more.",
 breaks="One bit of the third decoded byte is lost.",
 demo=r'''
#include <stdio.h>
#include <string.h>
#include <stdbool.h>
#include "libmy/b32_decode.c"
int main() { unsigned char o[8]; size_t n = base32_decode(o, 8, "VVVVVVVV", 8); printf("%zu %x\n", n, o[2]); return n != 5 || memcmp(o, "\xff\xff\xff\xff\xff", 5); }
'''))
S.append(dict(id='crc-tail-three', prop='L07', kind='c', edits=[('libmy/crc32c-sse42.c', """	case 3:
		crc32bit = my_asm_crc32_u8(crc32bit, *p++);
	case 2:
		crc32bit = my_asm_crc32_u16(crc32bit, *(uint16_t *) p);
		break;
""", """	case 3:
		crc32bit = my_asm_crc32_u8(crc32bit, p[2]);
	case 2:
		crc32bit = my_asm_crc32_u16(crc32bit, *(uint16_t *) p);
		break;
""")],
 needs="A length of 3 more than a multiple of 8, on a processor with the CRC instruction.",
 breaks="The last three bytes are taken in the wrong order.",
 demo=r'''
#include <stdio.h>
#include "libmy/crc32c-slicing.c"
#include "libmy/crc32c-sse42.c"
int main() { if (!my_crc32c_sse42_supported()) return 0; unsigned a = my_crc32c_slicing((const uint8_t *)"abcdefghijk", 11), b = my_crc32c_sse42((const uint8_t *)"abcdefghijk", 11); printf("%x %x\n", a, b); return a != b; }
''', flags='-fsanitize=address'))
S.append(dict(id='list-append-list', prop='L11', kind='c', edits=[('libmy/list.h', """			(list2).head->link.prev = (list1).tail; \\
			(list1).tail = (list2).tail; \\
""", """			(list1).tail = (list2).tail; \\
			(list2).head->link.prev = (list1).tail; \\
""")],
 needs="Two non-empty lists joined and then walked backwards, or an element at the seam removed.",
 breaks="The first element of the appended list points back to the end of the joined list.",
 demo=r'''
#include <stdio.h>
#include "libmy/list.h"
struct e { int v; ISC_LINK(struct e) link; };
int main() {
	struct e a[3] = {{1}, {2}, {3}}; ISC_LIST(struct e) x, y; ISC_LIST_INIT(x); ISC_LIST_INIT(y);
	ISC_LIST_APPEND(x, &a[0], link); ISC_LIST_APPEND(y, &a[1], link); ISC_LIST_APPEND(y, &a[2], link);
	ISC_LIST_APPENDLIST(x, y, link);
	int n = 0, s = 0; for (struct e *p = ISC_LIST_TAIL(x); p && n < 10; p = ISC_LIST_PREV(p, link)) { n++; s = s * 10 + p->v; }
	printf("%d %d\n", n, s); return n != 3 || s != 321;
}
''', flags='-fsanitize=address'))
S.append(dict(id='rate-stale-now', prop='L12', kind='c', edits=[('libmy/my_rate.c', """
		/* re-fetch the current time */
		my_gettime(rate_clock, &now);
	}
""", """	}
""")],
 needs="Two calls in a row where the first had to wait.",
 breaks="The next tick is computed from the time before the wait, so that the following call does not wait at all.",
 demo=r'''
#include <stdio.h>
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#define HAVE_CLOCK_GETTIME 1
#define HAVE_CLOCK_NANOSLEEP 1
static long long now = 5000000000LL + 123;
static int get(clockid_t c, struct timespec *t) { t->tv_sec = now / 1000000000; t->tv_nsec = now % 1000000000; return 0; }
static int slp(clockid_t c, int f, const struct timespec *t, struct timespec *r) { long long x = t->tv_sec * 1000000000LL + t->tv_nsec; if (x > now) now = x; return 0; }
#define clock_gettime get
#define clock_nanosleep slp
#include "libmy/my_rate.c"
int main() {
	struct my_rate *r = my_rate_init(10, 0); long long s = now;
	for (int i = 0; i < 20; i++) my_rate_sleep(r);
	printf("20 calls took %lld ms\n", (now - s) / 1000000); return now - s < 1900000000LL;
}
'''))
S.append(dict(id='argv-negative-stays', prop='L13', kind='c', edits=[('libmy/argv.c', """	      /* we actually used it so we advance the queue tail position */
	      (*queue_tail_p)++;
	      continue;
""", """	      continue;
""")],
 needs="An option whose value is a negative number, followed by another value.",
 breaks="The option keeps waiting after it got its value: the next value overwrites it.",
 demo=r'''
#include "libmy/argv.c"
static int n; static char *f;
static argv_t args[] = { {'n', "num", ARGV_INT, &n, "n", "n"}, {ARGV_MAND, NULL, ARGV_CHAR_P, &f, "f", "f"}, {ARGV_LAST} };
int main() {
	char *v[] = {"p", "-n", "-5", "file", NULL}; argv_interactive = 0;
	int r = argv_process(args, 4, v); printf("%d n=%d f=%s\n", r, n, f ? f : "(none)");
	return r != 0 || n != -5 || !f || strcmp(f, "file");
}
''', flags=''))
S.append(dict(id='hash-tail-halfword', prop='L14', kind='c', edits=[('libmy/lookup3.c', """    case 7 : b+=((uint32_t)k8[6])<<16;      /* fall through */
    case 6 : b+=k[2];
             a+=k[0]+(((uint32_t)k[1])<<16);
             break;
    case 5 : b+=k8[4];                      /* fall through */
    case 4 : a+=k[0]+(((uint32_t)k[1])<<16);
             break;
    case 3 : a+=((uint32_t)k8[2])<<16;      /* fall through */
    case 2 : a+=k[0];
             break;
    case 1 : a+=k8[0];
             break;
    case 0 : return c;                     /* zero length requires no mixing */
    }
""", """    case 7 : b+=((uint32_t)k8[6])<<24;      /* fall through */
    case 6 : b+=k[2];
             a+=k[0]+(((uint32_t)k[1])<<16);
             break;
    case 5 : b+=k8[4];                      /* fall through */
    case 4 : a+=k[0]+(((uint32_t)k[1])<<16);
             break;
    case 3 : a+=((uint32_t)k8[2])<<16;      /* fall through */
    case 2 : a+=k[0];
             break;
    case 1 : a+=k8[0];
             break;
    case 0 : return c;                     /* zero length requires no mixing */
    }
""")],
 needs="Seven bytes (modulo twelve) at an address which is even but no multiple of four.",
 breaks="The hash of such a buffer depends on its alignment.",
 demo=r'''
#include <stdio.h>
#include <string.h>
#include "libmy/lookup3.c"
int main() {
	static uint32_t m[8]; char *p = (char *)m; memcpy(p, "abcdefg", 7); unsigned a = my_hashlittle(p, 7, 5); memmove(p + 2, "abcdefg", 7); unsigned b = my_hashlittle(p + 2, 7, 5);
	printf("%x %x\n", a, b); return a != b;
}
''', flags=''))
S.append(dict(id='threadnum-outside', prop='L15', kind='c', edits=[('libmy/threadnum.c', """	threadnum = next_threadnum;
	next_threadnum += 1;
	pthread_mutex_unlock(&lock);
""", """	threadnum = next_threadnum;
	pthread_mutex_unlock(&lock);
	next_threadnum += 1;
""")],
 needs="A thread registering right after another released the lock.",
 breaks="Two threads get the same number.",
 demo=r'''
#include <stdio.h>
#include <pthread.h>
static int hook(pthread_mutex_t *m);
#define pthread_mutex_unlock hook
#include "libmy/threadnum.c"
#undef pthread_mutex_unlock
static int depth, other = -1;
static void *second(void *x) { my_threadnum_register(); other = my_threadnum(); return NULL; }
static int hook(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); if (!depth++) { pthread_t t; pthread_create(&t, NULL, second, NULL); pthread_join(t, NULL); } return r; }
int main() { my_threadnum_register(); int a = my_threadnum(); printf("%d %d\n", a, other); return a == other; }
''', flags=''))
S.append(dict(id='read-forever', prop='L16', kind='c', edits=[('libmy/read_bytes.h', """		else if (bytes_read <= 0)
""", """		else if (bytes_read < 0)
""")],
 needs="The end of the file before all bytes were read.",
 breaks="Reading from a file which is too short never returns.",
 demo=r'''
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include "libmy/read_bytes.h"
int main() {
	int p[2]; uint8_t b[8]; if (pipe(p)) return 2; write(p[1], "abc", 3); close(p[1]); alarm(5);
	return read_bytes(p[0], b, 5) ? 1 : 0;
}
''', flags=''))
S.append(dict(id='rdata-key-one-byte', prop='E02', edits=[('dnstable/entry.c', """	if (len_buf < sizeof(uint16_t))
		return (dnstable_res_failure);

	/* data length */
""", """	/* data length */
""")],
 needs="An rdata key of one or two bytes.",
 breaks="The length field is read from before the key.",
 demo=r'''#include "kit.hpp"
int main() {
	for (size_t n = 1; n < 3; n++) { uint8_t *k = (uint8_t *)malloc(n); memset(k, 2, n); struct dnstable_entry *e = dnstable_entry_decode(k, n, (const uint8_t *)"\1\2\3", 3); if (e) return 1; free(k); }
	return 0;
}
'''))
