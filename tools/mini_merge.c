/* mtbl_merge equivalent for validating the stand-ins: merges files with dnstable_merge_func and writes a
 * one-block uncompressed .mtbl that the stand-in reader understands. usage: mini_merge IN... OUT */
#include <stdio.h>
#include <string.h>
#include "dnstable.h"
static unsigned char *b; static size_t n, cap;
static void put(const void *p, size_t l) { if (n + l > cap) { cap = (n + l) * 2; b = realloc(b, cap); } memcpy(b + n, p, l); n += l; }
static void var(uint64_t v) { uint8_t t[10]; put(t, mtbl_varint_encode64(t, v)); }
static void le(uint64_t v, int w) { for (int i = 0; i < w; i++) { uint8_t c = v >> (8 * i); put(&c, 1); } }
int main(int ac, char **av) {
	struct mtbl_merger_options *o = mtbl_merger_options_init();
	mtbl_merger_options_set_merge_func(o, dnstable_merge_func, NULL);
	struct mtbl_merger *m = mtbl_merger_init(o);
	struct mtbl_reader *r[64]; int nr = 0;
	for (int i = 1; i < ac - 1; i++) {
		if (!(r[nr] = mtbl_reader_init(av[i], NULL))) { fprintf(stderr, "cannot open %s\n", av[i]); return 1; }
		mtbl_merger_add_source(m, mtbl_reader_source(r[nr++]));
	}
	struct mtbl_iter *it = mtbl_source_iter(mtbl_merger_source(m));
	const uint8_t *k, *v, *lastk = NULL; size_t lk, lv, cnt = 0; (void)lastk;
	uint8_t last[70000]; size_t ll = 0;
	while (mtbl_iter_next(it, &k, &lk, &v, &lv) == mtbl_res_success) {
		var(0); var(lk); var(lv); put(k, lk); put(v, lv); memcpy(last, k, lk); ll = lk; cnt++;
	}
	mtbl_iter_destroy(&it);
	le(0, 4); le(1, 4);
	unsigned char *body = b; size_t bn = n; b = NULL; n = cap = 0;
	var(bn); le(0, 4); put(body, bn);
	size_t idx = n; unsigned char *save;
	save = b; size_t sn = n; b = NULL; n = cap = 0;
	uint8_t t[10]; size_t tl = mtbl_varint_encode64(t, 0);
	var(0); var(ll); var(tl); put(last, ll); put(t, tl); le(0, 4); le(1, 4);
	unsigned char *ib = b; size_t in = n;
	b = save; n = sn; cap = sn;
	var(in); le(0, 4); put(ib, in);
	size_t tr = n;
	le(idx, 8); le(8192, 8); le(0, 8); le(cnt, 8); le(1, 8);
	while (n < tr + 508) le(0, 1);
	le(0x4D54424C, 4);
	FILE *f = fopen(av[ac - 1], "wb"); fwrite(b, 1, n, f); fclose(f);
	for (int i = 0; i < nr; i++) mtbl_reader_destroy(&r[i]);
	return 0;
}
