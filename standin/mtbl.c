/* Stand-in for libmtbl. Keys/values are returned in exact-size heap blocks owned by the iterator and
 * released at its next call, so that AddressSanitizer sees over-reads and uses of stale pointers. */
#define _GNU_SOURCE
#include "mtbl.h"
#include <assert.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <limits.h>
#include <libgen.h>
#ifdef STANDIN_ZLIB
#include <zlib.h>
#endif

struct standin_knobs standin_knobs;
uint64_t standin_live_iters, standin_live_sources, standin_live_objects, standin_nexts, standin_files, standin_added, standin_merges, standin_set_merges, standin_seeks;

static void *xm(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
static void *xc(size_t n) { void *p = calloc(1, n); if (!p) abort(); return p; }

static int bcmp2(const uint8_t *a, size_t la, const uint8_t *b, size_t lb) {
	size_t l = la < lb ? la : lb;
	int r = l ? memcmp(a, b, l) : 0;
	if (r) return r;
	return la < lb ? -1 : la > lb;
}

/* ---- varint ---- */
unsigned mtbl_varint_length(uint64_t v) { unsigned n = 1; while (v >= 128) { v >>= 7; n++; } return n; }
unsigned mtbl_varint_length_packed(const uint8_t *d, size_t n) {
	size_t i = n;
	while (i--) { unsigned l = (unsigned)(n - i); if (!(*d++ & 0x80)) return l; }
	return 0;
}
size_t mtbl_varint_encode64(uint8_t *p, uint64_t v) {
	size_t n = 0;
	while (v >= 128) { p[n++] = (uint8_t)(v | 128); v >>= 7; }
	p[n++] = (uint8_t)v;
	return n;
}
size_t mtbl_varint_encode32(uint8_t *p, uint32_t v) { return mtbl_varint_encode64(p, v); }
size_t mtbl_varint_decode32(const uint8_t *p, uint32_t *v) {
	uint32_t r = 0; unsigned n;
	for (n = 0; n < 5; n++) {
		r |= (uint32_t)(p[n] & 127) << (7 * n);
		if (!(p[n] & 128)) { *v = r; return n + 1; }
	}
	*v = r;
	return 0;
}
size_t mtbl_varint_decode64(const uint8_t *p, uint64_t *v) {
	uint64_t r = 0; unsigned n;
	for (n = 0; n < 10; n++) {
		uint64_t b = p[n];
		r |= (b & 127) << (7 * n);
		if (!(b & 128)) { *v = r; return n + 1; }
	}
	*v = r;
	return 0;
}

/* ---- iter / source ---- */
struct mtbl_iter { mtbl_iter_seek_func seek; mtbl_iter_next_func next; mtbl_iter_free_func fre; void *clos; };
struct mtbl_iter *mtbl_iter_init(mtbl_iter_seek_func s, mtbl_iter_next_func n, mtbl_iter_free_func f, void *c) {
	struct mtbl_iter *it = xc(sizeof *it);
	it->seek = s; it->next = n; it->fre = f; it->clos = c;
	standin_live_iters++;
	return it;
}
void mtbl_iter_destroy(struct mtbl_iter **it) {
	if (*it) {
		if ((*it)->fre) (*it)->fre((*it)->clos);
		free(*it); *it = NULL; standin_live_iters--;
	}
}
mtbl_res mtbl_iter_seek(struct mtbl_iter *it, const uint8_t *k, size_t l) {
	if (!it) return mtbl_res_failure;
	return it->seek(it->clos, k, l);
}
mtbl_res mtbl_iter_next(struct mtbl_iter *it, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv) {
	if (!it) return mtbl_res_failure;
	return it->next(it->clos, k, lk, v, lv);
}
struct mtbl_source {
	mtbl_source_iter_func iter; mtbl_source_get_func get; mtbl_source_get_prefix_func prefix;
	mtbl_source_get_range_func range; mtbl_source_free_func fre; void *clos;
};
struct mtbl_source *mtbl_source_init(mtbl_source_iter_func i, mtbl_source_get_func g,
	mtbl_source_get_prefix_func p, mtbl_source_get_range_func r, mtbl_source_free_func f, void *c) {
	assert(i && g && p && r);
	struct mtbl_source *s = xc(sizeof *s);
	s->iter = i; s->get = g; s->prefix = p; s->range = r; s->fre = f; s->clos = c;
	standin_live_sources++;
	return s;
}
void mtbl_source_destroy(struct mtbl_source **s) {
	if (*s) { if ((*s)->fre) (*s)->fre((*s)->clos); free(*s); *s = NULL; standin_live_sources--; }
}
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *s) { return s->iter(s->clos); }
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *s, const uint8_t *k, size_t l) { return s->get(s->clos, k, l); }
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *s, const uint8_t *k, size_t l) { return s->prefix(s->clos, k, l); }
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *s, const uint8_t *k, size_t l,
	const uint8_t *k2, size_t l2) { return s->range(s->clos, k, l, k2, l2); }

/* ---- tables ---- */
struct table { unsigned refs; size_t n; struct standin_kv *kv; };
static struct table *table_new(const struct standin_kv *kv, size_t n) {
	struct table *t = xc(sizeof *t);
	t->refs = 1; t->n = n; t->kv = xm(n * sizeof *t->kv);
	for (size_t i = 0; i < n; i++) {
		uint8_t *k = xm(kv[i].len_key), *v = xm(kv[i].len_val);
		if (kv[i].len_key) memcpy(k, kv[i].key, kv[i].len_key);
		if (kv[i].len_val) memcpy(v, kv[i].val, kv[i].len_val);
		t->kv[i] = (struct standin_kv){k, kv[i].len_key, v, kv[i].len_val};
		if (i && bcmp2(t->kv[i-1].key, t->kv[i-1].len_key, k, kv[i].len_key) >= 0) {
			fprintf(stderr, "standin: table not sorted\n"); abort();
		}
	}
	return t;
}
static void table_unref(struct table *t) {
	if (--t->refs) return;
	for (size_t i = 0; i < t->n; i++) { free((void *)t->kv[i].key); free((void *)t->kv[i].val); }
	free(t->kv); free(t);
}
struct reg { char *name; struct table *t; char *set; struct reg *next; };
static struct reg *regs;
static struct reg *reg_find(const char *name, int set) {
	for (struct reg *r = regs; r; r = r->next)
		if ((r->set != NULL) == set && !strcmp(r->name, name)) return r;
	return NULL;
}
void standin_table(const char *name, const struct standin_kv *kv, size_t n) {
	struct reg *r = reg_find(name, 0);
	struct table *t = table_new(kv, n);
	if (r) { table_unref(r->t); r->t = t; return; }
	r = xc(sizeof *r); r->name = strdup(name); r->t = t; r->next = regs; regs = r;
}
void standin_setfile(const char *name, const char *c) {
	struct reg *r = reg_find(name, 1);
	if (r) { free(r->set); r->set = strdup(c); return; }
	r = xc(sizeof *r); r->name = strdup(name); r->set = strdup(c); r->next = regs; regs = r;
}
void standin_reset(void) {
	while (regs) {
		struct reg *r = regs; regs = r->next;
		if (r->t) table_unref(r->t);
		free(r->set); free(r->name); free(r);
	}
}

/* ---- table iterator ---- */
enum kind { K_ITER, K_GET, K_PREFIX, K_RANGE };
struct titer { struct table *t; enum kind kind; size_t pos; bool valid; uint8_t *k; size_t lk;
	uint8_t *ck, *cv; };
static size_t lower(struct table *t, const uint8_t *k, size_t lk) {
	size_t lo = 0, hi = t->n;
	while (lo < hi) {
		size_t m = lo + (hi - lo) / 2;
		if (bcmp2(t->kv[m].key, t->kv[m].len_key, k, lk) < 0) lo = m + 1; else hi = m;
	}
	return lo;
}
static void titer_drop(struct titer *it) { free(it->ck); free(it->cv); it->ck = it->cv = NULL; }
static mtbl_res titer_seek(void *c, const uint8_t *k, size_t lk) {
	struct titer *it = c;
	size_t p = lower(it->t, k, lk);
	standin_seeks++;
	titer_drop(it);
	it->pos = p;
	it->valid = true;
	return mtbl_res_success;
}
static mtbl_res titer_next(void *c, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv) {
	struct titer *it = c;
	standin_nexts++;
	titer_drop(it);
	if (!it->valid) return mtbl_res_failure;
	if (it->pos >= it->t->n) { it->valid = false; return mtbl_res_failure; }
	struct standin_kv *e = &it->t->kv[it->pos];
	switch (it->kind) {
	case K_ITER: break;
	case K_GET: if (bcmp2(e->key, e->len_key, it->k, it->lk) != 0) it->valid = false; break;
	case K_PREFIX: if (e->len_key < it->lk || memcmp(e->key, it->k, it->lk) != 0) it->valid = false; break;
	case K_RANGE: if (bcmp2(e->key, e->len_key, it->k, it->lk) > 0) it->valid = false; break;
	}
	if (!it->valid) return mtbl_res_failure;
	it->pos++;
	it->ck = malloc(e->len_key); it->cv = malloc(e->len_val);
	if (e->len_key) memcpy(it->ck, e->key, e->len_key);
	if (e->len_val) memcpy(it->cv, e->val, e->len_val);
	*k = it->ck; *lk = e->len_key; *v = it->cv; *lv = e->len_val;
	return mtbl_res_success;
}
static void titer_free(void *c) { struct titer *it = c; titer_drop(it); free(it->k); table_unref(it->t); free(it); }
static struct mtbl_iter *titer_new(struct table *t, enum kind kind, const uint8_t *from, size_t lf,
		const uint8_t *k, size_t lk) {
	size_t p = kind == K_ITER ? 0 : lower(t, from, lf);
	if (standin_knobs.null_iters && p >= t->n) return NULL;
	struct titer *it = xc(sizeof *it);
	it->t = t; t->refs++; it->kind = kind; it->pos = p; it->valid = true;
	it->k = xm(lk); if (lk) memcpy(it->k, k, lk);
	it->lk = lk;
	return mtbl_iter_init(titer_seek, titer_next, titer_free, it);
}

/* ---- reader ---- */
struct mtbl_reader { struct table *t; struct mtbl_source *src; };
static struct mtbl_iter *r_iter(void *c) { struct mtbl_reader *r = c; return titer_new(r->t, K_ITER, NULL, 0, NULL, 0); }
static struct mtbl_iter *r_get(void *c, const uint8_t *k, size_t l) { struct mtbl_reader *r = c; return titer_new(r->t, K_GET, k, l, k, l); }
static struct mtbl_iter *r_prefix(void *c, const uint8_t *k, size_t l) { struct mtbl_reader *r = c; return titer_new(r->t, K_PREFIX, k, l, k, l); }
static struct mtbl_iter *r_range(void *c, const uint8_t *k, size_t l, const uint8_t *k2, size_t l2) {
	struct mtbl_reader *r = c; return titer_new(r->t, K_RANGE, k, l, k2, l2); }

#ifdef STANDIN_ZLIB
static uint64_t le64(const uint8_t *p) { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | p[i]; return v; }
static uint32_t le32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
struct blk { uint8_t *d; size_t n; };
static void block_each(const uint8_t *d, size_t n, void (*f)(void *, const uint8_t *, size_t, const uint8_t *, size_t), void *c) {
	uint32_t nr = le32(d + n - 4);
	const uint8_t *p = d, *e = d + n - 4 - 4 * (size_t)nr;
	uint8_t key[70000]; size_t lk = 0;
	while (p < e) {
		uint32_t sh, ns, vl;
		p += mtbl_varint_decode32(p, &sh); p += mtbl_varint_decode32(p, &ns); p += mtbl_varint_decode32(p, &vl);
		memcpy(key + sh, p, ns); lk = sh + ns; p += ns;
		f(c, key, lk, p, vl);
		p += vl;
	}
}
struct load { const uint8_t *f; size_t n; int comp; struct standin_kv *kv; size_t cnt, cap; };
static void on_entry(void *c, const uint8_t *k, size_t lk, const uint8_t *v, size_t lv) {
	struct load *L = c;
	if (L->cnt == L->cap) { L->cap = L->cap ? L->cap * 2 : 64; L->kv = realloc(L->kv, L->cap * sizeof *L->kv); }
	uint8_t *kk = xm(lk), *vv = xm(lv); memcpy(kk, k, lk); memcpy(vv, v, lv);
	L->kv[L->cnt++] = (struct standin_kv){kk, lk, vv, lv};
}
static void load_block(struct load *L, size_t off, int comp, void (*f)(void *, const uint8_t *, size_t, const uint8_t *, size_t)) {
	uint64_t raw; size_t p = off + mtbl_varint_decode64(L->f + off, &raw);
	p += 4;
	if (comp == 0) { block_each(L->f + p, raw, f, L); return; }
	size_t cap = 1 << 20;
	uint8_t *o = xm(cap);
	for (;;) {
		uLongf dl = cap;
		int r = uncompress(o, &dl, L->f + p, raw);
		if (r == Z_OK) { block_each(o, dl, f, L); break; }
		if (r != Z_BUF_ERROR) { fprintf(stderr, "standin: zlib error\n"); abort(); }
		cap *= 2; o = realloc(o, cap);
	}
	free(o);
}
static void on_index(void *c, const uint8_t *k, size_t lk, const uint8_t *v, size_t lv) {
	struct load *L = c; uint64_t off; (void)k; (void)lk; (void)lv;
	mtbl_varint_decode64(v, &off);
	load_block(L, off, L->comp, on_entry);
}
static struct table *load_file(const char *fname) {
	FILE *fp = fopen(fname, "rb");
	if (!fp) return NULL;
	fseek(fp, 0, SEEK_END); long n = ftell(fp); rewind(fp);
	if (n < 512) { fclose(fp); return NULL; }
	uint8_t *d = xm(n);
	if (fread(d, 1, n, fp) != (size_t)n) abort();
	fclose(fp);
	const uint8_t *t = d + n - 512;
	uint32_t magic = le32(t + 508);
	if (magic != 0x4D54424Cu && magic != 0x77846676u) { free(d); return NULL; }
	struct load L = { d, n, (int)le64(t + 16), NULL, 0, 0 };
	load_block(&L, le64(t), 0, on_index);
	struct table *tb = table_new(L.kv, L.cnt);
	for (size_t i = 0; i < L.cnt; i++) { free((void *)L.kv[i].key); free((void *)L.kv[i].val); }
	free(L.kv); free(d);
	return tb;
}
#endif
static struct mtbl_reader *reader_from(struct table *t) {
	struct mtbl_reader *r = xc(sizeof *r);
	r->t = t; t->refs++;
	r->src = mtbl_source_init(r_iter, r_get, r_prefix, r_range, NULL, r);
	standin_live_objects++;
	return r;
}
struct mtbl_reader *mtbl_reader_init(const char *fname, const struct mtbl_reader_options *o) {
	(void)o;
	struct reg *g = reg_find(fname, 0);
	if (g) return reader_from(g->t);
#ifdef STANDIN_ZLIB
	struct table *t = load_file(fname);
	if (t) { struct mtbl_reader *r = reader_from(t); table_unref(t); return r; }
#endif
	return NULL;
}
void mtbl_reader_destroy(struct mtbl_reader **r) {
	if (*r) { mtbl_source_destroy(&(*r)->src); table_unref((*r)->t); free(*r); *r = NULL; standin_live_objects--; }
}
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *r) { return r->src; }

/* ---- merger ---- */
struct mtbl_merger_options { mtbl_merge_func mf; void *mc; mtbl_dupsort_func df; void *dc; };
struct mtbl_merger { unsigned refs; struct mtbl_merger_options o; const struct mtbl_source **s; size_t n; struct mtbl_source *src; int of_set; };
struct mtbl_merger_options *mtbl_merger_options_init(void) { standin_live_objects++; return xc(sizeof(struct mtbl_merger_options)); }
void mtbl_merger_options_destroy(struct mtbl_merger_options **o) { if (*o) { free(*o); *o = NULL; standin_live_objects--; } }
void mtbl_merger_options_set_merge_func(struct mtbl_merger_options *o, mtbl_merge_func f, void *c) { o->mf = f; o->mc = c; }
void mtbl_merger_options_set_dupsort_func(struct mtbl_merger_options *o, mtbl_dupsort_func f, void *c) { o->df = f; o->dc = c; }

struct mslot { struct mtbl_iter *it; const uint8_t *k, *v; size_t lk, lv; bool have, done; };
struct miter { struct mtbl_merger *m; struct mslot *s; size_t n; uint8_t *ck, *cv; size_t lk, lv; bool dead; };
static void mfill(struct mslot *s) {
	if (s->have || s->done) return;
	if (mtbl_iter_next(s->it, &s->k, &s->lk, &s->v, &s->lv) == mtbl_res_success) s->have = true; else s->done = true;
}
static int mcmp(struct miter *mi, size_t a, size_t b) {
	struct mslot *x = &mi->s[a], *y = &mi->s[b];
	int r = bcmp2(x->k, x->lk, y->k, y->lk);
	if (r) return r;
	if (mi->m->o.df) {
		r = mi->m->o.df(mi->m->o.dc, x->k, x->lk, x->v, x->lv, y->v, y->lv);
		if (r) return r;
	}
	return standin_knobs.merge_reverse ? (a > b ? -1 : 1) : (a < b ? -1 : 1);
}
static ssize_t mmin(struct miter *mi) {
	ssize_t best = -1;
	for (size_t i = 0; i < mi->n; i++) {
		mfill(&mi->s[i]);
		if (!mi->s[i].have) continue;
		if (best < 0 || mcmp(mi, i, (size_t)best) < 0) best = (ssize_t)i;
	}
	return best;
}
static void mdrop(struct miter *mi) { free(mi->ck); free(mi->cv); mi->ck = mi->cv = NULL; }
static mtbl_res miter_next(void *c, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv) {
	struct miter *mi = c;
	mdrop(mi);
	if (mi->dead) return mtbl_res_failure;
	ssize_t b = mmin(mi);
	if (b < 0) return mtbl_res_failure;
	struct mslot *s = &mi->s[b];
	mi->ck = malloc(s->lk); if (s->lk) memcpy(mi->ck, s->k, s->lk);
	mi->cv = malloc(s->lv); if (s->lv) memcpy(mi->cv, s->v, s->lv);
	mi->lk = s->lk; mi->lv = s->lv;
	s->have = false;
	if (mi->m->o.mf) {
		for (;;) {
			b = mmin(mi);
			if (b < 0 || bcmp2(mi->ck, mi->lk, mi->s[b].k, mi->s[b].lk) != 0) break;
			uint8_t *out = NULL; size_t lo = 0;
			standin_merges++; standin_set_merges += mi->m->of_set;
			mi->m->o.mf(mi->m->o.mc, mi->ck, mi->lk, mi->cv, mi->lv, mi->s[b].v, mi->s[b].lv, &out, &lo);
			free(mi->cv); mi->cv = out; mi->lv = lo;
			mi->s[b].have = false;
			if (out == NULL) { mi->dead = true; return mtbl_res_failure; }
			/* exact-size copy so that over-reads of the merged value are visible */
			uint8_t *ex = malloc(lo); if (lo) memcpy(ex, out, lo); free(out); mi->cv = ex;
		}
	}
	*k = mi->ck; *lk = mi->lk; *v = mi->cv; *lv = mi->lv;
	return mtbl_res_success;
}
static mtbl_res miter_seek(void *c, const uint8_t *k, size_t lk) {
	struct miter *mi = c;
	mdrop(mi);
	mi->dead = false;
	for (size_t i = 0; i < mi->n; i++) {
		mi->s[i].have = false;
		mi->s[i].done = mtbl_iter_seek(mi->s[i].it, k, lk) != mtbl_res_success;
	}
	return mtbl_res_success;
}
static void merger_unref(struct mtbl_merger *m) { if (--m->refs == 0) { free(m->s); free(m); } }
static void miter_free(void *c) {
	struct miter *mi = c;
	mdrop(mi);
	for (size_t i = 0; i < mi->n; i++) mtbl_iter_destroy(&mi->s[i].it);
	merger_unref(mi->m);
	free(mi->s); free(mi);
}
static struct mtbl_iter *miter_new(struct mtbl_merger *m, enum kind kind, const uint8_t *k, size_t l, const uint8_t *k2, size_t l2) {
	struct miter *mi = xc(sizeof *mi);
	size_t live = 0;
	mi->m = m; m->refs++; mi->n = m->n; mi->s = xc((m->n + 1) * sizeof *mi->s);
	for (size_t i = 0; i < m->n; i++) {
		const struct mtbl_source *s = m->s[i];
		mi->s[i].it = kind == K_ITER ? mtbl_source_iter(s) : kind == K_GET ? mtbl_source_get(s, k, l) :
			kind == K_PREFIX ? mtbl_source_get_prefix(s, k, l) : mtbl_source_get_range(s, k, l, k2, l2);
		if (mi->s[i].it) live++;
	}
	if (standin_knobs.null_iters && !live) { miter_free(mi); return NULL; }
	return mtbl_iter_init(miter_seek, miter_next, miter_free, mi);
}
static struct mtbl_iter *m_iter(void *c) { return miter_new(c, K_ITER, NULL, 0, NULL, 0); }
static struct mtbl_iter *m_get(void *c, const uint8_t *k, size_t l) { return miter_new(c, K_GET, k, l, NULL, 0); }
static struct mtbl_iter *m_prefix(void *c, const uint8_t *k, size_t l) { return miter_new(c, K_PREFIX, k, l, NULL, 0); }
static struct mtbl_iter *m_range(void *c, const uint8_t *k, size_t l, const uint8_t *k2, size_t l2) { return miter_new(c, K_RANGE, k, l, k2, l2); }
struct mtbl_merger *mtbl_merger_init(const struct mtbl_merger_options *o) {
	struct mtbl_merger *m = xc(sizeof *m);
	if (o) m->o = *o;
	m->refs = 1;
	m->src = mtbl_source_init(m_iter, m_get, m_prefix, m_range, NULL, m);
	standin_live_objects++;
	return m;
}
void mtbl_merger_destroy(struct mtbl_merger **m) {
	if (*m) { mtbl_source_destroy(&(*m)->src); merger_unref(*m); *m = NULL; standin_live_objects--; }
}
static void merger_add(struct mtbl_merger *m, const struct mtbl_source *s) {
	m->s = realloc(m->s, (m->n + 1) * sizeof *m->s);
	m->s[m->n++] = s;
}
void mtbl_merger_add_source(struct mtbl_merger *m, const struct mtbl_source *s) { standin_added++; merger_add(m, s); }
const struct mtbl_source *mtbl_merger_source(struct mtbl_merger *m) { return m->src; }

/* ---- fileset ---- */
struct mtbl_fileset_options { mtbl_merge_func mf; void *mc; mtbl_dupsort_func df; void *dc;
	mtbl_reader_filter_func rf; void *rc; mtbl_filename_filter_func ff; void *fc; };
struct mtbl_fileset_options *mtbl_fileset_options_init(void) { standin_live_objects++; return xc(sizeof(struct mtbl_fileset_options)); }
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **o) { if (*o) { free(*o); *o = NULL; standin_live_objects--; } }
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *o, mtbl_merge_func f, void *c) { o->mf = f; o->mc = c; }
void mtbl_fileset_options_set_dupsort_func(struct mtbl_fileset_options *o, mtbl_dupsort_func f, void *c) { o->df = f; o->dc = c; }
void mtbl_fileset_options_set_reader_filter_func(struct mtbl_fileset_options *o, mtbl_reader_filter_func f, void *c) { o->rf = f; o->rc = c; }
void mtbl_fileset_options_set_filename_filter_func(struct mtbl_fileset_options *o, mtbl_filename_filter_func f, void *c) { o->ff = f; o->fc = c; }

struct fs_member { char *fname; struct mtbl_reader *r; struct fs_member *next; };
struct fs_shared { unsigned refs; char *setfile; struct fs_member *all; struct fs_member **cur; size_t ncur; unsigned gen; };
struct mtbl_fileset { struct fs_shared *sh; struct mtbl_fileset_options o; struct mtbl_merger *m; unsigned gen; struct mtbl_source *src; };

static void fs_read(struct fs_shared *sh) {
	struct reg *g = reg_find(sh->setfile, 1);
	char *c = NULL; char dir[PATH_MAX] = "";
	if (g) c = strdup(g->set);
	else {
		FILE *fp = fopen(sh->setfile, "r");
		if (!fp) return;
		size_t cap = 1 << 16; c = xm(cap + 1);
		size_t n = fread(c, 1, cap, fp); c[n] = 0; fclose(fp);
		char *d = strdup(sh->setfile); snprintf(dir, sizeof dir, "%s/", dirname(d)); free(d);
	}
	/* members are compared by name and by table identity, so a replaced table is re-read */
	free(sh->cur); sh->cur = NULL; sh->ncur = 0;
	char *sv = NULL;
	char **names = NULL; size_t nn = 0;
	for (char *l = strtok_r(c, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) {
		char path[PATH_MAX * 2];
		snprintf(path, sizeof path, "%s%s", l[0] == '/' ? "" : dir, l);
		names = realloc(names, (nn + 1) * sizeof *names);
		names[nn++] = strdup(path);
	}
	for (size_t i = 0; i < nn; i++) {	/* libmtbl keeps members sorted by file name */
		for (size_t j = i + 1; j < nn; j++)
			if (strcmp(names[j], names[i]) < 0) { char *t = names[i]; names[i] = names[j]; names[j] = t; }
		struct reg *tg = reg_find(names[i], 0);
		struct fs_member *m;
		for (m = sh->all; m; m = m->next)
			if (!strcmp(m->fname, names[i]) && (!tg || m->r->t == tg->t)) break;
		if (!m) {
			struct mtbl_reader *r = mtbl_reader_init(names[i], NULL);
			if (!r) { free(names[i]); continue; }
			m = xc(sizeof *m); m->fname = strdup(names[i]); m->r = r; m->next = sh->all; sh->all = m;
		}
		sh->cur = realloc(sh->cur, (sh->ncur + 1) * sizeof *sh->cur);
		sh->cur[sh->ncur++] = m;
		free(names[i]);
	}
	free(names); free(c);
	sh->gen++;
}
static void fs_build(struct mtbl_fileset *f) {
	if (f->m && f->gen == f->sh->gen) return;
	mtbl_merger_destroy(&f->m);
	struct mtbl_merger_options mo = { f->o.mf, f->o.mc, f->o.df, f->o.dc };
	f->m = mtbl_merger_init(&mo);
	f->m->of_set = 1;
	if (f->o.rf) standin_files = 0;
	for (size_t i = 0; i < f->sh->ncur; i++) {
		struct fs_member *m = f->sh->cur[i];
		if (f->o.ff && !f->o.ff(m->fname, f->o.fc)) continue;
		if (f->o.rf && !f->o.rf(m->r, f->o.rc)) continue;
		if (f->o.rf) standin_files++;
		merger_add(f->m, mtbl_reader_source(m->r));
	}
	f->gen = f->sh->gen;
}
static struct mtbl_iter *f_iter(void *c) { struct mtbl_fileset *f = c; fs_build(f); return m_iter(f->m); }
static struct mtbl_iter *f_get(void *c, const uint8_t *k, size_t l) { struct mtbl_fileset *f = c; fs_build(f); return m_get(f->m, k, l); }
static struct mtbl_iter *f_prefix(void *c, const uint8_t *k, size_t l) { struct mtbl_fileset *f = c; fs_build(f); return m_prefix(f->m, k, l); }
static struct mtbl_iter *f_range(void *c, const uint8_t *k, size_t l, const uint8_t *k2, size_t l2) { struct mtbl_fileset *f = c; fs_build(f); return m_range(f->m, k, l, k2, l2); }
static struct mtbl_fileset *fs_new(struct fs_shared *sh, const struct mtbl_fileset_options *o) {
	struct mtbl_fileset *f = xc(sizeof *f);
	f->sh = sh; sh->refs++;
	if (o) f->o = *o;
	f->src = mtbl_source_init(f_iter, f_get, f_prefix, f_range, NULL, f);
	standin_live_objects++;
	if (!standin_knobs.lazy_filter) fs_build(f);
	return f;
}
struct mtbl_fileset *mtbl_fileset_init(const char *fname, const struct mtbl_fileset_options *o) {
	struct fs_shared *sh = xc(sizeof *sh);
	sh->setfile = strdup(fname);
	fs_read(sh);
	return fs_new(sh, o);
}
struct mtbl_fileset *mtbl_fileset_dup(struct mtbl_fileset *f, const struct mtbl_fileset_options *o) { return fs_new(f->sh, o); }
void mtbl_fileset_destroy(struct mtbl_fileset **pf) {
	struct mtbl_fileset *f = *pf;
	if (!f) return;
	mtbl_merger_destroy(&f->m);
	mtbl_source_destroy(&f->src);
	if (--f->sh->refs == 0) {
		while (f->sh->all) {
			struct fs_member *m = f->sh->all; f->sh->all = m->next;
			mtbl_reader_destroy(&m->r); free(m->fname); free(m);
		}
		free(f->sh->cur); free(f->sh->setfile); free(f->sh);
	}
	free(f); *pf = NULL; standin_live_objects--;
}
void mtbl_fileset_reload(struct mtbl_fileset *f) { (void)f; }
void mtbl_fileset_reload_now(struct mtbl_fileset *f) { fs_read(f->sh); if (!standin_knobs.lazy_filter) fs_build(f); }
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *f) { return f->src; }
