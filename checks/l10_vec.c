// growable arrays of several element types and byte buffers behind one byte-oriented interface
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "ubuf.h"
struct three { uint8_t b[3]; };
VECTOR_GENERATE(v4, uint32_t)
VECTOR_GENERATE(v3, struct three)
VECTOR_GENERATE(vp, void *)
struct vt { size_t es; void *(*init)(unsigned); void (*destroy)(void **); void (*append)(void *, const void *, size_t); void (*add)(void *, const void *); void (*extend)(void *, void *);
	void (*reserve)(void *, size_t); void (*clip)(void *, size_t); void (*reset)(void *); void (*detach)(void *, void **, size_t *); void (*reinit)(void *, unsigned); void (*advance)(void *, size_t);
	size_t (*size)(void *), (*bytes)(void *); void *(*data)(void *), *(*ptr)(void *); void (*value)(void *, size_t, void *); };
#define W(n, t) \
static void *n##_i(unsigned h) { return n##_init(h); } static void n##_d(void **v) { n##_destroy((n **)v); } \
static void n##_ap(void *v, const void *e, size_t k) { n##_append(v, e, k); } static void n##_ad(void *v, const void *e) { t x; memcpy(&x, e, sizeof x); n##_add(v, x); } \
static void n##_ex(void *v, void *w) { n##_extend(v, w); } static void n##_rv(void *v, size_t k) { n##_reserve(v, k); } static void n##_cl(void *v, size_t k) { n##_clip(v, k); } \
static void n##_rs(void *v) { n##_reset(v); } static void n##_dt(void *v, void **o, size_t *k) { t *p; n##_detach(v, &p, k); *o = p; } \
static void n##_ri(void *v, unsigned h) { free(n##_data(v)); n##_reinit(h, v); } static void n##_av(void *v, size_t k) { n##_advance(v, k); } \
static size_t n##_sz(void *v) { return n##_size(v); } static size_t n##_by(void *v) { return n##_bytes(v); } static void *n##_da(void *v) { return n##_data(v); } static void *n##_pt(void *v) { return n##_ptr(v); } \
static void n##_va(void *v, size_t i, void *o) { t x = n##_value(v, i); memcpy(o, &x, sizeof x); } \
const struct vt vt_##n = { sizeof(t), n##_i, n##_d, n##_ap, n##_ad, n##_ex, n##_rv, n##_cl, n##_rs, n##_dt, n##_ri, n##_av, n##_sz, n##_by, n##_da, n##_pt, n##_va };
W(ubuf, uint8_t) W(v4, uint32_t) W(v3, struct three) W(vp, void *)
void *u_new(void) { return ubuf_new(); }
void *u_dup(const char *s) { return ubuf_dup_cstr(s); }
void u_add_cstr(void *u, const char *s) { ubuf_add_cstr(u, s); }
void u_cterm(void *u) { ubuf_cterm(u); }
char *u_cstr(void *u) { return ubuf_cstr(u); }
void u_fmt(void *u, const char *s, int n) { ubuf_add_fmt(u, "<%s|%d>", s, n); }
void u_fmt0(void *u, const char *s) { ubuf_add_fmt(u, "%s", s); }
void u_rstrip(void *u, char c) { ubuf_rstrip(u, c); }
void u_lit(void *u) { ubuf_append_cstr_lit(u, "lit\0eral"); }
void u_append_cstr(void *u, const char *s, size_t n) { ubuf_append_cstr(u, s, n); }
