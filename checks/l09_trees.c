// the two kinds of tree over nodes in one arena which can be saved and restored
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "tree.h"
#define MAXN 12
struct node { int key; long before; RB_ENTRY(node) rb; long between; SPLAY_ENTRY(node) sp; long after; };
static int cmp(struct node *a, struct node *b) { return a->key < b->key ? -5 : a->key > b->key ? 9 : 0; }
static struct { struct node n[MAXN + 1]; RB_HEAD(rbt, node) rb; SPLAY_HEAD(spt, node) sp; } A;
RB_PROTOTYPE(rbt, node, rb, cmp)
RB_GENERATE(rbt, node, rb, cmp)
SPLAY_PROTOTYPE(spt, node, sp, cmp)
SPLAY_GENERATE(spt, node, sp, cmp)
void *arena(size_t *n) { *n = sizeof A; return &A; }
void arena_init(void) { memset(&A, 0, sizeof A); for (int i = 0; i <= MAXN; i++) A.n[i].key = 2 * i; RB_INIT(&A.rb); SPLAY_INIT(&A.sp); }
// forget what an unlinked node's links say
void arena_forget(int i) { int k = A.n[i].key; memset(&A.n[i], 0, sizeof A.n[i]); A.n[i].key = k; }
static int ix(struct node *n) { if (!n) return -1; uintptr_t d = (uintptr_t)n - (uintptr_t)A.n; return d % sizeof *n || d / sizeof *n > MAXN ? -3 : (int)(d / sizeof *n); }
static struct node *probe(int key) { static struct node p; memset(&p, 0x41, sizeof p); p.key = key; return &p; }
// large trees, in nodes of their own
#define BIGN 5000
static struct node G[BIGN]; static struct rbt grb; static struct spt gsp;
void big_init(void) { memset(G, 0x41, sizeof G); for (int i = 0; i < BIGN; i++) G[i].key = 2 * i; RB_INIT(&grb); SPLAY_INIT(&gsp); }
static int gx(struct node *n) { if (!n) return -1; uintptr_t d = (uintptr_t)n - (uintptr_t)G; return d % sizeof *n || d / sizeof *n >= BIGN ? -3 : (int)(d / sizeof *n); }
int big_rb(int op, int i) {
	switch (op) {
	case 0: return gx(RB_INSERT(rbt, &grb, &G[i])); case 1: return gx(RB_REMOVE(rbt, &grb, &G[i])); case 2: return gx(RB_FIND(rbt, &grb, probe(i))); case 3: return gx(RB_NFIND(rbt, &grb, probe(i)));
	case 4: return gx(RB_NEXT(rbt, &grb, &G[i])); case 5: return gx(RB_PREV(rbt, &grb, &G[i])); case 6: return gx(RB_MIN(rbt, &grb)); case 7: return gx(RB_MAX(rbt, &grb));
	case 8: return gx(RB_ROOT(&grb)); case 9: return gx(RB_LEFT(&G[i], rb)); case 10: return gx(RB_RIGHT(&G[i], rb)); case 11: return gx(RB_PARENT(&G[i], rb)); case 12: return RB_COLOR(&G[i], rb) == RB_RED; default: return RB_EMPTY(&grb);
	}
}
int big_sp(int op, int i) {
	struct node *r;
	switch (op) {
	case 0: r = SPLAY_INSERT(spt, &gsp, &G[i]); return r == &G[i] ? -1 : gx(r); case 1: return gx(SPLAY_REMOVE(spt, &gsp, &G[i])); case 2: return gx(SPLAY_FIND(spt, &gsp, probe(i)));
	case 4: return gx(SPLAY_NEXT(spt, &gsp, &G[i])); case 6: return gx(SPLAY_MIN(spt, &gsp)); case 7: return gx(SPLAY_MAX(spt, &gsp)); default: return SPLAY_EMPTY(&gsp);
	}
}
// keys are twice the index, so that odd keys fall between
int rb_insert(int i) { return ix(RB_INSERT(rbt, &A.rb, &A.n[i])); }
int rb_insert_dup(int i) { return ix(RB_INSERT(rbt, &A.rb, probe(2 * i))); }
int rb_remove(int i) { return ix(RB_REMOVE(rbt, &A.rb, &A.n[i])); }
int rb_find(int key) { return ix(RB_FIND(rbt, &A.rb, probe(key))); }
int rb_nfind(int key) { return ix(RB_NFIND(rbt, &A.rb, probe(key))); }
int rb_next(int i) { return ix(RB_NEXT(rbt, &A.rb, &A.n[i])); }
int rb_prev(int i) { return ix(RB_PREV(rbt, &A.rb, &A.n[i])); }
int rb_min(void) { return ix(RB_MIN(rbt, &A.rb)); }
int rb_max(void) { return ix(RB_MAX(rbt, &A.rb)); }
int rb_empty(void) { return RB_EMPTY(&A.rb); }
int rb_each(int rev, int *out) { int n = 0; struct node *x; if (rev) RB_FOREACH_REVERSE(x, rbt, &A.rb) { if (n > MAXN) return -1; out[n++] = ix(x); } else RB_FOREACH(x, rbt, &A.rb) { if (n > MAXN) return -1; out[n++] = ix(x); } return n; }
int rb_root(void) { return ix(RB_ROOT(&A.rb)); }
int rb_left(int i) { return ix(RB_LEFT(&A.n[i], rb)); }
int rb_right(int i) { return ix(RB_RIGHT(&A.n[i], rb)); }
int rb_parent(int i) { return ix(RB_PARENT(&A.n[i], rb)); }
int rb_red(int i) { return RB_COLOR(&A.n[i], rb) == RB_RED; }
int sp_insert(int i) { struct node *r = SPLAY_INSERT(spt, &A.sp, &A.n[i]); return r == &A.n[i] ? -2 : ix(r); }
int sp_insert_dup(int i) { return ix(SPLAY_INSERT(spt, &A.sp, probe(2 * i))); }
int sp_remove(int i) { return ix(SPLAY_REMOVE(spt, &A.sp, &A.n[i])); }
int sp_remove_key(int key) { return ix(SPLAY_REMOVE(spt, &A.sp, probe(key))); }
int sp_find(int key) { return ix(SPLAY_FIND(spt, &A.sp, probe(key))); }
int sp_next(int i) { return ix(SPLAY_NEXT(spt, &A.sp, &A.n[i])); }
int sp_min(void) { return ix(SPLAY_MIN(spt, &A.sp)); }
int sp_max(void) { return ix(SPLAY_MAX(spt, &A.sp)); }
int sp_empty(void) { return SPLAY_EMPTY(&A.sp); }
int sp_each(int *out) { int n = 0; struct node *x; SPLAY_FOREACH(x, spt, &A.sp) { if (n > MAXN) return -1; out[n++] = ix(x); } return n; }
int sp_root(void) { return ix(SPLAY_ROOT(&A.sp)); }
int sp_left(int i) { return ix(SPLAY_LEFT(&A.n[i], sp)); }
int sp_right(int i) { return ix(SPLAY_RIGHT(&A.n[i], sp)); }
