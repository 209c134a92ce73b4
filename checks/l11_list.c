#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "list.h"
#define MAXN 6
struct el { int id; ISC_LINK(struct el) other; ISC_LINK(struct el) link; int pad; };
typedef ISC_LIST(struct el) list;
static struct { struct el e[MAXN]; list l[2]; } A;
void *arena(size_t *n) { *n = sizeof A; return &A; }
void l_init(void) { memset(&A, 0, sizeof A); memset(A.l, 0x77, sizeof A.l); for (int i = 0; i < MAXN; i++) { A.e[i].id = i; ISC_LINK_INIT(&A.e[i], link); } ISC_LIST_INIT(A.l[0]); ISC_LIST_INIT(A.l[1]); }
static int ix(struct el *p) { if (!p) return -1; uintptr_t d = (uintptr_t)p - (uintptr_t)A.e; return d % sizeof *p || d / sizeof *p >= MAXN ? -3 : (int)(d / sizeof *p); }
void l_op(int op, int l, int i, int j) {
	struct el *e = &A.e[i], *b = &A.e[j];
	switch (op) {
	case 0: ISC_LIST_APPEND(A.l[l], e, link); break;
	case 1: ISC_LIST_PREPEND(A.l[l], e, link); break;
	case 2: ISC_LIST_INSERTBEFORE(A.l[l], b, e, link); break;
	case 3: ISC_LIST_INSERTAFTER(A.l[l], b, e, link); break;
	case 4: ISC_LIST_UNLINK(A.l[l], e, link); break;
	case 5: ISC_LIST_DEQUEUE(A.l[l], e, link); break;
	case 6: ISC_LIST_ENQUEUE(A.l[l], e, link); break;
	case 7: ISC_LIST_APPENDLIST(A.l[l], A.l[!l], link); break;
	case 8: ISC_LIST_INITANDAPPEND(A.l[l], e, link); break;
	case 9: ISC_LIST_INITANDPREPEND(A.l[l], e, link); break;
	case 10: ISC_LIST_UNLINK_TYPE(A.l[l], e, link, struct el); break;
	case 11: ISC_LIST_DEQUEUE_TYPE(A.l[l], e, link, struct el); break;
	case 12: ISC_LIST_INIT(A.l[l]); break;
	}
}
int l_head(int l) { return ix(ISC_LIST_HEAD(A.l[l])); }
int l_tail(int l) { return ix(ISC_LIST_TAIL(A.l[l])); }
int l_empty(int l) { list x = A.l[l]; return ISC_LIST_EMPTY(x); }
int l_next(int i) { return ix(ISC_LIST_NEXT(&A.e[i], link)); }
int l_prev(int i) { return ix(ISC_LIST_PREV(&A.e[i], link)); }
int l_linked(int i) { return ISC_LINK_LINKED(&A.e[i], link); }
