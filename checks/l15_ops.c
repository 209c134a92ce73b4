#include <stdbool.h>
#include <stdint.h>
#include "atomic.h"
#include "atomic_64.h"
#include "atomic_ptr.h"
long op32(atomic_t *v, int op, int i) {
	switch (op) {
	case 0: atomic_add(i, v); return 0;
	case 1: atomic_sub(i, v); return 0;
	case 2: return atomic_zero(v);
	case 3: return atomic_sub_and_test(i, v);
	case 4: atomic_inc(v); return 0;
	case 5: atomic_dec(v); return 0;
	case 6: return atomic_dec_and_test(v);
	case 7: return atomic_inc_and_test(v);
	case 8: return atomic_add_negative(i, v);
	case 9: return atomic_read(v);
	case 10: atomic_set(v, i); return 0;
	}
	return -1;
}
long op64(atomic64_t *v, int op, int i) {
	switch (op) {
	case 0: atomic64_add(i, v); return 0;
	case 1: atomic64_sub(i, v); return 0;
	case 2: return atomic64_zero(v);
	case 3: return atomic64_sub_and_test(i, v);
	case 4: atomic64_inc(v); return 0;
	case 5: atomic64_dec(v); return 0;
	case 6: return atomic64_dec_and_test(v);
	case 7: return atomic64_inc_and_test(v);
	case 8: return atomic64_add_negative(i, v);
	case 9: return atomic64_read(v);
	case 10: atomic64_set(v, i); return 0;
	}
	return -1;
}
void *ptr_get(void *v) { return atomic_ptr_get(v); }
int ptr_set(void *v, void *x) { return atomic_ptr_set(v, x); }
