#include "ip_arith.h"
void lo4(const void *a, unsigned n, void *o) { ip4_lower(a, n, o); }
void up4(const void *a, unsigned n, void *o) { ip4_upper(a, n, o); }
void inc4(void *a) { ip4_incr(a); }
void lo6(const void *a, unsigned n, void *o) { ip6_lower(a, n, o); }
void up6(const void *a, unsigned n, void *o) { ip6_upper(a, n, o); }
void inc6(void *a) { ip6_incr(a); }
