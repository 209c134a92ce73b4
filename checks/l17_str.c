#include <assert.h>
#include "string_replace.h"
#include "print_string.h"
char *sr(const char *s, const char *o, const char *n) { return string_replace(s, o, n); }
void ps(const void *d, size_t n, FILE *f) { print_string(d, n, f); }
