#include <time.h>
int fake_nanosleep(const struct timespec *q, struct timespec *rem);
#define nanosleep fake_nanosleep
#include "my_time.h"
void t_add(const struct timespec *a, struct timespec *b) { my_timespec_add(a, b); }
void t_sub(const struct timespec *a, struct timespec *b) { my_timespec_sub(a, b); }
int t_cmp(const struct timespec *a, const struct timespec *b) { return my_timespec_cmp(a, b); }
double t_to(const struct timespec *a) { return my_timespec_to_double(a); }
void t_from(double d, struct timespec *o) { my_timespec_from_double(d, o); }
void t_sleep(const struct timespec *a) { my_nanosleep(a); }
