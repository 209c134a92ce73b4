#include <sys/types.h>
ssize_t fake_read(int fd, void *buf, size_t n);
#include <unistd.h>
#define read fake_read
#include "read_bytes.h"
bool rb(int fd, uint8_t *buf, size_t n) { return read_bytes(fd, buf, n); }
