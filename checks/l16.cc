// L16: reading a byte count under every sequence of read outcomes.
#include "vf.hpp"
extern "C" { bool rb(int fd, uint8_t *buf, size_t n); ssize_t fake_read(int fd, void *buf, size_t n); }
using namespace vf;
static Ctx *C; static struct { size_t need, got; uint8_t *buf; int calls, eintrs, end; } W;
static uint8_t content(size_t i) { return i * 7 + 3; }
extern "C" ssize_t fake_read(int fd, void *buf, size_t n) {
	Ctx &c = *C; c.step();
	if (W.end) c.fail("read", "another read after the end or an error");
	if (fd != 42) c.fail("read", "from another descriptor");
	if (n > W.need - W.got) c.fail("read", fmt("%zu bytes although %zu are missing", n, W.need - W.got));
	if (n == 0) c.fail("read", "of no bytes");
	if (buf != W.buf + W.got) c.fail("read", "to another place");
	c.state(W.got * 1000 + W.need);
	if (++W.calls > 40) c.fail("read", "never ends");
	// outcomes: k bytes, end of file, interruption, errors
	if (W.need > 1000) {	// large counts; nothing is stored
		int o = c.choose(W.calls > 6 ? 1 : W.eintrs < 2 ? 8 : 7, "outcome");
		if (o == 5) { W.end = 1; errno = 0; return 0; }
		if (o == 6) { W.end = 1; errno = EIO; return -1; }
		if (o == 7) { W.eintrs++; errno = EINTR; return -1; }
		size_t want[] = {n, n / 2, 1, n - 1, 0x7ffff000}, got = std::max<size_t>(1, std::min(n, want[o])); W.got += got; c.trace("%zu", got); return got;
	}
	int k = c.choose(W.eintrs < c.T(2, 3) ? (int)n + 4 : (int)n + 3, "outcome");
	if (k < (int)n) { size_t got = n - k; for (size_t i = 0; i < got; i++) ((uint8_t *)buf)[i] = content(W.got + i); W.got += got; c.trace("%zu", got); errno = c.choose(2) ? EINTR : 0; return got; }
	k -= n;
	if (k == 0) { W.end = 1; c.trace("end"); errno = c.choose(2) ? EINTR : 0; return 0; }
	if (k == 1) { W.end = 1; c.trace("EIO"); errno = EIO; return -1; }
	if (k == 2) { W.end = 1; c.trace("EAGAIN"); errno = EAGAIN; return -1; }
	W.eintrs++; c.trace("EINTR"); errno = EINTR; return -1;
}
static void body(Ctx &c) {
	C = &c; W = {};
	if (c.flip("large")) {
		static const std::vector<size_t> ns = {4096, 32767, 32768, 65535, 65536, 65537, 100000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000005, 0x300000000};
		W.need = c.pick(ns); c.mine(); W.buf = (uint8_t *)0x100000000000;
		bool ok = rb(42, W.buf, W.need);
		c.eq(ok, W.got == W.need, "result"); if (!ok && !W.end) c.fail("result", "failure without cause"); if (ok && W.end) c.fail("result", "success after the end or an error");
		return;
	}
	size_t n = c.choose(c.T(6, 8)); W.need = n;
	W.buf = (uint8_t *)malloc(n);
	bool ok = rb(42, W.buf, n);
	c.eq(ok, W.got == n, "result");
	if (ok && W.end) c.fail("result", "success after the end or an error");
	if (!ok && !W.end) c.fail("result", "failure without cause");
	for (size_t i = 0; i < W.got; i++) c.eq(W.buf[i], content(i), "byte");
	free(W.buf);
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
