// L07: CRC-32C of every implementation, against a bitwise reference, at every alignment between guard
// pages; and the dispatcher from its first call on in several threads.
#define SCHED_RUNTIME
#include "sched.hpp"
extern "C" {
typedef uint32_t (*crc_fp)(const uint8_t *, size_t);
extern crc_fp my_crc32c;
uint32_t my_crc32c_slicing(const uint8_t *, size_t);
bool my_crc32c_sse42_supported(void);
uint32_t my_crc32c_sse42(const uint8_t *, size_t);
extern crc_fp plain_crc32c;	// the same sources without instrumentation
uint32_t plain_crc32c_slicing(const uint8_t *, size_t);
uint32_t plain_crc32c_sse42(const uint8_t *, size_t);
bool plain_crc32c_sse42_supported(void);
}
using namespace vf;
static uint32_t ref(const uint8_t *p, size_t n) {
	uint32_t r = ~0u;
	for (size_t i = 0; i < n; i++) { r ^= p[i]; for (int k = 0; k < 8; k++) r = r & 1 ? r >> 1 ^ 0x82f63b78u : r >> 1; }
	return ~r;
}
static crc_fp initial, plain_initial;	// the entry points' values before any constructor of the library
__attribute__((constructor(101))) static void early() { initial = my_crc32c; plain_initial = plain_crc32c; }
static size_t n3(int p, int k) { return ((size_t)1 << p) / 8 * k + k; }
static uint8_t *page, *end;	// two pages between inaccessible ones
static void all(Ctx &c, const str &s, int align, bool hard) {
	uint32_t w = ref((const uint8_t *)s.data(), s.size());
	uint8_t *at;
	// as near as the alignment allows to the page after, or to the page before
	if (hard) { at = end - s.size(); while ((uintptr_t)at % 16 != (unsigned)align) at--; } else at = page + align;
	memset(page, 0xc3, 2 * 4096);
	memcpy(at, s.data(), s.size());
	c.step(); c.state(hash_str(s));
	str what = fmt("%zu bytes at alignment %d: ", s.size(), align);
	uint32_t x = plain_crc32c_slicing(at, s.size());
	if (x != w) c.fail("slicing", what + fmt("%08x, not %08x", x, w));
	if (plain_crc32c_sse42_supported()) { x = plain_crc32c_sse42(at, s.size()); if (x != w) c.fail("sse4.2", what + fmt("%08x, not %08x", x, w)); }
	x = plain_crc32c(at, s.size());
	if (x != w) c.fail("entry point", what + fmt("%08x, not %08x", x, w));
}
static void body(Ctx &c) {
	if (!page) { char *p = (char *)mmap(nullptr, 4 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); page = (uint8_t *)p + 4096; end = page + 2 * 4096; mprotect(page, 2 * 4096, PROT_READ | PROT_WRITE); }
	switch (c.choose(5)) {
	case 0: {	// lengths, alignments, contents
		int n = c.choose(c.T(160, 700)), align = c.choose(16), kind = c.choose(5); c.mine();
		str s(n, 0);
		for (int i = 0; i < n; i++) s[i] = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? i + 1 : kind == 3 ? (i * i * 37 + i) >> 3 : 0x80 >> i % 8;
		all(c, s, align, false); all(c, s, align, true);
		return; }
	case 1: {	// any byte at any place: exercises every entry of every table
		int n = 1 + c.choose(c.T(40, 100)), at = c.choose(n), align = c.choose(8); c.mine();
		for (int v = 0; v < 256; v++) { str s(n, 0); s[at] = (char)v; all(c, s, align, true); }
		return; }
	case 2: {	// all short strings over boundary bytes
		static const std::vector<int> b = {0, 1, 0x80, 0xff};
		int n = c.choose(c.T(6, 9)), align = c.choose(8); c.mine(); str s;
		for (int i = 0; i < n; i++) s += (char)c.pick(b);
		all(c, s, align, true);
		return; }
	case 3: {	// long buffers: lengths about every power of two, through every implementation and through the first call
		int p = 7 + c.choose(c.T(14, 18)), d = c.choose(24), align = c.choose(c.T(2, 8)), kind = c.choose(2); c.mine();
		size_t n = ((size_t)1 << p) + (d < 20 ? d - 10 : d == 20 ? n3(p, 1) : d == 21 ? n3(p, 2) : d == 22 ? n3(p, 3) : n3(p, 5));
		str s(n + 16, 0);
		uint8_t *at = (uint8_t *)&s[0]; while ((uintptr_t)at % 8 != (unsigned)align) at++;
		uint32_t g = 12345; for (size_t i = 0; i < n; i++) { g = g * 1103515245 + 12345; at[i] = kind ? g >> 16 : 0xff; }
		uint32_t w = ref(at, n), x;
		c.step(); c.state(mix(n * 32 + align * 2 + kind));
		str what = fmt("%zu bytes at alignment %d: ", n, align);
		x = plain_crc32c_slicing(at, n); if (x != w) c.fail("slicing", what + fmt("%08x, not %08x", x, w));
		if (plain_crc32c_sse42_supported()) { x = plain_crc32c_sse42(at, n); if (x != w) c.fail("sse4.2", what + fmt("%08x, not %08x", x, w)); }
		x = plain_crc32c(at, n); if (x != w) c.fail("entry point", what + fmt("%08x, not %08x", x, w));
		plain_crc32c = plain_initial;
		for (int i = 0; i < 2; i++) { x = plain_crc32c(at, n); if (x != w) c.fail("first calls", what + fmt("call %d: %08x, not %08x", i, x, w)); }
		return; }
	default: {	// first calls at once in several threads, whether or not the constructor has run
		static crc_fp detected = plain_crc32c == plain_crc32c_sse42 ? my_crc32c_sse42 : my_crc32c_slicing;
		int n = c.choose(c.T(2, 3)) + 2, calls = 1 + c.choose(2); bool relaxed = c.flip("relaxed"); c.mine();
		my_crc32c = initial;	// back to the state before the constructor
		std::vector<std::vector<uint32_t>> got(n);
		static uint8_t data[4][24]; for (int i = 0; i < 4; i++) for (int j = 0; j < 24; j++) data[i][j] = i * 31 + j;
		{
			sched::World w(c, relaxed);
			w.share(&my_crc32c, sizeof my_crc32c);
			for (int i = 0; i < n; i++) w.spawn([&, i]() { for (int k = 0; k < calls; k++) { uint32_t x = my_crc32c(data[i], 20 + k); got[i].push_back(x); w.summary(x); } });
			w.extra = [&]() { uint64_t h = n * 4 + calls; for (auto &g : got) for (auto x : g) h = mix(h * 31 + x); return h; };
			c.check(w.run(), "deadlock", "first calls block each other");
		}
		for (int i = 0; i < n; i++) for (int k = 0; k < calls; k++) if (got[i][k] != ref(data[i], 20 + k)) c.fail("first calls", fmt("thread %d call %d got %08x", i, k, got[i][k]));
		c.check(my_crc32c == detected, "dispatch", "the first calls leave another implementation than the constructor chose");
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, false); }
