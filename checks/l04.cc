// L04: variable-length integers: shortest form, predicted length, round trip, bounded measuring.
#include "vf.hpp"
extern "C" {
#include "varint.h"
}
using namespace vf;
typedef unsigned __int128 u128;
static str shortest(uint64_t v) { str s; do { s += (char)((v & 127) | (v > 127 ? 128 : 0)); v >>= 7; } while (v); return s; }
// a heap block of exactly n bytes, so that the sanitizer sees any access beyond it
struct Buf { uint8_t *p; size_t n; Buf(const str &s) : p((uint8_t *)malloc(s.size())), n(s.size()) { memcpy(p, s.data(), n); } Buf(size_t n) : p((uint8_t *)malloc(n)), n(n) { memset(p, 0xee, n); } ~Buf() { free(p); } str get() { return str((char *)p, n); } };

static void value(Ctx &c, uint64_t v) {
	str w = shortest(v);
	c.state(w);
	str what = fmt("value %llu", (unsigned long long)v);
	c.eq(varint_length(v), w.size(), "predicted length of " + what);
	for (int wide = 0; wide < 2; wide++) {
		if (!wide && v >> 32) continue;
		Buf b(w.size());
		size_t n = wide ? varint_encode64(b.p, v) : varint_encode32(b.p, v);
		c.step();
		c.eq(n, w.size(), fmt("encode%d length of ", wide ? 64 : 32) + what);
		c.eqs(hex(b.get()), hex(w), fmt("encode%d of ", wide ? 64 : 32) + what);
		if (wide) { uint64_t x = ~v; size_t l = varint_decode64(b.p, &x); c.eq(l, w.size(), "decode64 length of " + what); c.eq(x, v, "decode64 of " + what); }
		else {
			uint32_t x = ~v; size_t l = varint_decode32(b.p, &x); c.eq(l, w.size(), "decode32 length of " + what); c.eq(x, v, "decode32 of " + what);
			uint64_t y = ~v; l = varint_decode64(b.p, &y); c.eq(l, w.size(), "decode64 length of " + what); c.eq(y, v, "decode64 of " + what);
		}
		for (size_t lim = 0; lim <= w.size() + 1; lim++) {
			Buf part(lim <= w.size() ? w.substr(0, lim) : w + "\x80");
			c.eq(varint_length_packed(part.p, lim), lim >= w.size() ? w.size() : 0, fmt("measured length within %zu bytes of ", lim) + what);
		}
	}
}
static void bytes(Ctx &c, const str &s) {
	c.state("b" + s);
	size_t len = 0;
	for (size_t i = 0; i < s.size(); i++) if (!(s[i] & 0x80)) { len = i + 1; break; }
	Buf b(s);
	c.step();
	c.eq(varint_length_packed(b.p, s.size()), len, "measured length of " + hex(s));
	u128 v = 0;
	for (size_t i = 0; i < len; i++) v |= (u128)(s[i] & 127) << (7 * i);
	if ((len && len <= 10) || s.size() >= 10) {
		uint64_t x = 0; size_t l = varint_decode64(b.p, &x);
		c.eq(l, len <= 10 ? len : 0, "decode64 length of " + hex(s));
		if (len && len <= 10) c.eq(x, (uint64_t)v, "decode64 of " + hex(s));
	}
	if ((len && len <= 5) || s.size() >= 5) {
		uint32_t x = 0; size_t l = varint_decode32(b.p, &x);
		c.eq(l, len <= 5 ? len : 0, "decode32 length of " + hex(s));
		if (len && len <= 5) c.eq(x, (uint32_t)v, "decode32 of " + hex(s));
	}
}
static void body(Ctx &c) {
	switch (c.choose(5)) {
	case 0: {	// every value near a power of two, and near sums of two of them
		int k = c.choose(65), j = c.choose(65), sign = c.choose(2); c.mine();
		uint64_t base = (k < 64 ? 1ULL << k : 0) + (j < 64 ? (sign ? -(1ULL << j) : 1ULL << j) : 0);
		int r = c.T(64, 1000);
		for (int d = -r; d <= r; d++) value(c, base + d);
		return; }
	case 1: {	// all small values
		uint64_t hi = c.choose(c.T(64, 4096)); c.mine();
		for (int i = 0; i < 4096; i++) value(c, hi * 4096 + i);
		return; }
	case 2: {	// all groups of seven bits from {0, 1, 64, 127}, any length
		int n = 1 + c.choose(10); uint64_t v = 0; static const int g[] = {0, 1, 64, 127};
		for (int i = 0; i < n; i++) { v |= (uint64_t)g[c.choose(4)] << (7 * i); if (i == 2 || n < 3) c.mine(); }
		value(c, v);
		return; }
	case 3: {	// every byte string of up to 11 bytes over few bytes, ended or not, overlong or not
		int n = c.choose(c.T(9, 12)); str s; static const char b[] = {0, 1, 127, (char)128, (char)129, (char)255};
		bool few = n > c.T(6, 7);
		for (int i = 0; i < n; i++) { s += few ? b[2 + 3 * c.choose(2)] : b[c.choose(6)]; if (i == 2) c.mine(); }
		if (n < 3) c.mine();
		bytes(c, s);
		return; }
	default: {	// continuation bytes up to each length, then every byte, then more
		int n = c.choose(12), cont = c.choose(3); c.mine();
		static const int cb[] = {128, 255, 0xaa};
		for (int last = 0; last < 256; last++) for (int more = 0; more < 4; more++) {
			str s(n, (char)cb[cont]); s += (char)last; s += str(more, more % 2 ? (char)255 : 0);
			bytes(c, s);
		}
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
