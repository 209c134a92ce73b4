// L14: lookup3 against a reference written from its definition, at every alignment, between inaccessible
// pages and with two different surroundings.
#include "vf.hpp"
#define BUILD(n) uint32_t n##_hashword(const uint32_t *, size_t, uint32_t), n##_hashlittle(const void *, size_t, uint32_t), n##_hashbig(const void *, size_t, uint32_t); void n##_hashword2(const uint32_t *, size_t, uint32_t *, uint32_t *), n##_hashlittle2(const void *, size_t, uint32_t *, uint32_t *);
extern "C" { BUILD(my) BUILD(vg) }
using namespace vf;
typedef uint32_t u32;
static u32 rot(u32 x, int k) { return x << k | x >> (32 - k); }
static void mixw(u32 &a, u32 &b, u32 &c) { a -= c; a ^= rot(c, 4); c += b; b -= a; b ^= rot(a, 6); a += c; c -= b; c ^= rot(b, 8); b += a; a -= c; a ^= rot(c, 16); c += b; b -= a; b ^= rot(a, 19); a += c; c -= b; c ^= rot(b, 4); b += a; }
static void finalw(u32 &a, u32 &b, u32 &c) { c ^= b; c -= rot(b, 14); a ^= c; a -= rot(c, 11); b ^= a; b -= rot(a, 25); c ^= b; c -= rot(b, 16); a ^= c; a -= rot(c, 4); b ^= a; b -= rot(a, 14); c ^= b; c -= rot(b, 24); }
static void ref(std::vector<u32> w, u32 len, u32 s1, u32 s2, u32 &c1, u32 &b1) {
	u32 a, b, c; a = b = c = 0xdeadbeef + len + s1; c += s2;
	size_t i = 0, n = w.size();
	if (n) {
		while (n - i > 3) { a += w[i]; b += w[i + 1]; c += w[i + 2]; mixw(a, b, c); i += 3; }
		a += w[i]; if (n - i > 1) b += w[i + 1]; if (n - i > 2) c += w[i + 2];
		finalw(a, b, c);
	}
	c1 = c; b1 = b;
}
static std::vector<u32> words(const str &s, bool big) { std::vector<u32> w((s.size() + 3) / 4); for (size_t i = 0; i < s.size(); i++) w[i / 4] |= (u32)(unsigned char)s[i] << (big ? 24 - i % 4 * 8 : i % 4 * 8); return w; }
static uint8_t *page, *end;
static void all(Ctx &c, const str &s, int align, int place, u32 s1, u32 s2) {
	uint8_t *at;
	if (place) { at = end - s.size(); while ((uintptr_t)at % 8 != (unsigned)align) at--; } else at = page + align;
	u32 c1, b1, cb, bb; ref(words(s, false), s.size(), s1, s2, c1, b1);
	u32 c0, b0; ref(words(s, false), s.size(), s1, 0, c0, b0);
	ref(words(s, true), s.size(), s1, 0, cb, bb);
	c.state(hash_str(s, s1 * 7 + s2));
	for (int fill : {0, 0xff}) {
		memset(page, fill, end - page); memcpy(at, s.data(), s.size());
		str what = fmt("%zu bytes at alignment %d surrounded by %02x, seeds %x %x: ", s.size(), align, fill, s1, s2);
		auto is = [&](u32 got, u32 want, const char *f) { c.step(); if (got != want) c.fail(f, what + fmt("%s %08x, not %08x", f, got, want)); };
		is(my_hashlittle(at, s.size(), s1), c0, "hashlittle");
		is(vg_hashlittle(at, s.size(), s1), c0, "hashlittle built for checking");
		is(my_hashbig(at, s.size(), s1), cb, "hashbig");
		is(vg_hashbig(at, s.size(), s1), cb, "hashbig built for checking");
		u32 x = s1, y = s2; my_hashlittle2(at, s.size(), &x, &y); is(x, c1, "hashlittle2"); is(y, b1, "hashlittle2, second");
		x = s1, y = s2; vg_hashlittle2(at, s.size(), &x, &y); is(x, c1, "hashlittle2 built for checking"); is(y, b1, "hashlittle2 built for checking, second");
		if (align % 4 == 0 && s.size() % 4 == 0) {
			is(my_hashword((u32 *)at, s.size() / 4, s1), c0, "hashword");
			x = s1, y = s2; my_hashword2((u32 *)at, s.size() / 4, &x, &y); is(x, c1, "hashword2"); is(y, b1, "hashword2, second");
		}
		for (size_t i = 0; i < s.size(); i++) if (at[i] != (uint8_t)s[i]) c.fail("input", what + "changed");
	}
}
static void body(Ctx &c) {
	if (!page) { char *p = (char *)mmap(nullptr, 4 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); page = (uint8_t *)p + 4096; end = page + 8192; mprotect(page, 8192, PROT_READ | PROT_WRITE); }
	static const std::vector<u32> seeds = {0, 1, 0x80000000, 0xffffffff, 13};
	switch (c.choose(5)) {
	case 4: {	// long ones
		int k = 8 + c.choose(c.T(10, 14)), d = c.choose(5) - 2; c.mine(); int align = c.choose(4), place = c.choose(2), kind = c.choose(2);
		int n = (1 << k) + d; str s(n, 0); uint64_t h = 7; for (int i = 0; i < n; i++) { h = vf::mix(h); s[i] = kind ? (char)h : (char)0xff; }
		size_t big = ((size_t)n + 4096 + 8191) & ~(size_t)4095; char *p = (char *)mmap(nullptr, big + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		auto sp = page; auto se = end; page = (uint8_t *)p + 4096; end = page + big; mprotect(page, big, PROT_READ | PROT_WRITE);
		for (u32 a : {0u, 0xffffffffu}) all(c, s, align, place, a, a ^ 13);
		munmap(p, big + 8192); page = sp; end = se;
		return; }
	case 0: {
		int n = c.choose(c.T(80, 300)), align = c.choose(8), place = c.choose(2), kind = c.choose(4); c.mine();
		str s(n, 0); for (int i = 0; i < n; i++) s[i] = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? i + 1 : (i * i * 37 + i) >> 2;
		for (u32 a : seeds) for (u32 b : seeds) all(c, s, align, place, a, b);
		return; }
	case 1: {	// any byte at any place
		int n = 1 + c.choose(c.T(26, 52)), at = c.choose(n), align = c.choose(4); c.mine();
		for (int v = 0; v < 256; v++) { str s(n, 0); s[at] = (char)v; all(c, s, align, 1, 0, 0); }
		return; }
	case 2: {
		static const std::vector<int> b = {0, 1, 0x80, 0xff};
		int n = c.choose(c.T(6, 9)), align = c.choose(4); c.mine(); str s;
		for (int i = 0; i < n; i++) s += (char)c.pick(b);
		all(c, s, align, 1, 0, 0); all(c, s, align, 0, 0xffffffff, 1);
		return; }
	default: {	// the values published with the algorithm
		c.mine();
		str q = "Four score and seven years ago"; u32 x, y;
		c.eq(my_hashlittle(q.data(), q.size(), 0), 0x17770551u, "published hashlittle, seed 0");
		c.eq(my_hashlittle(q.data(), q.size(), 1), 0xcd628161u, "published hashlittle, seed 1");
		x = 0; y = 0; my_hashlittle2("", 0, &x, &y); c.eq(x, 0xdeadbeefu, "published hashlittle2"); c.eq(y, 0xdeadbeefu, "published hashlittle2");
		x = 0; y = 0xdeadbeef; my_hashlittle2("", 0, &x, &y); c.eq(x, 0xbd5b7ddeu, "published hashlittle2"); c.eq(y, 0xdeadbeefu, "published hashlittle2");
		x = 0; y = 1; my_hashlittle2(q.data(), q.size(), &x, &y); c.eq(x, 0xe3607caeu, "published hashlittle2"); c.eq(y, 0xbd371de4u, "published hashlittle2");
		x = 1; y = 0; my_hashlittle2(q.data(), q.size(), &x, &y); c.eq(x, 0xcd628161u, "published hashlittle2"); c.eq(y, 0x6cbea4b3u, "published hashlittle2");
		c.state("published");
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, false); }
