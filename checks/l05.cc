// L05: extended-hex base32.
#include "vf.hpp"
extern "C" {
#include "b32_encode.h"
#include "b32_decode.h"
}
using namespace vf;
static const char *ALPHA = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
static str ref_encode(const str &s) {
	str o; unsigned acc = 0; int bits = 0;
	for (unsigned char ch : s) { acc = acc << 8 | ch; bits += 8; while (bits >= 5) { o += ALPHA[acc >> (bits - 5) & 31]; bits -= 5; } acc &= 255; }
	if (bits) o += ALPHA[acc << (5 - bits) & 31];
	return o;
}
static int val(unsigned char ch) { if (ch >= 'a' && ch <= 'z') ch -= 32; const char *p = ch ? strchr(ALPHA, ch) : nullptr; return p ? p - ALPHA : -1; }
static void *exact(const str &s) { void *p = malloc(s.size()); memcpy(p, s.data(), s.size()); return p; }

static void encode(Ctx &c, const str &s) {
	str w = ref_encode(s);
	void *in = exact(s);
	for (size_t size = w.size() > 12 ? w.size() - 10 : 0; size <= w.size() + 3; size++) {
		char *o = (char *)malloc(size);
		c.step();
		size_t n = base32_encode(o, size, in, s.size());
		c.eq(n, std::min(size, w.size()), fmt("length of text of %s in %zu bytes", hex(s).c_str(), size));
		c.eqs(str(o, n), w.substr(0, size), "text of " + hex(s));
		free(o);
	}
	free(in);
}
// decode text into every buffer size; text may hold padding or other characters
static void decode(Ctx &c, const str &t) {
	str want; unsigned acc = 0; int bits = 0; size_t bad = (size_t)-1, used = 0;	// bytes complete before the bad character
	for (size_t i = 0; i < t.size(); i++) {
		if (t[i] == '=') break;
		int v = val(t[i]);
		if (v < 0) { bad = used; break; }
		acc = acc << 5 | v; bits += 5; used++;
		if (bits >= 8) { want += (char)(acc >> (bits - 8)); bits -= 8; acc &= 255; }
	}
	size_t tail = used % 8;
	if (bad == (size_t)-1 && (tail == 1 || tail == 3 || tail == 6)) return;	// no byte string has this text
	void *in = exact(t);
	c.state(t);
	for (size_t size = want.size() > 10 ? want.size() - 8 : 0; size <= want.size() + 9; size++) {
		// an invalid character is only met if the destination is not full before its group
		char *o = (char *)malloc(size);
		c.step();
		size_t n = base32_decode(o, size, (const char *)in, t.size());
		if (bad != (size_t)-1) {
			if (size > bad / 8 * 5) c.eq(n, (size_t)-1, fmt("result for %s with %zu bytes", t.c_str(), size));
		} else {
			c.eq(n, std::min(size, want.size()), fmt("number of bytes of %s in %zu", t.c_str(), size));
			c.eqs(hex(o, n), hex(want.substr(0, size)), "bytes of " + t);
		}
		free(o);
	}
	free(in);
}
static void body(Ctx &c) {
	switch (c.choose(5)) {
	case 4: {	// long ones
		int k = 5 + c.choose(c.T(9, 12)), d = c.choose(17) - 8, kind = c.choose(3); c.mine();
		int n = (1 << k) + d; str s(n, 0); uint64_t h = 7; for (int i = 0; i < n; i++) { h = vf::mix(h); s[i] = kind == 0 ? (char)0xff : kind == 1 ? (char)h : (char)(i * 7); }
		c.state(s); encode(c, s);
		str t = ref_encode(s); decode(c, t); while (t.size() % 8) t += '='; decode(c, t);
		for (auto &ch : t) ch = tolower(ch); decode(c, t);
		str b = ref_encode(s); b[b.size() - 1 - c.choose(3)] = '!'; decode(c, b);
		return; }
	case 0: {	// byte strings over boundary bytes
		static const std::vector<int> b = {0, 1, 0x0f, 0x55, 0x80, 0xff};
		int n = c.choose(c.T(7, 9)); str s;
		for (int i = 0; i < n; i++) { s += (char)c.pick(b); if (i == 2) c.mine(); }
		if (n < 3) c.mine();
		c.state(s); encode(c, s);
		str t = ref_encode(s), l = t; for (auto &ch : l) ch = tolower(ch);
		decode(c, t); decode(c, l);
		str pad = t; while (pad.size() % 8) pad += '=';
		decode(c, pad);
		return; }
	case 1: {	// one byte of any value at any place of strings of each length, on both backgrounds
		int n = 1 + c.choose(c.T(22, 45)), at = c.choose(n), bg = c.choose(2); c.mine();
		for (int v = 0; v < 256; v++) {
			str s(n, bg ? (char)0xff : 0); s[at] = (char)v;
			c.state(s); encode(c, s); decode(c, ref_encode(s));
		}
		return; }
	case 2: {	// any character at any place of a text
		int n = 1 + c.choose(18), at = c.choose(n), bg = c.choose(2); c.mine();
		for (int v = 0; v < 256; v++) { str t(n, bg ? 'V' : '0'); t[at] = (char)v; decode(c, t); }
		return; }
	default: {	// short texts over characters of each kind
		static const str a = "0V9aAv=W@ -";
		int n = c.choose(c.T(6, 7)); str t;
		for (int i = 0; i < n; i++) { t += a[c.choose((int)a.size())]; if (i == 1) c.mine(); }
		if (n < 2) c.mine();
		decode(c, t);
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
