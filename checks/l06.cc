// L06: base64 with resumable state: every chunking of every input gives the same bytes.
#include "vf.hpp"
extern "C" {
#include "b64_encode.h"
#include "b64_decode.h"
}
using namespace vf;
static const char *ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int val(unsigned char ch) { const char *p = ch ? strchr(ALPHA, ch) : nullptr; return p ? p - ALPHA : -1; }
static str ref_encode(const str &s) {
	str o;
	for (size_t i = 0; i < s.size(); i += 3) {
		unsigned v = 0; size_t n = std::min<size_t>(3, s.size() - i);
		for (size_t j = 0; j < 3; j++) v = v << 8 | (j < n ? (unsigned char)s[i + j] : 0);
		for (size_t j = 0; j < 4; j++) o += j <= n ? ALPHA[v >> (18 - 6 * j) & 63] : '=';
	}
	return o;
}
static str ref_decode(const str &t) {
	str o; unsigned acc = 0; int bits = 0;
	for (unsigned char ch : t) { int v = val(ch); if (v < 0) continue; acc = acc << 6 | v; bits += 6; if (bits >= 8) { o += (char)(acc >> (bits - 8)); bits -= 8; acc &= 255; } }
	return o;
}
// bit i of cuts: a chunk ends after byte i; empty: also feed an empty chunk at every boundary
static std::vector<str> chunks(const str &s, unsigned cuts, bool empty) {
	std::vector<str> r; str cur;
	if (empty) r.push_back("");
	for (size_t i = 0; i < s.size(); i++) { cur += s[i]; if (cuts >> i & 1 && i + 1 < s.size()) { r.push_back(cur); cur.clear(); if (empty) r.push_back(""); } }
	r.push_back(cur);
	if (empty) r.push_back("");
	return r;
}
static char *exact(const str &s) { char *p = (char *)malloc(s.size()); memcpy(p, s.data(), s.size()); return p; }
static void encode(Ctx &c, const str &s, unsigned cuts, bool empty) {
	base64_encodestate st; memset(&st, 0x5a, sizeof st); base64_init_encodestate(&st);
	str got, want = ref_encode(s); size_t fed = 0;
	for (auto &ch : chunks(s, cuts, empty)) {
		char *in = exact(ch);
		size_t room = (fed + ch.size()) / 3 * 4 + (fed + ch.size()) % 3 - (fed / 3 * 4 + fed % 3);
		char *o = (char *)malloc(room);
		int n = base64_encode_block(in, ch.size(), o, &st); c.step();
		c.eq(n, (int)room, "characters written for a chunk of " + hex(s));
		got += str(o, n); fed += ch.size();
		free(o); free(in);
	}
	size_t tail = s.size() % 3 == 1 ? 3 : s.size() % 3 == 2 ? 2 : 0;
	char *o = (char *)malloc(tail);
	int n = base64_encode_blockend(o, &st);
	c.eq(n, (int)tail, "characters written at the end of " + hex(s));
	got += str(o, n); free(o);
	c.eqs(got, want, fmt("text of %s in chunks %x", hex(s).c_str(), cuts));
}
static void decode(Ctx &c, const str &t, unsigned cuts, bool empty) {
	base64_decodestate st; memset(&st, 0x5a, sizeof st); base64_init_decodestate(&st);
	str got, want = ref_decode(t);
	str fed;
	for (auto &ch : chunks(t, cuts, empty)) {
		char *in = exact(ch);
		size_t before = ref_decode(fed).size(); fed += ch;
		size_t room = ref_decode(fed).size() - before;
		char *o = (char *)malloc(room + 1);	// the byte in progress
		memset(o, 0x33, room + 1);
		int n = base64_decode_block(in, ch.size(), o, &st); c.step();
		c.eq(n, (int)room, "bytes decoded from a chunk of " + t);
		got += str(o, n);
		free(o); free(in);
	}
	c.eqs(hex(got), hex(want), fmt("bytes of %s in chunks %x", t.c_str(), cuts));
}
static std::vector<str> pieces(const str &s, size_t n) { std::vector<str> r; for (size_t i = 0; i < s.size(); i += n) r.push_back(s.substr(i, n)); return r; }
static void long_one(Ctx &c) {	// long ones, fed in pieces of one size, with lines broken
	static const std::vector<size_t> piece = {1, 3, 4, 5, 57, 64, 76, 255, 256, 1000, 1 << 22};
	int k = 4 + c.choose(c.T(10, 14)), d = c.choose(7) - 3, kind = c.choose(2); c.mine();
	size_t pn = c.pick(piece), brk = c.pick(std::vector<size_t>{0, 64, 72, 76});
	int n = (1 << k) + d; str s(n, 0); uint64_t h = 7; for (int i = 0; i < n; i++) { h = vf::mix(h); s[i] = kind ? (char)h : (char)0xff; }
	c.state(s + fmt("%zu %zu", pn, brk)); str what = fmt("%d bytes in pieces of %zu", n, pn);
	base64_encodestate st; memset(&st, 0x5a, sizeof st); base64_init_encodestate(&st);
	str got, want = ref_encode(s); size_t fed = 0;
	for (auto &ch : pieces(s, pn)) {
		size_t room = (fed + ch.size()) / 3 * 4 + (fed + ch.size()) % 3 - (fed / 3 * 4 + fed % 3);
		char *in = exact(ch), *o = (char *)malloc(room);
		int m = base64_encode_block(in, ch.size(), o, &st); c.step();
		if (m != (int)room) c.fail("characters written", what);
		got += str(o, m); fed += ch.size(); free(o); free(in);
	}
	char e[8]; int m = base64_encode_blockend(e, &st); got += str(e, m);
	if (got != want) c.fail("text", what);
	str t; for (size_t i = 0; i < want.size(); i++) { if (brk && i && i % brk == 0) t += brk == 72 ? "\r\n" : "\n"; t += want[i]; }
	base64_decodestate sd; memset(&sd, 0x5a, sizeof sd); base64_init_decodestate(&sd);
	str back; size_t seen = 0;
	for (auto &ch : pieces(t, pn)) {
		for (char x : ch) seen += val(x) >= 0;
		size_t room = seen * 6 / 8 - back.size();
		char *in = exact(ch), *o = (char *)malloc(room + 1);
		int r = base64_decode_block(in, ch.size(), o, &sd); c.step();
		if (r != (int)room) c.fail("bytes decoded", what + fmt(" with lines of %zu", brk));
		back += str(o, r); free(o); free(in);
	}
	if (back != s) c.fail("bytes", what + fmt(" with lines of %zu", brk));
}
static void body(Ctx &c) {
	switch (c.choose(6)) {
	case 5: long_one(c); return;
	case 0: {	// strings over boundary bytes in every chunking
		static const std::vector<int> b = {0, 0x3f, 0xfb, 0xff, 0x55};
		int n = c.choose(c.T(6, 8)); str s;
		for (int i = 0; i < n; i++) { s += (char)c.pick(b); if (i == 1) c.mine(); }
		if (n < 2) c.mine();
		c.state(s);
		for (unsigned cuts = 0; cuts < (n > 1 ? 1u << (n - 1) : 1u); cuts++) for (int e = 0; e < 2; e++) encode(c, s, cuts, e);
		str t = ref_encode(s);
		for (unsigned cuts = 0; cuts < (t.size() > 1 ? 1u << (std::min<size_t>(t.size(), n < 4 ? 12 : 8) - 1) : 1u); cuts++) decode(c, t, cuts, n < 4 && cuts % 2);
		c.eqs(hex(ref_decode(t)), hex(s), "reference");
		return; }
	case 1: {	// every byte at every place of strings of each length
		int n = 1 + c.choose(c.T(13, 40)), at = c.choose(n), bg = c.choose(2); c.mine();
		for (int v = 0; v < 256; v++) {
			str s(n, bg ? (char)0xff : 0); s[at] = (char)v;
			c.state(s);
			encode(c, s, 0, false); encode(c, s, 1u << at, true); decode(c, ref_encode(s), 0, false); decode(c, ref_encode(s), ~0u, false);
		}
		return; }
	case 2: {	// every character at every place of a text, every chunking
		int n = 1 + c.choose(c.T(6, 8)), at = c.choose(n), bg = c.choose(3); c.mine();
		for (int v = 0; v < 256; v++) {
			str t(n, "A/="[bg]); t[at] = (char)v; c.state(t);
			for (unsigned cuts = 0; cuts < 1u << (n - 1); cuts++) decode(c, t, cuts, false);
		}
		return; }
	case 3: {	// line breaks and padding anywhere
		static const str a = "Az+\n\r=-";
		int n = c.choose(c.T(6, 8)); str t;
		for (int i = 0; i < n; i++) { t += a[c.choose((int)a.size())]; if (i == 1) c.mine(); }
		if (n < 2) c.mine();
		c.state(t);
		for (unsigned cuts = 0; cuts < (n > 1 ? 1u << (n - 1) : 1u); cuts++) for (int e = 0; e < 2; e++) decode(c, t, cuts, e);
		return; }
	default:	// the value of every character
		c.mine();
		for (int v = 0; v < 256; v++) {
			c.state(fmt("v%d", v)); c.step();
			int x = base64_decode_value((char)v), w = val(v);
			if (w < 0 ? x >= 0 : x != w) c.fail("value", fmt("character %d has value %d, not %d", v, x, w));
			if (v < 64) c.eq(base64_encode_value(v), ALPHA[v], "character of value");
		}
		return;
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
