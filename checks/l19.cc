// L19: prefix bounds and increment against arithmetic on bits.
#include "vf.hpp"
extern "C" { void lo4(const void *, unsigned, void *), up4(const void *, unsigned, void *), inc4(void *), lo6(const void *, unsigned, void *), up6(const void *, unsigned, void *), inc6(void *); }
using namespace vf;
static void addr(Ctx &c, const str &a) {
	bool v4 = a.size() == 4; unsigned bits = a.size() * 8;
	c.state(a);
	// buffers of exactly the size, at an odd place
	for (int off = 0; off < 2; off++) {
		char *in = (char *)malloc(a.size() + off) + off, *out = (char *)malloc(a.size() + off) + off;
		memcpy(in, a.data(), a.size());
		for (unsigned n = 0; n <= bits; n++) {
			str lo = a, hi = a;
			for (unsigned b = n; b < bits; b++) { lo[b / 8] &= ~(0x80 >> b % 8); hi[b / 8] |= 0x80 >> b % 8; }
			(v4 ? lo4 : lo6)(in, n, out); c.step();
			if (str(out, a.size()) != lo) c.fail("lower bound", fmt("%s/%u: %s", hex(a).c_str(), n, hex(str(out, a.size())).c_str()));
			(v4 ? up4 : up6)(in, n, out); c.step();
			if (str(out, a.size()) != hi) c.fail("upper bound", fmt("%s/%u: %s", hex(a).c_str(), n, hex(str(out, a.size())).c_str()));
			if (str(in, a.size()) != a) c.fail("input", "changed");
			// in place
			memcpy(out, in, a.size()); (v4 ? lo4 : lo6)(out, n, out); if (str(out, a.size()) != lo) c.fail("lower bound", "in place");
			memcpy(out, in, a.size()); (v4 ? up4 : up6)(out, n, out); if (str(out, a.size()) != hi) c.fail("upper bound", "in place");
		}
		str s = a; for (int i = s.size() - 1; i >= 0; i--) if (++s[i] != 0) break;
		(v4 ? inc4 : inc6)(in); c.step();
		if (str(in, a.size()) != s) c.fail("successor", fmt("of %s: %s", hex(a).c_str(), hex(str(in, a.size())).c_str()));
		free(in - off); free(out - off);
	}
}
static void body(Ctx &c) {
	bool v4 = c.flip("IPv4"); int n = v4 ? 4 : 16;
	switch (c.choose(4)) {
	case 0: {	// boundary bytes: everywhere (IPv4), or the ends and middle (IPv6)
		static const std::vector<int> b = {0, 1, 0x7f, 0x80, 0xfe, 0xff};
		if (v4) { str s; for (int i = 0; i < 4; i++) { s += (char)c.pick(b); if (i == 1) c.mine(); } addr(c, s); }
		else { int fill = c.choose(2); str s(16, fill ? (char)0xff : 0); int d = 0; for (int i : {0, 7, 8, 15}) { s[i] = (char)c.pick(b); if (d++ == 1) c.mine(); } addr(c, s); }
		return; }
	case 1: {	// any value at any byte, carry into it or not
		int at = c.choose(n), before = c.choose(2), after = c.choose(2); c.mine();
		for (int v = 0; v < 256; v++) { str s(n, before ? (char)0xff : 0); for (int i = at + 1; i < n; i++) s[i] = after ? (char)0xff : 0; s[at] = (char)v; addr(c, s); }
		return; }
	case 2: {	// runs of one bits, and their complements
		int i = c.choose(n * 8 + 1); c.mine();
		for (int j = i; j <= n * 8; j++) for (int inv = 0; inv < 2; inv++) { str s(n, 0); for (int b = i; b < j; b++) s[b / 8] |= 0x80 >> b % 8; if (inv) for (auto &x : s) x = ~x; addr(c, s); }
		return; }
	default: {	// two-byte patterns at every place
		int at = c.choose(n - 1), hi = c.choose(c.T(64, 256)); c.mine();
		for (int lo = 0; lo < 256; lo += c.T(3, 1)) { str s(n, 0x55); s[at] = (char)(c.thorough() ? hi : hi * 4 + 3); s[at + 1] = (char)lo; addr(c, s); }
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
