// L17: string replacement and quoting over all short strings.
#include "vf.hpp"
extern "C" { char *sr(const char *, const char *, const char *); void ps(const void *, size_t, FILE *); }
using namespace vf;
static char *exact(const str &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static void replace(Ctx &c, const str &s, const str &o, const str &n) {
	str w;
	if (o.empty()) w = s; else for (size_t i = 0; i < s.size();) if (s.compare(i, o.size(), o) == 0) { w += n; i += o.size(); } else w += s[i++];
	char *a = exact(s), *b = exact(o), *d = exact(n);
	char *r = sr(a, b, d); c.step();
	c.check(r, "result", "none"); c.check(r != a, "result", "not a copy");
	str got(r);
	if (got != w) c.fail("replacement", fmt("of [%s] by [%s] in [%s]: [%s], not [%s]", o.c_str(), n.c_str(), s.c_str(), got.c_str(), w.c_str()));
	if (s != a || o != b || n != d) c.fail("input", "changed");
	free(r); free(a); free(b); free(d);
}
static str print(Ctx &c, const str &s) {
	static FILE *f = nullptr; static char *buf = nullptr; static size_t n = 0;
	vf::Uncounted u;
	void *in = malloc(s.size()); memcpy(in, s.data(), s.size());
	if (!f) f = open_memstream(&buf, &n);
	rewind(f);
	ps(in, s.size(), f); fflush(f); c.step();
	free(in);
	return str(buf, ftell(f));
}
static void quote(Ctx &c, const str &s) {
	str p = print(c, s), back;
	auto bad = [&](const str &m) { c.fail("quoting", m + " in " + p + " of " + hex(s)); };
	if (p.size() < 2 || p[0] != '"' || p.back() != '"') bad("no quotes");
	for (size_t i = 1; i + 1 < p.size(); i++) {
		unsigned char ch = p[i];
		if (ch < 32 || ch > 126) bad("an unprintable character");
		if (ch == '"') bad("a quote which is not escaped");
		if (ch != '\\') { back += (char)ch; continue; }
		if (p[i + 1] == 'x') { unsigned v; if (i + 4 >= p.size() || sscanf(p.substr(i + 2, 2).c_str(), "%2x", &v) != 1 || !isxdigit(p[i + 2]) || !isxdigit(p[i + 3])) bad("a malformed escape"); back += (char)v; i += 3; }
		else if (p[i + 1] == '"' || p[i + 1] == '\\') { if (i + 2 >= p.size()) bad("the last quote is escaped"); back += p[++i]; }
		else bad("an unknown escape");
	}
	if (back != s) bad("reads back as " + hex(back));
	for (unsigned char ch : s) if (ch >= 32 && ch <= 126 && p.find((char)ch) == str::npos) bad("a printable character is not shown");
}
static void body(Ctx &c) {
	switch (c.choose(7)) {
	case 5: {	// much longer ones
		static const std::vector<int> lens = {255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 100000};
		static const std::vector<int> pats = {1, 2, 3, 64, 255, 256, 300, 4096};
		int n = c.pick(lens), p = c.pick(pats); c.mine(); int every = c.pick(std::vector<int>{1, 2, 1000, 1 << 20}), r = c.pick(pats);
		if (p + 1 > n || (size_t)n / p * r > 3000000 || (size_t)n * p > 3000000 || (size_t)n / std::min(n, p + every - 1) * n > 20000000) throw Cut();
		str o(p - 1, 'a'); o += 'Z'; str s; while (s.size() + p * 2 < (size_t)n) { s += o; s += str(std::min<size_t>(every - 1, n - s.size() - p), 'q'); }
		if ((int)s.size() < n) s += str(n - s.size() - 1, 'a') + "Z";
		c.state(fmt("%d %d %d %d", n, p, every, r));
		replace(c, s, o, str(r, 'w')); replace(c, s, o, ""); replace(c, s, str(p, 'a') + "Z", "x"); replace(c, s, s, "y"); replace(c, s, s + "y", "z");
		return; }
	case 6: {	// long ones quoted
		static const std::vector<int> lens = {63, 64, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 65536, 70000};
		int n = c.pick(lens), kind = c.choose(4); c.mine(); str s; uint64_t h = 3; for (int i = 0; i < n; i++) { h = vf::mix(h); s += kind == 0 ? 'p' : kind == 1 ? '"' : kind == 2 ? (char)0xff : (char)h; }
		c.state(s); quote(c, s);
		return; }
	case 0: {	// all short strings over two letters
		int n = c.choose(c.T(9, 11)), m = c.choose(4); str s, o, nw;
		for (int i = 0; i < n; i++) { s += "ab"[c.choose(2)]; if (i == 2) c.mine(); }
		if (n < 3) c.mine();
		for (int i = 0; i < m; i++) o += "ab"[c.choose(2)];
		static const strs news = {"", "a", "ab", "ba", "aba", "c", "xxxx"};
		c.state(s + "/" + o);
		for (auto &x : news) replace(c, s, o, x);
		return; }
	case 1: {	// long: across the growth of the buffer
		int n = c.choose(140), at = c.choose(4), k = c.choose(3); c.mine();
		str s(n, 'q'), o = k == 0 ? "q" : k == 1 ? "ZZ" : "qZ"; if (at) s.insert(n * (at - 1) / 2, k == 1 ? "ZZ" : "Z");
		c.state(s + o);
		for (int l : {0, 1, 5, 64, 130}) replace(c, s, o, str(l, 'w'));
		return; }
	case 2: {	// bytes of any value
		int v = c.choose(255) + 1; c.mine();
		str ch(1, (char)v); c.state("v" + ch);
		replace(c, ch + "a" + ch + ch, ch, "."); replace(c, "a" + ch + "b", "b", ch); replace(c, "ab" + ch, "a" + ch, "x");
		return; }
	case 3: {	// quoting: all strings of two bytes, and longer ones over special characters
		int v = c.choose(257); c.mine();
		if (v == 256) { quote(c, ""); return; }
		for (int w = 0; w < 257; w++) { str s(1, (char)v); if (w < 256) s += (char)w; c.state("q" + s); quote(c, s); }
		return; }
	default: {
		static const str a = str("\"\\x0a\0\xff Q", 9);
		int n = 3 + c.choose(c.T(3, 4)); str s;
		for (int i = 0; i < n; i++) { s += a[c.choose((int)a.size())]; if (i == 1) c.mine(); }
		c.state("q" + s); quote(c, s);
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
