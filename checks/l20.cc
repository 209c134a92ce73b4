// L20: hex decoding, number and date formatting.
#include "ents.hpp"
extern "C" {
#include "my_format.h"
bool hd(const char *, uint8_t **, size_t *);
}
using namespace vf; using namespace dns;
static int hv(unsigned char ch) { if (ch >= '0' && ch <= '9') return ch - '0'; ch |= 32; return ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : -1; }
static void decode(Ctx &c, const str &t) {
	bool ok = !t.empty() && t.size() % 2 == 0; str w;
	for (size_t i = 0; ok && i < t.size(); i += 2) { int h = hv(t[i]), l = hv(t[i + 1]); if (t[i] == 0 || h < 0 || l < 0) ok = false; else w += (char)(h << 4 | l); }
	char *in = (char *)malloc(t.size() + 1); memcpy(in, t.c_str(), t.size() + 1);
	uint8_t *raw = nullptr; size_t len = 0;
	bool got = hd(in, &raw, &len); c.step(); c.state("h" + t);
	if (got != ok) c.fail("hex", (got ? "accepted: [" : "refused: [") + t + "]");
	if (ok) { if (len != w.size() || str((char *)raw, len) != w) c.fail("hex", "bytes of " + t); free(raw); }
	free(in);
}
static void number(Ctx &c, uint64_t v) {
	str w = fmt("%llu", (unsigned long long)v); c.state(v);
	for (size_t size = 2; size <= 24; size++) {
		char *b = (char *)malloc(size); memset(b, 'X', size);
		const char *start = nullptr;
		size_t n = my_uint64_to_str(v, b, size, &start); c.step();
		str e = w.size() > size - 1 ? w.substr(w.size() - (size - 1)) : w;
		if (n != e.size() || start != b + size - 1 - n || str(start, n + 1) != str(e.c_str(), e.size() + 1)) c.fail("number", w + fmt(" in %zu bytes", size));
		for (char *p = b; p < start; p++) if (*p != 'X') c.fail("number", w + fmt(" in %zu bytes: wrote before its start", size));
		c.eq(my_uint64_to_str(v, b, size, nullptr), n, "digits without start");
		free(b);
	}
}
static void hexstr(Ctx &c, const str &s) {
	c.state("x" + s);
	for (int up = 0; up < 2; up++) for (size_t size = 1; size <= s.size() * 2 + 3; size++) {
		size_t n = std::min(s.size(), (size - 1) / 2);
		char *b = (char *)malloc(size);
		void *in = malloc(s.size()); memcpy(in, s.data(), s.size());
		size_t r = my_bytes_to_hex_str((uint8_t *)in, s.size(), up, b, size); c.step();
		str w = hex(s.substr(0, n)); if (up) for (auto &ch : w) ch = toupper(ch);
		if (r != n * 2 || str(b, r + 1) != str(w.c_str(), w.size() + 1)) c.fail("hex text", hex(s) + fmt(" in %zu bytes", size));
		free(in); free(b);
	}
}
// days to civil date, counted day by day
struct Day { int y, m, d; };
static std::vector<Day> days;
static void calendar() {
	Day x{1970, 1, 1};
	static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	while (x.y < 10000) {
		days.push_back(x);
		int l = len[x.m - 1] + (x.m == 2 && (x.y % 4 == 0 && (x.y % 100 != 0 || x.y % 400 == 0)));
		if (++x.d > l) { x.d = 1; if (++x.m > 12) { x.m = 1; x.y++; } }
	}
}
static void dates(Ctx &c, const std::vector<uint64_t> &ts, struct dnstable_formatter *text, struct dnstable_formatter *json) {
	for (size_t i = 0; i < ts.size(); i++) {
		uint64_t a = ts[i], b = ts[(i + 1) % ts.size()];
		auto show = [](uint64_t t) { Day d = days[t / 86400]; int s = t % 86400; return fmt("%04d-%02d-%02dT%02d:%02d:%02dZ", d.y, d.m, d.d, s / 3600, s / 60 % 60, s % 60); };
		Entry e(decode(mk_time_range(a, b).key(), mk_time_range(a, b).val()));
		c.check(e.e, "entry", "a time range does not decode");
		char *t = dnstable_entry_format(text, e.e), *j = dnstable_entry_format(json, e.e); c.step(); c.state(a * 31 + b);
		str tt = t ? t : "", jj = j ? j : ""; free(t); free(j);
		str wa = show(a), wb = show(b);
		if (tt.find(" " + wa + " ") == str::npos && tt.find(" " + wa + "\n") == str::npos && tt.find(wa) == str::npos) c.fail("date in text", fmt("%llu: ", (unsigned long long)a) + tt + " lacks " + wa);
		if (tt.find(wb) == str::npos) c.fail("date in text", fmt("%llu: ", (unsigned long long)b) + tt + " lacks " + wb);
		if (jj.find("\"" + wa + "\"") == str::npos) c.fail("date in JSON", fmt("%llu: ", (unsigned long long)a) + jj + " lacks " + wa);
		if (jj.find("\"" + wb + "\"") == str::npos) c.fail("date in JSON", fmt("%llu: ", (unsigned long long)b) + jj + " lacks " + wb);
	}
}
static void body(Ctx &c) {
	switch (c.choose(7)) {
	case 6: {	// long hex texts
		int k = 4 + c.choose(14), d = c.choose(5) - 2, how = c.choose(6); c.mine();
		int n = (1 << k) + d; str t; uint64_t h = 5; for (int i = 0; i < n; i++) { h = vf::mix(h); t += "0123456789abcdefABCDEF"[h % 22]; }
		if (how) t[how == 1 ? 0 : how == 2 ? n / 2 : n - (how - 2)] = "gG/:"[how % 4];
		decode(c, t); if (k < 9 && !how) { str s; for (char ch : t) s += ch; hexstr(c, s); }
		return; }
	case 0: {	// hex texts
		static const str a = "09aAfFgG/:@`x -";
		int n = c.choose(c.T(6, 7)); str t;
		for (int i = 0; i < n; i++) { t += a[c.choose((int)a.size())]; if (i == 1) c.mine(); }
		if (n < 2) c.mine();
		decode(c, t);
		return; }
	case 1: {	// every character at every place
		int n = 1 + c.choose(8), at = c.choose(n); c.mine();
		for (int v = 1; v < 256; v++) { str t(n, '5'); t[at] = (char)v; decode(c, t); }
		return; }
	case 2: {	// numbers around powers of ten and two, and their sums
		int k = c.choose(64), j = c.choose(21); c.mine();
		uint64_t p = 1; for (int i = 0; i < j && i < 20; i++) p *= 10; if (j == 20) p = 0;
		for (int d = -c.T(12, 200); d <= c.T(12, 200); d++) { number(c, p + d); number(c, (1ULL << k) + p + d); }
		return; }
	case 3: {	// bytes and 16-bit numbers to hex
		int v = c.choose(256); c.mine();
		hexstr(c, str(1, (char)v)); hexstr(c, str("\x12", 1) + (char)v + "\xfe"); if (v < 20) hexstr(c, str(v, (char)(v * 13)));
		for (int w = 0; w < 256; w++) for (int up = 0; up < 2; up++) {
			char *b = (char *)malloc(5); size_t n = my_uint16_to_hex_str(v << 8 | w, up, b, 5); c.step();
			str e = fmt(up ? "%04X" : "%04x", v << 8 | w); if (n != 4 || e != b) c.fail("16-bit hex", fmt("%x: %s", v << 8 | w, b)); free(b);
		}
		return; }
	case 4: {	// every day
		if (days.empty()) { vf::Uncounted u; calendar(); }
		int dec = c.choose(803); c.mine();
		struct dnstable_formatter *f[2]; for (int i = 0; i < 2; i++) { f[i] = dnstable_formatter_init(); dnstable_formatter_set_output_format(f[i], i ? dnstable_output_format_json : dnstable_output_format_text); dnstable_formatter_set_date_format(f[i], dnstable_date_format_rfc3339); }
		// ten years at a time: the first and last second and others of each day
		static const std::vector<int> few = {0, 86399}, more = {0, 1, 3599, 3600, 43199, 43200, 86399};
		for (int d = dec * 3653; d < (dec + 1) * 3653 && d < (int)days.size(); d++) { std::vector<uint64_t> ts; for (int s : c.thorough() ? more : few) ts.push_back(d * 86400ULL + s); dates(c, ts, f[0], f[1]); }
		for (int i = 0; i < 2; i++) dnstable_formatter_destroy(&f[i]);
		return; }
	default: {	// every second of some days
		if (days.empty()) { vf::Uncounted u; calendar(); }
		static const std::vector<int> which = {0, 19358, 2932896, 11016}; int d = c.pick(which), h = c.choose(24); c.mine();
		struct dnstable_formatter *f[2]; for (int i = 0; i < 2; i++) { f[i] = dnstable_formatter_init(); dnstable_formatter_set_output_format(f[i], i ? dnstable_output_format_json : dnstable_output_format_text); dnstable_formatter_set_date_format(f[i], dnstable_date_format_rfc3339); }
		std::vector<uint64_t> ts; for (int s = h * 3600; s < (h + 1) * 3600; s++) ts.push_back(d * 86400ULL + s);
		dates(c, ts, f[0], f[1]);
		for (int i = 0; i < 2; i++) dnstable_formatter_destroy(&f[i]);
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
