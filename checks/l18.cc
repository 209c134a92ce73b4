// L18: zone files against a reference reader for a small alphabet of lines.
#include "vf.hpp"
#include <sys/wait.h>
extern "C" {
#include "zonefile.h"
}
using namespace vf;
struct Line { str text; enum { DIR_ORIGIN, DIR_TTL, NOTHING, RR, ERR, SOA } kind; str arg, owner, ttl, type, rdata; };	// owner "^" inherits; names in rdata written <name>
static const std::vector<Line> &lines() {
	static const std::vector<Line> v = {
		{"www 60 IN A 192.0.2.1", Line::RR, "", "www", "60", "A", "192.0.2.1"},
		{"  61 IN A 192.0.2.3", Line::RR, "", "^", "61", "A", "192.0.2.3"},
		{"$ORIGIN example.net.", Line::DIR_ORIGIN, "example.net."},
		{"z 60 IN A 1.2.3", Line::ERR, "", "z"},
		{"@ 62 IN SOA ns h 8 1 2 3 4", Line::SOA, "", "@"},
		{"m ( 60 IN ; one ( two\n TXT \"x\"\n \"y\" )", Line::RR, "", "m", "60", "TXT", "\"x\" \"y\""},
		{"@ 63 IN MX 10 mail", Line::RR, "", "@", "63", "MX", "10 <mail>"},
		{"www IN A 192.0.2.2", Line::RR, "", "www", "", "A", "192.0.2.2"},
		{"$TTL 300", Line::DIR_TTL, "300"},
		{"; comment", Line::NOTHING}, {"", Line::NOTHING}, {" \t ", Line::NOTHING},
		{"abs.other. 5 IN TXT \"a;b c\"", Line::RR, "", "abs.other.", "5", "TXT", "\"a;b c\""},
		{"w2 60 in ns ns1.w2 ; sub", Line::RR, "", "w2", "60", "NS", "<ns1.w2>"},
		{"$ORIGIN .", Line::DIR_ORIGIN, "."},
		{"$INCLUDE other.zone", Line::ERR, "", ""},
		{"w3 64 IN AAAA 2001:db8::1", Line::RR, "", "w3", "64", "AAAA", "2001:db8::1"},
	};
	return v;
}
static const std::vector<std::vector<Line>> &heads() {
	static const Line o{"$ORIGIN example.org.", Line::DIR_ORIGIN, "example.org."}, t{"$TTL 7200", Line::DIR_TTL, "7200"}, n{"; a zone", Line::NOTHING}, e{"", Line::NOTHING};
	static const Line abs{"example.com. 3600 IN SOA ns.example.com. h.example.com. 7 1 2 3 4", Line::SOA, "7", "example.com.", "3600", "SOA", "<ns.example.com.> <h.example.com.> 7 1 2 3 4"};
	static const Line at{"@ 3600 IN SOA ns h (\n 4294967295 1 2 3 4 )", Line::SOA, "4294967295", "@", "3600", "SOA", "<ns> <h> 4294967295 1 2 3 4"};
	static const Line rel{"zone 3600 IN SOA ns h 2147483648 1 2 3 4", Line::SOA, "2147483648", "zone", "3600", "SOA", "<ns> <h> 2147483648 1 2 3 4"};
	static const std::vector<std::vector<Line>> v = {{abs}, {o, at}, {t, o, n, rel}, {n, e, abs}, {t, abs}, {o, abs}};
	return v;
}
struct Model {
	str origin = ".", prev, ttl, domain, serial; bool have_origin = false, soa = false, after_err = false;
	strs out; size_t ends = 0;	// RRs, "error"; complete once "end" is reached
	str full(const str &n) const { if (n == "@") return origin; if (!n.empty() && n.back() == '.') return n; return n + "." + (origin == "." ? "" : origin); }
	str names(str s) const { size_t a; while ((a = s.find('<')) != str::npos) { size_t b = s.find('>', a); s = s.substr(0, a) + full(s.substr(a + 1, b - a - 1)) + s.substr(b + 1); } return s; }
	bool bad = false, done = false;
	void line(const Line &l) {
		if (done || bad) return;
		switch (l.kind) {
		case Line::DIR_ORIGIN: origin = l.arg; have_origin = true; return;
		case Line::DIR_TTL: ttl = l.arg; return;
		case Line::NOTHING: return;
		case Line::ERR: if (!soa) { bad = true; return; } out.push_back("error"); after_err = true; return;
		case Line::SOA: case Line::RR: break;
		}
		if (!soa && l.kind != Line::SOA) { bad = true; return; }
		if (soa && l.kind == Line::SOA) { done = true; return; }
		if (l.owner == "^" && after_err) throw Cut();		// whose owner is it?
		if (l.ttl.empty() && ttl.empty()) throw Cut();		// no TTL known
		str owner = l.owner == "^" ? prev : full(l.owner);
		out.push_back(owner + "\t" + (l.ttl.empty() ? ttl : l.ttl) + "\tIN\t" + l.type + "\t" + names(l.rdata)); prev = owner; after_err = false;
		if (!soa) { soa = true; domain = owner; serial = l.arg; if (!have_origin) origin = owner; }
	}
};
static str dir;
static str rr_text(ldns_rr *rr) { char *s = ldns_rr2str(rr); str r(s); free(s); while (!r.empty() && (r.back() == '\n' || r.back() == ' ')) r.pop_back(); return r; }
static void put(const str &path, const str &data) { FILE *f = fopen(path.c_str(), "w"); fwrite(data.data(), 1, data.size(), f); fclose(f); }
// stop: destroy after this many reads; prefix: only what is sure to be there is compared
static void read_back(Ctx &c, const str &path, const Model &m, const str &text, int stop = 1000, bool prefix = false) {
	struct zonefile *z = zonefile_init_fname(path.c_str()); c.step();
	if (!z) { if (m.soa) c.fail("open", "refused: " + text); return; }
	if (!m.soa && !prefix) { zonefile_destroy(&z); c.fail("open", "accepted: " + text); }
	size_t rrs = 0;
	for (size_t i = 0; (int)i <= stop; i++) {
		char *d = ldns_rdf2str(zonefile_get_domain(z)); str dom(d); free(d);
		if (m.soa) { c.eqs(dom, m.domain, ("domain of " + text).c_str()); if (fmt("%u", zonefile_get_serial(z)) != m.serial) c.fail("serial", fmt("%u after %zu reads: ", zonefile_get_serial(z), i) + text); }
		else zonefile_get_serial(z);
		if (zonefile_get_count(z) != std::max<size_t>(rrs, 1)) c.fail("count", fmt("%zu after %zu records: ", zonefile_get_count(z), rrs) + text);
		if ((int)i == stop) break;
		ldns_rr *rr = (ldns_rr *)(uintptr_t)0x5a5a5a;
		ldns_status st = zonefile_read(z, &rr); c.step();
		if (st == LDNS_STATUS_OK && rr == (ldns_rr *)(uintptr_t)0x5a5a5a) c.fail("end", "nothing was stored: " + text);
		str got = st != LDNS_STATUS_OK ? str("error") : rr ? rr_text(rr) : str("end");
		if (st == LDNS_STATUS_OK && rr) { ldns_rr_free(rr); rrs++; }
		if (prefix && i >= m.out.size()) { if (got == "end" || i > m.out.size() + 40) { if (got != "end") c.fail("end", "never reached: " + text); break; } continue; }
		str want = i < m.out.size() ? m.out[i] : str("end");
		if (got != want) c.fail("record", fmt("read %zu gives [", i) + got + "], expected [" + want + "]: " + text);
		if (i > m.out.size() + 1) break;
	}
	zonefile_destroy(&z);
	if (z) c.fail("destroy", "pointer kept");
}
static void gzip(const str &path) { pid_t p = fork(); if (!p) { execlp("gzip", "gzip", "-kf", "--", path.c_str(), (char *)0); _exit(127); } int st; waitpid(p, &st, 0); }
static void body(Ctx &c) {
	if (dir.empty()) { dir = getenv("VF_SCRATCH") + fmt("/z%d", (int)getpid()); mkdir(dir.c_str(), 0755); }
	std::vector<Line> file; str path = dir + "/zone";
	int fam = c.choose(5);
	auto build = [&](int n) { file = c.pick(heads()); for (int i = 0; i < n; i++) { int k = c.choose((int)lines().size() + 1); if (k == (int)lines().size()) break; file.push_back(lines()[k]); if (i == 0) c.mine(); } if (n == 0 || file.size() == 0) c.mine(); };
	auto text = [&] { str s; for (auto &l : file) s += l.text + "\n"; return s; };
	Model m;
	switch (fam) {
	case 0: {	// every sequence of lines after a head, with and without a final newline
		build(c.T(3, 4));
		str s = text(); if (!s.empty() && c.flip()) s.pop_back();
		for (auto &l : file) m.line(l);
		c.trace("%s", s.c_str()); c.state(s);
		put(path, s); read_back(c, path, m, s); return; }
	case 1: {	// files which are no zone: no head, or something else before it
		int n = c.choose(3); for (int i = 0; i < n; i++) { file.push_back(c.pick(lines())); if (i == 0) c.mine(); } if (!n) c.mine();
		if (c.flip()) for (auto &l : c.pick(heads())) file.push_back(l);
		if (n && file[0].kind == Line::SOA) throw Cut();
		str s = text(); if (!s.empty() && c.flip()) s.pop_back();
		for (auto &l : file) { if (l.kind == Line::RR && (l.owner == "^" || l.ttl.empty()) && !m.soa) throw Cut(); if (l.kind == Line::SOA && !m.soa && l.arg.empty()) throw Cut(); m.line(l); }
		c.trace("%s", s.c_str()); c.state(s);
		put(path, s); read_back(c, path, m, s); return; }
	case 2: {	// stopped after each number of reads; cut short at each byte
		build(2); str s = text(); bool cut = c.flip();
		c.trace("%s", s.c_str());
		if (!cut) { for (auto &l : file) m.line(l); put(path, s); for (int stop = 0; stop <= (int)m.out.size() + 2; stop++) { c.state(s + fmt("#%d", stop)); read_back(c, path, m, s, stop); } }
		else for (size_t k = 0; k <= s.size(); k++) {
			Model p; size_t at = 0; for (auto &l : file) { at += l.text.size() + 1; if (at > k) break; p.line(l); }
			str t = s.substr(0, k); put(path, t); c.state(t); read_back(c, path, p, t, 1000, true);
		}
		return; }
	case 4: {	// many records and long ones, plain and compressed
		int n = c.pick(std::vector<int>{100, 255, 256, 257, 1000, 5000}); c.mine(); int kind = c.choose(4); bool gz = c.flip();
		if (kind == 3 && n > 257) throw Cut();
		file = heads()[1]; file.push_back({"$TTL 300", Line::DIR_TTL, "300"});
		for (int i = 0; i < n; i++) {
			str o = kind == 0 ? fmt("w%d", i) : kind == 1 ? fmt("w%d.", i) + str(63, 'x') + "." + str(63, 'y') : fmt("%c%d", 'a' + i % 26, i / 26);
			if (kind == 3) { str t; for (int k = 0; k < 1 + i % 30; k++) t += (k ? " \"" : "\"") + str(i % 201, 'v') + "\""; file.push_back({o + " IN TXT " + t, Line::RR, "", o, "", "TXT", t}); }
			else if (kind == 2 && i % 3) file.push_back({fmt("   IN A 10.0.%d.%d", i >> 8, i & 255), Line::RR, "", "^", "", "A", fmt("10.0.%d.%d", i >> 8, i & 255)});
			else file.push_back({o + fmt(" %d IN A 10.0.%d.%d", i + 1, i >> 8, i & 255), Line::RR, "", o, fmt("%d", i + 1), "A", fmt("10.0.%d.%d", i >> 8, i & 255)});
		}
		str s = text(); for (auto &l : file) m.line(l);
		c.trace("%d records of kind %d", n, kind); c.state(s);
		if (gz) { str plain = dir + "/plain"; put(plain, s); gzip(plain); read_back(c, plain + ".gz", m, fmt("%d records of kind %d", n, kind), 10000); } else { put(path, s); read_back(c, path, m, fmt("%d records of kind %d", n, kind), 10000); }
		return; }
	default: {	// names: compressed, missing, with characters special to a shell or a command line
		static const strs names = {"zone", "zone.gz", "a b", "a b.gz", "it's", "it's.gz", "$HOME.gz", "a;exit 1;.gz", "`x`.gz", "\"q\".gz", "-d.gz", "*.gz", "a\\.gz", "gz", ".gz", "a&b|c>d.gz", "new\nline.gz", "x.GZ", "'q.gz", "q'.gz", "''.gz", str(200, 'n') + ".gz"};
		str n = c.pick(names); int how = c.choose(3); c.mine();
		build(1); for (auto &l : file) m.line(l);
		str p = dir + "/n"; mkdir(p.c_str(), 0755); p += "/" + n;
		bool gz = n.size() >= 3 && n.compare(n.size() - 3, 3, ".gz") == 0;
		str s = text(); c.trace("%s", n.c_str()); c.state(n + fmt("%d ", how) + s);
		if (how == 2) { unlink(p.c_str()); if (gz) { int fd = dup(2); if (!freopen("/dev/null", "w", stderr)) {} read_back(c, p, Model(), "missing " + n); fflush(stderr); dup2(fd, 2); close(fd); } else read_back(c, p, Model(), "missing " + n); return; }
		if (gz) { str plain = dir + "/plain"; put(plain, s); gzip(plain); if (rename((plain + ".gz").c_str(), p.c_str())) c.fail("harness", "gzip"); } else put(p, s);
		str cwd; if (how == 1) { char b[4096]; cwd = getcwd(b, sizeof b); if (chdir((dir + "/n").c_str())) c.fail("harness", "chdir"); }
		read_back(c, how == 1 ? n : p, m, n + ": " + s, gz && c.flip() ? 1 : 1000);
		if (how == 1 && chdir(cwd.c_str())) c.fail("harness", "chdir");
		if (waitpid(-1, nullptr, WNOHANG) != -1) c.fail("child", "left behind after " + n);
		unlink(p.c_str());
		return; }
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
