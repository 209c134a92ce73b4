// L02: a file set follows its set file through every history of edits and reloads.
#include "vf.hpp"
#include <sys/time.h>
extern "C" {
#include "my_fileset.h"
}
using namespace vf;

static int fail_opens = 0;		// this many attempts to open the set file fail
static std::function<void()> on_open;	// runs when the set file is about to be opened
static str setpath;
extern "C" {
FILE *__real_fopen(const char *, const char *); int __real_open(const char *, int, ...); int __real_openat(int, const char *, int, ...);
static bool intercept(const char *p) {
	if (setpath.empty() || setpath != p) return false;
	if (on_open) { auto f = on_open; on_open = nullptr; f(); }
	if (fail_opens > 0) { fail_opens--; errno = EMFILE; return true; }
	return false;
}
FILE *__wrap_fopen(const char *p, const char *m) { return intercept(p) ? nullptr : __real_fopen(p, m); }
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return intercept(p) ? -1 : __real_open(p, f, m); }
int __wrap_openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return intercept(p) ? -1 : __real_openat(d, p, f, m); }
}

struct Ev { bool load; str fname; void *ptr; };
static std::vector<Ev> events;
static long next_ptr;
static int user_token;
static struct my_fileset *the_fs; static bool bad_cb;
static void *load_cb(struct my_fileset *fs, const char *f) {
	Uncounted u;
	if (my_fileset_user(fs) != &user_token) bad_cb = true;
	str s = f; void *p = (void *)(++next_ptr * 16);
	if (s.size() && s.back() == 'd') p = nullptr;	// a member which does not load
	events.push_back({true, s, p});
	return p;
}
static void unload_cb(struct my_fileset *fs, const char *f, void *p) { Uncounted u; if (my_fileset_user(fs) != &user_token) bad_cb = true; events.push_back({false, f, p}); }

static int clock_s;
static void stamp(const str &p, int t) { struct timeval tv[2] = {{t, 0}, {t, 0}}; utimes(p.c_str(), tv); }
static void put(const str &p, const str &s, int flags) { int fd = __real_open(p.c_str(), O_WRONLY | O_CREAT | flags, 0644); if (fd < 0) _exit(98); if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) _exit(98); close(fd); }

static strs many() { strs s; for (int i = 0; i < 150; i++) s.push_back(fmt("many/%d", i * 37 % 150)); s.push_back("many/0"); return s; }
// many members, long names and long lines, over three listings
static void large(Ctx &c) {
	int n = c.pick(std::vector<int>{5, 255, 256, 257, 600, 2000}), name = c.pick(std::vector<int>{4, 60, 126, 127, 128, 250}), depth = c.pick(std::vector<int>{0, 40, 1000, 3300}), order = c.choose(3), bad = c.choose(2); c.mine();
	if (n > 257 && (depth > 40 || name > 60)) throw Cut();
	Uncounted hold_all;
	static str top; if (top.empty()) { top = getenv("VF_SCRATCH") + fmt("/fl%d", (int)getpid()); mkdir(top.c_str(), 0755); }
	str d = top; while ((int)(d.size() - top.size()) < depth) { d += "/" + str(std::min<size_t>(199, depth), 'd'); mkdir(d.c_str(), 0755); }
	auto file = [&](int i) { str s = fmt("%04d", i); return s + str(name - 4, 'm'); };
	for (int i = 0; i < n; i++) { str p = d + "/" + file(i); if (access(p.c_str(), F_OK)) put(p, "x", O_TRUNC); }
	str set = d + "/set";
	auto at = [&](int i) { return order == 0 ? i : order == 1 ? n - 1 - i : (int)((long)i * 101 % n); };
	auto write = [&](std::function<bool(int)> in, int t) { str s; for (int i = 0; i < n; i++) if (in(at(i))) { s += file(at(i)) + "\n"; if (bad && i % 50 == 7) s += str(i % 100 == 7 ? 5000 : 300, 'z') + "\n" + file(at(i)) + "\n" + str(70000, 'y') + "\n"; } put(set, s, O_TRUNC); stamp(set, t); };
	setpath.clear(); events.clear(); next_ptr = 0; bad_cb = false; fail_opens = 0; on_open = nullptr;
	static const std::vector<std::function<bool(int)>> picks = {[](int) { return true; }, [](int i) { return i % 2 == 0; }, [](int i) { return i % 3 == 1; }, [](int) { return true; }, [](int i) { return i == 1; }, [](int) { return false; }};
	write(picks[0], 1000000);
	struct my_fileset *fs; { hook_off() = false; fs = my_fileset_init(set.c_str(), load_cb, unload_cb, &user_token); hook_off() = true; }
	str what = fmt("%d members of %d characters %zu down, order %d, bad lines %d", n, name, d.size(), order, bad); c.state(what); c.trace("%s", what.c_str());
	std::map<str, void *> have;
	for (size_t k = 0; k < picks.size(); k++) {
		if (k) write(picks[k], 1000000 + k);
		size_t e0 = events.size();
		{ hook_off() = false; my_fileset_reload(fs); hook_off() = true; } c.step();
		std::set<str> want; for (int i = 0; i < n; i++) if (picks[k](i)) want.insert(d + "/" + file(i));
		for (size_t i = e0; i < events.size(); i++) { auto &e = events[i]; if (e.load) { if (!have.insert({e.fname, e.ptr}).second) c.fail("twice", what + ": loaded again: " + e.fname); if (!want.count(e.fname)) c.fail("load", what + ": not listed: " + e.fname); } else { auto f = have.find(e.fname); if (f == have.end() || f->second != e.ptr) c.fail("unload", what + ": " + e.fname); if (want.count(e.fname)) c.fail("unload", what + ": still listed: " + e.fname); have.erase(f); } }
		if (have.size() != want.size()) c.fail("members", what + fmt(": %zu are loaded, %zu listed", have.size(), want.size()));
		size_t i = 0; const char *fn; void *p;
		for (auto &w : want) { if (!my_fileset_get(fs, i++, &fn, &p) || w != fn) c.fail("members", what + ": out of order or missing: " + w); if (have[w] != p) c.fail("pointer", what + ": " + w); }
		if (my_fileset_get(fs, i, &fn, &p)) c.fail("members", what + ": one more: " + fn);
	}
	{ hook_off() = false; my_fileset_destroy(&fs); hook_off() = true; }
	if (name != 4) for (int i = 0; i < n; i++) unlink((d + "/" + file(i)).c_str());
}
static void body(Ctx &c) {
	if (c.flip("large")) { large(c); return; }
	Uncounted *hold = new Uncounted;	// the harness's own allocations do not count
	struct Free { Uncounted *h; ~Free() { delete h; } } fr{hold};
	static const std::vector<strs> listings = {
		{}, {"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"a", "a"}, {"a", "b", "a"}, {"b", "a", "b", "a"}, {"c"}, {"a", "c", "b"},
		{"sub/a", "a"}, {"/a", "a"}, {"d", "a"}, {"a\r", "b"}, {"a", "b", "sub/a", "a b", "d", "a"}, {"a ", "A", "a"}, many(), {"no/such", "b"}, {"b", "", "a"}, {"a b", "a"}};
	bool deep = c.thorough() && c.flip("three edits");
	int nl = deep ? 7 : c.T(17, (int)listings.size());
	static const char *files[] = {"a", "b", "c", "d", "sub/a", "a b", "A", "a "};
	static str dir;
	static std::vector<str> keep;
	if (dir.empty()) {
		dir = getenv("VF_SCRATCH") + fmt("/fs%d", (int)getpid());
		mkdir(dir.c_str(), 0755); mkdir((dir + "/sub").c_str(), 0755); mkdir((dir + "/many").c_str(), 0755); for (auto &x : many()) put(dir + "/" + x, "x", O_TRUNC);
		if (chdir(dir.c_str())) _exit(98);
	}
	int style = deep ? 0 : c.choose(3, "path style");	// absolute, relative, relative with ./
	str pre = style == 0 ? dir : str(".");
	setpath = style == 0 ? dir + "/set" : style == 1 ? "set" : "./set";
	int nul = c.choose(2, "callbacks missing") ;
	if (nul && style) throw Cut();
	int first = c.choose(nl, "listing");
	int depth = (deep ? 3 : 2) + (nul ? -1 : 0);
	struct Op { int kind, arg, way; };
	std::vector<Op> ops;
	for (int i = 0; i < depth; i++) {
		Op o{c.choose(6, "edit"), 0, 0};
		if (o.kind == 0) { o.arg = c.choose(nl, "listing"); o.way = c.choose(3, "0 replace, 1 rewrite, 2 rewrite with an earlier time"); }
		else if (o.kind == 1) o.arg = c.choose(3, "toggle file");
		else if (o.kind == 2) { o.arg = c.choose(nl, "listing, the open fails"); }
		else if (o.kind == 3) { o.arg = c.choose(nl, "listing, edited while being opened"); }
		else if (o.kind == 4) { }	// set file missing for a while
		else { }			// nothing changes
		ops.push_back(o);
		if (i == 0) c.mine();
	}
	{ bool big = first == 16, other = style != 0; for (auto &o : ops) { big |= o.kind != 1 && o.arg == 16; other |= o.kind != 0 || (o.arg > 3 && o.arg != 16); } if (first > 3 && first != 16) other = true; if (big && other) throw Cut(); }
	bool nonl = c.flip("last line unterminated");
	if (nonl && (ops[0].kind > 1)) throw Cut();
	static bool dirty = true;
	if (dirty) for (auto f : files) { if (strcmp(f, "c")) put(f, "x", O_TRUNC); else unlink("c"); }
	dirty = false;
	for (auto &o : ops) dirty |= o.kind == 1 || o.kind == 4;
	if (dirty) unlink("set.away");
	unlink("set"); for (auto &k : keep) unlink(k.c_str()); keep.clear();
	clock_s = 1000000;
	auto text = [&](int l) { str s; for (size_t i = 0; i < listings[l].size(); i++) { s += listings[l][i]; if (!nonl || i + 1 < listings[l].size()) s += "\n"; } return s; };
	auto replace = [&](int l) { // keeps the old file alive so that its inode number is not used again; same modification time
		str k = fmt("keep%zu", keep.size()); link("set", k.c_str()); keep.push_back(k);
		put("set.tmp", text(l), O_TRUNC); stamp("set.tmp", clock_s); rename("set.tmp", "set");
	};
	auto rewrite = [&](int l) { put("set", text(l), O_TRUNC); stamp("set", ++clock_s); };
	auto older = [&](int l) { put("set", text(l), O_TRUNC); stamp("set", 2000000 - ++clock_s); };
	put("set", text(first), O_EXCL); stamp("set", clock_s);
	int cur = first; bool changed = true;
	std::map<str, void *> loaded;	// the reference state
	events.clear(); next_ptr = 0; bad_cb = false; fail_opens = 0; on_open = nullptr;
	struct my_fileset *fs;
	{ hook_off() = false; fs = my_fileset_init(setpath.c_str(), nul ? nullptr : load_cb, nul ? nullptr : unload_cb, nul ? nullptr : &user_token); hook_off() = true; }
	c.check(my_fileset_user(fs) == (nul ? nullptr : &user_token), "user", "another user pointer than was given");
	c.check(events.empty(), "init", "files were loaded before the first reload");
	auto is_blank = [&](const str &n) { return n == pre + "/"; };	// what an empty line means is not specified
	auto listed = [&](int l) { std::map<str, int> m; for (auto &x : listings[l]) { str p = pre + "/" + x; struct stat sb; if (!x.empty() && stat(p.c_str(), &sb) == 0) m[p] = 1; } return m; };
	auto reload_and_check = [&](std::vector<int> may, const char *why) {
		size_t e0 = events.size();
		{ hook_off() = false; my_fileset_reload(fs); hook_off() = true; }
		// what is there now
		std::vector<std::pair<str, void *>> got; const char *fn; void *ptr;
		for (size_t i = 0; my_fileset_get(fs, i, &fn, &ptr); i++) { c.check(i < 400, "get", "no end of members"); if (!is_blank(fn)) got.push_back({fn, ptr}); }
		str desc; for (auto &g : got) desc += g.first.substr(pre.size() + 1) + " ";
		bool ok = false;
		str wants;
		for (int l : may) {
			std::map<str, int> want;
			if (l < 0) for (auto &x : loaded) want[x.first] = 1; else want = listed(l);
			wants += "["; for (auto &x : want) wants += x.first.substr(pre.size() + 1) + " "; wants += "] ";
			if (want.size() != got.size()) continue;
			bool same = true; size_t i = 0;
			for (auto &x : want) { same &= got[i].first == x.first; i++; }
			if (!same) continue;
			ok = true;
		}
		c.step();
		c.check(ok, "members", fmt("%s: members are [%s], expected %s", why, desc.c_str(), wants.c_str()));
		// loads and unloads account for the difference
		std::map<str, void *> now;
		for (auto &g : got) now[g.first] = g.second;
		if (!nul) {
			std::map<str, int> l, u;
			for (size_t i = e0; i < events.size(); i++) {
				auto &e = events[i];
				if (is_blank(e.fname)) continue;
				if (e.load) {
					c.check(!loaded.count(e.fname), "reloaded", why + str(": loaded again although it stayed listed: ") + e.fname);
					c.check(++l[e.fname] == 1, "twice", why + str(": loaded twice: ") + e.fname);
					c.check(now.count(e.fname) && now[e.fname] == e.ptr, "pointer", why + str(": what loading returned is not kept: ") + e.fname);
				} else {
					c.check(++u[e.fname] == 1, "twice", why + str(": unloaded twice: ") + e.fname);
					c.check(loaded.count(e.fname) && loaded[e.fname] == e.ptr, "unload", why + str(": unloaded something that was not loaded: ") + e.fname);
					c.check(!now.count(e.fname), "unload", why + str(": unloaded although it is a member: ") + e.fname);
				}
			}
			for (auto &g : now) { if (!loaded.count(g.first)) c.check(l[g.first] == 1, "load", why + str(": never loaded: ") + g.first); else c.check(loaded[g.first] == g.second, "pointer", why + str(": lost what loading returned: ") + g.first); }
			for (auto &g : loaded) if (!now.count(g.first)) c.check(u[g.first] == 1, "unload", why + str(": no longer a member but never unloaded: ") + g.first);
		}
		loaded = now;
		c.check(!bad_cb, "user", "a callback saw another user pointer");
		const char *f2 = nullptr; void *p2;
		c.check(!my_fileset_get(fs, 1000, &f2, &p2), "get", "member 1000 exists");
		{ str ev; for (size_t i = e0; i < events.size(); i++) ev += (events[i].load ? "+" : "-") + events[i].fname; c.state(hash_str(desc + "|" + ev, hash_str(why, cur * 8 + style))); }
	};
	reload_and_check({cur}, "first reload"); changed = false;
	for (auto &o : ops) {
		c.trace("edit %d arg %d way %d", o.kind, o.arg, o.way);
		switch (o.kind) {
		case 0: if (o.way == 2) older(o.arg); else if (o.way) rewrite(o.arg); else replace(o.arg); cur = o.arg; reload_and_check({cur}, "after an edit"); break;
		case 1: { struct stat sb; const char *f = files[o.arg]; if (stat(f, &sb) == 0) unlink(f); else put(f, "x", O_TRUNC);
			reload_and_check({-1}, "after a member appeared or vanished");	// the set file has not changed
			break; }
		case 2: rewrite(o.arg); cur = o.arg; fail_opens = 1; reload_and_check({-1}, "when the set file could not be opened"); 
			if (fail_opens) { fail_opens = 0; }
			reload_and_check({cur}, "after the set file could not be opened once"); break;
		case 3: { rewrite(cur); int prev = cur; on_open = [&, o]() { replace(o.arg); }; reload_and_check({prev, o.arg}, "when the set file was replaced during the reload");
			if (on_open) throw Cut(); cur = o.arg; reload_and_check({cur}, "after the set file was replaced during a reload"); break; }
		case 4: rename("set", "set.away"); reload_and_check({-1}, "while the set file is missing"); rename("set.away", "set"); reload_and_check({-1}, "after the set file came back"); break;
		default: reload_and_check({-1}, "with nothing changed");
		}
	}
	size_t e0 = events.size();
	{ hook_off() = false; my_fileset_destroy(&fs); hook_off() = true; }
	c.check(!fs, "destroy", "destroying leaves the pointer set");
	if (!nul) {
		std::map<str, int> u;
		for (size_t i = e0; i < events.size(); i++) {
			auto &e = events[i]; c.check(!e.load, "destroy", "destroying loaded a file");
			if (is_blank(e.fname)) continue;
			c.check(loaded.count(e.fname) && loaded[e.fname] == e.ptr && ++u[e.fname] == 1, "destroy", "destroying unloaded wrongly: " + e.fname);
		}
		c.check(u.size() == loaded.size(), "destroy", "destroying did not unload every member");
	}
	setpath.clear();
}
int main(int argc, char **argv) { return run(argc, argv, body, true); }
