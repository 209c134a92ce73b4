// L03: a spool directory delivers each file exactly once, whatever rivals, producers, crashes and failing calls do.
#define SCHED_RUNTIME
#include "sched.hpp"
#include <dirent.h>
#include <stdarg.h>
extern "C" {
#include "spooldir.h"
}
using namespace vf;

static str base;			// the scratch spool
static bool act[9];			// this fiber is inside the code under test
static bool &here() { sched::World *w = sched::W(); return act[w && w->cur >= 0 ? w->cur : 8]; }
#define active_wraps here()
static int fault_at = -1, fault_errno, fault_seen;	// the fault_at-th call fails
static bool fault_hit;
static uint64_t fs_version;		// bumped by successful changes, through the shadow
static std::map<str, str> shadow;	// path -> identity of the file, as changed through the calls below
static str outside;

struct Off { bool *p, o; Off() : p(&here()), o(*p) { *p = false; } ~Off() { *p = o; } };
static bool faulty() {
	if (fault_at < 0) return false;
	if (fault_seen++ == fault_at) { fault_hit = true; errno = fault_errno; return true; }
	return false;
}
static void pt() { if (active_wraps) { Off off; sched::point(); } }
static void seen(const void *p, size_t n) { Off off; if (sched::W()) sched::W()->saw(p, n); }
static bool inside(const char *p) {
	if (!p) return false;
	if (str(p).compare(0, base.size(), base) == 0 && strstr(p, "/../") == nullptr) return true;
	outside = p; errno = EPERM;
	return false;
}
static str full(int dfd, const char *p) {
	if (p[0] == '/' || dfd == AT_FDCWD) return p;
	char l[64], b[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
	ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) return p; b[n] = 0;
	return str(b) + "/" + p;
}
extern "C" {
struct dirent *__real_readdir(DIR *); int __real_rename(const char *, const char *); int __real_unlink(const char *); int __real_mkdir(const char *, mode_t);
int __real_stat(const char *, struct stat *); int __real_lstat(const char *, struct stat *); int __real_fstatat(int, const char *, struct stat *, int); int __real_access(const char *, int);
int __real_link(const char *, const char *); int __real_usleep(useconds_t); void __real_rewinddir(DIR *); DIR *__real_opendir(const char *); int __real_rmdir(const char *);
int __real_faccessat(int, const char *, int, int);
#define ENTER(failure) if (!active_wraps) {} else { pt(); if (faulty()) return failure; }
#define RESULT(r, sb) { int e__ = (r) < 0 ? errno : 0; if (active_wraps) { Off off; seen(&e__, sizeof e__); } errno = e__; }
struct dirent *__wrap_readdir(DIR *d) { if (!active_wraps) return __real_readdir(d); pt(); struct dirent *e; { Off off; e = __real_readdir(d); if (e) seen(e->d_name, strlen(e->d_name)); else seen("", 1); } return e; }
int __wrap_stat(const char *p, struct stat *s) { ENTER(-1) int r = __real_stat(p, s); RESULT(r, s) return r; }
int __wrap_lstat(const char *p, struct stat *s) { ENTER(-1) int r = __real_lstat(p, s); RESULT(r, s) return r; }
int __wrap_fstatat(int d, const char *p, struct stat *s, int f) { ENTER(-1) int r = __real_fstatat(d, p, s, f); RESULT(r, s) return r; }
int __wrap_access(const char *p, int m) { ENTER(-1) int r = __real_access(p, m); RESULT(r, 0) return r; }
int __wrap_faccessat(int d, const char *p, int m, int f) { ENTER(-1) int r = __real_faccessat(d, p, m, f); RESULT(r, 0) return r; }
static void moved(const str &a, const str &b) { if (shadow.count(a)) { shadow[b] = shadow[a]; shadow.erase(a); } }
int __wrap_rename(const char *a, const char *b) { ENTER(-1) if (active_wraps && (!inside(a) || !inside(b))) return -1; int r = __real_rename(a, b); if (active_wraps) { Off off; if (!r) moved(a, b); } RESULT(r, 0) return r; }
int __real_renameat(int, const char *, int, const char *); int __real_renameat2(int, const char *, int, const char *, unsigned);
int __wrap_renameat(int x, const char *a, int y, const char *b) { ENTER(-1) if (!active_wraps) return __real_renameat(x, a, y, b); str A, B; { Off off; A = full(x, a); B = full(y, b); } if (!inside(A.c_str()) || !inside(B.c_str())) return -1; int r = __real_renameat(x, a, y, b); { Off off; if (!r) moved(A, B); } RESULT(r, 0) return r; }
int __wrap_renameat2(int x, const char *a, int y, const char *b, unsigned f) { ENTER(-1) if (!active_wraps) return __real_renameat2(x, a, y, b, f); str A, B; { Off off; A = full(x, a); B = full(y, b); } if (!inside(A.c_str()) || !inside(B.c_str())) return -1; int r = __real_renameat2(x, a, y, b, f); { Off off; if (!r) moved(A, B); } RESULT(r, 0) return r; }
int __wrap_link(const char *a, const char *b) { ENTER(-1) if (active_wraps && (!inside(a) || !inside(b))) return -1; int r = __real_link(a, b); if (active_wraps) { Off off; if (!r && shadow.count(a)) shadow[b] = shadow[a]; } RESULT(r, 0) return r; }
int __wrap_unlink(const char *p) { ENTER(-1) if (active_wraps && !inside(p)) return -1; int r = __real_unlink(p); if (active_wraps) { Off off; if (!r) shadow.erase(p); } RESULT(r, 0) return r; }
int __real_unlinkat(int, const char *, int);
int __wrap_unlinkat(int d, const char *p, int f) { ENTER(-1) if (!active_wraps) return __real_unlinkat(d, p, f); str P; { Off off; P = full(d, p); } if (!inside(P.c_str())) return -1; int r = __real_unlinkat(d, p, f); { Off off; if (!r) shadow.erase(P); } RESULT(r, 0) return r; }
int __real_remove(const char *);
int __wrap_remove(const char *p) { ENTER(-1) if (active_wraps && !inside(p)) return -1; int r = __real_remove(p); if (active_wraps) { Off off; if (!r) shadow.erase(p); } RESULT(r, 0) return r; }
int __wrap_mkdir(const char *p, mode_t m) { ENTER(-1) if (active_wraps && !inside(p)) return -1; int r = __real_mkdir(p, m); if (active_wraps) { Off off; if (!r) shadow[p] = "dir"; } RESULT(r, 0) return r; }
int __wrap_usleep(useconds_t u) { if (!active_wraps) return __real_usleep(u); pt(); return 0; }
int __wrap_nanosleep(const struct timespec *, struct timespec *) { pt(); return 0; }
unsigned __wrap_sleep(unsigned) { pt(); return 0; }
void __wrap_rewinddir(DIR *d) { pt(); __real_rewinddir(d); }
DIR *__wrap_opendir(const char *p) { pt(); return __real_opendir(p); }
}

static void put(const str &p, const str &s) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) _exit(98); if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) _exit(98); close(fd); }
static void wipe(const str &d) {
	DIR *x = __real_opendir(d.c_str()); if (!x) return;
	strs n; while (auto e = __real_readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
	closedir(x);
	for (auto &f : n) { str p = d + "/" + f; if (__real_unlink(p.c_str())) { wipe(p); rmdir(p.c_str()); } }
}
static std::map<str, str> list(const str &d) {	// regular files and their contents
	std::map<str, str> r; DIR *x = __real_opendir(d.c_str()); if (!x) return r;
	while (auto e = __real_readdir(x)) { str p = d + "/" + e->d_name; struct stat s; if (!__real_lstat(p.c_str(), &s) && S_ISREG(s.st_mode)) r[e->d_name] = read_file(p); }
	closedir(x); return r;
}

struct Got { str name; int who; };
static std::vector<Got> got;
static void take(Ctx *c, struct spooldir *s, int who, bool *null) {
	char *p;
	{ active_wraps = true; p = spooldir_next(s); active_wraps = false; }
	*null = !p;
	if (!p) return;
	str path = p; free(p);
	str want = base + "/active/";
	struct stat reg; if (__real_stat(path.c_str(), &reg) || !S_ISREG(reg.st_mode)) throw Fail{"kind", "returned " + path + ", which is not a regular file there"};
	if (path.compare(0, want.size(), want)) throw Fail{"path", "returned " + path + ", which is not in the active area"};
	str name = path.substr(want.size());
	if (read_file(path) != "contents of " + name) throw Fail{"contents", "returned " + path + ", which does not hold that file"};
	struct stat sb; if (!__real_stat((base + "/incoming/" + name).c_str(), &sb)) throw Fail{"moved", "returned " + path + " but it is still incoming"};
	for (auto &g : got) if (g.name == name) throw Fail{"twice", name + fmt(" was delivered to consumer %d and to consumer %d", g.who, who)};
	got.push_back({name, who});
}

// names of every shape, many files, and a spool far down in the file system
static void shapes(Ctx &c) {
	static const strs names = {"a", "a b", " ", "%s%n%d", "100%", "-rf", "~", "a.partial", "x.tmp", "x.", "x..", "a.b.c", "*", "?", "$HOME", "`x`", "'q'", "\"q\"", "a\nb", "\t", "\xff\xfe", "\xc3\xa4", "incoming", "active", "A", "0", "_", "#x#", "core", str(126, 'n'), str(127, 'n'), str(128, 'n'), str(254, 'n'), str(255, 'n'), str(250, '%')};
	int how = c.choose(4), deep = c.choose(5), again = c.choose(2); c.mine();
	static str top; if (top.empty()) top = base; base = top; wipe(top);
	static const int lens[] = {0, 30, 127, 1000, 3000};
	str sub; while ((int)sub.size() < lens[deep]) { sub += "/" + str(std::min<size_t>(200, lens[deep] - sub.size()), 'd'); __real_mkdir((base + sub).c_str(), 0755); }
	base += sub;
	__real_mkdir((base + "/incoming").c_str(), 0755); __real_mkdir((base + "/active").c_str(), 0755);
	strs files;
	if (how == 0) files = {c.pick(names)}; else if (how == 1) files = names; else if (how == 2) for (int i = 0; i < 400; i++) files.push_back(fmt("file-%d", i * 37)); else for (int i = 0; i < 60; i++) files.push_back(str(1 + i * 4, 'x'));
	c.trace("%zu files, how %d, %zu characters down", files.size(), how, base.size()); c.state(fmt("%d %d %d ", how, deep, again) + files[0]);
	shadow.clear(); auto inc = base + "/incoming/"; std::set<str> all;
	struct spooldir *s = spooldir_init(base.c_str()); bool null; int nulls = 0;
	if (again) { take(&c, s, 0, &null); c.check(null, "foreign", "a file from an empty spool"); }
	for (auto &n : files) { put(inc + n, "contents of " + n); all.insert(n); if (how) put(inc + "." + n.substr(0, 200), "contents"); }
	for (size_t k = 0; nulls < 2 && k < 3 * files.size() + 30; k++) { take(&c, s, 0, &null); c.step(); if (null) nulls++; }
	spooldir_destroy(&s);
	c.check(outside.empty(), "outside", "touched a path outside the spool: " + outside);
	auto in = list(base + "/incoming"), ac = list(base + "/active");
	for (auto &n : all) { if (in.count(n)) c.fail("left", "[" + n + "] is still incoming"); if (!ac.count(n) || ac[n] != "contents of " + n) c.fail("lost", "[" + n + "]"); }
	c.eq(got.size(), all.size(), "files delivered"); c.eq(ac.size(), all.size(), "files in the active area"); std::set<str> temps; if (how) for (auto &n : files) temps.insert(n.substr(0, 200)); c.eq(in.size(), temps.size(), "temporary files left alone");
	base = top; wipe(top);
}
static void body(Ctx &c) {
	memset(act, 0, sizeof act); fault_at = -1; outside.clear(); got.clear();
	if (base.empty()) {
		base = getenv("VF_SCRATCH") + fmt("/spool%d", (int)getpid()); __real_mkdir(base.c_str(), 0755);
		int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
	}
	int kind = c.choose(6, "kind");
	if (kind == 5) { shapes(c); return; }
	// 0 rivals, 1 rivals and a producer, 2 a rival dies, 3 threads sharing one spool, 4 a failing call
	int nfiles = kind == 1 ? 0 : c.choose(c.T(2, 3), "files") + 1;
	bool odd = kind == 4 ? true : c.flip("other things in the incoming area");
	bool same = kind != 2 && c.flip("an old consumer finishes");
	bool fresh = kind == 0 ? c.flip("directories not there yet") : false;
	if (fresh && odd) throw Cut();
	int ncons = kind == 4 ? 1 : kind == 3 || kind == 0 ? (c.thorough() ? 2 + c.choose(2, "consumers") : 2) : kind == 1 ? 1 + c.choose(c.T(2, 2), "consumers") : 2;
	int calls = c.choose(kind == 1 ? 3 : ncons == 3 ? 1 : 2, "calls") + 1;
	int prod = kind == 1 ? c.choose(2, "files produced") + 1 : 0;
	if (kind == 4) { calls = 3; fault_at = c.choose(c.T(24, 40), "failing call"); fault_errno = c.pick(std::vector<int>{EIO, ENOENT, EACCES, EXDEV, EINTR, ENOSPC}, "errno"); }
	if (fresh) nfiles = 0;
	int bound = c.thorough() ? -1 : (kind == 1 && ncons == 2 && calls == 3) ? 2 : -1;
	// a second decision for sharding: nothing else varies before the schedule
	c.mine();
	wipe(base); shadow.clear();
	std::set<str> all;
	auto inc = base + "/incoming/", act = base + "/active/";
	if (!fresh) {
		__real_mkdir((base + "/incoming").c_str(), 0755); __real_mkdir((base + "/active").c_str(), 0755);
		for (int i = 0; i < nfiles; i++) { str n = fmt("f%d", i); put(inc + n, "contents of " + n); shadow[inc + n] = n; all.insert(n); }
		if (odd) {
			put(inc + ".partial", "contents of .partial"); __real_mkdir((inc + "directory").c_str(), 0755); symlink("nowhere", (inc + "dangling").c_str()); mkfifo((inc + "fifo").c_str(), 0644);
			put(act + "earlier", "contents of earlier");
		}
	}
	std::vector<struct spooldir *> s(ncons, nullptr);
	bool shared = kind == 3;
	if (!fresh) for (int i = 0; i < ncons; i++) s[i] = shared && i ? s[0] : spooldir_init(base.c_str());
	// what is destroyed at the end even when the execution is cut short
	struct Clean { std::vector<struct spooldir *> &s; bool shared; ~Clean() { active_wraps = false; for (size_t i = 0; i < s.size(); i++) if (s[i] && !(shared && i && s[0])) /* one object */  { struct spooldir *x = s[i]; spooldir_destroy(&x); } } } clean{s, shared};
	bool died = false;
	fault_seen = 0; fault_hit = false;
	{
		sched::World w(c, false, bound);
		for (int i = 0; i < ncons; i++) w.spawn([&, i]() {
			if (!s[i]) { active_wraps = true; struct spooldir *x = spooldir_init(base.c_str()); active_wraps = false; s[i] = x; }
			bool null;
			for (int k = 0; k < calls; k++) { take(&c, s[i], i, &null); w.saw(&null, 1); }
		});
		if (prod) w.spawn([&]() {
			for (int k = 0; k < prod; k++) {
				str n = fmt("p%d", k), t = inc + "." + n;
				sched::point(); put(t, "contents");
				sched::point(); put(t, "contents of " + n); shadow[t] = n;
				sched::point(); __real_rename(t.c_str(), (inc + n).c_str()); moved(t, inc + n);
				all.insert(n);
			}
		});
		if (kind == 2) w.spawn([&]() { sched::point(); w.f[0]->dead = true; died = true; });
		w.extra = [&]() { uint64_t h = mix(kind + nfiles * 10 + odd * 100 + fresh * 200 + ncons * 1000 + calls * 10000 + prod * 100000); for (auto &x : shadow) h = hash_str(x.first, hash_str(x.second, h)); for (auto &g : got) h = mix(h + hash_str(g.name) * (g.who + 1)); return h + died; };
		bool fin = w.run();
		active_wraps = false;
		c.check(fin, "deadlock", "the consumers block each other for ever");
	}
	c.check(outside.empty(), "outside", "touched a path outside the spool: " + outside);
	fault_at = -1;
	// later, a consumer starts anew and takes the rest
	struct spooldir *r = same ? s[0] : spooldir_init(base.c_str());
	int nulls = 0;
	for (int k = 0; nulls < 2 && k < 30; k++) { bool null; take(&c, r, 9, &null); if (null) nulls++; }
	if (same) { if (shared) for (auto &x : s) x = nullptr; s[0] = nullptr; }
	spooldir_destroy(&r);
	c.check(!r, "destroy", "destroying leaves the pointer set");
	auto in = list(base + "/incoming"), ac = list(base + "/active");
	size_t lost = 0;
	for (auto &n : all) {
		bool g = false; for (auto &x : got) g |= x.name == n;
		c.check(!in.count(n), "left", n + " is still incoming after a consumer ran alone to the end");
		c.check(ac.count(n) && ac[n] == "contents of " + n, "lost", n + (g ? " was delivered but is gone from the active area" : " is gone"));
		if (!g) lost++;
	}
	c.check(lost <= (died ? 1 : 0), "undelivered", fmt("%zu files were moved to the active area but never delivered", lost));
	for (auto &g : got) c.check(all.count(g.name), "foreign", g.name + " was delivered");
	if (odd && !fresh) c.check(in.count(".partial") && ac.count("earlier"), "foreign", "other files were touched");
	for (auto &x : ac) c.check(all.count(x.first) || x.first == "earlier", "foreign", "the active area holds " + x.first);
}
int main(int argc, char **argv) { return run(argc, argv, body); }
