// vf: a small stateless model checker.
//
// A check is one function body(Ctx&).  Every nondeterministic decision of the environment
// (database contents, query, schedule, fault, clock step, ...) is taken with c.choose(n); the
// explorer runs body once for every possible sequence of decisions (depth-first, no sampling),
// sharded over processes by the hash of the decisions taken before c.mine().  Each execution
// drives the real code and compares it, step by step, with the reference model in the check.
#pragma once
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
							  void (*)(const volatile void *))
	__attribute__((weak));

extern "C" void __asan_describe_address(void *) __attribute__((weak));

namespace vf {

typedef std::string str;
typedef std::vector<std::string> strs;

inline uint64_t mix(uint64_t h) {
	h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
	return h;
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; }
	return mix(h + n);
}
inline uint64_t hash_str(const str &s, uint64_t h = 0xcbf29ce484222325ULL) { return hash_bytes(s.data(), s.size(), h); }

inline str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline str fmt(const char *f, ...) {
	char buf[4096];
	va_list ap; va_start(ap, f);
	int n = vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	if (n < 0) n = 0;
	return str(buf, std::min<size_t>(n, sizeof buf - 1));
}
inline str hex(const void *p, size_t n) {
	static const char d[] = "0123456789abcdef";
	str in((const char *)p, n), r(2 * n, 0);	// the copy goes through memcpy, which ASAN checks
	for (size_t i = 0; i < n; i++) { r[2 * i] = d[(uint8_t)in[i] >> 4]; r[2 * i + 1] = d[in[i] & 15]; }
	return r;
}
inline str hex(const str &s) { return hex(s.data(), s.size()); }

struct Skip {};		// not this shard's subtree
struct Cut {};		// execution ends here: uninteresting or outside the bounds
struct Fail { str key, msg; };

class U64Set {
	std::vector<uint64_t> t; size_t n = 0; bool zero = false;
	void grow() {
		std::vector<uint64_t> o(t.empty() ? 1024 : t.size() * 2);
		o.swap(t); n = 0;
		for (uint64_t x : o) if (x) insert(x);
	}
public:
	bool insert(uint64_t x) {
		if (x == 0) { bool z = zero; zero = true; return !z; }
		if ((n + 1) * 3 > t.size() * 2) grow();
		size_t m = t.size() - 1, i = mix(x) & m;
		while (t[i]) { if (t[i] == x) return false; i = (i + 1) & m; }
		t[i] = x; n++;
		return true;
	}
	size_t size() const { return n + zero; }
	template <class F> void each(F f) const { if (zero) f(0); for (uint64_t x : t) if (x) f(x); }
};

struct Slot {			// shared with the parent so that a crash identifies its case
	volatile uint32_t len;
	volatile uint32_t running;	// 1 inside body
	uint16_t val[4000], n[4000];
	volatile uint64_t execs, transitions, cuts, nsamples;
	char note[512];
};

inline bool &hook_off() { static thread_local bool b = false; return b; }
inline int64_t &live_allocs() { static int64_t n = 0; return n; }
struct Uncounted { bool o; Uncounted() : o(hook_off()) { hook_off() = true; } ~Uncounted() { hook_off() = o; } };
inline std::set<const volatile void *> *&live_set() { static std::set<const volatile void *> *s = nullptr; return s; }	// only in a replay
inline void on_malloc(const volatile void *p, size_t) { if (hook_off()) return; live_allocs()++; if (live_set()) { Uncounted u; live_set()->insert(p); } }
inline void on_free(const volatile void *p) { if (hook_off() || !p) return; live_allocs()--; if (live_set()) { Uncounted u; live_set()->erase(p); } }

struct Options {
	bool thorough = false;
	int shards = 8;
	double budget = 600;
	int case_limit = 60;
	str out, known, tmp = "/tmp", replay;
	bool verbose = false;
};

class Ctx {
public:
	Options opt;
	// --- decisions
	int choose(int n, const char *what = nullptr) {
		if (n <= 0) throw Cut();
		Uncounted u;
		int v;
		if (pos < path.size()) {
			if (path[pos].second != (unsigned)n) {
				fprintf(stderr, "vf: harness is not deterministic at decision %zu (%u vs %d)\n", pos, path[pos].second, n);
				_exit(97);
			}
			v = path[pos].first;
		} else {
			path.push_back({0, (unsigned)n});
			v = 0;
		}
		if (pos < 4000) { slot->val[pos] = v; slot->n[pos] = n; slot->len = pos + 1; }
		pos++;
		if (tracing && what) trace("%s=%d/%d", what, v, n);
		return v;
	}
	bool flip(const char *what = nullptr) { return choose(2, what); }
	template <class T> const T &pick(const std::vector<T> &v, const char *what = nullptr) { return v[choose((int)v.size(), what)]; }
	// everything decided so far determines the shard
	void mine() {
		if (!opt.replay.empty() || replaying || mined) return;
		mined = true;
		uint64_t h = 1469598103934665603ULL;
		for (size_t i = 0; i < pos; i++) h = mix(h ^ (path[i].first + 1) * 0x9e3779b97f4a7c15ULL);
		if ((h >> 20) % opt.shards != (unsigned)shard) throw Skip();
	}
	// what has been decided so far
	uint64_t decided() const { uint64_t h = 7; for (size_t i = 0; i < pos; i++) h = mix(h * 31 + path[i].first + 1); return h; }
	bool thorough() const { return opt.thorough; }
	int T(int quick, int thorough_) const { return opt.thorough ? thorough_ : quick; }
	// --- bookkeeping
	void state(uint64_t h) { Uncounted u; states.insert(h); }
	void state(const str &s) { Uncounted u; states.insert(hash_str(s)); }
	// explicit-state pruning: end this execution when the state was reached before by another one.
	// The key must determine all future behaviour of the harness and of its verdicts.
	bool fresh() const { return pos >= path.size(); }
	void visit(uint64_t h) {
		Uncounted u;
		if (replaying) return;
		bool seen = !visited.insert(h);
		states.insert(h);
		if (seen && fresh()) throw Cut();
	}
	void step(uint64_t n = 1) { slot->transitions += n; }
	bool tracing = false;
	void trace(const char *f, ...) __attribute__((format(printf, 2, 3))) {
		if (!tracing) return;
		Uncounted u;
		char buf[2000];
		va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
		trace_text += buf; trace_text += "; ";
	}
	void note(const str &s) { size_t n = std::min<size_t>(s.size(), sizeof slot->note - 1); memcpy(slot->note, s.data(), n); slot->note[n] = 0; }
	// --- verdicts
	[[noreturn]] void fail(const str &key, const str &msg) { throw Fail{key, msg}; }
	void check(bool ok, const str &key, const str &msg) { if (!ok) fail(key, msg); }
	template <class A, class B> void eq(const A &got, const B &want, const char *what) {
		step();
		if (!((unsigned long long)got == (unsigned long long)want))
			fail(what, fmt("%s: got %lld, expected %lld", what, (long long)got, (long long)want));
	}
	void eqs(const str &got, const str &want, const char *what) {
		step();
		if (got != want) fail(what, str(what) + ": got [" + clip(got) + "], expected [" + clip(want) + "]");
	}
	template <class A, class B> void eq(const A &got, const B &want, const str &what) { eq(got, want, what.c_str()); }
	void eqs(const str &got, const str &want, const str &what) { eqs(got, want, what.c_str()); }
	static str clip(const str &s) { return s.size() <= 1500 ? s : s.substr(0, 1500) + fmt("...(%zu bytes)", s.size()); }
	bool leak_check = false;	// set by the check before run()

	// --- engine
	std::vector<std::pair<unsigned, unsigned>> path;
	size_t pos = 0;
	int shard = 0;
	bool replaying = false, mined = false;
	U64Set states, visited;
	Slot *slot = nullptr;
	str trace_text;
	bool advance() {		// next decision vector in depth-first order
		while (!path.empty() && path.back().first + 1 >= path.back().second) path.pop_back();
		if (path.empty()) return false;
		path.back().first++;
		return true;
	}
};

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

inline str jesc(const str &s) {
	str r;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch < 0x20 || ch >= 0x7f) r += fmt("\\u%04x", ch);
		else r += ch;
	}
	return r;
}

typedef std::function<void(Ctx &)> Body;

struct Shared { volatile int stop; Slot slot[64]; };
inline Shared *&shared() { static Shared *s = nullptr; return s; }

inline void on_alarm(int) { _exit(99); }

// one execution; returns true if it ran to its end (not skipped)
inline bool run_once(Ctx &c, const Body &body, Fail *failure, bool *failed) {
	c.pos = 0; c.mined = false; c.slot->len = 0; c.slot->note[0] = 0; c.slot->running = 1;
	*failed = false;
	bool ran = true;
	alarm(c.opt.case_limit);
	try { body(c); }
	catch (Skip &) { ran = false; }
	catch (Cut &) { c.slot->cuts++; ran = false; }
	catch (Fail &f) { *failed = true; *failure = f; }
	alarm(0);
	c.slot->running = 0;
	// a path longer than consumed means that the harness is not deterministic
	if (c.pos < c.path.size() && ran && !*failed) {
		fprintf(stderr, "vf: harness is not deterministic: %zu decisions of %zu used\n", c.pos, c.path.size());
		_exit(97);
	}
	if (c.pos < c.path.size()) c.path.resize(c.pos);
	return ran;
}

inline void write_file(const str &p, const str &s) {
	FILE *f = fopen(p.c_str(), "w");
	if (!f) { perror(p.c_str()); exit(98); }
	fwrite(s.data(), 1, s.size(), f); fclose(f);
}
inline str read_file(const str &p) {
	str r; FILE *f = fopen(p.c_str(), "r"); if (!f) return r;
	char b[65536]; size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
	fclose(f); return r;
}
inline str path_str(const std::vector<std::pair<unsigned, unsigned>> &p) {
	str s; for (auto &x : p) s += fmt("%u/%u ", x.first, x.second); return s;
}
inline std::vector<std::pair<unsigned, unsigned>> parse_path(const str &s) {
	std::vector<std::pair<unsigned, unsigned>> p; unsigned a, b; int n; const char *q = s.c_str();
	while (sscanf(q, " %u/%u%n", &a, &b, &n) == 2) { p.push_back({a, b}); q += n; }
	return p;
}

enum { EX_DONE = 0, EX_VIOL = 10, EX_BUDGET = 11 };

inline void install_hooks(Ctx &c) {
	if (c.leak_check && __sanitizer_install_malloc_and_free_hooks)
		__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
}

// body with the leak check around it
inline bool run_case(Ctx &c, const Body &body, Fail *f, bool *failed) {
	int64_t before = live_allocs();
	bool ran = run_once(c, body, f, failed);
	if (c.leak_check && ran && !*failed && live_allocs() != before) {
		// once more: something may have been allocated once and for all
		auto save = c.path;
		bool tr = c.tracing; str tt = c.trace_text;
		c.tracing = false;
		if (c.replaying) live_set() = new std::set<const volatile void *>;
		before = live_allocs();
		ran = run_once(c, body, f, failed);
		if (c.replaying && live_allocs() > before && __asan_describe_address) {
			hook_off() = true;
			for (auto p : *live_set()) __asan_describe_address((void *)p);
		}
		live_set() = nullptr;
		c.tracing = tr; c.trace_text = tt;
		c.path = save;
		if (ran && !*failed && live_allocs() > before) {
			*failed = true;
			*f = Fail{"leak", fmt("%lld allocation(s) never released", (long long)(live_allocs() - before))};
		}
	}
	return ran;
}

inline void shard_main(Ctx &c, const Body &body, const strs &known, bool resume, double t_end) {
	str base = c.opt.tmp + fmt("/shard%d", c.shard);
	FILE *sf = fopen((base + ".samples").c_str(), "a");
	FILE *kf = fopen((base + ".known").c_str(), "a");
	install_hooks(c);
	int code = EX_DONE;
	bool more = true;
	if (resume) more = c.advance();
	uint64_t ran = 0, next_sample = 1;
	while (more) {
		if (shared()->stop) break;
		if ((c.slot->execs & 15) == 0 && now() > t_end) { code = EX_BUDGET; break; }
		c.tracing = (ran + 1 == next_sample) && c.slot->nsamples < 12;
		c.trace_text.clear();
		Fail f; bool failed;
		bool r = run_case(c, body, &f, &failed);
		if (r || failed) {
			ran++; c.slot->execs++;
			if (c.tracing) {
				next_sample = next_sample * 7 + 3; c.slot->nsamples++;
				fprintf(sf, "%s\n", jesc(Ctx::clip(c.trace_text)).c_str()); fflush(sf);
			}
			c.tracing = false;
		} else if (ran + 1 == next_sample) {}
		if (failed) {
			bool k = false;
			for (auto &s : known) if (f.key == s) k = true;
			if (k) { fprintf(kf, "%s\n", f.key.c_str()); fflush(kf); }
			else {
				write_file(base + ".viol", path_str(c.path) + "\n" + f.key + "\n" + f.msg);
				code = EX_VIOL; break;
			}
		}
		more = c.advance();
	}
	FILE *st = fopen((base + ".states").c_str(), "a");
	c.states.each([&](uint64_t x) { fwrite(&x, 8, 1, st); });
	fclose(st); fclose(sf); fclose(kf);
	_exit(code);
}

// wait for a child; one which holds more private memory than `limit` MB is ended, as if it had crashed
inline long private_mb(pid_t pid) {
	FILE *f = fopen(fmt("/proc/%d/statm", (int)pid).c_str(), "r"); long size, res = 0, sh = 0;
	if (!f) return 0;
	if (fscanf(f, "%ld %ld %ld", &size, &res, &sh) != 3) res = sh = 0;
	fclose(f); return (res - sh) / 256;
}
inline pid_t wait_child(const std::vector<pid_t> &kids, int *st, long limit, std::set<pid_t> &ended) {
	for (;;) {
		pid_t pid = waitpid(kids.size() == 1 ? kids[0] : -1, st, WNOHANG);
		if (pid) return pid;
		for (auto k : kids) if (!ended.count(k) && private_mb(k) > limit) { ended.insert(k); kill(k, SIGKILL); }
		usleep(5000);
	}
}
enum { CASE_MB = 1500, SHARD_MB = 2600 };

// run one decision vector in a child; returns a description of the failure or ""
inline str replay_child(Ctx &c, const Body &body, const std::vector<std::pair<unsigned, unsigned>> &p, int limit, str *key, str *tr) {
	str base = c.opt.tmp + "/replay";
	unlink((base + ".res").c_str());
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		dup2(fd, 2);
		c.path = p; c.replaying = true; c.tracing = true; c.opt.case_limit = limit;
		c.slot = &shared()->slot[63];
		signal(SIGALRM, on_alarm);
		install_hooks(c);
		Fail f; bool failed;
		run_case(c, body, &f, &failed);
		write_file(base + ".trace", c.trace_text);
		if (failed) write_file(base + ".res", f.key + "\n" + f.msg);
		_exit(failed ? EX_VIOL : 0);
	}
	int st; std::set<pid_t> ended; wait_child({pid}, &st, CASE_MB, ended);
	*tr = read_file(base + ".trace");
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
	if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { *key = "harness"; return "HARNESS"; }
	if (WIFEXITED(st) && WEXITSTATUS(st) == EX_VIOL) {
		str s = read_file(base + ".res"); size_t nl = s.find('\n');
		*key = s.substr(0, nl); str m = s.substr(nl + 1);
		if (*key == "leak") { str e = read_file(base + ".err"); if (!e.empty()) m += "\n" + e.substr(0, 3000); }
		return m;
	}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { *key = "hang"; return fmt("no end within %d s: %s", limit, shared()->slot[63].note); }
	str err = read_file(base + ".err");
	*key = "crash";
	if (ended.size()) return fmt("more than %d MB of memory in use: ", (int)CASE_MB) + shared()->slot[63].note;
	str why = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("process ended with status %d", WEXITSTATUS(st));
	size_t e = err.find("ERROR:"), a = err.find("Assertion"), r = err.find("runtime error:");
	for (size_t q : {e, a, r}) if (q != str::npos) { why += ": " + err.substr(q, err.find('\n', q) - q); break; }
	if (shared()->slot[63].note[0]) why += str(" [") + shared()->slot[63].note + "]";
	return why + "\n" + err.substr(0, 6000);
}

inline int run(int argc, char **argv, const Body &body, bool leaks = false) {
	Ctx c;
	Options &o = c.opt;
	for (int i = 1; i < argc; i++) {
		str a = argv[i];
		auto val = [&]() { return str(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--thorough") o.thorough = true;
		else if (a == "--shards") o.shards = atoi(val().c_str());
		else if (a == "--budget") o.budget = atof(val().c_str());
		else if (a == "--out") o.out = val();
		else if (a == "--known") o.known = val();
		else if (a == "--tmp") o.tmp = val();
		else if (a == "--replay") o.replay = val();
		else if (a == "-v") o.verbose = true;
	}
	c.leak_check = leaks;
	shared() = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	double t0 = now();
	if (!o.replay.empty()) {
		str key, tr, m;
		auto p = parse_path(o.replay);
		str r = o.replay; o.replay = "";
		m = replay_child(c, body, p, 300, &key, &tr);
		printf("trace: %s\n", tr.c_str());
		if (m.empty()) { printf("replay: property holds on this case\n"); return 0; }
		printf("replay: %s: %s\n", key.c_str(), m.c_str());
		return 1;
	}
	strs known;
	{ str k = o.known, cur; for (char ch : k + "\n") if (ch == '\n') { if (!cur.empty()) known.push_back(cur); cur.clear(); } else cur += ch; }
	double t_end = t0 + o.budget;
	std::map<pid_t, int> kids;
	std::vector<std::vector<std::pair<unsigned, unsigned>>> at(o.shards);
	auto start = [&](int sh, bool resume) {
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid == 0) {
			int fd = open((o.tmp + fmt("/shard%d.err", sh)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
			if (!o.verbose) dup2(fd, 2);
			c.shard = sh; c.slot = &shared()->slot[sh];
			if (resume) c.path = at[sh];
			signal(SIGALRM, on_alarm);
			shard_main(c, body, known, resume, t_end);
		}
		if (pid < 0) { perror("fork"); exit(98); }
		kids[pid] = sh;
	};
	for (int s = 0; s < o.shards; s++) start(s, false);
	bool exhausted = true;
	str vkey, vmsg, vpath, vtrace; int errors = 0, slow = 0;
	std::map<int, str> confirm;	// shards being run again because their failing case passed on its own
	std::set<pid_t> ended;	// because of the memory they used
	while (!kids.empty()) {
		std::vector<pid_t> running; for (auto &k : kids) running.push_back(k.first);
		int st; pid_t pid = wait_child(running, &st, SHARD_MB, ended);
		if (pid < 0) break;
		auto k = kids.find(pid);
		if (k == kids.end()) continue;
		int sh = k->second; kids.erase(k);
		if (WIFEXITED(st) && WEXITSTATUS(st) == EX_DONE) continue;
		if (WIFEXITED(st) && WEXITSTATUS(st) == EX_BUDGET) { exhausted = false; continue; }
		if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) {
			errors++; fprintf(stderr, "%s", read_file(o.tmp + fmt("/shard%d.err", sh)).c_str());
			shared()->stop = 1; continue;
		}
		// a violation or a crash/hang: find the case and replay it on its own
		std::vector<std::pair<unsigned, unsigned>> p;
		str first;
		if (WIFEXITED(st) && WEXITSTATUS(st) == EX_VIOL) {
			str s = read_file(o.tmp + fmt("/shard%d.viol", sh));
			p = parse_path(s.substr(0, s.find('\n')));
			first = s;
		} else {
			Slot &sl = shared()->slot[sh];
			for (uint32_t i = 0; i < sl.len && i < 4000; i++) p.push_back({sl.val[i], sl.n[i]});
			first = read_file(o.tmp + fmt("/shard%d.err", sh));
		}
		if (!vkey.empty()) continue;
		str key, tr, m = replay_child(c, body, p, o.case_limit * 4, &key, &tr);
		if (key == "harness") { errors++; shared()->stop = 1; continue; }
		bool isknown = false;
		for (auto &s : known) if (!m.empty() && key == s) isknown = true;
		if (m.empty() || isknown) {
			if (isknown) { FILE *kf = fopen((o.tmp + fmt("/shard%d.known", sh)).c_str(), "a"); fprintf(kf, "%s\n", key.c_str()); fclose(kf); }
			else {
				// memory used up over many executions: what this shard explored no further counts as not explored
				if (ended.count(pid)) { exhausted = false; continue; }
				// not reproduced on its own: a slow machine or a case which needs what ran before it
				fprintf(stderr, "vf: case did not reproduce alone: %s\n%s\n", path_str(p).c_str(), first.substr(0, 3000).c_str());
				if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
					if (++slow > 40) { errors++; shared()->stop = 1; continue; }
				} else if (confirm.count(sh) && confirm[sh] == path_str(p)) {
					// the same case failed again after the same history
					size_t a = first.find('\n');
					bool viol = WEXITSTATUS(st) == EX_VIOL && WIFEXITED(st);
					vkey = viol ? "history" : "crash";
					vmsg = "fails only after the executions which precede it in its shard: " + (viol ? first.substr(a + 1) : first.substr(0, 4000));
					vpath = path_str(p); vtrace = tr;
					shared()->stop = 1;
					continue;
				} else if (confirm.count(sh)) {
					errors++; shared()->stop = 1; continue;
				} else {
					confirm[sh] = path_str(p);
					shared()->slot[sh].execs = 0; shared()->slot[sh].transitions = 0;
					start(sh, false);
					continue;
				}
			}
			at[sh] = p; start(sh, true);
			continue;
		}
		vkey = key; vmsg = m; vpath = path_str(p); vtrace = tr;
		shared()->stop = 1;
	}
	// merge what the shards saw
	std::vector<uint64_t> all; uint64_t execs = 0, trans = 0, cuts = 0; strs samples; std::set<str> kseen;
	for (int s = 0; s < o.shards; s++) {
		str b = o.tmp + fmt("/shard%d", s), d = read_file(b + ".states");
		size_t n = d.size() / 8, k = all.size();
		all.resize(k + n); memcpy(all.data() + k, d.data(), n * 8);
		execs += shared()->slot[s].execs; trans += shared()->slot[s].transitions; cuts += shared()->slot[s].cuts;
		str t = read_file(b + ".samples"), cur; int cnt = 0;
		for (char ch : t) if (ch == '\n') { if (cnt++ < 2) samples.push_back(cur); cur.clear(); } else cur += ch;
		t = read_file(b + ".known"); cur.clear();
		for (char ch : t) if (ch == '\n') { kseen.insert(cur); cur.clear(); } else cur += ch;
	}
	std::sort(all.begin(), all.end());
	all.erase(std::unique(all.begin(), all.end()), all.end());
	str j = fmt("{\"executions\":%llu,\"transitions\":%llu,\"cut\":%llu,\"states\":%zu,\"exhausted\":%s,\"errors\":%d,\"wall\":%.3f,",
		    (unsigned long long)execs, (unsigned long long)trans, (unsigned long long)cuts, all.size(),
		    exhausted && vkey.empty() && !errors ? "true" : "false", errors, now() - t0);
	j += "\"samples\":[";
	for (size_t i = 0; i < samples.size(); i++) j += (i ? ",\"" : "\"") + samples[i] + "\"";
	j += "],\"known_seen\":["; bool first = true;
	for (auto &s : kseen) { j += (first ? "\"" : ",\"") + jesc(s) + "\""; first = false; }
	j += "]";
	if (!vkey.empty())
		j += ",\"violation\":{\"key\":\"" + jesc(vkey) + "\",\"msg\":\"" + jesc(vmsg) + "\",\"path\":\"" + jesc(vpath) + "\",\"trace\":\"" + jesc(vtrace) + "\"}";
	j += "}\n";
	if (!o.out.empty()) write_file(o.out, j); else fputs(j.c_str(), stdout);
	if (errors) return 2;
	return vkey.empty() ? 0 : 1;
}

} // namespace vf
