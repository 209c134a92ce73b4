// T03: the merge command hands exactly its arguments to mtbl_merge, with dnstable's merge function named.
// The script runs under sh for every argument vector, with a stand-in mtbl_merge (this program again)
// which writes down what it was given.
#include "vf.hpp"
#include <spawn.h>
extern char **environ;
using vf::str; using vf::strs; using vf::fmt;

static str dir, script;
static void prepare() {
	const char *s = getenv("VF_SCRATCH"), *r = getenv("VF_REPO");
	dir = str(s) + fmt("/t%d", (int)getpid());
	mkdir(dir.c_str(), 0755); mkdir((dir + "/bin").c_str(), 0755); mkdir((dir + "/cwd").c_str(), 0755);
	char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n < 0 ? 0 : n] = 0;
	symlink(exe, (dir + "/bin/mtbl_merge").c_str());
	str t = vf::read_file(str(r) + "/src/dnstable_merge.sh.in");
	for (size_t i; (i = t.find("@LIBDNSTABLE_DLNAME@")) != str::npos; ) t.replace(i, 20, "/usr/lib/libdnstable.so.0");
	script = dir + "/dnstable_merge"; vf::write_file(script, t);
	vf::write_file(dir + "/cwd/f1", ""); vf::write_file(dir + "/cwd/f2", "");	// something for a pattern to match
}
static int standin(int argc, char **argv) {
	str o;
	for (const char *v : {"MTBL_MERGE_DSO", "MTBL_MERGE_FUNC_PREFIX"}) { const char *x = getenv(v); o += str(v) + "=" + (x ? x : "(unset)") + str(1, '\0'); }
	for (int i = 1; i < argc; i++) o += str(argv[i]) + str(1, '\0');
	vf::write_file(getenv("T03_RECORD"), o);
	return atoi(getenv("T03_STATUS"));
}
static void body(vf::Ctx &c) {
	static const strs words = {"a.mtbl", "b c.mtbl", "*", "-c", "zstd", "$HOME", "", "it's", "\"q\"", "back\\slash", "new\nline", " lead", "`id`", "~", "[a-z]", ";", "-n"};
	if (dir.empty() || access(dir.c_str(), F_OK)) prepare();
	int n = c.choose(c.T(4, 5), "arguments"); strs a;
	for (int i = 0; i < n; i++) { a.push_back(c.pick(words, "word")); if (i == 1) c.mine(); }
	int status = c.flip("status") ? 3 : 0, preset = n < 3 ? c.flip("preset") : 0;
	c.mine();
	str what = "dnstable_merge"; for (auto &x : a) what += " [" + x + "]";
	c.note(what); c.trace("%s", what.c_str()); c.state(what + fmt(" %d %d", status, preset));
	str rec = dir + "/record", err = dir + "/err"; unlink(rec.c_str());
	std::vector<const char *> av = {"/bin/sh", script.c_str()}; for (auto &x : a) av.push_back(x.c_str()); av.push_back(nullptr);
	strs ev = {"PATH=" + dir + "/bin:/usr/bin:/bin", "HOME=/nowhere", "T03_RECORD=" + rec, fmt("T03_STATUS=%d", status)};
	if (preset) { ev.push_back("MTBL_MERGE_DSO=other"); ev.push_back("MTBL_MERGE_FUNC_PREFIX=other"); }
	std::vector<const char *> ep; for (auto &x : ev) ep.push_back(x.c_str()); ep.push_back(nullptr);
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
	posix_spawn_file_actions_addopen(&fa, 1, err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	posix_spawn_file_actions_adddup2(&fa, 1, 2);
	posix_spawn_file_actions_addchdir_np(&fa, (dir + "/cwd").c_str());
	pid_t p; int rc = posix_spawn(&p, "/bin/sh", &fa, nullptr, (char **)av.data(), (char **)ep.data());
	posix_spawn_file_actions_destroy(&fa);
	if (rc) { fprintf(stderr, "spawn: %s\n", strerror(rc)); _exit(98); }
	int st; while (waitpid(p, &st, 0) < 0) ;
	bool called = access(rec.c_str(), F_OK) == 0;
	c.step();
	if (n < 2 || a[0].empty() || a[1].empty()) {
		c.check(!called, "misuse accepted", what + ": mtbl_merge was started");
		c.check(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "misuse accepted", what + ": exit status 0");
		c.check(!vf::read_file(err).empty(), "misuse not reported", what + ": no message");
		return;
	}
	c.check(called, "not started", what + ": mtbl_merge was not started: " + vf::read_file(err));
	str z(1, '\0'), want = "MTBL_MERGE_DSO=/usr/lib/libdnstable.so.0" + z + "MTBL_MERGE_FUNC_PREFIX=dnstable_merge" + z; for (auto &x : a) want += x + z;
	c.eqs(vf::read_file(rec), want, "what mtbl_merge was given for " + what);
	c.check(WIFEXITED(st) && WEXITSTATUS(st) == status, "status", what + fmt(": status %x, expected exit status %d", st, status));
}
int main(int argc, char **argv) {
	const char *b = strrchr(argv[0], '/'); b = b ? b + 1 : argv[0];
	if (!strcmp(b, "mtbl_merge")) return standin(argc, argv);
	return vf::run(argc, argv, body);
}
