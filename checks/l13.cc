// L13: command-line arguments against a reference of the documented grammar.
#include "vf.hpp"
extern "C" {
#include "argv.h"
}
using namespace vf;
static const unsigned char MAND = 254, MAYBE = 253, OR = 252, ONE = 251;
struct Opt { unsigned char s; const char *l; unsigned type; const char *label; };	// s >= 251: marker
typedef std::vector<Opt> Table;
union Var { char raw[16]; char c; short h; int i; long l; float f; double d; char *p; argv_array_t a; };
static bool takes(unsigned t) { t &= 63; return !(t == ARGV_BOOL || t == ARGV_BOOL_NEG || t == ARGV_INCR || t == ARGV_BOOL_INT || t == ARGV_BOOL_INT_NEG); }
static Var initial(unsigned type) {
	Var v; memset(&v, 0, sizeof v);
	if (type & ARGV_FLAG_ARRAY) return v;
	switch (type & 63) {
	case ARGV_CHAR_P: break;
	case ARGV_BOOL: case ARGV_BOOL_INT: v.raw[8] = 0; break;
	case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: v.c = 1; break;
	case ARGV_BOOL_INT_NEG: case ARGV_BOOL_INT_ARG: v.i = 1; break;
	case ARGV_CHAR: v.c = '~'; break;
	case ARGV_FLOAT: v.f = -77.5; break;
	case ARGV_DOUBLE: v.d = -77.5; break;
	case ARGV_SHORT: case ARGV_U_SHORT: v.h = 77; break;
	default: v.l = 77; break;
	}
	return v;
}
// ---------------------------------------------------------------- reference
static bool yes(const str &s) { return !s.empty() && strchr("tTyY1", s[0]); }
static long base(const str &s, int b) {
	size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++;
	if (b == 16 && i + 1 < s.size() && s[i] == '0' && (s[i + 1] | 32) == 'x') i += 2;
	long v = 0;
	for (; i < s.size(); i++) { int d = isdigit((unsigned char)s[i]) ? s[i] - '0' : isalpha((unsigned char)s[i]) ? (s[i] | 32) - 'a' + 10 : 99; if (d >= b) break; v = v * b + d; }
	return v;
}
// a value in text, exactly: "" stands for "left as it was"
static str value(unsigned type, const str *arg, const str &old) {
	auto dec = [&](const str &s) { size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; __int128 v = 0; while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0'); return neg ? -v : v; };
	auto mult = [&](const str &s) -> __int128 { size_t i = s.find_first_not_of(" -+0123456789"); if (i == str::npos) return 1; switch (s[i] | 32) { case 'k': return 1024; case 'm': return 1048576; case 'g': return 1073741824; } return 1; };
	switch (type & 63) {
	case ARGV_BOOL: case ARGV_BOOL_INT: return !arg || yes(*arg) ? "1" : "0";
	case ARGV_BOOL_NEG: case ARGV_BOOL_INT_NEG: return arg && yes(*arg) ? "1" : "0";
	case ARGV_BOOL_ARG: case ARGV_BOOL_INT_ARG: return yes(*arg) ? "1" : "0";
	case ARGV_CHAR: return fmt("%d", (signed char)(arg->empty() ? 0 : (*arg)[0]));
	case ARGV_CHAR_P: return "\"" + *arg;
	case ARGV_SHORT: return fmt("%d", (short)dec(*arg));
	case ARGV_U_SHORT: return fmt("%d", (unsigned short)dec(*arg));
	case ARGV_INT: return fmt("%d", (int)dec(*arg));
	case ARGV_U_INT: return fmt("%u", (unsigned)dec(*arg));
	case ARGV_LONG: return fmt("%ld", (long)dec(*arg));
	case ARGV_U_LONG: return fmt("%lu", (unsigned long)dec(*arg));
	case ARGV_FLOAT: { char *e; float f = strtof(arg->c_str(), &e); if (e == arg->c_str()) return old; return fmt("%a", (double)f); }
	case ARGV_DOUBLE: { char *e; double f = strtod(arg->c_str(), &e); if (e == arg->c_str()) return old; return fmt("%a", f); }
	case ARGV_BIN: return fmt("%d", (int)base(*arg, 2));
	case ARGV_OCT: return fmt("%d", (int)base(*arg, 8));
	case ARGV_HEX: return fmt("%d", (int)base(*arg, 16));
	case ARGV_INCR: return arg ? fmt("%d", (int)dec(*arg)) : fmt("%d", atoi(old.c_str()) + 1);
	case ARGV_SIZE: return fmt("%ld", (long)(dec(*arg) * mult(*arg)));
	case ARGV_U_SIZE: return fmt("%lu", (unsigned long)(dec(*arg) * mult(*arg)));
	}
	return "?";
}
static str show(unsigned type, const void *p) {
	Var v; memcpy(&v, p, (type & 63) == ARGV_CHAR_P || (type & 63) == ARGV_LONG || (type & 63) == ARGV_U_LONG || (type & 63) == ARGV_DOUBLE || (type & 63) == ARGV_SIZE || (type & 63) == ARGV_U_SIZE ? 8 : (type & 63) <= ARGV_CHAR ? 1 : (type & 63) <= ARGV_U_SHORT && (type & 63) >= ARGV_SHORT ? 2 : 4);
	switch (type & 63) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_CHAR: return fmt("%d", v.c);
	case ARGV_CHAR_P: return v.p ? str("\"") + v.p : str("null");
	case ARGV_SHORT: return fmt("%d", v.h);
	case ARGV_U_SHORT: return fmt("%d", (unsigned short)v.h);
	case ARGV_U_INT: return fmt("%u", (unsigned)v.i);
	case ARGV_LONG: case ARGV_SIZE: return fmt("%ld", v.l);
	case ARGV_U_LONG: case ARGV_U_SIZE: return fmt("%lu", (unsigned long)v.l);
	case ARGV_FLOAT: return fmt("%a", (double)v.f);
	case ARGV_DOUBLE: return fmt("%a", v.d);
	}
	return fmt("%d", v.i);
}
static size_t width(unsigned type) { switch (type & 63) { case ARGV_BOOL: case ARGV_BOOL_ARG: case ARGV_CHAR: return 1; case ARGV_SHORT: case ARGV_U_SHORT: return 2; case ARGV_CHAR_P: case ARGV_LONG: case ARGV_U_LONG: case ARGV_DOUBLE: case ARGV_SIZE: case ARGV_U_SIZE: return 8; } return 4; }
struct Settings { bool close = true, toggle = false, multi = true; };
static std::map<str, strs> files;		// name -> lines
struct Model {
	const Table &t; Settings st;
	std::vector<str> val; std::vector<strs> arr; std::vector<bool> used;
	std::vector<int> queue; size_t tail = 0; bool ok = true;
	Model(const Table &t_, Settings s) : t(t_), st(s), val(t_.size()), arr(t_.size()), used(t_.size()) { for (size_t i = 0; i < t.size(); i++) if (t[i].s != 251 && t[i].s != 252) { Var v = initial(t[i].type); val[i] = show(t[i].type, &v); } }
	bool link(size_t i) const { return i < t.size() && (t[i].s == 252 || t[i].s == 251); }
	void set(size_t i, const str *a) { if (t[i].type & ARGV_FLAG_ARRAY) arr[i].push_back(value(t[i].type, a, "?")); else val[i] = value(t[i].type, a, val[i]); }
	void opt(size_t i, const str *close) {
		if (!st.multi && used[i] && !(t[i].type & ARGV_FLAG_ARRAY) && (t[i].type & 63) != ARGV_INCR) ok = false;
		used[i] = true;
		for (size_t k = i; k >= 2 && link(k - 1); k -= 2) if (used[k - 2]) ok = false;
		for (size_t k = i; link(k + 1); k += 2) if (used[k + 2]) ok = false;
		if (close) set(i, close); else if (!takes(t[i].type)) set(i, nullptr); else queue.push_back((int)i);
	}
	void list(const strs &av) {
		bool last = false;
		for (const str &arg : av) {
			if (arg == "--") { if (!last) { last = true; continue; } if (st.toggle) { last = false; continue; } }
			str a = arg, cl; const str *close = nullptr;
			auto split = [&] { size_t e = st.close ? a.find('=') : str::npos; if (e != str::npos) { cl = a.substr(e + 1); close = &cl; a = a.substr(0, e); } };
			if (!last && a.compare(0, 2, "--") == 0) {
				split();
				str name = a.substr(2); if (name.empty()) { ok = false; continue; }
				std::vector<size_t> m; for (size_t i = 0; i < t.size(); i++) if (t[i].l && str(t[i].l).compare(0, name.size(), name) == 0) m.push_back(i);
				if (m.size() > 1) { ok = false; continue; }
				if (m.size() == 1) { opt(m[0], close); continue; }
				if (str("argv-file").compare(0, name.size(), name) == 0) { if (close) file(cl); else queue.push_back(-1); continue; }
				bool special = false; for (const char *s : {"usage", "help", "usage-short", "usage-long", "usage-all", "version", "argv-display"}) if (str(s).compare(0, name.size(), name) == 0) special = true;
				if (!special) ok = false;
				continue;
			}
			if (!last && a[0] == '-' && a.size() > 1) {
				split();
				if (a.size() == 1) { ok = false; continue; }
				for (size_t k = 1; k < a.size(); k++) {
					size_t i = 0; while (i < t.size() && !(t[i].s == (unsigned char)a[k] && t[i].s < 251)) i++;
					if (i < t.size()) { opt(i, close); continue; }
					if (a[k] == '?') continue;
					if (k == 1 && a.find_first_not_of("0123456789+-.") == str::npos && queue.size() > tail && queue[tail] >= 0) {
						unsigned ty = t[queue[tail]].type & 63;
						if (ty == ARGV_SHORT || ty == ARGV_INT || ty == ARGV_LONG || ty == ARGV_FLOAT || ty == ARGV_DOUBLE) { set(queue[tail++], &a); break; }
					}
					ok = false;
				}
				continue;
			}
			if (!t.empty() && queue.size() > tail) { int i = queue[tail++]; if (i < 0) file(arg); else set(i, &arg); continue; }
			bool done = false;
			for (unsigned char mark : {254, 253}) for (size_t i = 0; i < t.size() && !done; i++) if (t[i].s == mark && (!used[i] || t[i].type & ARGV_FLAG_ARRAY)) { set(i, &arg); used[i] = true; done = true; }
			if (!done) ok = false;
		}
	}
	void file(const str &name) { if (name == "-") return; /* nothing on standard input */ auto f = files.find(name); if (f == files.end()) { ok = false; return; } list(f->second); }
	void finish() {
		for (size_t i = 0; i < t.size(); i++) if ((t[i].s == 254 || t[i].type & ARGV_FLAG_MAND) && !used[i]) ok = false;
		if (queue.size() > tail) ok = false;
		for (size_t i = 0; i < t.size(); i++) if (t[i].s == 251) {
			bool any = used[i - 1]; size_t k = i; for (;; k += 2) { if (used[k + 1]) any = true; if (!(k + 2 < t.size() && t[k + 2].s == 251)) break; }
			if (!any) ok = false;
			i = k;
		}
	}
};
// ---------------------------------------------------------------- running the code
static FILE *nowhere; static str dir;
static strs expand(const strs &a) { strs r; for (auto &s : a) { str x = s; for (size_t k; (k = x.find('@')) != str::npos; ) x.replace(k, 1, dir + "/"); r.push_back(x); } return r; }
struct Run {
	std::vector<argv_t> grid; std::vector<Var *> var;
	Run(const Table &t) {
		for (auto &o : t) {
			bool marker = o.s == 251 || o.s == 252;
			size_t w = o.type & ARGV_FLAG_ARRAY ? sizeof(argv_array_t) : width(o.type);	// exactly as large as the type
			Var init = initial(o.type); Var *v = marker ? nullptr : (Var *)malloc(w); if (v) memcpy(v, &init, w);
			var.push_back(v);
			grid.push_back(argv_t{(char)o.s, o.l, o.type, v, o.label, o.l ? "a comment" : NULL});
		}
		grid.push_back(argv_t{ARGV_LAST, NULL, 0, NULL, NULL, NULL});
		grid.shrink_to_fit();
		argv_t *exact = (argv_t *)malloc(grid.size() * sizeof(argv_t)); memcpy(exact, grid.data(), grid.size() * sizeof(argv_t)); g = exact;
	}
	argv_t *g;
	~Run() { argv_cleanup(g); for (auto v : var) free(v); free(g); }
};
static str flat(const strs &v) { str r; for (auto &x : v) r += "[" + x + "]"; return r; }
static str value_text(unsigned type, const str &v) {	// argv_value_string of a value as shown
	long n = (type & 63) == ARGV_U_SIZE ? (long)strtoul(v.c_str(), 0, 10) : atol(v.c_str());
	switch (type & 63) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_BOOL_INT: case ARGV_BOOL_INT_NEG: case ARGV_BOOL_INT_ARG: return n ? "true (! 0)" : "false (0)";
	case ARGV_FLOAT: case ARGV_DOUBLE: return fmt("%f", strtod(v.c_str(), 0));
	case ARGV_BIN: { if (!n) return "0"; str b; for (unsigned u = (unsigned)n; u; u >>= 1) b = (u & 1 ? "1" : "0") + b; return "0b" + b + fmt(" (%d)", (int)n); }
	case ARGV_OCT: return n ? fmt("%#o (%d)", (int)n, (int)n) : str("0");
	case ARGV_HEX: return n ? fmt("%#x (%d)", (int)n, (int)n) : str("0");
	case ARGV_U_SIZE: { unsigned long w = (unsigned long)n; if (!w) return "0"; for (auto &u : std::vector<std::pair<long, char>>{{1 << 30, 'g'}, {1 << 20, 'm'}, {1 << 10, 'k'}}) if (w % u.first == 0) return fmt("%lu%c (%lu)", w / u.first, u.second, w); return fmt("%lu", w); }
	case ARGV_SIZE: if (!n) return "0"; for (auto &u : std::vector<std::pair<long, char>>{{1 << 30, 'g'}, {1 << 20, 'm'}, {1 << 10, 'k'}}) if (n % u.first == 0) return fmt("%ld%c (%ld)", n / u.first, u.second, n); return fmt("%ld", n);
	case ARGV_CHAR: case ARGV_CHAR_P: {
		if (v == "null") return "(null)";
		str s = (type & 63) == ARGV_CHAR ? str(1, (char)n) : v.substr(1), r;
		static const char sp[] = "e\033^^\"\"''\\\\n\nr\rt\tb\bf\fa\007";
		for (unsigned char ch : s) { size_t k = 1; while (k < sizeof sp - 1 && (unsigned char)sp[k] != ch) k += 2; if (k < sizeof sp - 1) { r += '\\'; r += sp[k - 1]; } else if (ch < 128 && isprint(ch)) r += ch; else r += fmt("\\%03o", ch); }
		return r; }
	}
	return v;
}
static bool silent;	// no error stream
static void go(Ctx &c, const Table &t, const strs &args0, Settings st, int env = 0, const strs &envargs = {}, bool text = false, const std::vector<strs> &before = {}, const char *name = "prog") {
	strs args = expand(args0);
	Run r(t); str history;
	for (auto &b0 : before) {	// the same table, used before for other arguments
		strs b = expand(b0); std::vector<char *> bv; bv.push_back((char *)"x"); for (auto &a : b) bv.push_back(&a[0]); bv.push_back(nullptr);
		argv_interactive = 0; argv_error_stream = silent ? nullptr : nowhere; argv_close_enable_b = 1; argv_last_toggle_b = 0; argv_multi_accept_b = 1; argv_process_env_b = 0;
		argv_process_no_env(r.g, (int)bv.size() - 1, bv.data()); c.step(); argv_cleanup(r.g);
		for (size_t i = 0; i < t.size(); i++) if (r.var[i] && t[i].type & ARGV_FLAG_ARRAY) { if (r.var[i]->a.aa_entry_n) c.fail("clean-up", "an array with entries left"); } else if (r.var[i] && (t[i].type & 63) == ARGV_CHAR_P && !(t[i].type & ARGV_FLAG_ARRAY)) r.var[i]->p = nullptr;
		history += " after" + flat(b0);
	}
	std::vector<char *> av; av.push_back(strdup((str(before.empty() && name[0] != 'p' ? "" : "/some/where/") + name).c_str())); for (auto &a : args) av.push_back(strdup(a.c_str())); av.push_back(nullptr);
	char **exact = (char **)malloc(av.size() * sizeof(char *)); memcpy(exact, av.data(), av.size() * sizeof(char *));
	argv_interactive = 0; argv_error_stream = silent ? nullptr : nowhere; argv_close_enable_b = st.close; argv_last_toggle_b = st.toggle; argv_multi_accept_b = st.multi;
	argv_process_env_b = env == 1 || env == 2; argv_env_after_b = env == 2;
	str base = name; if (base.rfind('/') != str::npos) base = base.substr(base.rfind('/') + 1);
	str ename = "ARGV_" + base; for (auto &ch : ename) ch = (char)toupper((unsigned char)ch);
	static str lastname; if (!lastname.empty()) unsetenv(lastname.c_str());
	lastname = ename;
	if (env) { str e; for (auto &a : expand(envargs)) e += (e.empty() ? "" : " \t") + a; if (envargs.size() == 3) e = "\t " + e + " "; setenv(ename.c_str(), e.c_str(), 1); }
	str what = flat(args0) + (env ? fmt(" env%d", env) + flat(envargs) : str()) + (st.close ? "" : " no =") + (st.toggle ? " toggle" : "") + (st.multi ? "" : " once") + history + (silent ? " silent" : "") + (base == "prog" ? str() : " as " + str(name).substr(0, 40));
	strs vals(t.size()); for (size_t i = 0; i < t.size(); i++) if (r.var[i] && !(t[i].type & ARGV_FLAG_ARRAY)) vals[i] = show(t[i].type, r.var[i]);
	int res = argv_process_no_env(r.g, (int)av.size() - 1, exact); c.step();
	Model m(t, st); if (!before.empty()) m.val = vals;
	if (env == 1) m.list(expand(envargs)); m.list(args); if (env == 2) m.list(expand(envargs));
	m.finish();
	c.state(what);
	if ((res == 0) != m.ok) c.fail("verdict", what + (res == 0 ? ": accepted" : ": refused"));
	if (argv_program != base.substr(0, 256)) c.fail("program name", argv_program);
	for (size_t i = 0; i < args.size(); i++) if (exact[i + 1] != av[i + 1] || args[i] != av[i + 1]) c.fail("arguments changed", what + ": " + av[i + 1]);
	if (res == 0) for (size_t i = 0; i < t.size(); i++) {
		if (t[i].s == 251 || t[i].s == 252) continue;
		str name = t[i].s < 251 && t[i].s ? fmt("-%c", t[i].s) : t[i].l ? str(t[i].l) : fmt("entry %zu", i);
		if (t[i].type & ARGV_FLAG_ARRAY) {
			strs got; for (int k = 0; k < r.var[i]->a.aa_entry_n; k++) got.push_back(show(t[i].type, (char *)r.var[i]->a.aa_entries + k * width(t[i].type)));
			if (got != m.arr[i]) c.fail("array", what + ": " + name + " is " + flat(got) + ", expected " + flat(m.arr[i]));
		} else {
			str got = show(t[i].type, r.var[i]);
			if (got != m.val[i]) c.fail("value", what + ": " + name + " is " + got + ", expected " + m.val[i]);
		}
		if (argv_entry_was_used(&r.g[i]) != m.used[i]) c.fail("used", what + ": " + name);
		if (t[i].s < 251 && t[i].s && argv_was_used(r.g, (char)t[i].s) != m.used[i]) c.fail("used", what + ": by letter " + name);
		if (t[i].l && (argv_long_was_used(r.g, t[i].l) != m.used[i] || argv_long_was_used(r.g, str(t[i].l).c_str()) != m.used[i])) c.fail("used", what + ": by name " + name);
		if (text) {
			str w = t[i].type & ARGV_FLAG_ARRAY ? m.arr[i].empty() ? str("0 array entries") : value_text(t[i].type, m.arr[i][0]) + (m.arr[i].size() > 1 ? fmt(" (1st of %d entries)", (int)m.arr[i].size()) : str()) : value_text(t[i].type, m.val[i]);
			for (int size : {2, 3, 4, 5, 6, 7, 9, 12, 15, 16, 17, 20, 100}) {
				char *b = (char *)malloc(size); memset(b, 'Z', size);
				int n = argv_value_string(&r.g[i], b, size); c.step();
				if (n < 0 || n > size) c.fail("value text", fmt("%s: length %d in %d", name.c_str(), n, size));
				str got(b, n); free(b);
				if (size == 100 ? got != w : w.compare(0, n, got) != 0 && !(t[i].type & ARGV_FLAG_ARRAY)) c.fail("value text", what + fmt(": %s in %d: ", name.c_str(), size) + got + ", expected " + w);
			}
		}
	}
	if (text) {
		str all; for (size_t i = 0; i < args.size(); i++) all += (i ? " " : "") + args[i];
		for (size_t size = 1; size < all.size() + 4; size++) { char *b = (char *)malloc(size); argv_copy_args(b, (int)size); str g(b); free(b); if (g != all.substr(0, size - 1)) c.fail("copied arguments", what + fmt(" in %zu: ", size) + g); c.step(); }
	}
	for (auto a : av) free(a);
	free(exact);
}
static const char *kind_names[] = {"", "flag", "nflag", "flagarg", "char", "string", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "bin", "oct", "hex", "incr", "size", "usize", "iflag", "niflag", "iflagarg"};
static const std::vector<Table> &tables() {
	static const std::vector<Table> v = {
		// 0: a bit of everything
		{{'a', "alpha", ARGV_BOOL, 0}, {'b', "beta", ARGV_INT, "n"}, {'c', "comma", ARGV_CHAR_P | ARGV_FLAG_ARRAY, "s"}, {'d', NULL, ARGV_INCR, 0}, {'\0', "alone", ARGV_CHAR_P, 0}, {MAND, NULL, ARGV_CHAR_P, "file"}, {MAYBE, NULL, ARGV_INT | ARGV_FLAG_ARRAY, "more"}},
		// 1: exclusive options, the last at the very end
		{{'a', "alpha", ARGV_BOOL, 0}, {OR, 0, 0, 0}, {'b', "beta", ARGV_INT, 0}, {OR, 0, 0, 0}, {'c', "comma", ARGV_LONG, "x"}},
		// 2: one of several
		{{'d', "delta", ARGV_BOOL_INT, 0}, {'a', "alpha", ARGV_BOOL, 0}, {ONE, 0, 0, 0}, {'b', "beta", ARGV_U_INT, 0}, {ONE, 0, 0, 0}, {'c', "comma", ARGV_CHAR, "x"}},
		// 3: mandatory option, two mandatory arguments, the second a list
		{{'b', "beta", ARGV_DOUBLE | ARGV_FLAG_MAND, "v"}, {'a', "alpha", ARGV_BOOL_NEG, 0}, {'c', "alpine", ARGV_SHORT | ARGV_FLAG_ARRAY, 0}, {MAND, NULL, ARGV_SHORT, "first"}, {MAND, NULL, ARGV_CHAR_P | ARGV_FLAG_ARRAY, "rest"}},
		// 4: optional trailing arguments, digits as options
		{{'a', NULL, ARGV_BOOL_INT_NEG, 0}, {'5', "five", ARGV_BOOL, 0}, {'b', "beta", ARGV_INT | ARGV_FLAG_ARRAY, 0}, {'c', "comma", ARGV_FLOAT, 0}, {MAYBE, NULL, ARGV_HEX, "h"}, {MAYBE, NULL, ARGV_CHAR_P, 0}},
		// 5: nothing at all
		{},
		// 6: two groups, one after the other
		{{'a', "alpha", ARGV_BOOL, 0}, {OR, 0, 0, 0}, {'b', "beta", ARGV_INT, 0}, {'c', "comma", ARGV_CHAR_P, "x"}, {ONE, 0, 0, 0}, {'d', "delta", ARGV_INCR, 0}},
		// 7: groups of both kinds and an option between
		{{'a', "alpha", ARGV_BOOL, 0}, {ONE, 0, 0, 0}, {'b', "beta", ARGV_INT, 0}, {'d', NULL, ARGV_BOOL_NEG, 0}, {'c', "comma", ARGV_CHAR_P, "x"}, {OR, 0, 0, 0}, {'\0', "alone", ARGV_CHAR_P, 0}, {ONE, 0, 0, 0}, {'5', "fifth", ARGV_BOOL, 0}},
	};
	return v;
}
// In a new process, so that the library is as a program finds it at its start. argv: --child table interactive entry args...
static int start(int argc, char **argv) {
	Run r(tables()[atoi(argv[2])]); const Table &t = tables()[atoi(argv[2])]; int entry = atoi(argv[4]);
	if (!atoi(argv[3])) argv_interactive = 0;
	if (entry == 2) { argv_error_code = 77; argv_help_string = (char *)"HELPTEXT"; argv_version_string = (char *)"VERSIONTEXT"; }
	argv[4] = (char *)"/x/prog";
	int rc = entry == 1 ? argv_process_no_env(r.g, argc - 4, argv + 4) : argv_process(r.g, argc - 4, argv + 4);
	printf("rc %d close %d toggle %d multi %d env %d after %d usage %d error %d;", rc, argv_close_enable_b, argv_last_toggle_b, argv_multi_accept_b, argv_process_env_b, argv_env_after_b, argv_usage_type, argv_error_type);
	for (size_t i = 0; i < t.size(); i++) if (r.var[i]) { if (t[i].type & ARGV_FLAG_ARRAY) { printf(" ("); for (int k = 0; k < r.var[i]->a.aa_entry_n; k++) printf("[%s]", show(t[i].type, (char *)r.var[i]->a.aa_entries + k * width(t[i].type)).c_str()); printf(")"); } else printf(" %s", show(t[i].type, r.var[i]).c_str()); }
	printf("\n"); fflush(stdout);
	return 0;
}
static void child(Ctx &c, int ti, const strs &a0, const str &g, bool inter, bool envset, int entry) {
	strs a = expand(a0); const Table &t = tables()[ti];
	str o = dir + fmt("/out.%d", getpid()), e = dir + fmt("/err.%d", getpid());
	pid_t pid = fork();
	if (!pid) {
		int fd = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); fd = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2);
		if (g == "-") unsetenv("GLOBAL_ARGV"); else setenv("GLOBAL_ARGV", g.c_str(), 1);
		if (envset) setenv("ARGV_PROG", "-a -b=8", 1); else unsetenv("ARGV_PROG");
		setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99", 1);
		std::vector<char *> av; strs all = {"l13", "--child", fmt("%d", ti), inter ? "1" : "0", fmt("%d", entry)}; for (auto &x : a) all.push_back(x); for (auto &x : all) av.push_back(&x[0]); av.push_back(nullptr);
		execv("/proc/self/exe", av.data()); _exit(98);
	}
	int status; waitpid(pid, &status, 0); c.step();
	auto slurp = [](const str &f) { str r; FILE *fp = fopen(f.c_str(), "r"); char b[4096]; size_t n; while (fp && (n = fread(b, 1, sizeof b, fp))) r.append(b, n); if (fp) fclose(fp); unlink(f.c_str()); return r; };
	str out = slurp(o), err = slurp(e);
	// what is expected
	Settings st; int env = 1, usage = ARGV_USAGE_LONG, error = ARGV_USAGE_LONG; bool complaint = false;
	if (entry != 1 && g != "-") {
		str w; for (char ch : g + ",") { if (!strchr(" \t,:", ch)) { w += ch; continue; } if (w.empty()) continue;
			auto is = [&](const char *p, strs vs) { size_t n = strlen(p); if (w.compare(0, n, p)) return -1; for (size_t i = 0; i < vs.size(); i++) if (w.substr(n) == vs[i]) return (int)i; return -1; };
			strs onoff = {"disable", "off", "no", "0", "enable", "on", "yes", "1"}; int k; bool ok = true;
			if ((k = is("close=", onoff)) >= 0) st.close = k > 3;
			else if ((k = is("lasttog=", onoff)) >= 0) st.toggle = k > 3;
			else if ((k = is("env=", {"none", "before", "after"})) >= 0) env = k;
			else if ((k = is("multi=", {"reject", "accept"})) >= 0) st.multi = k;
			else if ((k = is("error=", {"none", "see", "short", "shortrem", "long", "all"})) >= 0) { static const int m[] = {ARGV_USAGE_NONE, ARGV_USAGE_SEE, ARGV_USAGE_SHORT, ARGV_USAGE_SHORT_REM, ARGV_USAGE_LONG, ARGV_USAGE_ALL}; error = m[k]; }
			else if ((k = is("usage=", {"short", "shortrem", "long", "all"})) >= 0) { static const int m[] = {ARGV_USAGE_SHORT, ARGV_USAGE_SHORT_REM, ARGV_USAGE_LONG, ARGV_USAGE_ALL}; usage = m[k]; }
			else ok = false;
			if (!ok) complaint = true;
			w.clear(); }
	}
	Model m(t, st); strs ea = {"-a", "-b=8"};
	str what = flat(a0) + " settings " + g + (envset ? " env" : "") + (inter ? " interactive" : "") + fmt(" entry %d table %d", entry, ti);
	c.state(what);
	// which argument ends an interactive program first
	bool asked = false; strs done; str q;
	if (inter) {
		auto scan = [&](const strs &v) { bool last = false; for (auto &x : v) { if (asked) return; if (x == "--") { if (!last) { last = true; continue; } if (st.toggle) { last = false; continue; } } if (last) { done.push_back(x); continue; } if (x == "-?" || x.compare(0, 7, "--usage") == 0 || x == "--help" || x == "--version" || x == "--argv-display") { asked = true; q = x; return; } done.push_back(x); } };
		if (env == 1 && envset) scan(ea); scan(a); if (env == 2 && envset) scan(ea);
	}
	if (envset && env == 1) m.list(ea); m.list(a); if (envset && env == 2) m.list(ea); m.finish();
	bool missing = false; for (auto &x : a) if (x.find("missing") != str::npos) missing = st.close;	// a file which cannot be read ends it at once
	if (!WIFEXITED(status)) c.fail("own process", what + fmt(": ended by signal %d\n", WTERMSIG(status)) + err.substr(0, 400));
	int code = WEXITSTATUS(status), want = 0;
	if (inter && asked && !missing) want = 0; else if (inter && !m.ok) want = entry == 2 ? 77 : 1;
	if (code != want) c.fail("own process", what + fmt(": exit status %d, expected %d\n", code, want) + err.substr(0, 400));
	if (inter && (asked || !m.ok)) { if (!out.empty()) c.fail("own process", what + ": went on"); }
	else {
		str exp = fmt("rc %d close %d toggle %d multi %d env %d after %d usage %d error %d;", m.ok ? 0 : -1, st.close, st.toggle, st.multi, env != 0, env == 2, usage, error);
		if (out.compare(0, exp.size(), exp)) c.fail("own process", what + ": " + out + "expected " + exp);
		if (m.ok) { for (size_t i = 0; i < t.size(); i++) if (t[i].s != OR && t[i].s != ONE) { if (t[i].type & ARGV_FLAG_ARRAY) exp += " (" + flat(m.arr[i]) + ")"; else exp += " " + m.val[i]; } if (out != exp + "\n") c.fail("own process", what + ": " + out + "expected " + exp); }
	}
	if (m.ok && !asked && !complaint && !err.empty()) c.fail("own process", what + ": wrote " + err);
	if (complaint && err.find("GLOBAL_ARGV") == str::npos) c.fail("own process", what + ": no word about the settings");
	if (inter && asked && !missing) {
		auto has = [&](const char *s) { return err.find(s) != str::npos; };
		if (q == "--version" && !has(entry == 2 ? "VERSIONTEXT" : "no version")) c.fail("own process", what + ": no version in " + err);
		int kind = q == "-?" || q == "--usage" || q == "--help" ? usage : q == "--usage-s" ? ARGV_USAGE_SHORT : q == "--usage-long" ? ARGV_USAGE_LONG : q == "--usage-all" ? ARGV_USAGE_ALL : 0;
		if ((q == "--usage-s" || q == "--usage-long" || q == "--usage-all") && 0) kind = 0;
		if (q != "--version" && err.empty()) c.fail("own process", what + ": nothing shown");
		if ((kind == ARGV_USAGE_LONG || kind == ARGV_USAGE_ALL) && !has("--beta") && ti != 5) c.fail("own process", what + ": options not shown: " + err);
		if (q == "--argv-display") {
			Model d(t, st); d.list(done); size_t pos = 0;
			if (d.ok) for (size_t i = 0; i < t.size(); i++) if (t[i].s != OR && t[i].s != ONE) {
				str w; if (t[i].type & ARGV_FLAG_ARRAY) { for (auto &v : d.arr[i]) w += (w.empty() ? "" : ",") + value_text(t[i].type, v); if (w.empty()) w = "no entries"; } else w = value_text(t[i].type, d.val[i]);
				size_t nl = err.find('\n', pos); if (nl == str::npos) c.fail("own process", what + ": too few lines\n" + err);
				if (complaint) { while (err.substr(pos, nl - pos).find("GLOBAL_ARGV") != str::npos) { pos = nl + 1; nl = err.find('\n', pos); } }
				str line = err.substr(pos, nl - pos); pos = nl + 1;
				if (line.size() < w.size() + 1 || line.compare(line.size() - w.size(), str::npos, w) || line[line.size() - w.size() - 1] != ' ') c.fail("own process", what + ": shows " + line + ", value " + w);
			}
		}
	}
}
static void body(Ctx &c) {
	static const strs toks = {"-a", "-b", "-c", "-bb", "-abc", "-b=7", "-a=no", "--alpha", "--al", "--be=-3", "--comma=x=y", "--", "-", "-5", "5", "word", "-d", "--alone"};
	static const strs odd = {"", "--=1", "-=1", "-?", "-z", "-az", "--zeta", "--a", "--c", "-1.5", "-5-", "--argv-file", "--argv-file=@one", "@one", "@many", "--argv-file=@missing", "--help", "--usage-l", "-\xfb", "-\xfc", "-\xfd", "-\xfe", "-\xff", "--argv-d", "-ccccc", "-bbbbbbbbbbbb", "=", "-b=", "--alpha=", "-dd=4", "-cbcb=9", "---", "-b5"};
	Settings st;
	switch (c.choose(11, "family")) {
	case 10: {	// large: many arguments and values, long ones, tables of many options with long names
		static const std::vector<int> ns = {60, 100, 127, 128, 129, 255, 256, 257, 1000, 1025, 4097};
		int kind = c.choose(7), n = c.pick(ns); c.mine();
		c.trace("large %d %d", kind, n);
		Table t = {{'a', "alpha", ARGV_BOOL, 0}, {'b', "beta", ARGV_INT | ARGV_FLAG_ARRAY, "n"}, {'c', "comma", ARGV_CHAR_P | ARGV_FLAG_ARRAY, "s"}, {'s', "single", ARGV_CHAR_P, "s"}, {'i', "incr", ARGV_INCR, 0}, {MAYBE, NULL, ARGV_CHAR_P | ARGV_FLAG_ARRAY, "v"}};
		strs a;
		if (kind == 0) for (int i = 0; i < n; i++) a.push_back(fmt("-b=%d", i));
		if (kind == 1) { a.push_back("-" + str(n, 'b')); for (int i = 0; i < n; i++) a.push_back(fmt("%d", i)); }
		if (kind == 2) for (int i = 0; i < n; i++) { a.push_back(i % 2 ? "-c" : "--comma"); if (i % 3 == 2) a.push_back("-a"); a.push_back(fmt("v%d", i) + str(i % 300, 'x')); }
		if (kind == 3) { a = {"-s", str(n * 31, 'y'), "-s=" + str(n * 17, 'z'), "-c=" + str(n, 'w'), str(n * 3, 'v'), "--single", str(n, 'u')}; }
		if (kind == 4) { a.push_back("-" + str(n, 'i')); a.push_back("--"); for (int i = 0; i < n; i++) a.push_back(i % 5 ? fmt("%d", i) : "-b"); }
		if (kind == 5) { for (int i = 0; i < n; i++) { a.push_back("-c"); a.push_back("-i"); } for (int i = 0; i < n; i++) a.push_back(fmt("%d", i)); a.push_back("one more"); if (n % 2) a.insert(a.begin(), "-b"); }
		static std::map<int, strs> names;
		if (kind == 6) {
			if (n > 1100) throw Cut();
			strs &nn = names[n]; if (nn.empty()) for (int i = 0; i < n; i++) nn.push_back(fmt("%04d", i) + str(i % 400, 'o') + "e");
			t.resize(2); for (int i = 0; i < n; i++) t.push_back({0, nn[i].c_str(), (unsigned)(i % 3 == 0 ? ARGV_BOOL : i % 3 == 1 ? ARGV_INT : ARGV_CHAR_P), 0});
			for (int i = n - 1; i >= 0; i -= 7) { str x = "--" + (i % 2 ? nn[i] : nn[i].substr(0, 4)); a.push_back(i % 3 && i % 4 == 0 ? x + fmt("=%d", i) : x); if (i % 3 && i % 4) a.push_back(fmt("%d", i)); }
		}
		go(c, t, a, st); if (kind != 3) { st.multi = false; go(c, t, a, st); }
		if (kind < 6) { a.push_back(kind == 1 ? "-b" : "-q"); go(c, t, a, st); }
		return; }
	case 0: {	// sequences of ordinary tokens
		const Table &t = c.pick(tables()); strs a; int n = c.T(4, 5);
		for (int i = 0; i < n; i++) { int k = c.choose((int)toks.size() + 1); if (k == (int)toks.size()) break; a.push_back(toks[k]); if (i == 1) c.mine(); }
		if (a.size() < 2) c.mine();
		if (a.size() < 4 || c.thorough()) { int s = c.choose(8); st.close = !(s & 1); st.toggle = s & 2; st.multi = !(s & 4); }
		c.trace("%s", flat(a).c_str()); go(c, t, a, st, 0, {}, a.size() < 3); return; }
	case 1: {	// odd tokens among them
		int ti = c.choose(8); const Table &t = tables()[ti]; strs a; int n = 1 + c.choose(3); int at = c.choose(n);
		for (int i = 0; i < n; i++) { a.push_back(i == at ? c.pick(odd) : n == 3 && !c.thorough() ? toks[c.choose(16)] : c.pick(toks)); if (i == (n > 1)) c.mine(); }
		if (n < 3 && (ti < 6 || c.thorough())) { int s = c.choose(8); st.close = !(s & 1); st.toggle = s & 2; st.multi = !(s & 4); if (c.flip()) a.insert(a.begin() + c.choose(2), c.pick(odd)); }
		c.trace("%s", flat(a).c_str()); go(c, t, a, st); return; }
	case 2: {	// each kind of value, given in each way
		int k = 1 + c.choose(22); bool arr = c.flip(); if (arr && !takes(k)) throw Cut(); int place = c.choose(3); c.mine();
		static const strs vals = {"0", "1", "5", "-7", "+3", "007", "0x1F", "1F", "1011", "2k", "3M", "1g", "7B", "-2K", "yes", "True", "no", "false", "", "abc", "2.5", "-.5", "1e3", "7z", " 42", "32767", "-32768", "65535", "2147483647", "-2147483648", "4294967295", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "\"q\\", "^'\x1b\x07\xff", "a rather long value which does not fit everywhere"};
		Table t = {{'x', kind_names[k], (unsigned)k | (arr ? ARGV_FLAG_ARRAY : 0), 0}}; if (place == 1) t.insert(t.begin(), Opt{'y', "yy", ARGV_BOOL, 0}); if (place == 2) t[0] = Opt{MAND, NULL, t[0].type, "v"};
		str v = c.pick(vals); c.trace("%s: %s", kind_names[k], v.c_str());
		unsigned ty = k; // values which do not fit the type are not defined
		bool num = (ty >= ARGV_INT && ty <= ARGV_U_LONG) || ty == ARGV_INCR || ty == ARGV_SHORT || ty == ARGV_U_SHORT || ty == ARGV_SIZE || ty == ARGV_U_SIZE;
		if (num && v.size() > 9) { long double x = strtold(v.c_str(), 0); bool sz = ty == ARGV_SIZE || ty == ARGV_LONG, usz = ty == ARGV_U_SIZE || ty == ARGV_U_LONG; if (sz ? x > 9.3e18L && v[0] != '9' : usz ? x < 0 : ty == ARGV_U_INT ? x < 0 || x > 4294967295.0L : x > 2147483647.0L || x < -2147483648.0L || ty == ARGV_SHORT || ty == ARGV_U_SHORT) throw Cut(); if (v[0] == '1' && v.size() == 20 && !usz) throw Cut(); }
		if ((ty == ARGV_BIN || ty == ARGV_OCT || ty == ARGV_HEX) && v.size() > 9) throw Cut();
		if (arr && (ty == ARGV_FLOAT || ty == ARGV_DOUBLE) && value(ty, &v, "?") == "?") throw Cut();	// no number at all
		if (place == 2) { for (int extra = 0; extra < (arr ? 12 : 2); extra++) { strs a(extra + 1, v); go(c, t, a, st, 0, {}, true); a.insert(a.begin(), "--"); go(c, t, a, st, 0, {}, true); } return; }
		str L = str("--") + kind_names[k];
		for (auto &a : std::vector<strs>{{"-x", v}, {"-x=" + v}, {L, v}, {L + "=" + v}, {"-x", "--", v}, {"-x=" + v, "-x"}, {"-x", "-x", v, v}, {"-xx", v, "1"}, {"-xx=" + v}, {v, "-x"}, {"-x"}, {}}) { go(c, t, a, st, 0, {}, true); Settings s2 = st; s2.multi = false; go(c, t, a, s2); s2.close = false; go(c, t, a, s2); }
		if (arr) for (int n : {9, 10, 11, 20, 21, 52}) { strs a; for (int i = 0; i < n; i++) a.push_back("-x=" + v); go(c, t, a, st, 0, {}, true); a.clear(); a.push_back("-" + str(n, 'x')); for (int i = 0; i < n; i++) a.push_back(i % 2 ? v : "1"); go(c, t, a, st, 0, {}, true); a.pop_back(); go(c, t, a, st); }
		return; }
	case 3: {	// arguments from the environment, before and after
		const Table &t = c.pick(tables()); int env = 1 + c.choose(2); strs e, a;
		int n = c.choose(3); for (int i = 0; i < n; i++) { e.push_back(c.pick(toks)); }
		c.mine();
		n = c.choose(c.T(2, 3)); for (int i = 0; i < n; i++) a.push_back(c.pick(toks));
		c.trace("%s %s", flat(e).c_str(), flat(a).c_str()); go(c, t, a, st, env, e); return; }
	case 5: {	// a table used again, after cleaning up
		const Table &t = c.pick(tables()); int n = 1 + c.choose(c.T(1, 2)); std::vector<strs> before;
		for (int i = 0; i < n; i++) { strs b; int k = c.choose(c.T(3, 4)); for (int j = 0; j < k; j++) b.push_back(j == 2 ? str("7") : c.pick(toks)); before.push_back(b); if (!i) c.mine(); }
		strs a; int k = c.choose(3); for (int j = 0; j < k; j++) a.push_back(c.pick(toks));
		c.trace("%s then %s", flat(before[0]).c_str(), flat(a).c_str()); go(c, t, a, st, 0, {}, false, before); return; }
	case 6: {	// every table of up to four (or five) entries: which are refused as such
		static const Opt parts[] = {{'a', "alpha", ARGV_BOOL, 0}, {'b', "beta", ARGV_INT | ARGV_FLAG_ARRAY, "n"}, {'c', "comma", ARGV_BOOL | ARGV_FLAG_ARRAY, 0}, {'d', "delta", ARGV_INCR | ARGV_FLAG_ARRAY, 0}, {MAND, 0, ARGV_CHAR_P, "m"}, {MAND, 0, ARGV_INT | ARGV_FLAG_ARRAY, "ms"}, {MAYBE, 0, ARGV_INT, "y"}, {MAYBE, 0, ARGV_CHAR_P | ARGV_FLAG_ARRAY, "ys"}, {OR, 0, 0, 0}, {ONE, 0, 0, 0}, {'e', "empty", ARGV_INT, "without a variable"}};
		Table t; int n = 1 + c.choose(c.T(4, 5)); std::vector<int> w; for (int i = 0; i < n; i++) { w.push_back(c.choose(11)); t.push_back(parts[w.back()]); if (i == 1) c.mine(); } if (n < 2) c.mine();
		bool bad = false, arr = false, maybe = false;
		for (int i = 0; i < n; i++) {
			if (w[i] == 2 || w[i] == 3 || w[i] == 10) bad = true;
			if (w[i] == 4 || w[i] == 5) { if (arr || maybe) bad = true; }
			if (w[i] == 6 || w[i] == 7) { if (arr) bad = true; maybe = true; }
			if (w[i] == 5 || w[i] == 7) arr = true;
			if (w[i] == 8 || w[i] == 9) { if (i == 0 || i == n - 1 || t[i - 1].s == OR || t[i - 1].s == ONE) bad = true; }
		}
		str text; for (int i : w) text += fmt(" %d", i);
		c.trace("table%s", text.c_str());
		if (!bad) { bool twice = false; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (t[i].l && t[i].l == t[j].l) twice = true; if (!twice) for (auto &a : std::vector<strs>{{}, {"1"}, {"-a", "2", "3"}, {"-b", "4", "5", "6", "7"}, {"-b", "-a", "8"}}) go(c, t, a, st); return; }
		Run r(t); for (int i = 0; i < n; i++) if (w[i] == 10) r.g[i].ar_variable = nullptr;
		for (bool quiet : {false, true}) { for (strs a : std::vector<strs>{{}, {"-a"}, {"1"}, {"1", "2"}, {"-b=1", "2"}}) { std::vector<char *> av = {(char *)"/bin/prog"}; for (auto &x : a) av.push_back(&x[0]); av.push_back(nullptr); argv_interactive = 0; argv_error_stream = quiet ? nullptr : nowhere; argv_process_env_b = 0; c.step(); if (argv_process_no_env(r.g, (int)av.size() - 1, av.data()) == 0) c.fail("bad table", "accepted the table" + text + " with " + flat(a)); }}
		for (int i = 0; i < n; i++) if (w[i] == 10) r.g[i].ar_variable = r.var[i];
		c.state("bad" + text); return; }
	case 7: {	// no stream to write errors to
		const Table &t = c.pick(tables()); strs a; int n = c.choose(c.T(3, 4)); for (int i = 0; i < n; i++) { a.push_back(i == 2 || c.flip() ? c.pick(odd) : c.pick(toks)); if (!i) c.mine(); } if (!n) c.mine();
		c.trace("%s", flat(a).c_str()); silent = true; argv_error_type = ARGV_USAGE_ALL; try { go(c, t, a, st); st.multi = false; go(c, t, a, st); } catch (...) { silent = false; throw; } silent = false; argv_error_type = ARGV_USAGE_LONG; argv_error_stream = nowhere; return; }
	case 8: {	// program names, and the environment variable named after them; more arguments in the environment, in files
		static const str big(255, 'n'), big6(256, 'n'), big7(300, 'N');
		static const strs names = {"prog", "x", "dir/x", "/", "a/b/", "./Tool-1.x", "/usr/bin/a_B", "", big, big6, big7, "/d/" + big7};
		const Table &t = tables()[c.choose(5)]; str name = c.pick(names); int env = c.choose(4);
		static const std::vector<strs> es = {{}, {"-a"}, {"-b", "4", "-a"}, {"-b"}, {"-c", "--", "-a"}, {"-bbbb", "1", "2", "3", "4", "-c=1", "-c=2", "-c=3", "-c=4", "-c=5", "-c=6", "-c=7"}, {"--argv-file", "@nested"}, {"@eleven"}, {"--argv-file=@ten"}};
		strs e = c.pick(es), a = c.pick(es); c.mine();
		if (env && name.size() > 200) { if (name.size() > 256) throw Cut(); }
		c.trace("%s %s %s", name.c_str(), flat(e).c_str(), flat(a).c_str());
		if (!env && !e.empty()) throw Cut();
		go(c, t, a, st, env, e, false, {}, name.c_str()); return; }
	case 9: {	// in a process of its own: as an application would, which is ended by errors and requests for help
		static const std::vector<strs> as = {{}, {"-a", "one"}, {"-z"}, {"--usage"}, {"--help"}, {"-?"}, {"--usage-s"}, {"--usage-long"}, {"--usage-all"}, {"--version"}, {"--argv-display"}, {"-b", "5", "one", "--argv-display"}, {"-b"}, {"one", "--argv-file=@missing"}, {"-a=0", "-b=3", "-c=p", "-c=q", "-c=r", "-c", "one", "2", "-c=s", "3", "40", "500", "--argv-display"}, {"-b=1", "-b=2", "one"}, {"--", "one", "--", "-a"}};
		static const strs globals = {"-", "", "close=no", "close=enable,multi=reject", "lasttog=on", "lasttog=0:multi=accept close=1", "env=none", "env=before\tmulti=reject", "env=after", "error=see", "error=none,usage=short", "error=all usage=all", "error=short", "error=shortrem,usage=shortrem", "error=long,usage=long", "env=none env=after", "multi=reject,multi=accept", "env=after,env=none", "env=after:env=before", "nonsense", "close=maybe", "env=,multi=,lasttog=,error=,usage="};
		int ti = c.choose(3); strs a = c.pick(as); str g = globals[c.choose(ti && !c.thorough() ? 4 : (int)globals.size())]; bool inter = c.flip(), envset = c.flip(); int entry = c.choose(3); c.mine();	// entry: argv_process; the other function, as the very first; with the errors' code set
		c.trace("table %d: %s, settings %s%s%s, entry %d", ti, flat(a).c_str(), g.c_str(), inter ? ", interactive" : "", envset ? ", arguments in the environment" : "", entry);
		child(c, ti, a, g, inter, envset, entry); return; }
	default: {	// usage messages of every kind for every table, to a stream
		const Table &t = c.pick(tables()); int kind = c.choose(7); c.mine();
		char *buf = nullptr; size_t len = 0; FILE *was = nowhere; nowhere = open_memstream(&buf, &len);
		argv_error_type = kind;
		for (auto &a : std::vector<strs>{{}, {"-zq"}, {"-b"}, {"--zeta", "word"}, {"-a", "-b=1", "-c=2"}}) go(c, t, a, st);
		{ Run r(t); argv_error_stream = nowhere; argv_usage(r.g, kind); }
		fclose(nowhere); nowhere = was; str out(buf, len); free(buf); argv_error_type = ARGV_USAGE_LONG;
		c.trace("usage kind %d: %zu bytes", kind, out.size());
		if (kind == ARGV_USAGE_LONG || kind == ARGV_USAGE_ALL) for (auto &o : t) { if (o.l && out.find(str("--") + o.l) == str::npos) c.fail("usage", str("does not mention --") + o.l); if (o.s && o.s < 251 && out.find(str("-") + (char)o.s) == str::npos) c.fail("usage", fmt("does not mention -%c", o.s)); }
		return; }
	}
}
int main(int argc, char **argv) {
	if (argc > 4 && !strcmp(argv[1], "--child")) return start(argc, argv);
	const char *s = getenv("VF_SCRATCH"); dir = str(s ? s : "/tmp") + fmt("/l13.%d", getpid());
	static str cleanup; 
	if (mkdir(dir.c_str(), 0755) == 0) cleanup = dir;
	nowhere = fopen("/dev/null", "w"); if (!freopen("/dev/null", "r", stdin)) return 2;
	files[dir + "/one"] = {"-a", "--", "5"};
	strs many; for (int i = 0; i < 30; i++) many.push_back(i % 3 ? "-b" : "--beta"); for (int i = 0; i < 29; i++) many.push_back(fmt("%d", i)); files[dir + "/many"] = many;
	for (int n : {10, 11, 20}) { strs l; for (int i = 0; i < n; i++) l.push_back(i % 4 == 3 ? "-b=9" : "-c=7"); files[dir + "/" + (n == 10 ? "ten" : n == 11 ? "eleven" : "twenty")] = l; }
	files[dir + "/nested"] = {"-b", "--argv-file=" + dir + "/one", "--argv-file", "6", dir + "/twenty", "-c= a b ", str(1000, 'w')};
	for (auto &f : files) { FILE *fp = fopen(f.first.c_str(), "w"); fputs("\n", fp); for (size_t i = 0; i < f.second.size(); i++) fprintf(fp, "%s%s", f.second[i].c_str(), i + 1 < f.second.size() ? i % 2 ? "\n\n" : "\n" : f.second.size() % 2 ? "\n" : ""); fclose(fp); }
	int rc = vf::run(argc, argv, body);
	for (auto &f : files) unlink(f.first.c_str());
	rmdir(dir.c_str());
	return rc;
}
