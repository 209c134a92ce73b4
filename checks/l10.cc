// L10: growable arrays and byte buffers against a string of elements, over all operation sequences.
#include "vf.hpp"
extern "C" {
struct vt { size_t es; void *(*init)(unsigned); void (*destroy)(void **); void (*append)(void *, const void *, size_t); void (*add)(void *, const void *); void (*extend)(void *, void *);
	void (*reserve)(void *, size_t); void (*clip)(void *, size_t); void (*reset)(void *); void (*detach)(void *, void **, size_t *); void (*reinit)(void *, unsigned); void (*advance)(void *, size_t);
	size_t (*size)(void *), (*bytes)(void *); void *(*data)(void *), *(*ptr)(void *); void (*value)(void *, size_t, void *); };
extern const vt vt_ubuf, vt_v4, vt_v3, vt_vp;
void *u_new(void); void *u_dup(const char *); void u_add_cstr(void *, const char *); void u_cterm(void *); char *u_cstr(void *); void u_fmt(void *, const char *, int); void u_fmt0(void *, const char *); void u_rstrip(void *, char); void u_lit(void *); void u_append_cstr(void *, const char *, size_t);
}
using namespace vf;
static str bytes_of(const void *p, size_t n) { str s(n, 0); if (n) memcpy(&s[0], p, n); return s; }	// memcpy is checked by the sanitizer
struct V {
	Ctx &c; const vt &t; void *v = nullptr; str m; size_t writable = 0;	// room promised behind the contents
	int next = 1;
	V(Ctx &c, const vt &t) : c(c), t(t) {}
	str elems(size_t n) { str s; for (size_t i = 0; i < n * t.es; i++) s += (char)(next = next * 5 + 3); return s; }
	void look() {
		size_t n = m.size() / t.es;
		c.eq(t.size(v), n, "size"); c.eq(t.bytes(v), m.size(), "size in bytes");
		if (bytes_of(t.data(v), m.size()) != m) c.fail("contents", hex(bytes_of(t.data(v), m.size())) + " instead of " + hex(m));
		if ((char *)t.ptr(v) != (char *)t.data(v) + m.size()) c.fail("end pointer", fmt("is off by %td", (char *)t.ptr(v) - (char *)t.data(v) - (ptrdiff_t)m.size()));
		for (size_t i : {(size_t)0, n / 2, n - 1}) if (i < n) { str x(t.es, 0); t.value(v, i, &x[0]); if (x != m.substr(i * t.es, t.es)) c.fail("element", fmt("%zu", i)); }
		c.state(m + (char)t.es); c.step();
	}
	// an operation of the array; sizes are in elements
	void op() {
		static const std::vector<size_t> counts = {0, 1, 2, 3, 7, 64};
		switch (c.choose(9)) {
		case 0: { size_t n = c.pick(counts); str e = elems(n); c.trace("append %zu", n); void *in = malloc(e.size()); memcpy(in, e.data(), e.size()); t.append(v, in, n); free(in); m += e; break; }
		case 1: { str e = elems(1); c.trace("add"); t.add(v, e.data()); m += e; break; }
		case 2: { size_t n = c.choose(3) * 5; c.trace("extend %zu", n); void *w = t.init(1); str e = elems(n); t.append(w, e.data(), n); t.extend(v, w); m += e; c.eq(t.size(w), n, "size of the other array"); t.destroy(&w); break; }
		case 3: { size_t n = c.pick(counts); c.trace("reserve %zu and fill", n); t.reserve(v, n); look();
			str e = elems(n); if (n) memcpy(t.ptr(v), e.data(), e.size()); size_t k = n - n / 3; t.advance(v, k); m += e.substr(0, k * t.es); break; }
		case 4: { size_t n = m.size() / t.es, k[] = {0, n / 2, n ? n - 1 : 0, n, n + 1, n + 100}; int i = c.choose(6); c.trace("clip %zu", k[i]); t.clip(v, k[i]); if (k[i] < n) m.resize(k[i] * t.es); break; }
		case 5: c.trace("reset"); t.reset(v); m.clear(); break;
		case 6: { c.trace("detach"); void *o = nullptr; size_t n = 99; t.detach(v, &o, &n); c.eq(n, m.size() / t.es, "number of detached elements"); if (bytes_of(o, m.size()) != m) c.fail("detached contents", hex(bytes_of(o, m.size()))); free(o); m.clear(); break; }
		case 7: { unsigned h = c.choose(3) * 2; c.trace("reinit %u", h); t.reinit(v, h); m.clear(); break; }
		case 8: { size_t n = c.choose(2) * 9; c.trace("reserve %zu", n); t.reserve(v, n); break; }
		}
	}
};
static void drop_nul(str &m) { if (!m.empty() && m.back() == 0) m.pop_back(); }
// large amounts
static void large(Ctx &c) {
	static const vt *const ts[] = {&vt_ubuf, &vt_v4, &vt_v3, &vt_vp};
	static const std::vector<size_t> amounts = {1, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 300000};
	int k = c.choose(5); size_t a = c.pick(amounts); c.mine(); size_t b = c.pick(amounts);
	if (k == 4) {
		V x(c, vt_ubuf); x.v = u_new(); str s(a, 'p'), t(b, 'r');
		int first = c.choose(3), second = c.choose(3);
		auto put = [&](int how, const str &z) { if (how == 0) u_add_cstr(x.v, z.c_str()); else if (how == 1) u_fmt0(x.v, z.c_str()); else u_append_cstr(x.v, z.data(), z.size()); x.m += z; };
		put(first, s);
		if (!x.m.empty()) { u_cterm(x.v); x.m += '\0'; }
		x.look(); drop_nul(x.m);
		if (second == 2) { u_rstrip(x.v, '\0'); }
		put(second, t); u_cterm(x.v); if (x.m.back()) x.m += '\0'; x.look();
		x.t.destroy(&x.v);
		return;
	}
	V x(c, *ts[k]); x.v = x.t.init(c.pick(std::vector<unsigned>{0, 1, 4096}));
	str e = x.elems(a); x.t.append(x.v, e.data(), a); x.m += e; x.look();
	switch (c.choose(4)) {
	case 0: e = x.elems(b); x.t.append(x.v, e.data(), b); x.m += e; break;
	case 1: x.t.reserve(x.v, b); e = x.elems(b); memcpy(x.t.ptr(x.v), e.data(), e.size()); x.t.advance(x.v, b); x.m += e; break;
	case 2: { void *w = x.t.init(1); e = x.elems(b); x.t.append(w, e.data(), b); x.t.extend(x.v, w); x.t.destroy(&w); x.m += e; break; }
	default: if (b > 4097) { x.t.clip(x.v, b); if (x.m.size() > b * x.t.es) x.m.resize(b * x.t.es); } else for (size_t i = 0; i < b; i++) { str o = x.elems(1); x.t.add(x.v, o.data()); x.m += o; } break;
	}
	x.look();
	void *o = nullptr; size_t n = 99; x.t.detach(x.v, &o, &n); if (n != x.m.size() / x.t.es || bytes_of(o, x.m.size()) != x.m) c.fail("detached contents", fmt("%zu", n)); free(o); x.m.clear(); x.look();
	e = x.elems(3); x.t.append(x.v, e.data(), 3); x.m += e; x.look();
	x.t.destroy(&x.v);
}
static void body(Ctx &c) {
	if (c.flip("large")) { large(c); return; }
	{
	if (c.flip("byte buffer strings")) {
		V x(c, vt_ubuf);
		switch (c.choose(6)) {
		case 0: x.v = u_new(); break;
		case 1: x.v = x.t.init(0); break;
		case 2: x.v = x.t.init(3); break;
		case 3: x.v = u_dup(""); break;
		case 4: x.v = u_dup("a"); x.m = "a"; break;
		case 5: { str s(70, 'q'); x.v = u_dup(s.c_str()); x.m = s; break; }
		}
		x.look();
		static const std::vector<str> texts = {"", "b", "cde", str(63, 'f'), str(1, (char)0xff) + "\n"};
		int depth = c.T(4, 5);
		for (int d = 0; d < depth; d++) {
			if (d == 1) c.mine();
			str &m = x.m;
			switch (c.choose(12)) {
			case 0: { str s = c.pick(texts); c.trace("add_cstr %zu", s.size()); u_add_cstr(x.v, s.c_str()); drop_nul(m); m += s; break; }
			case 1: c.trace("cterm"); u_cterm(x.v); if (m.empty() || m.back()) m += '\0'; break;
			case 2: { c.trace("cstr"); char *p = u_cstr(x.v); if (m.empty() || m.back()) m += '\0'; if (p != x.t.data(x.v)) c.fail("cstr", "not the data"); break; }
			case 3: { str s = c.pick(texts); c.trace("add_fmt %zu", s.size()); u_fmt(x.v, s.c_str(), -(int)s.size()); drop_nul(m); m += "<" + s + "|" + fmt("%d", -(int)s.size()) + ">"; break; }
			case 4: { str s = c.pick(texts); c.trace("add_fmt %%s %zu", s.size()); u_fmt0(x.v, s.c_str()); drop_nul(m); m += s; break; }
			case 5: { char ch = "bf\0>"[c.choose(4)]; c.trace("rstrip %d", ch); u_rstrip(x.v, ch); if (!m.empty() && m.back() == ch) m.pop_back(); break; }
			case 6: c.trace("lit"); u_lit(x.v); m += str("lit\0eral", 8); break;
			case 7: { str s = c.flip() ? str("p\0\0", 3) : str("xyz\0w", 5); c.trace("append_cstr %s", hex(s).c_str()); u_append_cstr(x.v, s.data(), s.size()); m += s; break; }
			case 8: c.trace("reset"); x.t.reset(x.v); m.clear(); break;
			case 9: { size_t n = m.size() / 2; c.trace("clip %zu", n); x.t.clip(x.v, n); m.resize(n); break; }
			case 10: { c.trace("detach"); void *o; size_t n; x.t.detach(x.v, &o, &n); c.eq(n, m.size(), "detached size"); if (bytes_of(o, n) != m) c.fail("detached contents", hex(bytes_of(o, n))); free(o); m.clear(); break; }
			case 11: { str e = x.elems(1); c.trace("add"); x.t.add(x.v, e.data()); m += e; break; }
			}
			x.look();
		}
		x.t.destroy(&x.v);
		c.check(!x.v, "destroy", "handle not cleared");
	} else {
		static const vt *const ts[] = {&vt_ubuf, &vt_v4, &vt_v3, &vt_vp};
		V x(c, *ts[c.choose(4)]);
		static const std::vector<unsigned> hints = {0, 1, 2, 5};
		x.v = x.t.init(c.pick(hints));
		x.look();
		int depth = c.T(4, 5);
		for (int d = 0; d < depth; d++) { if (d == 1) c.mine(); x.op(); x.look(); }
		x.t.destroy(&x.v);
		c.check(!x.v, "destroy", "handle not cleared");
		x.t.destroy(&x.v);
	}
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
