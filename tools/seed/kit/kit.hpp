// Small helpers for the demonstrations: build in-memory tables by hand and run lookups over them.
#include <algorithm>
#include <cassert>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
extern "C" {
#include <mtbl.h>
#include <wdns.h>
#include "dnstable.h"
}
typedef std::string B;
typedef std::vector<B> Bs;
typedef uint64_t u64;
inline B u8(unsigned v) { return B(1, (char)v); }
inline B be16(unsigned v) { return u8(v >> 8) + u8(v & 255); }
inline B le16(unsigned v) { return u8(v & 255) + u8(v >> 8); }
inline B vi(u64 v) { B r; while (v >= 128) { r += u8((v & 127) | 128); v >>= 7; } return r + u8(v); }
inline B trip(u64 f, u64 l, u64 c) { return vi(f) + vi(l) + vi(c); }
inline Bs split(const B &s) { Bs l; B cur; for (char c : s) if (c == '.') { if (!cur.empty()) l.push_back(cur); cur.clear(); } else cur += c; if (!cur.empty()) l.push_back(cur); return l; }
inline B wire(const Bs &l) { B r; for (auto &x : l) r += u8(x.size()) + x; return r + u8(0); }
inline B nm(const B &s) { return wire(split(s)); }
inline B rn(const B &s) { Bs l = split(s); std::reverse(l.begin(), l.end()); return wire(l); }
inline B ip4(int a, int b, int c, int d) { return u8(a) + u8(b) + u8(c) + u8(d); }
typedef std::pair<B, B> KV;
inline KV rrset(const B &o, unsigned t, const B &bail, const Bs &rd, u64 f = 1, u64 l = 2, u64 c = 3) { B k = u8(0) + rn(o) + vi(t) + rn(bail); for (auto &r : rd) k += vi(r.size()) + r; return {k, trip(f, l, c)}; }
inline KV rdata(const B &rd, unsigned t, const B &o, u64 f = 1, u64 l = 2, u64 c = 3) { unsigned off = t == 15 || t == 64 || t == 65 ? 2 : t == 33 ? 6 : 0; return {u8(2) + rd.substr(off) + vi(t) + rn(o) + rd.substr(0, off) + le16(rd.size() - off), trip(f, l, c)}; }
inline KV rrname(const B &o, const B &types) { return {u8(1) + nm(o), types}; }
inline KV rdname(const B &o, const B &types) { return {u8(3) + rn(o), types}; }
inline KV trange(u64 f, u64 l) { return {u8(254), vi(f) + vi(l)}; }
inline KV version(unsigned t, u64 v) { return {u8(255) + u8(t), vi(v)}; }
inline void table(const char *name, const std::vector<KV> &v) {
	std::map<B, B> m(v.begin(), v.end()); std::vector<struct standin_kv> k;
	for (auto &x : m) k.push_back({(const uint8_t *)x.first.data(), x.first.size(), (const uint8_t *)x.second.data(), x.second.size()});
	standin_table(name, k.data(), k.size());
}
struct Table { struct mtbl_reader *m; struct dnstable_reader *r; Table(const char *n) { m = mtbl_reader_init(n, NULL); r = dnstable_reader_init(mtbl_reader_source(m)); } ~Table() { dnstable_reader_destroy(&r); mtbl_reader_destroy(&m); } };
inline B json(struct dnstable_entry *e) { char *s = dnstable_entry_to_json(e); B r = s ? s : "(null)"; free(s); return r; }
inline B text(struct dnstable_entry *e) { char *s = dnstable_entry_to_text(e); B r = s ? s : "(null)"; free(s); return r; }
inline Bs drain(struct dnstable_iter *it) { Bs r; struct dnstable_entry *e = NULL; while (it && dnstable_iter_next(it, &e) == dnstable_res_success) { r.push_back(json(e)); dnstable_entry_destroy(&e); if (r.size() > 10000) break; } return r; }
inline Bs run(struct dnstable_query *q, struct dnstable_reader *r) { struct dnstable_iter *it = dnstable_reader_query(r, q); Bs v = drain(it); dnstable_iter_destroy(&it); return v; }
inline int differ(const char *what, const Bs &got, const Bs &want) {
	if (got == want) return 0;
	printf("%s: got %zu results\n", what, got.size()); for (auto &x : got) printf("  %s\n", x.c_str());
	printf("expected %zu\n", want.size()); for (auto &x : want) printf("  %s\n", x.c_str());
	return 1;
}
