// Calling the merge function on exact-size buffers.
#pragma once
#include "ents.hpp"
namespace dns {
struct Merged { bool null = false; B v; bool operator==(const Merged &o) const { return null == o.null && v == o.v; } };
struct Buf { uint8_t *base, *p; size_t n; Buf(const B &s, int shift = 0) : n(s.size()) { base = (uint8_t *)malloc(n + shift + (n == 0)); p = base + shift + (n == 0); if (n) memcpy(p, s.data(), n); } ~Buf() { free(base); } Buf(const Buf &) = delete; };
inline Merged merge(const B &key, const B &a, const B &b, int shift = 0) {
	Buf k(key), x(a, shift), y(b, shift);
	uint8_t *v = nullptr; size_t n = 0xdead;
	dnstable_merge_func(nullptr, k.p, k.n, x.p, x.n, y.p, y.n, &v, &n);
	Merged m; if (!v) m.null = true; else { m.v = B((char *)v, n); vf::hex(v, n); free(v); }
	return m;
}
// a packed sequence of n 64-bit varints and nothing else
inline bool unpack(const B &s, int n, std::vector<u64> &v) {
	size_t i = 0; v.clear();
	for (int k = 0; k < n; k++) { u64 x = 0; int sh = 0; for (;; sh += 7) { if (i >= s.size() || sh > 63) return false; uint8_t c = s[i++]; x |= (u64)(c & 127) << sh; if (!(c & 128)) break; } v.push_back(x); }
	return i == s.size();
}
}
