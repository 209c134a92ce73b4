// A universe of entries of every kind, with the extreme keys of each kind, neighbouring unknown
// kinds and undecodable entries; used by the section listings (R01) and metadata lookups (Q14).
#pragma once
#include "zoo.hpp"
namespace dns {
struct Raw { B key, val; str canon; int kind; };	// canon "" = undecodable; kind -1 = unknown kind byte
inline Raw raw(const Ent &e) { return {e.key(), e.val(), e.canon(), (int)e.kind}; }
inline Raw bad(const B &k, const B &v) { return {k, v, "", (uint8_t)k[0]}; }
inline Raw foreign(const B &k, const B &v) { return {k, v, "", -1}; }
inline str kind_name(int k) { return k == 0 ? "rrset" : k == 1 ? "rrset names" : k == 2 ? "rdata" : k == 3 ? "rdata names" : k == 253 ? "source info" : k == 254 ? "time range" : k == 255 ? "version" : "all"; }
inline struct dnstable_iter *listing(struct dnstable_reader *r, int kind) {
	switch (kind) {
	case 0: return dnstable_reader_iter_rrset(r); case 1: return dnstable_reader_iter_rrset_names(r);
	case 2: return dnstable_reader_iter_rdata(r); case 3: return dnstable_reader_iter_rdata_names(r);
	case 253: return dnstable_reader_iter_source_info(r); case 254: return dnstable_reader_iter_time_range(r);
	case 255: return dnstable_reader_iter_version(r); default: return dnstable_reader_iter(r);
	}
}
inline const std::vector<int> &kinds() { static std::vector<int> k = {-1, 0, 1, 2, 3, 253, 254, 255}; return k; }
inline B maxname() { return wire({B(63, '\xff'), B(63, '\xff'), B(63, '\xff'), B(61, '\xff')}); }
inline std::map<B, B> table_of(const std::vector<Raw> &v) { std::map<B, B> m; for (auto &x : v) m[x.key] = x.val; return m; }
}
