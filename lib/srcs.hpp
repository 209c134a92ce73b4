// The standard database behind the three ways of opening it: one table, a set of files answered
// aggregated, a set of files answered unaggregated.
#pragma once
#include "zoo.hpp"
namespace dns {
struct Fixture {
	DB whole;			// what a lookup must see
	int agg;			// -1 single table, 1 aggregated set, 0 unaggregated set
	Reader *single = nullptr; struct dnstable_reader *set = nullptr;
	struct dnstable_reader *r() { return set ? set : single->r; }
	Fixture(int mode, const DB &z, const char *pfx = "x") : whole(z), agg(mode) {
		if (mode < 0) { install((str(pfx) + "db").c_str(), z); single = new Reader((str(pfx) + "db").c_str()); return; }
		// deal the records over three files; in the aggregated set some are in several files
		std::vector<DB> f(3); int i = 0;
		for (auto &e : z) {
			if (e.kind == RRSET_NAME || e.kind == RDATA_NAME) { i++; for (auto &x : f) x.push_back(e); continue; }
			int m = mode == 1 ? 1 + i % 7 : 1 << (i % 3);
			if (mode == 1 && (e.kind == VERSION || e.kind == TIME_RANGE || e.kind == SOURCE)) m = 7;
			int n = 0;
			for (int k = 0; k < 3; k++) if (m & 1 << k) { Ent x = e; if (e.kind <= RDATA) { if (n++) x.count = 1; } f[k].push_back(x); }
			i++;
		}
		if (mode == 1) whole = merge_dbs(f);
		else { whole.clear(); std::map<B, Ent> m; for (auto &x : f) for (auto &e : x) m[e.key()] = e; for (auto &x : m) whole.push_back(x.second); }
		str set_;
		for (int k = 0; k < 3; k++) { str n = str(pfx) + vf::fmt("f%d", k); install(n.c_str(), f[k]); set_ += n + "\n"; }
		standin_setfile((str(pfx) + "set").c_str(), set_.c_str());
		set = dnstable_reader_init_setfile((str(pfx) + "set").c_str());
	}
	Q fit(Q q) const { if (agg == 0) q.aggregated = 0; return q; }
	~Fixture() { delete single; dnstable_reader_destroy(&set); }
	Fixture(const Fixture &) = delete;
};
inline const char *mode_name(int agg) { return agg < 0 ? "one table" : agg ? "aggregated set" : "unaggregated set"; }
}
