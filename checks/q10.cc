// Q10: a query's behaviour depends only on its effective settings.
// Every sequence of at most D setting calls (accepted, rejected, clearing) and lookups.
#include "srcs.hpp"
using namespace dns;

struct Op { str what; std::function<bool(struct dnstable_query *)> call; bool ok; std::function<void(Q &, int &)> effect; };	// int: bit0 data set, bit1 zero timeout, bit2 past deadline

static std::vector<Op> ops_for(int qt, bool deep) {
	std::vector<Op> v;
	auto add = [&](const str &w, std::function<bool(struct dnstable_query *)> f, bool ok, std::function<void(Q &, int &)> e) { v.push_back({w, f, ok, e}); };
	auto nothing = [](Q &, int &) {};
	auto data = [&](const char *text, bool ok, std::function<void(Q &)> set) {
		str t = text ? text : "(null)"; bool null = !text;
		add("data " + t, [t, null](struct dnstable_query *q) { return dnstable_query_set_data(q, null ? NULL : t.c_str()) == dnstable_res_success; }, ok,
			[set, ok, null](Q &q, int &s) { if (!ok) return; if (null) { s &= ~1; return; } s |= 1; set(q); });
	};
	if (qt == DNSTABLE_QUERY_TYPE_RRSET || qt == DNSTABLE_QUERY_TYPE_RDATA_NAME) {
		auto pat = [&](const char *t) { data(t, true, [t](Q &q) { Q p = q_name(0, t); q.labels = p.labels; q.left = p.left; q.right = p.right; if (!q.case_sensitive) for (auto &l : q.labels) l = lower(l); }); };
		bool rr = qt == DNSTABLE_QUERY_TYPE_RRSET;
		pat(rr ? "a" : "ns.a"); pat("+.a"); pat("*.a"); pat(rr ? "a.+" : "ns.*"); pat(rr ? "a.*" : "ns.+"); pat(rr ? "B.a" : "Ns.a");
		static str longname(300, 'x'), manylabels; if (manylabels.empty()) for (int i = 0; i < 200; i++) manylabels += "a.";
		data(longname.c_str(), false, nullptr); data(manylabels.c_str(), false, nullptr); data(nullptr, true, nullptr);
	}
	if (qt == DNSTABLE_QUERY_TYPE_RDATA_IP) {
		data("10.1.2.3", true, [](Q &q) { q.ip1 = ip4(10, 1, 2, 3); q.ip2 = ""; });
		data("10.1.2.0/24", true, [](Q &q) { q.ip1 = ip4(10, 1, 2, 0); q.ip2 = ip4(10, 1, 2, 255); });
		data("10.1.2.4-10.1.3.0", true, [](Q &q) { q.ip1 = ip4(10, 1, 2, 4); q.ip2 = ip4(10, 1, 3, 0); });
		data("2001:db8::/32", true, [](Q &q) { q.ip1 = ip6w({0x2001, 0xdb8}); q.ip2 = ip6w({0x2001, 0xdb8, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff}); });
		data("2001:db8::", true, [](Q &q) { q.ip1 = ip6w({0x2001, 0xdb8}); q.ip2 = ""; });
		for (auto b : {"10.1.2.300", "10.1.2.3/33", "10.1.2.3-2001:db8::", "1.2.3.4-", "2001:db8::/129", "10.1.2.3-10.1.2.999", "10.1.2.4/x", "", "1.2.3.4/-1"}) data(b, false, nullptr);
		data(nullptr, true, nullptr);
	}
	if (qt == DNSTABLE_QUERY_TYPE_RDATA_RAW) {
		data("026e73016100", true, [](Q &q) { q.raw = nm("ns.a"); });
		data("0A010203", true, [](Q &q) { q.raw = ip4(10, 1, 2, 3); });
		for (auto b : {"0", "zz", "0A01020", ""}) data(b, false, nullptr);
		data(nullptr, true, nullptr);
	}
	if (qt == DNSTABLE_QUERY_TYPE_VERSION) {
		data("rrset", true, [](Q &q) { q.vtype = 0; }); data("rdata", true, [](Q &q) { q.vtype = 2; });
		for (auto b : {"nonsense", "time_range", ""}) data(b, false, nullptr);
		v.push_back({"data (null)", [](struct dnstable_query *q) { return dnstable_query_set_data(q, NULL) == dnstable_res_success; }, true, [](Q &q, int &) { q.vtype = -1; }});
	}
	if (qt <= DNSTABLE_QUERY_TYPE_RDATA_RAW) {
		auto rt = [&](const char *t, int val) { str s = t ? t : "(null)"; bool null = !t; add("rrtype " + s, [s, null](struct dnstable_query *q) { return dnstable_query_set_rrtype(q, null ? NULL : s.c_str()) == dnstable_res_success; }, val != -2, [val](Q &q, int &) { if (val != -2) q.rrtype = val; }); };
		if (qt == DNSTABLE_QUERY_TYPE_RDATA_NAME) { rt("NS", NS); rt("mx", MX); } else { rt("A", A); rt("aaaa", AAAA); }
		rt("ANY", -1); rt(nullptr, -1); rt("NOSUCHTYPE", -2);
		if (deep) { rt("any-dnssec", -1); rt("TYPE255", -1); rt("TYPE300", 300); rt("", -2); }
		auto fence = [&](dnstable_filter_parameter_type p, const char *n, u64 val, int mode) {
			add(fmt("%s %llu mode %d", n, (unsigned long long)val, mode), [=](struct dnstable_query *q) { u64 x = val; return dnstable_query_set_filter_parameter(q, p, mode == 1 ? NULL : &x, mode == 2 ? 4 : mode == 3 ? 9 : 8) == dnstable_res_success; }, mode < 2,
				[=](Q &q, int &) { if (mode >= 2) return; bool on = mode == 0; switch (p) { case 0: q.fb = on; q.vfb = val; break; case 1: q.fa = on; q.vfa = val; break; case 2: q.lb = on; q.vlb = val; break; default: q.la = on; q.vla = val; } });
		};
		fence(DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, "first before", 10, 0); fence(DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, "first before", 0, 1);
		fence(DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, "last after", 1006, 0); fence(DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, "last after", 7, 2);
		if (deep) {
			fence(DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, "first after", 5, 0); fence(DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, "first after", 5, 1);
			fence(DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, "last before", 1008, 0); fence(DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, "last before", 5, 3);
			fence(DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, "last after", 0, 1); fence((dnstable_filter_parameter_type)4, "unknown", 1, 2);
		}
	}
	auto bail = [&](const char *t, bool ok) { str s = t ? t : "(null)"; bool null = !t;
		add("bailiwick " + s, [s, null](struct dnstable_query *q) { return dnstable_query_set_bailiwick(q, null ? NULL : s.c_str()) == dnstable_res_success; }, ok,
			[s, null, ok](Q &q, int &) { if (ok) { q.has_bail = !null; if (!null) q.bail = nm(s); } }); };
	if (qt == DNSTABLE_QUERY_TYPE_RRSET) { static str longname(300, 'x'); bail("A", true); bail(nullptr, true); bail(longname.c_str(), false); if (deep) bail(".", true); }
	else bail("a", false);
	add("offset 1", [](struct dnstable_query *q) { return dnstable_query_set_offset(q, 1) == dnstable_res_success; }, true, [](Q &q, int &) { q.offset = 1; });
	if (deep) add("offset 0", [](struct dnstable_query *q) { return dnstable_query_set_offset(q, 0) == dnstable_res_success; }, true, [](Q &q, int &) { q.offset = 0; });
	add("case 1", [](struct dnstable_query *q) { return dnstable_query_set_case_sensitive(q, true) == dnstable_res_success; }, true, [](Q &q, int &) { q.case_sensitive = true; });
	if (deep) add("case 0", [](struct dnstable_query *q) { return dnstable_query_set_case_sensitive(q, false) == dnstable_res_success; }, true, [](Q &q, int &) { q.case_sensitive = false; });
	add("timeout 0", [](struct dnstable_query *q) { struct timespec z = {0, 0}; return dnstable_query_set_timeout(q, &z) == dnstable_res_success; }, true, [](Q &, int &s) { s |= 2; });
	add("timeout none", [](struct dnstable_query *q) { return dnstable_query_set_timeout(q, NULL) == dnstable_res_success; }, true, [](Q &, int &s) { s &= ~2; });
	if (deep) {
		add("timeout long", [](struct dnstable_query *q) { struct timespec z = {1000000, 0}; return dnstable_query_set_timeout(q, &z) == dnstable_res_success; }, true, [](Q &, int &s) { s &= ~2; });
		add("deadline 0", [](struct dnstable_query *q) { struct timespec z = {0, 0}; return dnstable_query_set_deadline(q, &z) == dnstable_res_success; }, true, [](Q &, int &s) { s |= 4; });
		add("deadline none", [](struct dnstable_query *q) { return dnstable_query_set_deadline(q, NULL) == dnstable_res_success; }, true, [](Q &, int &s) { s &= ~4; });
		add("aggregated 0", [](struct dnstable_query *q) { return dnstable_query_set_aggregated(q, false) == dnstable_res_success; }, true, nothing);
	}
	return v;
}
static Fixture *fx;
static void lookup(vf::Ctx &c, struct dnstable_query *dq, const Q &q, int st, const str &hist) {
	struct dnstable_iter *it = dnstable_reader_query(fx->r(), dq);
	bool has = q.qtype > DNSTABLE_QUERY_TYPE_RDATA_RAW || (st & 1);
	Q eff = q; eff.case_sensitive = true;	// the name was lower-cased when it was set
	strs want; if (has) want = canons(answer(fx->whole, eff), q.offset);
	bool nul = !has || (q.qtype == DNSTABLE_QUERY_TYPE_RDATA_IP && q.rrtype >= 0 && q.rrtype != (q.ip1.size() == 4 ? A : AAAA));
	c.state(fmt("%d ", st) + q.text() + num(q.offset));
	if ((st & 6) && !nul) {
		struct dnstable_entry *e = nullptr;
		dnstable_res res = dnstable_iter_next(it, &e);
		if (res != dnstable_res_timeout) { dnstable_entry_destroy(&e); c.fail("limit", fmt("expected a timeout, got %d after ", (int)res) + hist); }
		c.step();
	} else {
		strs got = drain(c, it);
		compare(c, got, want, "after " + hist);
	}
	dnstable_iter_destroy(&it);
}
static void body(vf::Ctx &c) {
	static const int types[] = {DNSTABLE_QUERY_TYPE_RRSET, DNSTABLE_QUERY_TYPE_RDATA_NAME, DNSTABLE_QUERY_TYPE_RDATA_IP, DNSTABLE_QUERY_TYPE_RDATA_RAW, DNSTABLE_QUERY_TYPE_VERSION, DNSTABLE_QUERY_TYPE_TIME_RANGE};
	static std::vector<Op> ops[2][6]; static bool init;
	if (!init) {
		init = true;
		for (int i = 0; i < 6; i++) for (int d = 0; d < 2; d++) ops[d][i] = ops_for(types[i], d);
		DB z = zoo();
		z.push_back(mk_rrset(nm("B.a"), A, nm("a"), {ip4(1, 1, 1, 1)})); z.push_back(mk_rdata(nm("Ns.a"), NS, nm("q")));
		z.push_back(mk_name(RRSET_NAME, nm("B.a"))); z.push_back(mk_name(RDATA_NAME, nm("Ns.a")));
		for (size_t i = 0; i < z.size(); i++) if (z[i].kind <= RDATA && z[i].kind != RRSET_NAME) { z[i].first = i; z[i].last = 1000 + i % 9; }
		sort_db(z);
		fx = new Fixture(-1, z);
	}
	int t = c.choose(6);
	bool all = c.thorough() || c.flip();	// quick: the usual settings at length, all of them briefly
	auto &o = ops[all][t];
	struct dnstable_query *dq = dnstable_query_init((dnstable_query_type)types[t]);
	Q q; q.qtype = types[t]; int st = 0;
	int n = t < 3 ? c.T(all ? 3 : 4, 4) : c.T(4, 5); str hist = fmt("query type %d: ", types[t]);
	int started = -1;
	// one op is always a first search parameter, at either end; the rest is free
	for (int i = 0; i < n; i++) {
		int k = c.choose((int)o.size() + 1 + (started < 0 && i + 1 < n));
		if (i == 1) c.mine();
		if (k == 0) break;
		if (k == (int)o.size() + 1) { hist += "lookup; "; lookup(c, dq, q, st, hist); started = i; continue; }
		auto &op = o[k - 1];
		hist += op.what + "; ";
		c.trace("%s", op.what.c_str());
		bool ok = op.call(dq);
		c.step();
		if (ok != op.ok) c.fail("acceptance", fmt("%s: %s", op.what.c_str(), ok ? "accepted" : "refused") + " after " + hist);
		if (!ok) { const char *m = dnstable_query_get_error(dq); if (!m || !*m) c.fail("error text", "no error text after " + hist); }
		op.effect(q, st);
		if (q.qtype == DNSTABLE_QUERY_TYPE_RDATA_NAME && q.left && q.rrtype == NSEC) throw vf::Cut();
	}
	lookup(c, dq, q, st, hist);
	// the lookup left the settings alone
	lookup(c, dq, q, st, hist + "a lookup; ");
	dnstable_query_destroy(&dq);
}
int main(int argc, char **argv) { return vf::run(argc, argv, body); }
