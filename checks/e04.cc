// E04: JSON rendering is valid JSON stating exactly the entry's fields.
#include "render.hpp"
#include <nlohmann/json.hpp>
using namespace dns;
typedef nlohmann::json J;
// the members in a canonical form: key=type:value
static void flat(const J &j, str &s) {
	if (j.is_string()) { str v = j.get<str>(); s += "s" + num(v.size()) + ":" + v; }
	else if (j.is_number_unsigned() || j.is_number_integer()) s += "n" + j.dump();
	else if (j.is_array()) { s += "["; for (auto &x : j) { flat(x, s); s += ","; } s += "]"; }
	else s += j.dump();
}
static str parse(vf::Ctx &c, const str &in) {
	std::multiset<str> keys; int depth = 0; J j;
	try {
		j = J::parse(in, [&](int d, J::parse_event_t ev, J &x) { if (ev == J::parse_event_t::key && d == 1) keys.insert(x.get<str>()); depth = std::max(depth, d); return true; });
	} catch (std::exception &ex) { c.fail("invalid JSON", str(ex.what()) + ": " + vf::Ctx::clip(in)); }
	if (!j.is_object()) c.fail("not an object", vf::Ctx::clip(in));
	for (auto &k : keys) if (keys.count(k) != 1) c.fail("duplicate member", k + ": " + vf::Ctx::clip(in));
	if (in.find('\n') != str::npos) c.fail("several lines", vf::Ctx::clip(in));
	str s;
	for (auto it = j.begin(); it != j.end(); ++it) { s += it.key() + "="; flat(it.value(), s); s += ";"; }
	return s;
}
static str S(const str &v) { return "s" + num(v.size()) + ":" + v; }
static str members(const Ent &e, bool rfc, bool zone, bool arr, bool raw) {
	std::map<str, str> m;
	auto time = [&](u64 t) { return rfc && t < Y10K ? S(date_text(t, true)) : "n" + num(t); };
	if (e.kind == RRSET || e.kind == RDATA) {
		m["count"] = "n" + num(e.eff_count()); m[zone ? "zone_time_first" : "time_first"] = time(e.first); m[zone ? "zone_time_last" : "time_last"] = time(e.eff_last());
		m["rrname"] = S(name_text(e.owner)); m["rrtype"] = S(rtype(e.type));
		str a, h; for (auto &r : e.rdata) { a += S(rdata_text(r, e.type)); h += S(hex(r) + (e.kind == RRSET ? hex(varint(e.type)) : "")); if (e.kind == RRSET || arr) { a += ","; h += ","; } }
		if (e.kind == RRSET || arr) { a = "[" + a + "]"; h = "[" + h + "]"; }
		m["rdata"] = a; if (raw) m["rdata_raw"] = h;
		if (e.kind == RRSET) m["bailiwick"] = S(name_text(e.bail));
	} else if (e.kind == RRSET_NAME || e.kind == RDATA_NAME) {
		m[e.kind == RRSET_NAME ? "rrset_name" : "rdata_name"] = S(name_text(e.name)); bool ok; str a; for (unsigned t : union_decode(e.types, &ok)) a += S(rtype(t)) + ","; m["rrtypes"] = "[" + a + "]";
	} else if (e.kind == TIME_RANGE) { m["time_first"] = time(e.first); m["time_last"] = time(e.last); }
	else if (e.kind == SOURCE) m["source info"] = S(e.text);
	else { m["entry_type"] = S(vtype_name(e.vtype) ? vtype_name(e.vtype) : "unknown-" + num(e.vtype)); m["version"] = "n" + num(e.version); }
	str s; for (auto &x : m) s += x.first + "=" + x.second + ";"; return s;
}
static void body(vf::Ctx &c) {
	Ent e;
	switch (c.choose(3)) {
	case 0: e = pick_dated(c); if (!c.thorough() && civil(e.first).y % 8 > 1 && (civil(e.first).y % 100) > 3) throw vf::Cut(); break;
	case 1: e = pick_entry(c, c.thorough()); break;
	default: {	// every byte in names, text strings and source text
		int b = c.choose(256), where = c.choose(7), pos = c.choose(3); c.mine();
		B x = pos == 0 ? u8(b) : pos == 1 ? "a" + u8(b) + "b" : u8(b) + u8(b) + u8(b);
		switch (where) {
		case 0: e = mk_rrset(wire({x, "a"}), A, wire({"a"}), {ip4(1, 2, 3, 4)}); break;
		case 1: e = mk_rrset(wire({"a"}), A, wire({x}), {ip4(1, 2, 3, 4)}); break;
		case 2: e = mk_rrset(wire({"a"}), TXT, wire({"a"}), {u8(x.size()) + x, u8(0)}); break;
		case 3: e = mk_rdata(wire({x}), NS, wire({"a", x})); break;
		case 4: e = mk_rdata(x, 65280, wire({"a"})); break;
		case 5: e = mk_name(pos ? RRSET_NAME : RDATA_NAME, wire({x, x}), u8(1)); break;
		default: if (b == 0) throw vf::Cut(); e = mk_source(b < 0x80 ? x : pos == 0 ? "\xc3" + u8(0x80 | (b & 0x3f)) : pos == 1 ? "\xe2\x82" + u8(0x80 | (b & 0x3f)) + "\"" : "\xf0\x9f" + u8(0x80 | (b & 0x3f)) + "\x80\\"); break;
		} }
	}
	c.mine();
	B k = e.key(), v = e.val();
	c.state(k + "|" + v); c.trace("%s", e.canon().substr(0, 300).c_str());
	Entry d(decode(k, v));
	if (!d.e) throw vf::Cut();
	bool rec = e.kind == RRSET || e.kind == RDATA, late = !in_calendar(e);
	for (int zone = 0; zone < (rec ? 2 : 1); zone++) {
		dnstable_entry_set_iszone(d.e, zone);
		for (int o = 0; o < 8; o++) {
			if (zone && o > 2) continue;
			if (k.size() > 4000 && o % 3) continue;
			bool rfc = o & 1;
			if (rfc && late) { str got = render(d.e, true, true, o & 2, o & 4); vf::Uncounted u; parse(c, got); continue; }	// valid, but the date is unspecified
			str got = render(d.e, true, rfc, o & 2, o & 4); vf::Uncounted u;
			c.eqs(parse(c, got), members(e, rfc, zone, o & 2, o & 4), "members");
		}
		char *s = dnstable_entry_to_json(d.e); str t = s ? s : "(null)"; free(s); vf::Uncounted u;
		c.eqs(parse(c, t), members(e, false, zone, false, false), "to_json");
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
