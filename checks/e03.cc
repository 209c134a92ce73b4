// E03: text rendering states exactly the entry's fields in presentation form.
#include "render.hpp"
using namespace dns;
static void body(vf::Ctx &c) {
	Ent e = c.flip() ? pick_dated(c) : pick_entry(c, c.thorough());
	c.mine();
	B k = e.key(), v = e.val();
	c.state(k + "|" + v); c.trace("%s", e.canon().substr(0, 300).c_str());
	Entry d(decode(k, v));
	if (!d.e) throw vf::Cut();	// E01's business
	if (!in_calendar(e)) {		// the date is unspecified, the rest is not
		for (int i = 0; i < 2; i++) {
			str s = render(d.e, false, i); c.step();
			if (e.kind == RRSET || e.kind == RDATA) { Ent z = e; z.first = z.last = 1; str want = text_of(z, i, false); size_t p = want.rfind("1970-"); p = p == str::npos ? 0 : want.find('\n', p);
				if (s.size() < want.size() - p || s.substr(s.size() - (want.size() - p)) != want.substr(p)) c.fail("text", "got [" + vf::Ctx::clip(s) + "] for " + e.canon().substr(0, 200)); }
		}
		return;
	}
	for (int zone = 0; zone < 2; zone++) {
		if (zone) dnstable_entry_set_iszone(d.e, true);
		for (int rfc = 0; rfc < 2; rfc++) for (int other = 0; other < (k.size() > 4000 ? 1 : 2); other++)	// options for JSON change nothing
			c.eqs(render(d.e, false, rfc, other, other), text_of(e, rfc, zone), "text");
		char *s = dnstable_entry_to_text(d.e); str t = s ? s : "(null)"; free(s);
		c.eqs(t, text_of(e, false, zone), "to_text");
	}
	dnstable_entry_set_iszone(d.e, false);
	c.eqs(render(d.e, false, true), text_of(e, true, false), "text again");
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
