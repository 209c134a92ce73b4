// E01: well-formed entries decode to exactly what was encoded.
#include "ents.hpp"
using namespace dns;
static void body(vf::Ctx &c) {
	Ent e = pick_entry(c, c.thorough());
	c.mine();
	str want = e.canon(), text = want.size() > 300 ? want.substr(0, 300) : want;
	B k = e.key(), v = e.val();
	c.state(k + "|" + v);
	c.trace("%s", text.c_str());
	Entry d(decode(k, v));
	if (!d.e) c.fail("refused", text + " key " + hex(k.substr(0, 200)) + " value " + hex(v.substr(0, 200)));
	c.step();
	if (dnstable_entry_get_type(d.e) != (int)e.kind) c.fail("kind", fmt("%d instead of %d", (int)dnstable_entry_get_type(d.e), (int)e.kind));
	str got = canon(d.e);
	if (got != want) c.fail("fields", vf::Ctx::clip(got) + " instead of " + vf::Ctx::clip(want));
	accessor_matrix(c, d.e, e.kind, text);
	// an out-parameter of a failing accessor is not the only thing that must survive: the entry does too
	if (canon(d.e) != want) c.fail("fields", "changed by reading " + text);
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, true); }
