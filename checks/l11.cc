// L11: the linked list macros: explicit-state search over every state of two lists over a set of elements.
#include "vf.hpp"
extern "C" { void *arena(size_t *n); void l_init(void); void l_op(int, int, int, int); int l_head(int), l_tail(int), l_empty(int), l_next(int), l_prev(int), l_linked(int); }
using namespace vf;
typedef std::vector<int> ints;
struct St { str mem; ints l[2]; str how; };
static const char *name[] = {"append", "prepend", "insert before", "insert after", "unlink", "dequeue", "enqueue", "append list", "init and append", "init and prepend", "unlink (typed)", "dequeue (typed)"};
static void body(Ctx &c) {
	int K = 1 + c.choose(c.T(5, 6)); c.mine();
	size_t n; void *base = arena(&n);
	l_init();
	std::vector<St> todo; U64Set seen;
	auto look = [&](const St &s, const str &what) {
		auto bad = [&](const str &m) { c.fail("lists", m + " after " + s.how + what); };
		std::set<int> in;
		for (int l = 0; l < 2; l++) {
			const ints &m = s.l[l];
			if (l_empty(l) != m.empty()) bad("wrong emptiness");
			ints f, b;
			for (int i = l_head(l); i != -1; i = l_next(i)) { if (i < 0 || f.size() > 8) bad("a broken forward link"); f.push_back(i); }
			for (int i = l_tail(l); i != -1; i = l_prev(i)) { if (i < 0 || b.size() > 8) bad("a broken backward link"); b.push_back(i); }
			std::reverse(b.begin(), b.end());
			if (f != m) bad(fmt("list %d has other elements forwards", l));
			if (b != m) bad(fmt("list %d has other elements backwards", l));
			in.insert(m.begin(), m.end());
		}
		for (int i = 0; i < K; i++) if (l_linked(i) != (int)in.count(i)) bad(fmt("element %d is%s linked", i, in.count(i) ? " not" : ""));
		c.step();
	};
	St init; init.mem = str((char *)base, n); todo.push_back(init); seen.insert(hash_str(init.mem));
	for (size_t at = 0; at < todo.size(); at++) {
		St s = todo[at];
		memcpy(base, s.mem.data(), n);
		look(s, "");
		c.state(s.mem);
		auto run = [&](int op, int l, int i, int j, const std::function<void(St &)> &f) {
			memcpy(base, s.mem.data(), n);
			l_op(op, l, i, j);
			St t = s; f(t);
			look(t, fmt("%s list %d element %d at %d; ", name[op], l, i, j));
			t.mem = str((char *)base, n); t.how += fmt("%s %d %d %d; ", name[op], l, i, j);
			if (seen.insert(hash_str(t.mem))) todo.push_back(t);
		};
		for (int l = 0; l < 2; l++) {
			for (int i = 0; i < K; i++) {
				bool here = std::count(s.l[l].begin(), s.l[l].end(), i), there = std::count(s.l[!l].begin(), s.l[!l].end(), i);
				if (here) { for (int op : {4, 5, 10, 11}) run(op, l, i, 0, [&](St &t) { t.l[l].erase(std::find(t.l[l].begin(), t.l[l].end(), i)); }); continue; }
				if (there) continue;
				for (int op : {0, 6, 8}) run(op, l, i, 0, [&](St &t) { t.l[l].push_back(i); });
				for (int op : {1, 9}) run(op, l, i, 0, [&](St &t) { t.l[l].insert(t.l[l].begin(), i); });
				for (int j : s.l[l]) {
					run(2, l, i, j, [&](St &t) { t.l[l].insert(std::find(t.l[l].begin(), t.l[l].end(), j), i); });
					run(3, l, i, j, [&](St &t) { t.l[l].insert(std::find(t.l[l].begin(), t.l[l].end(), j) + 1, i); });
				}
			}
			run(7, l, 0, 0, [&](St &t) { t.l[l].insert(t.l[l].end(), t.l[!l].begin(), t.l[!l].end()); t.l[!l].clear(); });
		}
	}
}
int main(int argc, char **argv) { return vf::run(argc, argv, body, false); }
