TOOL = {'tool.c': '#define main tool_main\n#include "src/dnstable_lookup.c"\n'}
S=[]
S.append(dict(id='lookup-count-narrow', prop='T01', edits=[('src/dnstable_lookup.c', "	uint64_t count = 0;\n	struct timespec start", "	uint16_t count = 0;\n	struct timespec start"), ('src/dnstable_lookup.c', '(int)maxl, "entries", count,', '(int)maxl, "entries", (uint64_t)count,'), ('src/dnstable_lookup.c', '" entries.\\n", count);', '" entries.\\n", (uint64_t)count);')],
 needs="A lookup with more than 65535 results.",
 breaks="The number of entries reported starts again at zero.",
 files=TOOL,
 demo=r'''#include "kit.hpp"
extern "C" int tool_main(int, char **);
int main() {
	setenv("DNSTABLE_FNAME", "t", 1); unsetenv("DNSTABLE_SETFILE");
	std::vector<KV> v; for (int i = 0; i < 65600; i++) v.push_back(rrset("x" + std::to_string(i) + ".z", 1, "z", {ip4(1,1,1,1)}));
	table("t", v);
	freopen("out", "w", stdout); freopen("err", "w", stderr);
	const char *a[] = {"dnstable_lookup", "rrset", "*.z", NULL};
	if (tool_main(3, (char **)a)) return 1;
	fflush(stderr); FILE *f = fopen("err", "r"); char b[1000]; size_t n = fread(b, 1, 999, f); b[n] = 0; fclose(f);
	char d[1000]; int k = 0; for (char *p = strstr(b, "Dumped"); p && *p && *p != '.'; p++) if (*p >= '0' && *p <= '9') d[k++] = *p;
	d[k] = 0; return strcmp(d, "65600") != 0;
}
'''))
S.append(dict(id='threadnum-byte', prop='L15', edits=[], needs='', breaks='', demo=''))
S.pop()
