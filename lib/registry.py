"""The registry of checks."""
import os
V_LIB = os.path.dirname(os.path.abspath(__file__))
STANDIN = 'libmtbl and libwdns are the stand-ins in /verif/standin (the real libraries are not in the sandbox); tools/validate_standin.sh runs the repository\'s own tests against them'

def assumptions(spec):
    a = list(spec.get('assumptions', []))
    if set(spec.get('groups', [])) & {'dnstable', 'dnstable-sched'}: a.append(STANDIN)
    return a

CHECKS = {}
def check(pid, **kw): CHECKS[pid] = kw
D = ['dnstable']

check('Q01', harness='q01.cc', groups=D,
      bounds={'quick': 'databases of <=3 of 12 RRsets x 4 index shapes x 1000+ queries; pairs of 27 boundary records x derived queries; up to two malformed keys (19 label lengths x 5 tails) before, between and behind records x 6 name forms; five databases of thousands of records (many owners, types and bailiwicks, values up to 65535 bytes, names of 255 bytes and 127 labels) x 180 lookups',
              'thorough': 'databases of <=5 of 12 RRsets, otherwise as quick'})
check('Q02', harness='q02.cc', groups=D,
      bounds={'quick': 'databases of <=3 of 16 rdata records x index shapes x 360+ queries; pairs of 21 boundary records x derived queries; up to two malformed keys (19 label lengths x 5 tails) among the records x 6 name forms; five databases of thousands of records (names of 255 bytes and 127 labels among them) x 90 lookups',
              'thorough': 'databases of <=5 of 16 rdata records, otherwise as quick'})
check('Q03', harness='q03.cc', groups=D,
      bounds={'quick': 'databases of <=3 of 24 rdata records with interleaving keys x ~90 addresses, prefixes and ranges x RR type; intruding records of three kinds with each of 17 label lengths x 6 fills x 3 type bytes after the address x 27 sets of address records x 5 lookups, IPv4 and IPv6; lookalike records whose bytes read as an address record, with labels ending 6 bytes around the end of the key; records shorter than an address, of every length, with the addresses around their zero-filled keys x 7 lookups; five databases of thousands of records x 100 lookups',
              'thorough': 'databases of <=5 of 24 records, more ranges'})
check('Q04', harness='q04.cc', groups=D,
      bounds={'quick': 'databases of <=3 of 13 rdata records x every prefix of every record (and a neighbour) x RR type x 13 malformed values; five databases of thousands of records (rdata up to 65535 bytes) x 175 lookups',
              'thorough': 'databases of <=6 of 13 records'})
check('Q05', harness='q05.cc', groups=D,
      bounds={'quick': '13 lookup kinds x fence values {0,1,2,128,2^32,2^63,2^64-1} over records at every pair of such times; all combinations of four fences; five databases of thousands of records x 13 lookups x 15 sets of fences x 4 times',
              'thorough': '13 lookup kinds x all combinations of four fences from nine values'})
FS = {'quick': 'one record in <=3 files at every pair of times (also around 2^63) x <=3 fences x 3 time-range modes; two records in two files x 8 lookup kinds x <=1 fence; 41 lookups over 7 deals of the standard database x every 2-step history of set files; sets of 4 to 257 files',
      'thorough': 'as quick with 4 fences, 2 fences, 3-step histories, and both merge and filter evaluation orders'}
check('Q06', harness='q06.cc', groups=D, bounds=FS)
check('Q07', harness='q07.cc', groups=D, bounds=FS)
check('Q08', harness='q08.cc', groups=D,
      bounds={'quick': '41 lookup kinds x {one table, aggregated set, unaggregated set} x every offset up to the number of results + 2 and four large ones x {no fence, each of four, each pair} x 5 uses of the query object; every interleaving of 2 iterators of one query; offsets about every power of two in a table and a file set of 66,000 records',
              'thorough': 'as quick, every interleaving of 3 iterators'})
check('Q09', harness='q09.cc', groups=D, link=['-Wl,--wrap=clock_gettime'],
      bounds={'quick': '41 lookup kinds x 3 kinds of source x 4 kinds of limit x every placement of <=2 clock jumps among the clock readings; the same with the limits cleared, moved or replaced in five ways after the first timeout or result; 18 fruitless scans of 300 entries x timeouts and deadlines, alone and together, seconds or milliseconds apart, of 2..9 readings',
              'thorough': '<=3 clock jumps, of 2..61 readings'})
check('Q10', harness='q10.cc', groups=D,
      bounds={'quick': 'every sequence of <=4 of 8..25 setting calls and lookups, and of <=3 of 20..39, for six query types, then two lookups',
              'thorough': 'every sequence of <=4 (raw, version, time range: <=5) of 20..39 setting calls and lookups'})
check('Q11', harness='q11.cc', groups=D,
      bounds={'quick': '48 queries x all combinations of <=2 of four fences over 5 values x 230 records', 'thorough': 'all combinations of four fences over 7 values'})
check('Q13', harness='q13.cc', groups=D,
      bounds='45 lookups x 3 kinds of source x 8 fence combinations x offsets 0..3, counters read after every step; sets of 3 files with every choice of 4 time spans x 3 lookups x 16 fence combinations x 7 values (49 pairs), file and merge counters against what the stand-in was asked to do; seek counters against the seeks made in the table; all stage and category names and their one-byte variants; counts of 66500 in six ways')
check('Q14', harness='q14.cc', groups=D,
      bounds={'quick': 'every subset of 12 metadata, neighbouring and undecodable entries x 7 metadata lookups; every deal of 7 entries over two files, aggregated and not',
              'thorough': 'every subset of 17 entries, otherwise as quick'})
check('R01', harness='r01.cc', groups=D,
      bounds={'quick': 'every subset of 15 entries holding the extreme keys of each kind x 8 listings; every deal of 7 entries over two files x 3 set-file states before a reload x 8 listings; five databases of thousands of records, whole and dealt over two files',
              'thorough': 'every subset of 20 entries including unknown kinds, otherwise as quick'})
check('Q15', harness='q15.cc', groups=D, link=['-Wl,--wrap=clock_gettime'],
      bounds={'quick': '41 lookups and 8 listings x 3 kinds of source x {plain, two fence pairs, offset, deadline expiring at each of 14 clock readings} x every stopping point up to 4 results or the end x 3 kinds of neighbouring iterator x both destruction orders of iterators x all 6 orders of the rest; every sequence of 3 of 12 operations on one query of each type',
              'thorough': '40 clock readings, stopping points up to 12 results, sequences of 4 operations'})
check('Q12', harness='q12.cc', groups=D,
      bounds={'quick': 'every sequence of <=6 of 7 name tokens; labels and names around 63 and 255 bytes; every sequence of <=3 of 35 address tokens; every prefix length 0..139 of 10 addresses; every string of <=5 of 14 hex and other characters; 50 RR type texts in 3 cases; entry type names and their one-byte variants; filter parameters of 0..17 bytes; every string of <=2 bytes and of 3 of 30 bytes for each query type; texts of 29 units repeated to 25 lengths up to 1 MB with 8 ends',
              'thorough': '7 name tokens, 4 address tokens, 6 hex characters, otherwise as quick'})
check('E01', harness='e01.cc', groups=D,
      bounds={'quick': 'all entries of ten families: 9 names x 15 types x 9 bailiwicks; rdata lists of <=3 (and of 300) over 8 sizes; rdata sizes at every length-encoding boundary up to 65535; every time and count at varint boundaries; name indexes over <=3 types and of 700 types; versions of all 256 types; source texts',
              'thorough': '13 names x 31 types x 13 bailiwicks, rdata lists of <=4, otherwise as quick'})
check('E02', harness='e02.cc', groups=D,
      bounds={'quick': '16 base entries x every truncation, extension by <=2 of 12 bytes, substitution of any byte by any value (in databases: by 12 boundary values; thorough: any), insertion and deletion in the key, and the same in the value; every key of <=2 bytes (3-4 over 14 bytes) of 10 kinds x 10 values; names around 255 bytes in 5 places; a database of 70 entries with each one corrupted x 41 lookups and 8 listings',
              'thorough': 'also every pair of substitutions, every key of 3 bytes (4-5 over 14 bytes), and more name lengths'})
check('E03', harness='e03.cc', groups=D,
      bounds={'quick': 'the entries of E01 and entries at the first, last and other seconds of every month from 1970 to 9999, in both date formats, zone and not', 'thorough': 'as quick over the deeper alphabets of E01'})
check('E04', harness='e04.cc', groups=D,
      bounds={'quick': 'the entries of E01, entries at the edges of months of a quarter of all years, and every byte in each text field, under all combinations of date format, rdata array and raw rdata, zone and not', 'thorough': 'as quick over the deeper alphabets of E01, every month from 1970 to 9999'})
check('M01', harness='m01.cc', groups=D,
      bounds={'quick': 'each of first, last and count over all pairs of 39 boundary values x all others from {0, 200, 2^64-1}; all triples over nine boundary values in every order and grouping; one record in 2-4 files through a reader, both merge orders', 'thorough': '2-5 files, otherwise as quick'})
check('M02', harness='m02.cc', groups=D,
      bounds={'quick': 'all pairs of sets of <=2 of 18 boundary types in every encoding form; all triples of single types in every form and grouping; 14 large sets (up to all 65,536 types) pairwise and with single types; all strings of 3-4 of 10 bytes and truncations of large sets as corrupt operands',
              'thorough': 'sets of <=3 types, triples of sets of <=2 of 9 types, corrupt strings of 3-5 bytes'})
check('M03', harness='m03.cc', groups=D,
      bounds={'quick': 'all triples of time ranges over nine boundary values (or empty) and of versions over 13 (or empty) for all 256 types in every grouping; all 252 other kinds x 7 key forms x 36 value pairs; metadata in 2-3 files through a reader', 'thorough': '2-4 files, otherwise as quick'})
check('M04', harness='m04.cc', groups=D,
      bounds={'quick': 'every set string of <=1 byte, 2 bytes (second of 10), 3-5 of 10 bytes, every window block length with every single bit, alone or followed by a second window (later, the same, earlier) and a third, sets of <=3 of 18 types, large sets and truncations; listed in text and JSON, and probed by index lookups of every neighbouring type',
              'thorough': 'every string of 2 bytes, 3-6 of 10 bytes, longer truncations, more probes'})
check('R02', harness='r02.cc', groups=D,
      bounds={'quick': 'all pairs (join, filter) and triples (remove) of tables over 4 keys x 6 iteration modes x every history of <=4 (remove: 3) of {next, seek to each of 6 targets, abandon} then to the end; stacks of all three with histories of 2; keys of up to 70000 bytes, tables of up to 1250 keys, up to 33 removed sources',
              'thorough': 'histories of <=6 (join), 5 (filter), 4 (remove), 3 (stack)'})

SCHED_LINK = ['-Wl,--wrap=pthread_%s' % f for f in ('mutex_lock', 'mutex_trylock', 'mutex_unlock', 'spin_lock', 'spin_trylock', 'spin_unlock')]
SCHED_A = ['scheduling points are the accesses, atomics, fences and lock operations which clang -O1 emits for the sources; relaxed mode reorders stores, not loads']
check('L01', harness='l01.cc', san=[], kind='sched',
      sched_sources=['libmy/my_queue_mb.c', 'libmy/my_queue_mutex.c', ('libmy/my_queue.c', ['-Dmy_queue_mb_ops=my_queue_default_ops', '-Dmy_queue_mutex_ops=my_queue_default_ops'])],
      link=SCHED_LINK + ['-Wl,--wrap=calloc', '-Wl,--wrap=malloc', '-Wl,--wrap=free'], assumptions=SCHED_A,
      bounds={'quick': 'three builds of the queue x sizes 2 and 4 x element sizes 1, 4, 8 x every rotation and fill x <=3 inserts against <=3 removes under every schedule of memory accesses, sequentially consistent and with stores reordered as far as the fences allow; every sequence of 12 calls on sizes 2, 4, 8; every size argument 0..66 and three huge ones; queues of up to 2^20 elements and elements of up to 1 MB, filled and emptied once or twice',
              'thorough': '<=4 inserts against <=4 removes, sequences of 16 calls'})
check('L15', harness='l15.cc', san=[], kind='sched', sched_sources=['libmy/threadnum.c', '/verif:checks/l15_ops.c'], link=SCHED_LINK, assumptions=SCHED_A + ['threads are fibers; thread-local variables are compiled with -femulated-tls'],
      bounds={'quick': '1..3 threads registering and reading, and 1..3 threads of 1..2 atomic operations each (all operations on 32- and 64-bit counters and pointers), under every schedule of memory accesses; registration also with stores reordered as far as the fences allow; 1100 threads one after the other',
              'thorough': '1..4 threads registering; two threads of two counter operations'})
check('L02', harness='l02.cc', kind='fault', repo_sources=[('libmy/my_fileset.c', [])], link=['-Wl,--wrap=fopen', '-Wl,--wrap=open', '-Wl,--wrap=openat'],
      bounds={'quick': 'set files of 17 listings (duplicates, missing, relative, absolute and malformed lines, 150 members) x every history of two edits (replaced, rewritten, member created or removed, set file missing, open failing, edited while being read) with reloads x three spellings of its path; sets of up to 2000 members, names of up to 250 characters 3300 characters deep, and over-long lines, through six listings',
              'thorough': '20 listings; histories of three edits over 7 listings'})
FS_LINK = ['-Wl,--wrap=' + f for f in ('readdir', 'rename', 'renameat', 'renameat2', 'unlink', 'unlinkat', 'remove', 'link', 'mkdir', 'stat', 'lstat', 'fstatat', 'access', 'faccessat', 'usleep', 'nanosleep', 'sleep', 'rewinddir', 'opendir')]
check('L03', harness='l03.cc', san=[], kind='fault', repo_sources=[('libmy/spooldir.c', [])], link=SCHED_LINK + FS_LINK,
      assumptions=['scheduling and crash points are the file-system calls, sleeps and lock operations of the code; the kernel executes each call atomically', 'file names are not reused while an earlier file of that name is in the active area'],
      bounds={'quick': 'two consumers (processes, or threads sharing a spool), 1..2 files, or a producer and 1..2 consumers, 1..3 calls each, under every schedule at file-system call granularity; a consumer dying at every point; each of 24 calls failing with 6 errors; starting up at once in an empty directory; 35 odd names, 400 files at once, and spools 3300 characters deep',
              'thorough': 'up to three consumers and three files'})
BYTES = 'memory of exactly the documented size under AddressSanitizer'
check('L04', harness='l04.cc', repo_sources=[('libmy/varint.c', [])], assumptions=[BYTES],
      bounds={'quick': 'every value within 64 of every sum or difference of two powers of two; all values below 2^18; all values made of 7-bit groups from {0,1,64,127}; every byte string of <=5 of 6 bytes (<=8 of 2), and every byte after 0..11 continuation bytes; every limit when measuring',
              'thorough': 'within 1000; below 2^24; byte strings of <=6 of 6 bytes (<=11 of 2)'})
check('L05', harness='l05.cc', repo_sources=[('libmy/b32_encode.c', ['-include', 'stddef.h']), ('libmy/b32_decode.c', ['-include', 'stdbool.h', '-include', 'stddef.h'])], assumptions=[BYTES],
      bounds={'quick': 'byte strings of <=6 of 6 boundary bytes; every byte at every place of strings of <=22; every character at every place of texts of <=18; texts of <=5 of 11 characters; each with every buffer size from 10 below to 9 above the needed; lengths about every power of two up to 2^13',
              'thorough': '<=8 boundary bytes, lengths <=45, texts of <=6'})
check('L06', harness='l06.cc', repo_sources=[('libmy/b64_encode.c', []), ('libmy/b64_decode.c', [])], assumptions=[BYTES],
      bounds={'quick': 'byte strings of <=5 of 5 bytes in every chunking, with and without empty chunks; every byte at every place of strings of <=13; every character at every place of texts of <=6 in every chunking; texts of <=5 of 7 characters (line breaks, padding) in every chunking; the value of all 256 characters; lengths about every power of two in pieces of 11 sizes, with and without line breaks',
              'thorough': '<=7 bytes, lengths <=40, texts of <=8'})
check('L07', harness='l07.cc', san=[], kind='sched', sched_sources=['libmy/crc32c.c', 'libmy/crc32c-slicing.c', 'libmy/crc32c-sse42.c'],
      repo_sources=[(f, ['-Dmy_crc32c%s=plain_crc32c%s' % (x, x) for x in ('', '_slicing', '_sse42', '_sse42_supported')]) for f in ('libmy/crc32c.c', 'libmy/crc32c-slicing.c', 'libmy/crc32c-sse42.c')],
      assumptions=SCHED_A + ['buffers end at an inaccessible page or start after one'],
      bounds={'quick': 'lengths 0..159 x 16 alignments x 5 contents x two placements; every byte value at every place of buffers of <=40 bytes x 8 alignments; all strings of <=5 of 4 bytes; 24 lengths about every power of two from 2^7 to 2^20, also through the first and second call in a process; 2..3 threads making 1..2 first calls each under every schedule',
              'thorough': 'lengths 0..699, buffers of <=100 bytes, strings of <=8, powers of two up to 2^24, 2..4 threads'})
check('L08', harness='l08.cc', repo_sources=[('libmy/heap.c', [])], assumptions=[BYTES],
      bounds={'quick': 'every sequence of <=9, 8, 7 of {push, pop, replace, add, heapify, clip to every size, reset, drain} over 1, 2, 3 distinct keys, arrangements already explored after 5 operations cut; heaps of 17 sizes up to 600 x 7 arrival patterns x 5 ways of filling x 4 ways of emptying',
              'thorough': 'sequences of <=12, 11, 10'})
check('L09', harness='l09.cc', verif_sources=[('checks/l09_trees.c', [])], states_are='distinct trees (node contents and root)', transitions_are='tree operations executed and checked',
      bounds={'quick': 'every red-black tree reachable over 1..10 keys and every splay tree over 1..7 keys, every operation with every present and absent key from each; trees of up to 5000 keys filled and emptied in six orders', 'thorough': '1..12 and 1..9 keys'})
check('L10', harness='l10.cc', verif_sources=[('checks/l10_vec.c', [])], assumptions=[BYTES],
      bounds={'quick': 'every sequence of 4 of 9 operations (sizes 0, 1, 2, 3, 7, 64) on arrays of 4 element types and 4 initial sizes; every sequence of 4 of 12 string operations on buffers of 6 initial contents; amounts of up to 300000', 'thorough': 'sequences of 5'})
check('L11', harness='l11.cc', verif_sources=[('checks/l11_list.c', [])], states_are='distinct states of two lists and their elements', transitions_are='list operations executed and checked',
      bounds={'quick': 'every state of two lists over 1..5 elements, every operation with every element and position from each', 'thorough': '1..6 elements'})
def _rate(p, *defs): return ('libmy/my_rate.c', list(defs) + ['-Dmy_rate_%s=%s_%s' % (f, p, f) for f in ('init', 'destroy', 'sleep')] + ['-D%s=fake_%s' % (f, f) for f in ('clock_gettime', 'gettimeofday', 'nanosleep', 'clock_nanosleep')])
check('L12', harness='l12.cc', kind='fault', repo_sources=[_rate('ra', '-UHAVE_CLOCK_GETTIME'), _rate('rb'), _rate('rc', '-DHAVE_CLOCK_NANOSLEEP=1')],
      assumptions=['the clock is virtual and never goes backwards'],
      bounds={'quick': 'three builds (gettimeofday, clock_gettime, clock_nanosleep) x 12 rates x 4 starting times x: 2 calls with frequencies 0..2, seven elapsed times each and every pattern of exact, late and up to three times interrupted sleeps; 6 calls of 4 kinds with frequencies 0..3; two phases of 40 or 2500 fast, matching, slow or idle calls with frequencies 1, 2, 10; 3000 calls without pause',
              'thorough': '3 calls, 8 calls, three phases'})
check('L13', harness='l13.cc', repo_sources=[('libmy/argv.c', ['-fno-sanitize=shift', '-fsigned-char'])], harness_flags=['-fsigned-char'], assumptions=[BYTES],
      bounds={'quick': 'eight option tables (all kinds of entries) x every argument vector of <=4 of 18 ordinary arguments, those of <=2 under every setting; vectors of <=3 with one or two of 33 odd arguments (markers, argument files, help, ambiguous and empty names); 22 kinds of value, single and list, x 37 values x 14 ways of giving them; arguments from the environment before and after, under 12 program names; the same table used twice; every table of <=4 of 11 kinds of entry, well formed or not; without an error stream; in a process of its own: 17 vectors x 21 global settings x interactive or not, through either function; seven kinds of usage message; 60 to 4097 arguments, queued options and array entries, values of up to 127 KB, tables of up to 1027 options',
              'thorough': 'vectors of <=5, every setting throughout, tables of <=5 entries'})
check('L14', harness='l14.cc', san=[], repo_sources=[('libmy/lookup3.c', []), ('libmy/lookup3.c', ['-DVALGRIND'] + ['-Dmy_hash%s=vg_hash%s' % (f, f) for f in ('word', 'word2', 'little', 'little2', 'big')])],
      assumptions=['the little-endian code paths, on this machine', 'strings end at an inaccessible page or start after one'],
      bounds={'quick': 'lengths 0..79 x 8 alignments x two placements x 4 contents x 25 seed pairs; every byte value at every place of strings of <=26 x 4 alignments; strings of <=5 of 4 bytes; the published values; each with two surroundings; lengths about every power of two up to 2^17', 'thorough': 'lengths 0..299, <=52, <=8'})
check('L16', harness='l16.cc', kind='fault', verif_sources=[('checks/l16_rb.c', [])], assumptions=[BYTES],
      bounds={'quick': 'requests of 0..5 bytes x every sequence of read outcomes: every shorter length, end of file, two errors, up to 2 interruptions, any errno left behind; 13 large counts (up to 12 GB, nothing stored) x every sequence of <=6 large and small outcomes', 'thorough': '0..7 bytes, up to 3 interruptions'})
check('L17', harness='l17.cc', verif_sources=[('checks/l17_str.c', [])], assumptions=[BYTES],
      bounds={'quick': 'all subjects of <=8 and patterns of <=3 of two letters x 7 replacements; subjects of 0..139 letters with one match; every byte value; all byte strings of <=2 and of 3..5 of 9 characters printed; texts of up to 100000 and patterns of up to 4096 letters', 'thorough': 'subjects of <=10, strings of 3..6'})
check('L18', harness='l18.cc', kind='fault', repo_sources=[('libmy/zonefile.c', [])], libs=['-lldns'], assumptions=['libldns parses single lines; a small reference reader gives the expected records', BYTES],
      bounds={'quick': '6 heads x every sequence of <=3 of 17 lines (directives, comments, multi-line, inherited and relative names, errors, a second SOA), with and without final newline; files that are no zone; every number of reads before closing; every file of <=2 lines cut at every byte; 18 names, compressed, relative and missing; files of 100 to 5000 records, long names and long texts, plain and compressed',
              'thorough': 'sequences of <=4 lines'})
check('L19', harness='l19.cc', verif_sources=[('checks/l19_ip.c', [])], assumptions=[BYTES],
      bounds={'quick': 'all prefix lengths of all IPv4 addresses of 6 boundary bytes, IPv6 addresses with such bytes at the ends and middle, every byte value at every place below and above carries, every run of one bits and its complement, two-byte patterns; aligned and not, in place and not', 'thorough': 'all two-byte patterns at every place'})
check('L20', harness='l20.cc', groups=D, verif_sources=[('checks/l20_hex.c', [])], assumptions=[BYTES],
      bounds={'quick': 'hex texts of <=5 of 15 characters and every byte at every place of texts of <=8; numbers within 12 of every power of ten and of every sum of powers of two and ten in every buffer size 2..24; every byte and 16-bit number to hex; the first and last second of every day from 1970 to 9999 and every second of 4 days, in text and JSON; hex texts of up to 2^17 digits',
              'thorough': 'texts of <=6, numbers within 200, seven seconds of every day'})
check('L21', harness='l21.cc', kind='fault', verif_sources=[('checks/l21_time.c', [])],
      bounds={'quick': 'all pairs of 35 x 8 boundary times; floating seconds around each; sleeps of 32 lengths under every pattern of <=4 interruptions of 4 remainders, ended or failing', 'thorough': '<=6 interruptions'})
TOOL_LINK = ['-Wl,--wrap=exit', '-Wl,--wrap=clock_gettime', '-Wl,--wrap=gettimeofday', '-Wl,--wrap=time']
TOOL = ['-include', V_LIB + '/toolsec.h', '-Dmain=tool_main']
check('T01', harness='t01.cc', groups=D, link=TOOL_LINK, repo_sources=[('src/dnstable_lookup.c', TOOL)], assumptions=['the tool\'s main() runs inside the checker with its variables reset before each run; exit(), the clock and the standard streams are replaced'],
      bounds={'quick': '48 commands x 3 kinds of source x 6 formats x 3 levels of statistics x 6 offsets x case x 2 orders of arguments x 5 fences; 6 commands x all combinations of four fences from 5 values, strict or not; all 512 sets of 9 flags x 7 commands x 7 environments; every sequence of <=4 of 15 command words; refused options; 18 years x 5 months x 6 days x 8 times in four forms; relative times of <=2 parts; 25 numbers; 34 malformed times; 6 limits x 5 intervals x 7 rates of time; six large databases (up to 66000 records, data of 140000 digits, results of 196 KB) x 21 commands x 6 formats x 4 offsets',
              'thorough': 'also 4 orders of arguments and clustered options, single strict fences, fences from 9 values, 5 command words, relative times of 3 parts'})
check('T02', harness='t02.cc', groups=D, link=TOOL_LINK, repo_sources=[('src/dnstable_dump.c', TOOL), ('libmy/argv.c', ['-include', V_LIB + '/toolsec.h'])], assumptions=['as T01'],
      bounds={'quick': 'every sequence of <=4 of 30 arguments; every subset of 13 entries x 7 sections x 3 formats; five large databases x 7 sections x 3 formats', 'thorough': '<=5 arguments; subsets of 17 entries'})
check('T03', harness='t03.cc', san=[], kind='fault',
      bounds={'quick': 'every argument vector of <=3 of 17 words (spaces, patterns, quotes, newlines, empty, option-like) x 2 exit statuses of mtbl_merge x variables preset or not',
              'thorough': '<=4 words'})
C01_WRAPS = SCHED_LINK + ['-Wl,--wrap=' + f for f in ('gmtime', 'localtime', 'ctime', 'asctime', 'strerror', 'inet_ntoa', 'mktime', 'getenv', 'strtok', 'pthread_once', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_unlock',
    *'wdns_domain_to_str wdns_reverse_name wdns_rdata_to_str wdns_len_uname wdns_str_to_name wdns_str_to_name_case wdns_str_to_rrtype wdns_rrtype_to_str wdns_downcase_name strtok_r strftime gmtime_r localtime_r inet_pton inet_ntop strtol strtoul strtoull snprintf memcmp strcmp strcasecmp strdup'.split())]
check('C01', harness='c01.cc', budget={'quick': 240}, san=[], kind='sched', groups=['dnstable-sched'], link=C01_WRAPS,
      assumptions=['threads are fibers; switches happen at calls and returns of dnstable functions, before calls of libwdns and of string and time functions of libc, at accesses to dnstable\'s variables with static storage and to the shared reader object, at lock and atomic operations, and after libc functions with hidden static storage, not at accesses to objects which only one thread can reach'],
      states_are='distinct (thread programs, schedule) pairs', transitions_are='scheduling steps of the real code',
      bounds={'quick': 'all ordered pairs of 13 thread programs in two shapes each (every kind of lookup, refusals, listings, decoding, rendering, merging, filtering), each preempted once at any call or return; twice at accesses to shared memory; three threads with two of one kind; half of the combinations of shapes',
              'thorough': 'three preemptions at accesses to shared memory; all triples; all combinations of shapes'})
NOT_APPLICABLE = {}
