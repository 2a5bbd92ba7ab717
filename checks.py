"""Per property: the harnesses, case counts and what a case is."""
CHECKS = {}
HEAVY = 'S05 C03 C06 C07 C08 F04 N02 T01 M01 M02 X01 P01 V01 F02'.split()  # more than 10 s at three times the case count given below


def check(prop, rule, quick, thorough, harness=None, memcheck=None, legs=(), level='exploration', technique='', note='', **kw):
    l = [dict(harness=harness or prop, quick=quick * (3 if prop in HEAVY else 7), thorough=thorough, **kw)]
    if memcheck:
        l.append(dict(harness=harness or prop, variant='plain', name='memcheck', quick=memcheck[0], thorough=memcheck[1], shards=4, probes=False, **kw))
    l += list(legs)
    CHECKS[prop] = dict(legs=l, rule=rule, level=level, technique=technique, note=note)


RT = 'runtime monitoring: '
check('S01', 'random edit histories on two strings, compared with an ideal string after every edit; signature = operation kinds and length classes; non-trivial = a history with at least one operation',
      12000, 300000, memcheck=(120, 2000), technique=RT + 'reference-model oracle over random edit histories under ASan/UBSan and memcheck')
check('S02', 'random operation histories on a buffer, compared with an ideal byte sequence after every operation; signature = operation kinds, length classes and whether the capacity is exactly used',
      12000, 300000, memcheck=(120, 2000), technique=RT + 'reference-model oracle over random operation histories under ASan/UBSan and memcheck')
check('S03', 'random byte sequences (every length up to 200 first) encoded and decoded with every output size around the need, plus corrupted texts; signature = length class and corruption kinds with their verdicts',
      12000, 300000, memcheck=(60, 600), technique=RT + 'independent codec oracle with exact-size heap buffers under ASan/UBSan and memcheck')
check('S04', 'decimal texts biased to the limits of every type, with a leftover errno chosen at random before each call; signature = text length, range classes and low bits of the values',
      30000, 1000000, technique=RT + 'exact big-number oracle over boundary-biased texts under ASan/UBSan')
check('S05', 'random texts, delimiter sets and rooms for every text helper; signature = token counts, verdicts, size relations and blank placement',
      20000, 500000, memcheck=(150, 2000), technique=RT + 'naive re-implementations as oracle, exact-size heap buffers under ASan/UBSan and memcheck')
check('C01', 'random edit histories on a list of few or many distinct items (duplicates and null items included), compared with an ideal sequence; signature = operation kinds and list size class',
      8000, 400000, memcheck=(120, 2000), technique=RT + 'ideal-sequence oracle over random edit histories under ASan/UBSan and memcheck')
check('C02', 'random store/read/resize histories on an array of each of the 20 element types in turn; signature = type, initial size and operation classes',
      6000, 200000, memcheck=(80, 1000), technique=RT + 'sparse-array oracle over random histories for every element type under ASan/UBSan and memcheck')
check('C03', 'random push/delete/balance/search histories on a tree of each key type, value type and insertion mode in turn, with library or caller release functions; signature = configuration, operation kinds and tree size classes',
      8000, 250000, memcheck=(100, 1500), technique=RT + 'ordered-multimap oracle, subtree-count shape checker and release monitor under ASan/UBSan and memcheck')
check('C04', 'random push/remove/peek histories on a queue of 2 to 300 items with equal, monotone, extreme or random priorities; signature = capacity, priority style and full/empty transitions',
      12000, 500000, memcheck=(100, 2000), technique=RT + 'ideal-bag oracle over random histories under ASan/UBSan and memcheck')
check('C05', 'random write/read/direct-read/clear histories on ring buffers of both backings and contiguity modes; signature = mode, size and partial-transfer classes',
      8000, 300000, memcheck=(100, 2000), technique=RT + 'byte-queue oracle with exact-size caller buffers under ASan/UBSan and memcheck')
check('C06', 'random put/get/delete/clear histories on chained and open-addressed maps of every key and value type, 8 hash functions from constant to strong, across growth; signature = configuration and outcome sequence',
      10000, 300000, memcheck=(100, 1500), technique=RT + 'ideal-map oracle with full enumeration over random histories under ASan/UBSan and memcheck')
check('C07', 'random histories on owning and non-owning maps with library copies, key/value release functions or an object release function, with and without policies; signature = configuration and outcome sequence',
      10000, 300000, memcheck=(100, 1500), technique=RT + 'release monitor (exact multiset of releases after every operation) and allocator balance under ASan/UBSan and memcheck')
check('C08', 'random put/get/overwrite/delete/clear histories on maps of 1 to 100 entries under each discard policy; every eviction is compared with the whole recorded history; signature = configuration and outcome sequence',
      10000, 300000, memcheck=(100, 1500), technique=RT + 'online history checker of eviction choices under ASan/UBSan and memcheck')
check('L01', 'random advance/skip/eat/expect/mark/match/error histories on two lexers over texts of up to 600 characters, compared with an ideal cursor after every call; signature = text length class and operation sequence',
      10000, 300000, memcheck=(100, 1500), technique=RT + 'ideal-cursor oracle over random histories, exact-size buffers, under ASan/UBSan and memcheck')
check('J01', 'generated JSON texts, mutated ones, fragment soups and nesting ladders, each judged by an independent reader; signature = verdict, length class and the sequence of character classes (runs collapsed)',
      30000, 1000000, memcheck=(200, 2500), technique=RT + 'independent JSON reader as oracle for decode and validate under ASan/UBSan and memcheck')
check('J02', 'random trees built by hand or decoded, encoded, decoded and encoded again, and every inner container encoded alone; signature = number of nodes, height and text length',
      10000, 300000, memcheck=(100, 1500), technique=RT + 'round-trip oracle with an independent reader under ASan/UBSan and memcheck')
check('J03', 'random add/remove/checked-set/walk/iterate histories on trees; signature = operation kinds and node types',
      6000, 200000, memcheck=(80, 1000), technique=RT + 'ideal-tree oracle over random edit histories under ASan/UBSan and memcheck')
check('J04', 'random trees through rounds of index, look up every path (absolute, relative and absent), set, unindex, edit; signature = tree shape and verdicts',
      5000, 150000, memcheck=(60, 800), technique=RT + 'path-map oracle over index/edit histories under ASan/UBSan and memcheck')
check('N01', 'exact reads and writes through scripted transfer functions and through the real calls on pipes, sockets and files whose transfers are shortened, interrupted or failed at the kernel boundary; signature = direction, sizes, calls and how it ended',
      12000, 400000, memcheck=(150, 2000), technique=RT + 'system-call trace oracle with injected short transfers, EINTR and errors (seccomp trap), under ASan/UBSan and memcheck')
check('I01', 'one file operation on random contents, over plain, shortened and failing system calls (each of its calls failed in turn); signature = operation, failing call, error, verdict and size class',
      4000, 100000, memcheck=(100, 1500), technique=RT + 'file-content oracle with system-call fault enumeration (seccomp trap) and descriptor/trace monitors, under ASan/UBSan and memcheck')
check('F01', 'generated configuration texts (a third of them mutated), through five loaders with and without overwriting, judged by an independent reader; signature = verdict, number of nodes, depth and length class',
      6000, 200000, memcheck=(80, 1000), technique=RT + 'independent reader as oracle over generated and mutated texts, under ASan/UBSan and memcheck')
check('F02', 'trees built through the API or loaded from generated texts, saved to buffers of every critical size and to streams, whole and by section, and loaded back; signature = number of nodes and text length class',
      5000, 150000, memcheck=(80, 1000), technique=RT + 'round-trip oracle (save, load, compare) with exact-size buffers and unwritable streams, under ASan/UBSan and memcheck')
check('F03', 'random add/set/delete/lookup/sort/walk/load histories on configuration trees, the whole tree compared after every operation; signature = operation kinds, verdicts and tree size classes',
      6000, 200000, memcheck=(80, 1000), technique=RT + 'ideal-tree oracle over random edit and lookup histories, under ASan/UBSan and memcheck')
check('F04', 'include graphs of up to 5 files or driver sources (with cycles, aliases, optional and missing parts, failing callbacks and failing system calls), arbitrary bytes, deep and huge texts; signature = verdict, files opened, tree size and fault',
      8000, 250000, memcheck=(80, 1000), technique=RT + 'include-graph oracle with open/close monitor, system-call fault enumeration (seccomp trap), descriptor and allocator balance, under ASan/UBSan and memcheck')
check('U01', 'generated URIs (half of them mutated), delimiter soups, every short text over the delimiters, every character at every place, every component length, each judged by an independent reading of RFC 3986; signature = verdict, components present and length classes',
      150000, 1500000, memcheck=(400, 4000), technique=RT + 'independent RFC 3986 reader as oracle over generated, mutated and enumerated texts, under ASan/UBSan and memcheck')
check('U02', 'URIs composed from random parts set in random order (by authority, by parts, by user and password) and split again; URIs split, composed, edited and composed again; signature = way of composing, components present and length classes',
      150000, 1500000, memcheck=(400, 4000), technique=RT + 'round-trip oracle in both directions with exact-size buffers, under ASan/UBSan and memcheck')
check('P01', 'generated password files (good, malformed, over-long, commented, binary and random lines) read by file scan and snapshot, from files and callbacks, plain and hashed; hundreds of right and wrong credentials each; signature = configuration, number of records and size class',
      4000, 120000, memcheck=(60, 800), technique=RT + 'independent reader as oracle for every authentication and record, descriptor/source-open monitors, under ASan/UBSan and memcheck')
check('P02', 'histories of changes, lookups, failed opens, failed reads, failed allocations and held records on in-memory snapshots; signature = operation kinds',
      9000, 250000, memcheck=(100, 1200), technique=RT + 'snapshot-content oracle with fault injection at callbacks, allocator and system calls (seccomp trap), held-record and open/close monitors, under ASan/UBSan and memcheck')
check('N02', 'passive and active sockets of every kind opened, connected and accepted on loopback and local sockets with interruptions injected, each call failed in turn, connects on the caller\'s own descriptors with time limits, refusals and full listeners; signature = kind, options, fault and number of interruptions',
      8000, 150000, memcheck=(60, 600), technique=RT + 'kernel-boundary fault injection and signal storms (seccomp trap) with descriptor, mode, option and peer monitors on real sockets, under ASan/UBSan and memcheck')
check('N03', 'generated address URIs (every scheme, literal, wildcard and named hosts and ports, a third of them wrong) opened against a recording stand-in for the socket calls, and socket addresses printed into every room; signature = family, type, verdict, port, host and options',
      40000, 800000, memcheck=(150, 1500), ldflags=['-Wl,--wrap=getaddrinfo', '-Wl,--wrap=freeaddrinfo'], technique=RT + 'system-call recorder (seccomp trap) and independent address reader as oracle, release monitor, under ASan/UBSan and memcheck')
check('E01', 'generated shell files (exports, plain variables, arithmetic, conditions, includes, noise on both outputs, long and multi-line values, odd file names, failing files) evaluated by the real shell over a random environment; signature = number of variables, verdict, prefix and text length',
      6000, 120000, memcheck=(16, 160), technique=RT + 'whole-environment oracle (the generator knows what the file exports) with descriptor, child and allocator monitors, under ASan/UBSan and memcheck')
WRAPLOG = ['-Wl,--wrap=' + f for f in ('syslog', 'vsyslog', '__syslog_chk', '__vsyslog_chk')]
check('G01', 'random log calls (levels, facilities, flags, errors, lengths around the limits, plain and nested) to hooks and to a recorded syslog, with and without lock callbacks; level macros, error texts, console; 2-5 threads logging while hooks are swapped; signature = level, facility, flags, error, length class and outcome, or thread interleavings',
      20000, 500000, memcheck=(100, 1200), ldflags=WRAPLOG, legs=[dict(harness='G01', variant='tsan', name='tsan', quick=320, thorough=6000, probes=False, ldflags=WRAPLOG)],
      technique=RT + 'recorded sink and lock-callback trace checked per call, exactly-once checker over recorded thread logs, under ASan/UBSan, ThreadSanitizer and memcheck')
check('G02', 'every flow-control macro of every family in turn, with true and false conditions and random errors, in debug and non-debug builds; signature = macro, outcome, error and condition value',
      8000, 200000, memcheck=(200, 2000), legs=[dict(harness='G02', name='debug', quick=8000, thorough=200000, cflags=['-DDEBUG'])],
      technique=RT + 'control-flow, evaluation-count, message and errno monitors over every macro, under ASan/UBSan and memcheck')
WRAPPROC = ['-Wl,--wrap=' + f for f in ('fork', 'wait', 'wait3', 'wait4', 'waitpid', 'kill', 'time')]
check('T01', 'random dependency graphs of suites and cases (acyclic ones in any registration order, with repeated declarations, and some with cycles or unknown names) whose cases succeed, fail, crash, get killed or return odd values, run sandboxed or serially under every limit, with failing forks, interrupted waits and interrupts; signature = shape, verdicts and order of starts',
      3000, 60000, memcheck=(16, 160), ldflags=WRAPPROC, technique=RT + 'case start/end trace in shared memory, counted forks and waits, and reports read back, against a dependency-graph model, under ASan/UBSan and memcheck')
check('M01', 'two equal worlds of every module (strings, buffers, lists, arrays, trees, queues, maps, JSON, configuration, URIs, addresses, password files, test suites, environment): each operation first runs undisturbed in one, then in the other with every one of its allocations failing in turn, once or from there on, and is then retried; signature = module, operations, allocations per operation and verdicts',
      12000, 300000, memcheck=(150, 2000), technique=RT + 'exhaustive injection of allocation failures per operation, twin-world state oracle, allocator and descriptor balance, under ASan/UBSan and memcheck')
WRAPMEM = ['-Wl,--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'reallocarray', 'free', 'strdup', '__strdup', 'strndup', '__strndup', 'vasprintf', 'asprintf', '__vasprintf_chk', '__asprintf_chk', 'getdelim', '__getdelim', 'getline')]
check('M02', 'one mixed history of up to 12 live objects of all modules, with blocks crossing between them, run under four installed allocators in random order (each switched to while nothing is live); signature = kinds of objects made and size of the results',
      16000, 300000, memcheck=(60, 800), ldflags=WRAPMEM, technique=RT + 'installed allocators with block identity, header and balance monitors, link-time interposition of the C library allocator, results compared across allocators, under ASan/UBSan and memcheck')
check('R01', 'every portability replacement compiled under its own name and run next to an ideal: token splitting, bounded copies, shell patterns built from their own structure, broken-down times under many time zones, temporary files, log lines, daemons with failing forks; signature = function, arguments and verdict',
      12000, 400000, memcheck=(80, 1200), technique=RT + 'ideal matcher and the platform\'s own functions as oracle, exact-size heap buffers, environment, file-system and process monitors under ASan/UBSan and memcheck')
check('Q01', 'random insert/remove/replace histories over two queues of each kind sharing up to 14 items, with walks that take items out; signature = kind, operation, size and place',
      20000, 400000, memcheck=(200, 3000), technique=RT + 'ideal-sequence oracle walked in every direction after every operation, released items poisoned, under ASan/UBSan and memcheck')
check('D01', 'random JSON trees, URIs, configurations and hash maps printed or dumped, the output captured and compared with an ideal listing, in builds with and without debugging; signature = kind of object, configuration and output',
      6000, 200000, memcheck=(120, 1500), legs=[dict(harness='D01', name='debug', quick=6000, thorough=200000, libflags=['-DDEBUG'], cflags=['-DLIB_DEBUG'])],
      technique=RT + 'captured output and debug log checked against the ideal contents, allocator balance, under ASan/UBSan and memcheck')
check('W01', 'random waits under random interruptions on a virtual clock, random time differences, and every clean-up macro with and without something to clean; signature = kind, length and interruptions',
      20000, 500000, memcheck=(120, 1500), technique=RT + 'trapped sleeping system calls driven by a virtual clock, exact time oracle, descriptor and allocator balance, under ASan/UBSan and memcheck')
WRAPIN = ['-Wl,--wrap=' + f for f in ('strcmp', 'strcasecmp', 'strncmp', 'strchr', 'strlen', 'read', 'write', 'fgets', 'vsnprintf', 'snprintf', 'strtol', 'open')]
check('X01', 'scripts on 2 to 6 objects (of all modules, often all of one kind) run alone, step by step in turn, inside one another (at allocations, C library calls and callbacks), and each in its own thread; signature = kinds of objects and sizes of their results',
      2400, 60000, memcheck=(16, 200), ldflags=WRAPIN, legs=[dict(harness='X01', variant='tsan', name='tsan', quick=400, thorough=10000, probes=False, ldflags=WRAPIN)],
      technique=RT + 'transcripts of the same scripts compared alone, interleaved and concurrent, under ASan/UBSan, ThreadSanitizer and memcheck')
check('V01', 'calls with a missing object, a missing argument or an argument out of range, of every module that checks for them, between ordinary calls on a set of live objects of every kind; signature = the calls made',
      6000, 150000, memcheck=(60, 800), legs=[dict(harness='V01', name='debug', quick=3000, thorough=60000, libflags=['-DDEBUG'], cflags=['-DLIB_DEBUG'])], technique=RT + 'whole-world snapshot compared around every refused call, result arguments and allocator balance watched, under ASan/UBSan and memcheck')
