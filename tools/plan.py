"""What each check compiles and runs: configurations with their number of quick cases, and texts for the evidence."""
# The library forces inlining everywhere (inline __attribute__((always_inline))), which makes sanitized and C++11 builds
# take minutes; NOINL turns the attribute into a harmless one.  g20o keeps the forced inlining.
NOINL = ["-Dalways_inline=unused"]
SAN = NOINL + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CONFIGS = {
    "g20": ["g++", "-std=c++20", "-O1"] + SAN,
    "g11": ["g++", "-std=c++11", "-O1"] + SAN,
    "g14": ["g++", "-std=c++14", "-O1"] + SAN,
    "c17": ["clang++", "-std=c++17", "-O1"] + SAN,
    "c20": ["clang++", "-std=c++20", "-O1"] + SAN,
    "g20o": ["g++", "-std=c++20", "-O2", "-DNDEBUG"],
    "g20p": ["g++", "-std=c++20", "-O2", "-DNDEBUG"] + NOINL,
    "c11o": ["clang++", "-std=c++11", "-O2", "-DNDEBUG"] + NOINL,
    "ne23": ["g++", "-std=c++23", "-O1", "-fno-exceptions", "-DIPADDRESS_NO_EXCEPTIONS"] + SAN,
    "s0": ["g++", "-std=c++20", "-O1", "-DIPADDRESS_NO_IPV6_SCOPE"] + SAN,
    "s3": ["g++", "-std=c++17", "-O1", "-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=3"] + SAN,
    "s64": ["g++", "-std=c++20", "-O1", "-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=64"] + SAN,
    "u8": ["g++", "-std=c++20", "-O1", "-DIPADDRESS_CHAR_IS_UTF8", "-DIPADDRESS_SCOPE_ID_SUPPORT_SPACES"] + SAN,
    "nosp": ["g++", "-std=c++20", "-O1", "-DIPADDRESS_NO_SPACESHIP_OPERATOR", "-DIPADDRESS_NO_OVERLOAD_STD"] + SAN,
    "be11": ["g++", "-std=c++11", "-O1", "-DIPADDRESS_ENDIAN=1", "-DNC_FLIPPED_ORDER"] + SAN,
    "uc17": ["g++", "-std=c++17", "-O1", "-funsigned-char"] + SAN,  # plain char is unsigned, as on ARM
    "mod20": ["clang++", "-std=c++20", "-O1"] + NOINL,  # the module interface unit; see compile_one
    # for P32: ThreadSanitizer
    "tsan20": ["clang++", "-std=c++20", "-O1", "-g1", "-pthread", "-fsanitize=thread"] + NOINL,
    "tsan11": ["clang++", "-std=c++11", "-O1", "-g1", "-pthread", "-fsanitize=thread"] + NOINL,
    # for P28: debug-mode standard library; float casts; uninitialised values under valgrind
    "dbg17": ["g++", "-std=c++17", "-O1", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS"] + SAN,
    "cfl20": ["clang++", "-std=c++20", "-O1", "-fsanitize=float-cast-overflow,local-bounds"] + SAN,
    "vg20": ["g++", "-std=c++20", "-O1", "-g1"] + NOINL,
    "vg11": ["clang++", "-std=c++11", "-O1", "-g1"] + NOINL,
}
PLAN = {}


def plan(pid, rule, configs, **kw):
    PLAN[pid] = dict(rule=rule, configs=configs, **kw)
TEXTS = {"g20": 30000, "c17": 30000, "g11": 25000, "g20o": 150000, "ne23": 20000, "s0": 15000, "s3": 15000, "u8": 20000}
plan("P01", "texts from a grammar, mutated valid texts, stray characters and over-long tails through every narrow entry point; non-trivial: accepted, or rejected with at least two dots and two digits",
     {k: TEXTS[k] for k in ("g20", "c17", "g11", "g20o", "ne23", "u8")}, fuzz_quick=60000, fuzz_thorough=8000000)
plan("P02", "texts from shapes (groups x '::' place x IPv4 tail x scope), token sequences, mutated valid texts, over-long tails; non-trivial: accepted, or rejected with at least two colons",
     {k: TEXTS[k] for k in ("g20", "c17", "g11", "g20o", "ne23", "s0", "s3", "u8")}, fuzz_quick=60000, fuzz_thorough=8000000)
plan("P04", "address texts x mask texts x strictness, mutated; non-trivial: accepted in some mode, or rejected with a slash and at least four characters",
     {k: TEXTS[k] // 3 for k in ("g20", "c17", "g11", "g20o", "ne23", "s0", "s3", "u8")}, fuzz_quick=30000, fuzz_thorough=5000000)
ALL8 = ("g20", "c17", "g11", "g20o", "ne23", "s0", "s3", "u8")
plan("P03", "scope texts (good, mutated, at the length limit, numerals around 2^32, arbitrary bytes) set, parsed and changed repeatedly; non-trivial: the scope text is non-empty",
     {k: TEXTS[k] for k in ALL8 + ("s64",) if k in TEXTS} | {"s64": 15000, "uc17": 8000})
plan("P05", "addresses from number shapes, zero-run patterns and registry edges x formats x character types; non-trivial: not the zero address",
     {k: TEXTS[k] // 2 for k in ("g20", "c17", "g11", "g20o", "s0", "s3", "u8")})
plan("P06", "networks from addresses x prefixes and registry edges x formats x character types; non-trivial: prefix strictly between 0 and the width",
     {k: TEXTS[k] // 4 for k in ("g20", "c17", "g11", "g20o", "s0", "u8")})
plan("P07", "numbers of each width and byte buffers of 0..24 bytes; non-trivial: value above 255",
     {"g20": 40000, "c17": 30000, "g11": 30000, "be11": 10000, "g20o": 200000, "c11o": 200000})
plan("P08", "pairs and triples of close values (one bit, one byte, scope id, version, prefix apart) under every operator, and sorting; non-trivial: not all equal",
     {"g20": 30000, "c17": 30000, "g11": 30000, "g20o": 200000, "c11o": 200000, "nosp": 20000, "s64": 15000, "s0": 10000})
plan("P09", "a value and families of variants differing in exactly one observable part (each byte, scope id, each scope character, prefix, version, byte order); container operation histories; non-trivial: family of more than four variants or a history",
     {"g20": 6000, "c17": 4000, "g11": 4000, "g20o": 25000, "c11o": 20000, "s64": 3000})
plan("P10", "addresses x prefixes (0..width and far beyond, wrapping values) x strictness, all-prefix ladders; non-trivial: built with a prefix strictly between 0 and the width",
     {"g20": 25000, "c17": 20000, "g11": 20000, "g20o": 100000, "ne23": 20000, "s0": 10000})
plan("P11", "network pairs related as ancestor, descendant, one bit off, adjacent, sharing an edge, and addresses at and around the range ends; non-trivial: no /0 involved",
     {"g20": 40000, "c17": 30000, "g11": 30000, "g20o": 200000, "c11o": 200000, "s0": 15000})
plan("P12", "networks of every prefix incl. registry edges and both ends of the address space x positions; whole sequences walked when small; non-trivial: more than one host",
     {"g20": 12000, "c17": 9000, "g11": 9000, "g20p": 60000, "s0": 5000, "c11o": 50000})
plan("P13", "networks x prefix differences and new prefixes (valid, wrong direction, beyond the width, far, both given); positions anywhere in the sequence; non-trivial: accepted with difference above 0",
     {"g20": 12000, "c17": 9000, "g11": 9000, "g20p": 60000, "ne23": 9000, "s0": 5000})
plan("P14", "networks x prefix differences and new prefixes (valid, wrong direction, below zero, far, both given), chains of steps; non-trivial: accepted with difference above 0",
     {"g20": 25000, "c17": 20000, "g11": 20000, "g20o": 120000, "ne23": 20000, "s0": 10000})
plan("P15", "network and sub-network pairs at every depth, equal, disjoint and enclosing ones; non-trivial: more than one network remains",
     {"g20": 8000, "c17": 6000, "g11": 6000, "g20p": 40000, "ne23": 6000, "s0": 4000})
plan("P16", "host and subnet sequences x pairs of positions near both ends, the middle and random; non-trivial: two different positions",
     {"g20": 15000, "c17": 12000, "g11": 12000, "g20p": 80000, "c11o": 80000, "nosp": 10000})
plan("P17", "addresses at, around and inside every registry block, embedded forms, scope ids; non-trivial: some predicate is true",
     {"g20": 40000, "c17": 30000, "g11": 30000, "g20o": 300000, "c11o": 300000, "s0": 15000})
plan("P18", "networks equal to, one level above or below, and beside every registry block, built in different ways; non-trivial: prefix strictly between 0 and the width",
     {"g20": 40000, "c17": 30000, "g11": 30000, "g20o": 200000, "c11o": 200000, "s0": 15000})
plan("P19", "addresses inside, just outside and bit-flipped from the mapped, 6to4 and Teredo blocks, with scope ids; non-trivial: at least one embedded form is present",
     {"g20": 40000, "c17": 30000, "g11": 30000, "g20o": 300000, "c11o": 300000, "s0": 15000})
plan("P20", "valid and invalid texts of every parser in each character type; ill-formed, truncated, overlong and non-ASCII code unit sequences placed anywhere; non-trivial: text accepted, or containing a non-ASCII code unit",
     {"g20": 15000, "c17": 12000, "g11": 12000, "g20p": 60000, "s0": 6000, "s3": 6000, "u8": 12000, "ne23": 8000, "uc17": 6000})
plan("P21", "single-defect and multi-defect texts, prefix requests, cross-version operations and scope ids through every form that can fail, with stale codes; non-trivial: the operation fails",
     {"g20": 15000, "c17": 12000, "g11": 12000, "g20p": 60000, "ne23": 12000, "s0": 6000, "s3": 6000, "u8": 6000})
plan("P22", "values of every type x stream flags x chains of insertions and extractions x damaged inputs, in four stream character types; non-trivial: more than one value or a damaged input",
     {"g20": 12000, "c17": 9000, "g11": 9000, "g20p": 50000, "ne23": 8000, "s0": 5000, "s3": 5000, "u8": 8000})
plan("P23", "the same operation on an agnostic value and on the versioned value it holds, for every operation, plus mixed-version calls and reassignment histories; non-trivial: the value is not zero",
     {"g20": 12000, "c17": 9000, "g11": 9000, "g20p": 50000, "ne23": 8000, "s0": 5000})
plan("P24", "pairs of 128-bit operands (bit-length biased, carry chains, near powers of two, equal halves, native integers of every type) under every operator, chains of compound operators; non-trivial: an operand above 2^64",
     {"g20": 30000, "c17": 20000, "g11": 20000, "g20o": 300000, "c11o": 300000, "nosp": 10000, "be11": 10000})
plan("P25", "128-bit values x bases x stream flags x character types, numerals valid, damaged and too large, floating-point values of every exponent; non-trivial: a value above 2^64 or a refused numeral",
     {"g20": 20000, "c17": 15000, "g11": 15000, "g20p": 150000, "c11o": 150000, "be11": 10000})
plan("P29", "histories of copies, moves, swaps, assignments, in-place changes, re-parses, failed operations and container shuffles over pools of every type and across types; non-trivial: more than three steps",
     {"g20": 9000, "c17": 7000, "g11": 7000, "g20p": 50000, "ne23": 6000, "s0": 4000, "s64": 4000})
plan("P30", "contents (zero bytes, high bytes, full capacity, one place apart) and operation histories of the three helper types at several sizes; non-trivial: non-empty contents or a history",
     {"g20": 15000, "c17": 12000, "g11": 12000, "g20p": 80000, "c11o": 80000, "u8": 8000, "nosp": 8000, "uc17": 6000})
plan("P31", "refused texts of ASCII, of other characters and of broken units, in every character type, around the place where quoting stops, with the defect in a chosen octet or part; refused scope ids, host bits, requests and fixed strings; non-trivial: an exception was raised",
     {"g20": 15000, "c17": 12000, "g11": 12000, "g20p": 60000, "s0": 5000, "s3": 5000, "u8": 8000, "uc17": 5000})
plan("P32", "two to four threads started together, each with its own sequence of generated operations on its own values, or reading shared values and sequences; non-trivial: two threads perform the same kind of operation, or read the same shared object",
     {"tsan20": 2500, "tsan11": 2000, "g20p": 12000, "c11o": 8000}, racy=True)
plan("P33", "values, texts, scope ids, requests and numbers of every kind; what needs no memory runs with none, what needs memory runs with every allocation failing in turn, alone and with all later ones; non-trivial: an allocation did fail, or a text of more than three characters or a proper network was worked on without memory",
     {"g20": 12000, "c17": 8000, "g11": 8000, "g20p": 40000, "c11o": 30000, "s0": 4000, "s3": 4000, "u8": 6000})
plan("P34", "two translation units linked together: seeds of every kind of operation run in both, and run before main; histories of manipulators, writes and reads on one stream with each step in either unit; values and exceptions of one unit observed in the other; non-trivial: both units take part, or something ran before main",
     {"g20": 12000, "c17": 10000, "g11": 10000, "g20p": 60000, "c11o": 40000, "nosp": 5000, "u8": 6000, "s0": 5000})
plan("P28", "register-machine programs of up to 14 calls over the whole interface with hostile texts, code units, prefixes, differences, positions and buffers, and one text through every parser; non-trivial: more than two calls",
     {"g20": 9000, "c17": 7000, "g11": 7000, "ne23": 5000, "s0": 3000, "s3": 3000, "u8": 4000, "dbg17": 4000, "cfl20": 6000, "vg20": 400}, thorough_configs={"vg11": 400, "s64": 4000, "nosp": 4000},
     fuzz_quick=8000, fuzz_thorough=3000000)
plan("P27", "the same choice sequences in every configuration: texts in every character type, values, networks, sequences, 128-bit integers; non-trivial: neutral text of more than three characters, value above 255, proper network",
     {k: 24000 for k in ("g20", "g11", "g14", "c17", "c20", "g20o", "c11o", "ne23", "nosp", "be11", "s3", "s64", "u8", "uc17", "mod20")}, compare=True, digest_block=50, must_compile=True)
plan("P26", "constant tables compiled by two compilers in four standards against the same program run on opaque inputs; non-trivial: the operation produced more than three observed values (was not just refused), a source text of more than two characters",
     {}, script="p26")

# technique and level note per property, for MANIFEST.json
PBT = "property-based testing: generated cases against an independent reference model, under ASan/UBSan in several configurations, with shrinking"
FZ = PBT + "; plus coverage-guided fuzzing (libFuzzer) of the same oracle"
BASE = "Holds for every generated case (counts in the evidence file); not exhaustive. Trusts the reference model in harness/model.hpp and the compilers. "
NOTES = {
    "P01": (FZ, BASE + "The model splits the text at dots and checks each octet; every narrow entry point is compared with it."),
    "P02": (FZ, BASE + "The model splits at '::' and ':'; texts are built from shapes so that every '::' place, group count and IPv4 tail position occurs."),
    "P03": (PBT, BASE + "Scope ids are compared with a plain string model in builds with scope lengths 0, 3, 16 and 64."),
    "P04": (FZ, BASE + "The model splits at '/'; masks are enumerated, not computed the library's way."),
    "P05": (PBT, BASE + "RFC 5952 text is produced by an independent formatter and parsed back in all character types."),
    "P06": (PBT, BASE + "Independent formatter, strict and non-strict parse back, all prefixes of generated addresses."),
    "P07": (PBT, BASE + "Values are compared with shift-based byte/integer conversions; byte buffers of every length 0..24."),
    "P08": (PBT, BASE + "Every operator of close pairs and triples against a model comparison; sorting; both with and without operator<=>."),
    "P09": (PBT, BASE + "Hash difference is judged on families of one-part variants with a tolerance for chance collisions; container histories run against a std::map model keyed by model values."),
    "P10": (PBT, BASE + "128-bit mask arithmetic in the model; all prefixes of generated addresses and far out-of-range prefixes."),
    "P11": (PBT, BASE + "Interval arithmetic in the model; related pairs are generated on purpose."),
    "P12": (PBT, BASE + "The model gives element i in closed form; small sequences are walked completely, large ones at both ends and at random positions."),
    "P13": (PBT, BASE + "As P12, for the tiles of a network; errors by kind of request."),
    "P14": (PBT, BASE + "Closed-form model; steps taken at once and one at a time; every subnet's supernet."),
    "P15": (PBT, BASE + "Disjointness, exact cover and minimality are checked by interval arithmetic on the enumerated networks."),
    "P16": (PBT, BASE + "The algebraic iterator laws are evaluated at generated position pairs, signed distances where they fit int64."),
    "P17": (PBT, BASE + "The registry table in harness/registry.hpp was written from the RFC/IANA ranges the documentation names; block edges are generated on purpose."),
    "P18": (PBT, BASE + "Range rules over the same registry table, for networks around every block."),
    "P19": (PBT, BASE + "Bit-level model of the embedded forms."),
    "P20": (PBT, BASE + "Differential: every character type against the narrow parser; ill-formed sequences are produced by an independent encoder."),
    "P21": (PBT, BASE + "Code form against throwing form against a table of documented codes for single-defect inputs."),
    "P22": (PBT, BASE + "The expected stream contents come from the model formatter; extraction is compared with the parser model, including failbit and following tokens."),
    "P23": (PBT, BASE + "Differential: the agnostic types against the versioned ones, which other checks compare with the model."),
    "P24": (PBT, BASE + "Oracle: the compiler's unsigned __int128."),
    "P25": (PBT, BASE + "Oracle: digit-by-digit conversion of unsigned __int128 and exact integer/float conversion by mantissa scaling."),
    "P29": (PBT, BASE + "The model is a pool of plain (version, value, scope, prefix) records; after each step every object of the pool is compared with its record."),
    "P30": (PBT, BASE + "Differential against std::array, std::string and a presence flag with a value; hash difference on one-place families with a tolerance of one collision."),
    "P31": (PBT, BASE + "The quotation is rendered by an independent decoder; what surrounds it is taken from one known text per code, so rewording a message is not an alarm."),
    "P32": ("property-based testing: generated programs run by several threads at once against the same programs run alone, under ThreadSanitizer and under real parallelism", BASE + "ThreadSanitizer reports unordered accesses whatever the interleaving was, within the memory it remembers; the schedules of the unsanitized runs are the operating system's. Distinct objects, and read-only sharing; concurrent writes to one object are the caller's error."),
    "P33": ("property-based testing with fault injection: generated operations with no memory, or with every allocation failing in turn, against the same operation with memory", BASE + "The replaced operator new counts and fails; memory taken with malloc (by the exception machinery, say) is not failed. What the message of an exception says after a shortage is left open."),
    "P34": ("property-based metamorphic testing: generated operations and stream histories split over two separately compiled translation units, and repeated from static initialization, against one unit after main has begun", BASE + "Two units of one configuration in one executable; units compiled with different settings, and shared libraries, are not mixed. The operations run before main are fixed seeds, since nothing can be passed there."),
    "P28": (FZ + "; also under a debug-mode standard library and valgrind", BASE + "Oracle: sanitizers, valgrind, documented exception types, a CPU limit per case and well-formedness of every value produced. Indexing outside a sequence, dividing by zero and shifting by 128 or more are outside the documented preconditions."),
    "P27": ("property-based differential testing: the same generated choice sequences run in every configuration and their observations are compared, with shrinking of differences", BASE + "The reference configuration is g++ C++20; a fault common to all configurations is left to the other properties. IPADDRESS_NO_IPV6_SCOPE is compared with the model in the other checks instead. Big-endian is simulated with IPADDRESS_ENDIAN on a little-endian machine."),
    "P26": ("property-based differential testing: generated inputs and source texts are evaluated by the compilers as constant expressions and at run time on opaque inputs, with shrinking", BASE + "The constant evaluators of g++ and clang++ in C++14 to C++23 are one side, the compiled program the other; a fault common to both is left to the other properties. C++11 has no constexpr here. Refused texts are recognised by substitution failure."),
}
