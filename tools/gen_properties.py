#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
H = "include/ipaddress/"
def M(*a):  # name, where pairs
    return [{"name": n, "where": H + w} for n, w in a]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [H + f for f in files], "mechanism": mech, "hook_needed": None}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    assert len(title) <= 80, title
    P.append(d)

prop("P01", "IPv4 text is accepted exactly when well formed, and decoded exactly",
 "A text parses as an IPv4 address if and only if the whole of it is four dot-separated decimal octets of 1-3 digits, none above 255 and none with a leading zero (a lone 0 is fine). An accepted text yields exactly the four octets written, and a rejected one yields an error and never an address, however long the text is and whatever bytes it contains.",
 ["inputs"], "every character sequence of any length (including NUL and non-ASCII bytes), through every parsing entry point that takes narrow text: views/strings, character arrays, streams, and the version-agnostic class",
 "The suite parses a few dozen hand-written literals; the input space is all strings, and acceptance errors live in unusual lengths, embedded characters and digit patterns no sample covers.",
 ["base-v4.hpp", "ip-address-base.hpp", "unicode.hpp"],
 M(("octet state machine", "base-v4.hpp ip_from_string"), ("parse overloads", "ip-address-base.hpp parse")), ["parse result and error code"])

prop("P02", "IPv6 text is accepted exactly when well formed, and decoded exactly",
 "A text parses as an IPv6 address if and only if the whole of it matches the RFC 4291 text forms: eight hextets of 1-4 hex digits, at most one '::' standing for at least one zero hextet, an optional dotted IPv4 tail in place of the last two hextets, and an optional '%scope' suffix. An accepted text yields exactly the 16 bytes written; a rejected one yields an error and never an address.",
 ["inputs"], "every character sequence, including '::' at every position, every part count, IPv4 tails at every position, mixed case, embedded NULs and over-long input",
 "Tests enumerate some shapes of '::' and part counts; the combinations of compression position, part count, IPv4 tail and scope are far more than the sampled ones.",
 ["base-v6.hpp", "ip-address-base.hpp"],
 M(("scope split", "base-v6.hpp split_scope_id"), ("part split", "base-v6.hpp split_parts"), ("compression bounds", "base-v6.hpp get_parts_bound"), ("hextet decoding", "base-v6.hpp parse_part")))

prop("P03", "IPv6 scope ids are validated, preserved, and significant",
 "A scope id is accepted exactly when it is non-empty in text, no longer than the configured maximum, and free of '%', '/' and (unless configured otherwise) whitespace; once accepted it is reported back unchanged and appears in every textual form. Setting a scope id replaces the old one completely and a refused one leaves the address unchanged; the numeric view of a scope id exists exactly when the text is a decimal number that fits in 32 bits and equals it.",
 ["inputs", "configurations", "histories"], "every scope text, on parsed and constructed addresses, under every configured maximum scope length (0 to 64) and sequence of scope changes",
 "The suite uses one configuration and a handful of scope ids; boundaries depend on the configured length, on embedded characters and on numeric overflow.",
 ["ipv6-address.hpp", "base-v6.hpp", "config.hpp"],
 M(("scope assignment", "ipv6-address.hpp ipv6_set_scope"), ("numeric view", "ipv6-address.hpp scope"), ("scope split", "base-v6.hpp split_scope_id")))

prop("P04", "Network text is accepted exactly when address, mask and strictness agree",
 "A network text is accepted if and only if the part before the only '/' is a valid address text in full, the part after it (if any) is a valid prefix length or, for IPv4, a contiguous netmask or hostmask, and in strict mode no host bit is set; without '/', it denotes a single address. The result's prefix is the one written, its address is the written one with host bits cleared (non-strict) or unchanged (strict), and no character of the text is ignored.",
 ["inputs"], "every character sequence in both strict and non-strict mode, for IPv4, IPv6 and version-agnostic networks; mask numbers of any magnitude and dotted masks of any pattern",
 "Tests list some dozens of network literals; ignored trailing characters, overflowing mask numbers and unusual masks only show on inputs nobody wrote down.",
 ["ip-network-base.hpp", "base-v4.hpp", "base-v6.hpp"],
 M(("address/prefix split", "ip-network-base.hpp parse_address_with_prefix"), ("mask parsing", "base-v4.hpp parse_netmask"), ("mask parsing", "base-v6.hpp parse_netmask"), ("host bit policy", "base-v4.hpp strict_netmask")))

prop("P05", "Addresses print canonically in each format and parse back to themselves",
 "For every address the compressed form is the canonical RFC 5952 text (leftmost longest zero run of two or more hextets, lower case, no leading zeros), the compact form omits only leading zeros, the full form writes all digits, and IPv4 is plain dotted decimal; each of them, in every character type, parses back to an equal address. The reverse pointer lists the octets or nibbles in reverse order under the proper suffix.",
 ["inputs"], "all 2^32 IPv4 addresses and all 2^128 IPv6 addresses with and without scope ids, each output format and character type",
 "Zero-run position and length combinations (256 zero patterns times values) and full byte ranges are only sampled by the suite.",
 ["base-v6.hpp", "base-v4.hpp", "ip-address-base.hpp", "unicode.hpp"],
 M(("formatting", "base-v6.hpp ip_to_chars"), ("formatting", "base-v4.hpp ip_to_chars"), ("reverse pointer", "base-v6.hpp ip_reverse_pointer")))

prop("P06", "Networks print as address/prefix and parse back to themselves",
 "For every network and every output format and character type, the text is the network address in that format followed by '/' and the decimal prefix length, and parsing that text strictly yields an equal network with the same hash and prefix.",
 ["inputs"], "all networks of both versions (including /0, /32, /128 and scoped networks), three formats, all character types, standard to_string and string conversions",
 "A round trip must hold for every address and prefix pair; the tests hold a fixed list.",
 ["ip-network-base.hpp", "ip-any-network.hpp"],
 M(("network formatting", "ip-network-base.hpp to_string"), ("network parsing", "ip-network-base.hpp parse")))

prop("P07", "Bytes, integers and addresses convert losslessly in network order",
 "Converting an address to its bytes or to an unsigned integer and back yields an equal address, the first byte is the most significant in both representations, and the integer order equals the byte order. Building from a byte buffer uses at most the address size and zero-fills what a shorter buffer does not supply.",
 ["inputs", "configurations"], "every address value of both versions, every byte buffer length, and both byte-order configurations of the host",
 "Tests check a few values on one byte order; a wrong shift for one byte position or a narrowing on one half needs values with those bits set.",
 ["ipv4-address.hpp", "ipv6-address.hpp", "endian.hpp", "ip-address-base.hpp", "ip-any-address.hpp"],
 M(("integer conversion", "base-v4.hpp ip_from_uint32/ip_to_uint32"), ("integer conversion", "ipv6-address.hpp from_uint/to_uint")))

prop("P08", "Addresses and networks have a strict total order consistent with value",
 "Every comparison of two addresses or networks agrees with one total order: version first (IPv4 before IPv6), then numeric address value, then scope id text, then (for networks) prefix length. Exactly one of less, equal and greater holds for any pair, all six operators agree with it, it is transitive, and it is the same in every language-standard configuration.",
 ["inputs", "configurations"], "all pairs and triples of addresses, scoped addresses, networks and version-agnostic values, with and without three-way comparison",
 "Trichotomy and transitivity quantify over triples; the suite compares hand-picked pairs, mostly without scopes, and only where they already differ in value.",
 ["ipv6-address.hpp", "ipv4-address.hpp", "ip-network-base.hpp", "ip-any-address.hpp", "ip-any-network.hpp", "byte-array.hpp"],
 M(("ordering", "ipv6-address.hpp less/compare"), ("ordering", "ip-network-base.hpp operator<"), ("byte ordering", "byte-array.hpp")))

prop("P09", "Equality, hashing and associative containers agree",
 "Two values are equal exactly when all of their observable parts (version, address value, scope id, prefix length) are equal, equal values have equal hashes, and values that differ in any one observable part hash differently except for rare chance collisions. Consequently ordered and unordered containers keyed by addresses or networks hold exactly one entry per distinct value, whatever the order of insertions and removals.",
 ["inputs", "histories"], "all pairs of values and all insertion/removal histories of sets and maps keyed by them",
 "The suite checks container use with a handful of elements; agreement of hash, equality and order is a relation over all pairs, and a hash dropping a byte or the scope shows only on chosen pairs.",
 ["hash.hpp", "ipv4-address.hpp", "ipv6-address.hpp", "ip-network-base.hpp", "fixed-string.hpp"],
 M(("hash mixing", "hash.hpp calc_hash"), ("equality", "ipv6-address.hpp equals"), ("network hash", "ip-network-base.hpp hash")))

prop("P10", "Network attributes are exactly the CIDR arithmetic of address and prefix",
 "For every network built from an address and a prefix length, the netmask has exactly that many leading ones, the hostmask is its complement, the first and last addresses are the address with host bits all clear and all set, and the address count is 2^(bits-prefix) in the count type. Building strictly fails exactly when a host bit is set, building non-strictly clears them, and a prefix beyond the address width is always refused.",
 ["inputs"], "every address, every prefix length value (including out of range ones) and both strictness modes, both versions and the version-agnostic class",
 "Each attribute must hold for each of 33 and 129 prefixes times all addresses; tests fix a few and never pass an out-of-range prefix.",
 ["ip-network-base.hpp", "base-v4.hpp", "base-v6.hpp"],
 M(("mask from prefix", "base-v4.hpp ip_from_prefix"), ("mask from prefix", "base-v6.hpp ip_from_prefix"), ("construction", "ip-network-base.hpp from_address"), ("attributes", "ip-network-base.hpp broadcast_address/hostmask/addresses_count")))

prop("P11", "Containment and overlap agree with the address ranges",
 "A network contains an address exactly when the address lies between its first and last address (scope ids ignored, versions must match); two networks overlap exactly when their ranges intersect; one (without scope id) is a subnet of another exactly when its range lies within the other's, and supernet is the converse relation.",
 ["inputs"], "all pairs (network, address) and (network, network), including neighbours one below and one above each boundary, nested and disjoint pairs, and mixed versions",
 "Relations over pairs of all networks; off-by-one prefixes and byte-boundary mistakes need pairs that differ in one specific bit.",
 ["ip-network-base.hpp", "ip-any-network.hpp"],
 M(("containment", "ip-network-base.hpp contains"), ("overlap", "ip-network-base.hpp overlaps"), ("subnet relation", "ip-network-base.hpp is_subnet_of")))

prop("P12", "Host enumeration yields exactly the usable addresses, in order",
 "The hosts of a network are, in ascending order and each once, all its addresses except the first and last for IPv4 and except the first for IPv6, with both addresses for a two-address network and the one address for a single-address network. Size, emptiness, indexing, first, last, forward and backward iteration all describe this same sequence, including for networks at the very top and bottom of the address space.",
 ["inputs"], "all networks of both versions and the version-agnostic class, all indexes, traversal from both ends, including ranges ending at the all-ones address",
 "The suite iterates small networks in mid space; enumeration at the end of the address space and for huge networks cannot be reached by sampling typical literals.",
 ["ip-address-iterator.hpp", "ip-network-base.hpp", "ip-any-iterator.hpp"],
 M(("sequence bounds", "ip-address-iterator.hpp hosts_sequence"), ("iteration", "ip-address-iterator.hpp ip_address_iterator"), ("reverse iteration", "ip-address-iterator.hpp ip_reverse_iterator")))

prop("P13", "Subnetting partitions a network exactly",
 "Subnets of a network for a prefix difference or new prefix are, in ascending order, exactly the networks of the new prefix that tile the original without gap or overlap; the reported size is their number (in the unsigned count type of the version), and indexing, first, last and both traversal directions agree with it. Invalid requests (wrong direction, beyond the address width, both parameters given) are refused with the matching error, and the result of a single-address network is that network itself.",
 ["inputs"], "all networks of both versions and the version-agnostic class, all differences and new prefixes of any magnitude, all indexes",
 "The suite splits a few networks by small differences; /0, full-width differences, ranges ending at the top of the space and huge parameters are outside its samples.",
 ["ip-network-base.hpp", "ip-network-iterator.hpp", "ip-any-iterator.hpp", "ip-any-network.hpp"],
 M(("parameter checks", "ip-network-base.hpp subnets"), ("sequence bounds and step", "ip-network-iterator.hpp subnets_sequence"), ("iteration", "ip-network-iterator.hpp ip_network_iterator")))

prop("P14", "Supernets are the unique enclosing network of the requested prefix",
 "The supernet for a prefix difference or new prefix is the network with that shorter prefix which contains the original, and taking it in steps equals taking it at once; invalid requests are refused with the matching error and a /0 network yields itself. Every subnet of a network has that network as its supernet.",
 ["inputs"], "all networks of both versions and the version-agnostic class, all differences and new prefixes of any magnitude, including reaching /0",
 "Full-width steps such as /32 to /0 and composition laws over all prefixes are not sampled by the suite.",
 ["ip-network-base.hpp", "ip-any-network.hpp"],
 M(("supernet", "ip-network-base.hpp supernet")))

prop("P15", "Excluding a network leaves exactly the rest, as the minimal aligned set",
 "Excluding one network from another that contains it yields networks that are pairwise disjoint, disjoint from the excluded one, together with it cover the original exactly, and number exactly the difference of their prefix lengths, one of each intermediate prefix. Excluding an equal network yields nothing, a network not contained is refused, and the enumeration always terminates and is fully observable by ordinary begin-to-end iteration.",
 ["inputs"], "all pairs of containing and contained networks (including results at address zero and single-address networks), both versions and the version-agnostic class, and all non-contained pairs",
 "The suite excludes a few hand-written pairs; the end of iteration and the chosen half depend on every bit between the two prefixes.",
 ["ip-network-iterator.hpp", "ip-network-base.hpp", "ip-any-network.hpp"],
 M(("exclusion walk", "ip-network-iterator.hpp ip_exclude_network_iterator"), ("argument checks", "ip-network-base.hpp address_exclude")))

prop("P16", "Sequence iterators obey the random-access iterator laws",
 "For iterators of host and subnet sequences (forward, reverse and version-agnostic) at any positions between begin and end: advancing by n equals n single steps, moving forth and back is the identity, the difference of two iterators is the number of steps between them with the right sign, order and equality follow positions, indexing equals advance-then-dereference, and reversing twice is the identity. This holds for signed and wide unsigned step counts, up to the very end of the address space, wherever the step count fits its type.",
 ["inputs", "histories"], "every network, sequence kind, pair of positions and sequence of moves (increment, decrement, add, subtract with positive and negative counts)",
 "Laws over all positions and move sequences; the suite moves a few steps in small mid-space networks, so sign, step-unit and wrap-around mistakes stay invisible.",
 ["ip-address-iterator.hpp", "ip-network-iterator.hpp", "ip-any-iterator.hpp"],
 M(("address iterator", "ip-address-iterator.hpp ip_address_iterator"), ("reverse adaptor", "ip-address-iterator.hpp ip_reverse_iterator"), ("network iterator", "ip-network-iterator.hpp ip_network_iterator"), ("any iterator", "ip-any-iterator.hpp ip_any_iterator")))

prop("P17", "Address classification equals the documented registry ranges",
 "Each predicate on an address (multicast, private, global, reserved, loopback, link-local, unspecified, site-local) is true exactly for the addresses inside the registry ranges the documentation refers to, and depends only on the address value, never on its scope id. IPv4-mapped IPv6 addresses are private exactly when the mapped IPv4 address is.",
 ["inputs"], "all addresses of both versions, in particular the first and last address of every registry block and their neighbours",
 "Range membership is decided at block edges; the suite tests some members, and one wrong bound byte or mask is visible only at that edge.",
 ["ip-networks.hpp", "ip-address-base.hpp", "ip-any-address.hpp"],
 M(("registry tables", "ip-networks.hpp"), ("predicates", "ip-networks.hpp is_private/is_global/...")))

prop("P18", "Network classification is the classification of the whole range",
 "A network is multicast, reserved, loopback, link-local, unspecified or site-local exactly when both its first and last addresses are, it is private exactly when one registry private block contains all of it, and global exactly according to the documented complement rule. The answers never depend on how the network was built.",
 ["inputs"], "all networks of both versions and the version-agnostic class, in particular each registry block, its halves, its parent and its neighbours",
 "Blocks, sub-blocks and super-blocks at each boundary are a large family; the suite tests isolated members.",
 ["ip-networks.hpp", "ip-network-base.hpp", "ip-any-network.hpp"],
 M(("registry tables", "ip-networks.hpp"), ("network predicates", "ip-network-base.hpp")))

prop("P19", "IPv4 addresses embedded in IPv6 are recognised exactly and extracted intact",
 "An IPv6 address reports an IPv4-mapped address exactly when it lies in ::ffff:0:0/96, a 6to4 address exactly when in 2002::/16, and a Teredo pair exactly when in 2001::/32, and otherwise reports none. The extracted IPv4 addresses are exactly the embedded bits (the Teredo client complemented), independent of scope id.",
 ["inputs"], "all IPv6 addresses, in particular those one bit away from each format prefix",
 "Non-membership must be checked for every near-miss prefix; the suite only has positive samples and grossly different negatives.",
 ["ipv6-address.hpp", "ip-any-address.hpp", "optional.hpp"],
 M(("extraction", "ipv6-address.hpp ipv4_mapped/sixtofour/teredo")))

prop("P20", "All character encodings give the same answer; ill-formed text is rejected",
 "The same text in any supported character type (narrow, wide, UTF-8, UTF-16, UTF-32) parses to the same value or the same error for addresses, networks and scope ids, and text output in each character type is the same characters. Ill-formed code unit sequences, truncated sequences, overlong forms and non-ASCII characters are always rejected (units that form no sequence with the encoding error, well-formed non-ASCII characters with the unexpected-character error), never decoded to something acceptable and never read beyond the end of the text.",
 ["inputs", "configurations"], "every ASCII text in five character types and every sequence of arbitrary code units, with narrow text configured as bytes or as UTF-8",
 "Malformed sequences are combinatorial (lead and trail unit combinations at each position); the suite has a few.",
 ["unicode.hpp", "ip-address-base.hpp", "fixed-string.hpp"],
 M(("UTF-8 decoding", "unicode.hpp utf8_reader"), ("UTF-16 decoding", "unicode.hpp utf16_reader"), ("UTF-32 decoding", "unicode.hpp utf32_reader"), ("output conversion", "unicode.hpp string_converter")))

prop("P21", "Errors are reported consistently by code and by exception",
 "For every operation that can fail, the error-code form reports no_error exactly when the throwing form does not throw, the exception carries the same code and is of the documented type (parse errors versus logic errors, both under one base), and the code passed in is always overwritten, so a stale value never decides the outcome. An input with a single kind of defect gets the code documented for that defect, a failed operation returns the default value or leaves its object unchanged, and the error message is non-empty and bounded whatever the input.",
 ["inputs", "histories"], "every failing and succeeding call of parsing, construction, subnetting, supernetting, exclusion and scope assignment, with arbitrary prior value of the error code and inputs of any length and encoding",
 "Pairs of forms must agree on all inputs, and on reuse of one error variable over a history of calls; the suite passes fresh codes and checks each form on its own samples.",
 ["errors.hpp", "ip-address-base.hpp", "ip-network-base.hpp", "ip-any-network.hpp", "ip-any-address.hpp", "ipv6-address.hpp", "unicode.hpp"],
 M(("exception mapping", "errors.hpp raise_error"), ("error-code forms", "ip-network-base.hpp subnets/supernet/address_exclude/from_address"), ("message rendering", "unicode.hpp error::print")))

prop("P22", "Stream output and input are faithful, and formatting flags are one-shot",
 "Writing a value to a stream emits its textual form in the selected format (upper-cased only up to the scope id when asked), honours each format selection for exactly one value, and reading it back yields an equal value, for narrow and wide streams. Reading a malformed token sets the failure state and leaves a default value, reading consumes exactly one whitespace-delimited token, and the strictness selection applies to exactly one network.",
 ["inputs", "histories"], "all values, formats, flags and sequences of writes and reads interleaved with manipulators on one stream, including malformed tokens",
 "Manipulator state is a history property of the stream; the suite writes one value at a time.",
 ["ip-address-base.hpp", "ip-network-base.hpp", "ip-any-address.hpp", "ip-any-network.hpp", "uint128.hpp"],
 M(("stream operators", "ip-address-base.hpp operator<</operator>>"), ("format slot", "ip-address-base.hpp stream_index"), ("strictness slot", "ip-network-base.hpp network_strict_index")))

prop("P23", "Version-agnostic values behave exactly as the version-specific value inside",
 "A version-agnostic address or network built from, or parsed as, a version-specific one gives the same answer to every query and operation, converts back to exactly that value and not to the other version, and re-assigning it to the other version leaves nothing of the old one. Parsing picks IPv4 exactly when the text is a valid IPv4 value and IPv6 exactly when it is valid IPv6; operations across versions are false, empty or refused, never undefined.",
 ["inputs", "histories"], "all values of both versions, all queries and operations, all texts, and sequences of re-assignment between versions",
 "Agreement is per operation for all values; the suite checks a few delegations with one value each.",
 ["ip-any-address.hpp", "ip-any-network.hpp", "ip-any-iterator.hpp"],
 M(("delegation", "ip-any-address.hpp ip_address"), ("delegation", "ip-any-network.hpp ip_network"), ("parser order", "ip-any-address.hpp ip_any_parser")))

prop("P24", "128-bit integers implement exact modular arithmetic and comparison",
 "The 128-bit unsigned integer behaves as integers modulo 2^128: addition, subtraction, multiplication, division, remainder, bitwise operations, shifts by any amount, increments, comparisons and conversions to and from built-in integers all equal the mathematical result, division by zero yields the documented zero, and shifts by the width or more yield zero. Mixed operations with built-in integers give the same result as converting first.",
 ["inputs", "programs"], "all pairs of 128-bit values and shift counts, and all expression sequences over them",
 "Carries, quotient estimation and cross-word shifts depend on specific bit patterns among 2^256 pairs; tests fix some.",
 ["uint128.hpp"],
 M(("multiplication and division", "uint128.hpp operator*/operator/"), ("shifts", "uint128.hpp operator<</operator>>"), ("comparison", "uint128.hpp operator<=>")))

prop("P25", "128-bit integers print, parse and convert to floating point faithfully",
 "Text of a 128-bit integer in octal, decimal and hexadecimal is the exact numeral, with the stream base and uppercase flags honoured and whatever the locale, and parsing a string of digits that fits yields exactly that value while empty, non-digit or overflowing text is an error. Conversion to and from floating point is monotone, exact for values representable as the floating-point type (long double: as a double), saturating at the top and zero for negative or not-a-number input.",
 ["inputs"], "all 128-bit values in all three bases and all strings, streams with any flag combination, all floating point values",
 "Digit generation has thresholds at each power of the base and each word boundary; tests sample few, and rounding depends on exact bit patterns.",
 ["uint128.hpp"],
 M(("text", "uint128.hpp to_string/from_string"), ("stream", "uint128.hpp operator<</operator>>"), ("floating point", "uint128.hpp from_double/to double")))

prop("P26", "Compile-time evaluation gives the run-time result",
 "Every operation usable in constant expressions (literals, parsing, formatting-free queries, network arithmetic, sequences, comparison, hashing, 128-bit arithmetic) evaluates at compile time to exactly the value it gives at run time, a text invalid at run time does not compile as a literal, and a valid one does.",
 ["inputs", "programs", "configurations"], "all literals and constant expressions over the public interface, on each supported compiler and language standard",
 "Compile-time paths use separate code (literal operators, constant-evaluation branches) and each literal is a separate program; the suite has a few dozen static checks.",
 ["ip-address-base.hpp", "ip-network-base.hpp", "ip-any-address.hpp", "ip-any-network.hpp", "fixed-string.hpp", "uint128.hpp", "errors.hpp"],
 M(("compile-time parse", "ip-address-base.hpp parse<FixedString>"), ("literals", "ipv4-address.hpp operator\"\"_ipv4"), ("fixed strings", "fixed-string.hpp")))

prop("P27", "Observable behaviour is the same in every build configuration",
 "For the same sequence of operations and inputs, every supported language standard, compiler and optional setting (exceptions on or off, three-way comparison on or off, scope length, byte order setting, module build) gives the same observable results, except exactly where the setting is documented to change them.",
 ["configurations", "inputs", "programs"], "all supported configurations crossed with arbitrary operation sequences",
 "The suite runs in four configurations but compares each to literals, and the configurations' conditional code differs; equality over arbitrary inputs across configurations is never checked.",
 ["config.hpp", "ip-address-base.hpp", "ip-network-base.hpp", "ipv6-address.hpp", "uint128.hpp", "endian.hpp", "errors.hpp"],
 M(("configuration switches", "config.hpp"), ("comparison variants", "byte-array.hpp"), ("no-exception variants", "errors.hpp raise_error")))

prop("P28", "No input or call sequence causes undefined behaviour, abort or a hang",
 "Whatever text, bytes, prefix lengths, differences, indexes within the sequence and call sequences a program passes, operations complete in time bounded by their output, raise only the documented exceptions, never terminate the process, and never read or write out of bounds, overflow signed arithmetic, shift out of range or use indeterminate values.",
 ["inputs", "histories", "configurations"], "all byte strings and all sequences of public API calls within documented preconditions, under memory and undefined-behaviour instrumentation",
 "Absence of undefined behaviour quantifies over all inputs; the suite runs un-instrumented on well-formed samples.",
 ["base-v4.hpp", "base-v6.hpp", "ip-network-base.hpp", "ip-network-iterator.hpp", "unicode.hpp", "fixed-string.hpp", "uint128.hpp"],
 M(("bounded buffers", "base-v6.hpp split_parts"), ("mask shifts", "base-v4.hpp ip_from_prefix"), ("noexcept functions that can fail", "ip-network-base.hpp supernet")))

prop("P29", "Values are independent: copies, swaps and mutations never leak",
 "Addresses, networks, scope ids and version-agnostic values have value semantics: after any history of copies, moves, assignments, swaps, scope changes, re-parsing and failed operations, each object equals exactly what a simple model of independent values predicts, including self-assignment and self-swap. Operations described as queries never change the object.",
 ["histories"], "all histories of mutating operations over a pool of objects of both versions",
 "A history property; the suite performs single mutations.",
 ["ip-any-address.hpp", "ip-any-network.hpp", "ipv6-address.hpp", "ip-network-base.hpp", "byte-array.hpp", "fixed-string.hpp"],
 M(("swap", "ip-network-base.hpp swap"), ("swap", "ip-any-address.hpp swap"), ("scope mutation", "ipv6-address.hpp set_scope_id")),
 state=[{"name": "object pool", "meaning": "expected (version, bytes, scope, prefix) of each live object", "where": "harness model"}])

prop("P30", "Helper containers behave as their standard counterparts",
 "The fixed-size byte array, fixed-capacity string and optional value types that appear in the public interface behave like their standard library counterparts for element access within bounds, iteration in both directions, size, comparison, swap, hashing, presence and value access, whatever values they hold (including zero bytes, high bytes and full capacity).",
 ["inputs", "histories"], "all contents, indexes and operation histories of the three helper types",
 "Comparison and bounds laws over all contents; the suite checks a few values.",
 ["fixed-string.hpp", "byte-array.hpp", "optional.hpp"],
 M(("byte array", "byte-array.hpp byte_array"), ("fixed string", "fixed-string.hpp fixed_string"), ("optional", "optional.hpp optional")))

prop("P31", "Exception messages quote the rejected text and name what is wrong with it",
 "The message of an exception raised for a rejected text quotes that text, whatever is in it, in whatever character type it came and whatever the global locale is: its first 100 code units, followed by '...' when there are more, up to the first NUL, ASCII characters as they are and every other character as {U+hex} (ill-formed units end what is promised; plain narrow text is quoted byte for byte unless it is configured as UTF-8). What surrounds the quotation depends, apart from one number, only on the error code, differs between any two codes, and, for an unexpected character, names the first non-ASCII character of the text; for an octet error of ipv4_address, the position of the first octet in error; for an over-long part of ipv6_address, the position of the first such part. A refused prefix, version or containment request gives a message that depends on its code alone, and a refused from_address quotes the address.",
 ["inputs"], "every rejected text of every length, character and encoding, every place of the defect, every refused request",
 "Messages are built from arbitrary input at the moment of failure: quoting must be right for every text around the cut, every character and every defect place; the suite has a few short texts.",
 ["errors.hpp", "unicode.hpp", "base-v4.hpp", "base-v6.hpp", "ip-address-base.hpp", "ip-network-base.hpp", "ipv6-address.hpp", "fixed-string.hpp"],
 M(("quotation and cut", "errors.hpp raise_error"), ("rendering of characters", "unicode.hpp error::print"), ("positions", "base-v4.hpp ip_from_string, base-v6.hpp split_parts")))

prop("P32", "Threads do not disturb one another",
 "The library keeps no hidden shared mutable state. Operations run by several threads at once on values of their own - parsing, printing, stream output and input on separate streams, exceptions and their messages, arithmetic, classification, enumeration - give in every thread exactly what they give when run alone; and any number of threads may read one shared value, sequence or iterator through its const operations (attributes, printing, hashing, comparison, copying, iteration) at the same time, each getting the answer a single reader gets. No such use is a data race, whatever the schedule.",
 ["inputs", "schedules"], "every set of threads, every sequence of operations in each, every interleaving",
 "A cache, a static buffer or a global flag passes every single-threaded test and corrupts a server under load; only concurrent programs under a race detector show it.",
 ["ip-address-base.hpp", "ip-network-base.hpp", "ip-any-address.hpp", "ip-any-network.hpp", "errors.hpp", "uint128.hpp", "ip-networks.hpp"],
 M(("stream flags are per stream", "ip-address-base.hpp stream_index, ip-network-base.hpp network_strict_index"), ("texts", "ip-address-base.hpp to_string, uint128.hpp to_string"), ("messages", "errors.hpp raise_error")))

prop("P33", "Running out of memory is survived and reported, never papered over",
 "Parsing and setting a scope id by error code, reading a uint128_t with from_string, arithmetic, classification, comparison, hashing, copying, prefix arithmetic by error code, and walking hosts, subnets and excluded networks need no memory: with every allocation failing they give exactly the results they give otherwise. Operations that build a string, use a stream or throw, with any one of their allocations failing, alone or with all later ones, either still give the exact result, or throw std::bad_alloc (or the exception they would have thrown anyway, with the same code), or leave the stream failed; they never terminate the program, never return or write something cut off as if it were whole, never lose memory and never change their operands.",
 ["inputs", "fault_sequences"], "every input, every allocation of every operation failing",
 "Shortage of memory happens at one allocation out of many, at a moment nobody chose; a temporary string inside a noexcept function or a string stream that swallows the failure passes every test and ends the program, or prints a wrong number, in production.",
 ["ip-address-base.hpp", "ip-network-base.hpp", "ip-any-address.hpp", "ip-any-network.hpp", "ipv6-address.hpp", "errors.hpp", "uint128.hpp", "unicode.hpp", "base-v6.hpp"],
 M(("noexcept parsing", "ip-address-base.hpp parse(.., error_code&)"), ("texts", "uint128.hpp to_string, base-v6.hpp ip_reverse_pointer"), ("messages", "errors.hpp concatenate")))

prop("P34", "It works the same from every translation unit, and before main",
 "The headers can be included in any number of translation units of a program, and the parts agree: a manipulator put on a stream in one unit governs the next address or network that another unit writes or reads there, values, sequences and scope ids made in one unit are the same values in another, and an exception raised in one is caught, with its type, code and message, in another. Every operation can be used while static objects are being initialised, in any order, and gives there what it gives once main has begun.",
 ["programs", "histories"], "every split of a history over translation units, every operation, every moment of initialization",
 "Headers give each unit its own copy of anything declared carelessly: a per-unit stream index or table passes every test written in one file. The order in which units are initialised is not specified, and tests run after all of it.",
 ["ip-address-base.hpp", "ip-network-base.hpp", "ip-any-address.hpp", "ip-any-network.hpp", "errors.hpp", "config.hpp"],
 M(("stream slots", "ip-address-base.hpp stream_index, ip-network-base.hpp network_strict_index"), ("inline functions", "config.hpp IPADDRESS_FORCE_INLINE")))

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
