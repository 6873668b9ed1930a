#!/usr/bin/env python3
"""The catalogue: writes properties.jsonl and MANIFEST.json. A property is claimed iff checks/<ID>_*.cc exists."""
import json, glob, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
I = "code/include/swoc/"
S = "code/src/"


def prop(id, title, statement, over, quant, why, files, mech, note, technique="model-based / metamorphic property testing, coverage-guided, under ASan+UBSan"):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files, mech=mech, note=note, technique=technique))


# ---------------------------------------------------------------- text
prop("T01", "Text view slicing never invents, loses or escapes characters",
     "Every operation that trims, takes, splits, removes, clips or searches text through a view yields pieces that are sub-ranges of the original view at exactly the documented positions, and taking a token partitions the view into token, separator and remainder with nothing lost or duplicated. No sequence of these operations, with any arguments including empty views, counts past the end and absent separators, reads or refers to memory outside the original text.",
     "inputs histories", "All texts (including empty, null, embedded NUL and non-ASCII octets), all characters, sets, predicates and counts, and all sequences of operations on one view.",
     "The unit tests sample a few dozen literal strings; off-by-one errors sit at particular separator positions, sizes and argument combinations they do not reach.",
     [I + "TextView.h", S + "TextView.cc"], [("prefix/suffix/split/take/trim/clip family", I + "TextView.h")],
     "Generated texts in exactly sized heap blocks and operation sequences against an index-arithmetic model; sampled, not exhaustive. Where the documentation contradicts itself (remove_prefix_at without a match, split at exactly the size) no result is asserted beyond staying in bounds.")
prop("T02", "Text comparison is a consistent total order",
     "Comparing two texts, case sensitive or not, agrees with octet by octet comparison (after ASCII case folding in the latter case) and orders a proper prefix before the longer text, and the comparison functors agree with it. The order is antisymmetric and transitive, and equality holds exactly if the comparison is zero, so views can be used as keys in ordered containers.",
     "inputs", "All pairs and triples of texts, including empty, one a prefix of the other, different only in case, and octets above 127.",
     "Tests compare a few word pairs; order laws quantify over all triples.",
     [I + "TextView.h", I + "string_view_util.h", S + "string_view_util.cc", S + "TextView.cc"], [("memcmp/strcmp/strcasecmp for views, LessThan functors", I + "TextView.h")],
     "Random related pairs/triples against an octet-wise reference. Embedded NUL is excluded for the case insensitive comparison (documented in terms of C strings).")
prop("T03", "Text to integer conversion is exact or visibly partial",
     "Converting text to a signed or unsigned integer gives exactly the value denoted by the longest valid numeral prefix in the requested or detected radix, and reports exactly the text that was parsed. Values outside the range of the result saturate at the limit instead of wrapping, and text without a numeral gives zero with nothing parsed.",
     "inputs", "All texts, all radices 2 to 36 and radix detection by prefix, all values around the representable limits.",
     "Tests check a handful of numerals; overflow, sign, and radix edge cases form a space far larger than the samples.",
     [I + "TextView.h", S + "TextView.cc"], [("svtoi, svtou, svto_radix", S + "TextView.cc")],
     "Round trip from generated integers in each radix plus grammar-mutated text, against a 128 bit reference parser.")
prop("T04", "Text to floating point conversion is accurate for all numerals",
     "Converting a decimal numeral, with optional sign, fraction and exponent, to floating point gives the value the C library would give for the same text to within a couple of units in the last place, with the right sign, and reports exactly the text consumed. Extreme exponents and long digit strings give infinity or zero as the C library does rather than wrapping.",
     "inputs", "All decimal numerals, digit counts and exponents, and arbitrary text around them.",
     "Tests check about ten numerals; accuracy and overflow depend on digit count and exponent magnitude jointly.",
     [I + "TextView.h", S + "TextView.cc"], [("svtod", S + "TextView.cc")],
     "Differential against strtod with an ulp tolerance.")
prop("T05", "Transformed views deliver exactly the mapped sequence",
     "Iterating a transformed view yields the transform applied once to each source element in order, from the first to the last, independent of how the iteration is written (range for, explicit iterators, conversion to a container). Its emptiness and end are determined by the source only, for any transform and any source length including zero.",
     "inputs", "All sources, transforms and iteration styles.",
     "Tests transform two fixed strings with one idiom.",
     [I + "TextView.h"], [("TransformView", I + "TextView.h")],
     "Random sources and transforms against std::transform.")
prop("T06", "FNV hashing matches its published definition under any chunking",
     "Hashing gives the published FNV-1a value of the octet sequence presented, including octets above 127. The result depends only on the concatenation of the data, not on how it was divided over updates, and after clearing the hash behaves like a new one.",
     "inputs histories", "All octet strings, all ways of chunking them, all sequences of update, final, clear.",
     "Tests do not hash high octets or compare chunkings.",
     [I + "ext/HashFNV.h"], [("FNV hash update / final", I + "ext/HashFNV.h")],
     "Differential against an independent FNV-1a.")

# ---------------------------------------------------------------- memory
prop("M01", "Memory span slicing is exact and never widens a span",
     "Every prefix, suffix, trim, clip, remove and sub-span operation on typed and untyped memory spans yields exactly the sub-range its documentation names, clamped to the original, and conversions between typed, untyped, constant and mutable spans preserve the covered octets. Conversions that would not preserve whole elements are refused.",
     "inputs histories", "All spans and counts (including zero and beyond the end), all operation sequences, several element sizes.",
     "Tests use small fixed arrays; clamping and size scaling vary by element size, constness and count.",
     [I + "MemSpan.h"], [("MemSpan slicing and rebinding", I + "MemSpan.h")],
     "Random operation sequences against an index model over exactly sized heap blocks.")
prop("M02", "Memory span content operations cover exactly the span",
     "Comparing, copying, filling, searching, aligning, constructing and destroying through spans affects or examines exactly the elements of the span: all of them, and nothing outside. Equality, ordering and searches agree with an element by element reference, for every element size.",
     "inputs", "All contents, element sizes, overlaps of lengths, alignments and search targets.",
     "Tests use byte-sized or short spans where octet and element counts coincide.",
     [I + "MemSpan.h"], [("MemSpan compare, memcpy, memset, find, align, make/destroy", I + "MemSpan.h")],
     "Random contents against std algorithms; overruns are seen by ASan red zones.")
prop("M03", "Arena memory is disjoint, in bounds, and intact until released",
     "Every allocation from a memory arena is a distinct block of at least the requested size and alignment whose contents are never disturbed by later allocations, freezes, moves or localized copies, until it is explicitly released. Freezing, thawing, discarding, clearing and moving release exactly the memory they document, never memory still in use, never twice, and never leaking; the reported sizes match what was allocated. A request that cannot be met, because it is too large or there is no memory, is refused by an exception and leaves the arena as it was.",
     "histories inputs", "All sequences of allocate, aligned allocate, localize, require, remnant use, freeze, thaw, discard, clear, move, over arenas with and without a caller supplied initial block; sizes up to the whole address space; failures of the allocator.",
     "Tests run a few scripted sequences; generation bookkeeping breaks only in particular orders.",
     [I + "MemArena.h", S + "MemArena.cc"], [("freeze/thaw/discard generations", S + "MemArena.cc"), ("block alloc and remnant", I + "MemArena.h")],
     "Stateful test with a shadow copy of every live block and ASan poisoning of freed memory.")
prop("M04", "Arena object pools never hand out a live object",
     "A fixed size object pool returns storage which is aligned, in the arena, and not in use, constructs and destroys each object exactly once, reuses returned storage and never returns the same storage twice while it is live. Standard containers that use an arena as their memory resource behave as with the default one, with all of their memory in that arena.",
     "histories", "All interleavings of make, destroy and clear on pools over arenas.",
     "Tests make and destroy in one order only.",
     [I + "MemArena.h"], [("FixedArena free list", I + "MemArena.h")],
     "Stateful test with live counting objects and overlap checks.")
prop("M05", "Small vector behaves as a sequence across its storage transition",
     "A vector with embedded initial storage behaves as a plain sequence of its elements through any operations, regardless of whether the elements are in the embedded or the dynamic storage. Elements are constructed and destroyed exactly once, and keep their values and order when storage transitions, or the container is copied or moved.",
     "histories", "All sequences of push, emplace, pop, access, reserve, iteration and moves around the embedded capacity.",
     "Tests exercise one capacity and one order of operations with trivially destructible elements.",
     [I + "Vectray.h"], [("FixedStore / DynamicStore transfer", I + "Vectray.h")],
     "Stateful test against std::vector with live counting elements.")

# ---------------------------------------------------------------- numeric
prop("S01", "Scaled values never change magnitude silently",
     "Arithmetic and comparison on scaled integer values agree with exact rational arithmetic on the unscaled quantities, whatever the scales of the operands. Conversions between scales are exact where they divide evenly, and otherwise round in the requested direction to an adjacent multiple, for positive and negative values alike.",
     "inputs", "All values, a wide set of scale pairs (multiples, divisors, coprime, fractional), all operators and rounding directions.",
     "Tests use positive values and a few scale pairs.",
     [I + "Scalar.h"], [("ScalarConversion, round_up, round_down, compare", I + "Scalar.h")],
     "Generated values over a matrix of template instantiations against 128 bit rational arithmetic.")
prop("R01", "Range algebra agrees with set algebra",
     "Containment, intersection, hull, adjacency, overlap, subset, ordering and edge relations of closed ranges agree with the corresponding statements about the sets of points, for all ranges including empty, singleton and full, over any discrete metric. Empty ranges behave as the empty set in every operation.",
     "inputs", "All pairs of ranges and points, over several metrics including their extreme values.",
     "Tests check one or two cases per relation over small integers.",
     [I + "DiscreteRange.h"], [("DiscreteRange relations", I + "DiscreteRange.h")],
     "Generated (small domain: near exhaustive) range pairs against explicit point sets.")
prop("R02", "A range space is a function from points to at most one payload",
     "After any sequence of marking, filling, erasing and blending ranges, looking up any point gives exactly what painting an array point by point would give, including at the extremes of the metric. The stored ranges are disjoint, in order, iterate both ways, coalesce as documented, and payloads are neither leaked nor destroyed early; lookup cost stays logarithmic in the number of ranges.",
     "histories", "All sequences of mark, fill, erase, blend, clear and lookups, over small dense metrics (including the limits) and larger ones.",
     "Tests check particular overlap configurations; left/right overlap, adjacency, equal color and limits multiply.",
     [I + "DiscreteRange.h", I + "RBTree.h", S + "RBTree.cc"], [("mark, fill, erase, blend", I + "DiscreteRange.h"), ("red-black rebalancing", S + "RBTree.cc")],
     "Stateful test against an array model with live-counted payloads and comparison-count bound.")

# ---------------------------------------------------------------- network
prop("N01", "IP address values behave as fixed width integers",
     "Addresses of both families order, increment, decrement, shift, mask and combine exactly as unsigned integers of their width, and convert between network order, host order, octet, quad and socket representations without change. Comparison across families is a strict total order, and equal addresses are interchangeable.",
     "inputs", "All addresses including the limits and 64 bit boundary, all shift widths 0 to 128, all pairs across families.",
     "Tests check a few addresses; carry and shift errors live at boundary bits.",
     [I + "IPAddr.h", S + "swoc_ip.cc", I + "swoc_ip.h"], [("IP4Addr / IP6Addr / IPAddr operators", S + "swoc_ip.cc")],
     "Generated (boundary-heavy) values against 128 bit integers.")
prop("N02", "IP address text parses exactly and round trips",
     "Text is accepted as an address exactly if it is a valid presentation form (for IPv6 the hexadecimal form; dotted decimal embedded in IPv6 is not supported), and then denotes the value the system library gives; printing an address and parsing the text gives the same address for every address and documented format. Rejected text does not leave a plausible wrong address that is reported as valid.",
     "inputs", "All addresses, all texts (valid, near valid by mutation, arbitrary).",
     "Tests try a list of addresses; parsers fail on particular malformed inputs and compression layouts.",
     [I + "IPAddr.h", S + "swoc_ip.cc", S + "bw_ip_format.cc"], [("IPxAddr::load, bwformat for addresses", S + "swoc_ip.cc")],
     "Round trip of generated addresses, grammar-mutated text, differential against inet_pton / inet_ntop.")
prop("N03", "Masks and networks cover exactly their prefix",
     "A mask of width n keeps exactly the n most significant bits, parses and prints as a prefix length or mask address, and rejects widths out of range for the family. A network contains exactly the addresses that share its prefix, with matching lower and upper bounds, for every width including zero and full.",
     "inputs", "All addresses, all widths of both families, all mask texts.",
     "Tests check a few widths; zero, full and 64 bit boundary widths are special.",
     [I + "IPAddr.h", I + "IPRange.h", S + "swoc_ip.cc"], [("IPMask, IP4Net, IP6Net, IPNet", I + "IPRange.h")],
     "Generated values against 128 bit integer masks.")
prop("N04", "Address range text and algebra are exact",
     "Text for an address range (pair, network in prefix form, or single address) is accepted exactly if well formed, and denotes exactly the addresses it says; printing a range and parsing it gives the same range. Membership, intersection, adjacency and mixed family handling agree with integer intervals.",
     "inputs", "All ranges of both families, all range texts, all pairs of ranges and points.",
     "Tests check a fixed list of ranges.",
     [I + "IPRange.h", S + "swoc_ip.cc", S + "bw_ip_format.cc"], [("IPxRange::load and algebra", S + "swoc_ip.cc")],
     "Round trip and interval model.")
prop("N05", "Network decomposition of a range is an exact minimal cover",
     "Viewing an address range as a sequence of networks yields networks which are in order, disjoint, cover exactly the range, and are as few as possible. A range is reported as a network exactly if it is a single one, with the right mask.",
     "inputs", "All ranges of both families, including single addresses, full range, and ranges that touch the limits.",
     "Tests decompose a handful of ranges; alignment at both ends and limits interact.",
     [I + "IPRange.h", S + "swoc_ip.cc"], [("NetSource iteration, network_mask", S + "swoc_ip.cc")],
     "Generated ranges against a greedy reference cover on 128 bit integers.")
prop("N06", "An IP space maps every address to the last applicable payload",
     "After any sequence of marking, filling, erasing and blending ranges of either family, lookup of any address gives exactly the payload that applying the operations address by address would give, with no interference between families. Iteration visits disjoint ranges in address order, IPv4 first, in both directions, and counts match.",
     "histories", "All sequences of operations with ranges of both families, including the limits of the address spaces.",
     "Tests use scripted ranges; family crossing and limit addresses are rarely reached.",
     [I + "IPRange.h", I + "DiscreteRange.h"], [("IPSpace", I + "IPRange.h")],
     "Stateful test against a boundary-compressed reference map.")
prop("N07", "An IP range set is exactly the union of what was put in it",
     "After any sequence of marking and filling ranges, membership is exactly the set union (or documented effect) of the ranges, adjacent ranges are merged, and the number of ranges is the minimum. Clearing empties it, and iteration visits each range once in order.",
     "histories", "All sequences of operations over both families.",
     "Tests cover a few overlaps.",
     [I + "IPRange.h"], [("IPRangeSet", I + "IPRange.h")],
     "Stateful test against a boundary-compressed set.")
prop("N08", "Endpoints and service addresses keep address, port and family intact",
     "Address and port pairs convert to and from socket addresses, text, and each other without losing or altering the family, address or port, and compare consistently with their components. Endpoint text is divided correctly into address, port and remainder for every form, and malformed text is rejected.",
     "inputs", "All addresses, ports and endpoint texts.",
     "Tests use a list of endpoint literals.",
     [I + "IPEndpoint.h", I + "IPSrv.h", S + "swoc_ip.cc", S + "bw_ip_format.cc"], [("IPEndpoint::tokenize/parse, IPSrv", S + "swoc_ip.cc")],
     "Round trip and component model.")

# ---------------------------------------------------------------- containers
prop("C01", "Intrusive list is a faithful sequence",
     "Under any sequence of insertions, removals, rotations between lists, moves and clears at any position, an intrusive list contains exactly the items a plain sequence would, in that order in both directions, with the right count, head and tail. Items removed are fully detached and can be inserted again.",
     "histories", "All operation sequences over a pool of items and several lists.",
     "Tests insert and remove in a few places; link errors show at head, tail and singleton positions after specific histories.",
     [I + "IntrusiveDList.h"], [("link splicing", I + "IntrusiveDList.h")],
     "Stateful test against std::vector.")
prop("C02", "Intrusive hash map agrees with a multimap",
     "Under any sequence of insertions (duplicates included), erasures by item, position and key, expansion and clearing, an intrusive hash map finds exactly the items inserted and not erased, keeps items with equal keys contiguous and in the order of their insertion, and reports the right count. Expansion by any policy changes neither contents nor the ability to find them.",
     "histories", "All operation sequences, keys with colliding hashes, and expansion policies.",
     "Tests insert a fixed set of names; bucket bookkeeping fails only for collision and erase orders.",
     [I + "IntrusiveHashMap.h", I + "IntrusiveDList.h"], [("bucket chains, expand", I + "IntrusiveHashMap.h")],
     "Stateful test against std::multimap.")
prop("C03", "Lexicon maps names and values consistently both ways",
     "A lexicon finds the value of every defined name regardless of case, and gives the primary name for every defined value, for any set of definitions and however they were supplied. Unknown names and values give the configured default or handler result or fail visibly, and conflicting definitions are rejected without corrupting the lexicon. Printing a lexicon gives exactly its names and values.",
     "histories inputs", "All definition sequences and lookups, before and after moves and default changes.",
     "Tests use two fixed enumerations.",
     [I + "Lexicon.h"], [("dual intrusive maps", I + "Lexicon.h")],
     "Stateful test against two std maps.")

# ---------------------------------------------------------------- errata
prop("E01", "Errata report the worst severity and keep every note",
     "An errata accumulates notes in order, retains its code, and its severity is always the most severe of what was assigned or noted, whatever the order and route (direct, formatted, or merged from another errata). Success is exactly severity below the failure threshold; filtered notes still count towards severity. This holds for every setting of the thresholds, and for those an application gets if it sets none.",
     "histories", "All sequences of notes, merges, assignments, clears, moves and severity settings, over severity thresholds.",
     "Tests check a few accumulations.",
     [I + "Errata.h", S + "Errata.cc"], [("note / assign / severity", S + "Errata.cc")],
     "Stateful test against a plain record model.")
prop("E02", "Errata text, sinks and result wrappers carry everything through",
     "The text of an errata contains its severity, code and each non-empty note once, in order, at its nesting level, in the configured layout. A result wrapper delivers the value and errata that were put in, and each registered sink sees each abandoned errata exactly once while those moved from or cleared are not reported.",
     "histories inputs", "All errata histories and layout settings; all wrapper construction and assignment routes.",
     "Tests check one layout.",
     [I + "Errata.h", S + "Errata.cc"], [("bwformat for errata, Rv, sinks", S + "Errata.cc")],
     "Reference renderer and sink log model.")

# ---------------------------------------------------------------- output
prop("B01", "Buffer writers never write outside, and report the full extent",
     "Whatever is written, copied, discarded, restored, restricted or committed, a fixed buffer writer changes only octets inside its buffer and its content is exactly the truncation to capacity of what an unbounded writer would hold. The extent reported is that of the unbounded output, so an output that did not fit is detectable and the needed size is known.",
     "histories", "All operation sequences on buffers of every size including zero.",
     "Tests use a couple of buffers large enough or one short of enough.",
     [I + "BufferWriter.h"], [("FixedBufferWriter", I + "BufferWriter.h")],
     "Stateful test against a byte vector model in exactly sized heap buffers.")
prop("B02", "Any format string is either rendered or rejected cleanly",
     "Parsing and rendering arbitrary text as a format string with arbitrary arguments either produces output or throws the documented exception, without reading or writing out of bounds or hanging, and the same for every specifier text. Literal text and escaped braces are reproduced exactly, rendering a compiled format equals rendering the text directly, and a specifier that follows the grammar is parsed as exactly the values it states.",
     "inputs", "All format strings and specifier texts, by grammar, by mutation, and arbitrary octets.",
     "Tests use valid formats only.",
     [I + "bwf_base.h", S + "bw_format.cc"], [("Spec::parse, Format::TextViewExtractor", S + "bw_format.cc")],
     "Coverage-guided generation, sanitizers, and compiled/direct equality.")
prop("B03", "Strings and integers format exactly as the specifier says",
     "For every integer, pointer, boolean, character or string and every combination of radix, sign, prefix, fill, alignment, minimum and maximum width, the output is exactly the digits of the value with the requested decoration, padded and truncated as documented. The output does not depend on the destination or its capacity except by truncation.",
     "inputs", "All values (including limits) times all specifier combinations times destination sizes.",
     "Tests check a table of examples.",
     [I + "bwf_base.h", S + "bw_format.cc"], [("Format_Integer, Adjust_Alignment", S + "bw_format.cc")],
     "Reference formatter.")
prop("B04", "Floating point formatting is correct to the requested precision",
     "Formatting a normal floating point value gives its sign, integral part and fraction rounded to the requested number of digits (two if none is requested), within half a unit of the last digit printed, with carries and leading zeros of the fraction preserved; an integral value has no fraction and precision zero gives the integral part. Infinities print with their sign, NaN and zero print as such, and no precision or magnitude corrupts memory.",
     "inputs", "All doubles times precisions and specifiers.",
     "Tests format a dozen values.",
     [I + "bwf_base.h", S + "bw_format.cc"], [("Format_Float", S + "bw_format.cc")],
     "Numeric comparison of parsed output against printf, and shape checks.")
prop("B05", "Format composition puts each argument and name where it belongs",
     "Each positional, sequential or named specifier in a format is replaced by exactly the rendering of the argument or bound name it designates, independently of the others, with the literal text between unchanged. References to arguments or names that do not exist give the documented marker, and names bound globally or contextually resolve as documented.",
     "inputs", "All formats with generated mixtures of literals, indices, sequential and named references and argument counts.",
     "Tests use formats with one to three elements.",
     [I + "bwf_base.h", S + "bw_format.cc", I + "BufferWriter.h"], [("print_nfv, NameBinding", I + "BufferWriter.h")],
     "Composition law: the whole equals concatenation of individually rendered pieces.")
prop("B06", "Wrapper formatters render their data faithfully",
     "The formatting wrappers for hexadecimal dumps, hexadecimal decoding, repeated patterns, optional and joined text, conditionals, error numbers, dates and pointers render exactly the wrapped data, so that decodable forms decode to the original. Their output composes with width and alignment as any other text.",
     "inputs", "All wrapped values and specifiers.",
     "Tests show one example each.",
     [I + "bwf_ex.h", I + "bwf_std.h", S + "bw_format.cc"], [("bwf_ex wrappers", I + "bwf_ex.h")],
     "Reference renderers and hex round trip.")
prop("B07", "Every print destination receives the same complete text",
     "Printing the same format and arguments to a local buffer, an external buffer, a string, an arena or a stream yields identical text, complete whenever the destination can grow or is large enough. Growing destinations resize so that nothing is lost or left over, whatever was in them before.",
     "inputs histories", "All formats and argument values times destinations, initial capacities and prior contents.",
     "Tests print to a string once.",
     [I + "BufferWriter.h", I + "ArenaWriter.h", I + "bwf_base.h", S + "ArenaWriter.cc"], [("bwprint_v, ArenaWriter::realloc", S + "ArenaWriter.cc")],
     "Differential across destinations.")

prop("B08", "IP data prints its exact value in every documented form",
     "Printing an address, endpoint, socket address, service, network, mask or range with any style and extension writes exactly the elements of the value (octets, quads, port, family, mask width) in the requested radix, with the requested parts in the documented order, internally justified if requested, in the field the specifier asks for, and the same for the family specific and the generic type. The compact form of a range is used exactly for a single address or a network.",
     "inputs", "All values of both families times all styles, extensions and fields, and destinations.",
     "Tests print about forty fixed addresses in a few formats.",
     [I + "bwf_ip.h", S + "bw_ip_format.cc"], [("IP bwformat overloads", S + "bw_ip_format.cc")],
     "Generated values and specifiers against a reference renderer written from the documentation, printed to exact, clipped and partly filled buffers.")

# ---------------------------------------------------------------- files
prop("F01", "Path values compose and decompose consistently",
     "Taking the parent, file name or relative part of a path, and testing if it is absolute, relative or empty, agree with the standard library's file system paths (up to repeated separators), without touching the file system. Joining an absolute path replaces the base, joining a relative path appends it with exactly one separator, joining nothing changes nothing, also if a path is joined with itself. The parent joined with the file name is the path again. Equality, hash and printed form are those of the text, however the path was constructed or assigned.",
     "inputs", "All path texts and joins of several components.",
     "Tests check about a dozen paths.",
     [I + "swoc_file.h", S + "swoc_file.cc"], [("path operators", S + "swoc_file.cc")],
     "Generated path texts against std::filesystem::path and a definition of joining; sequences of joins.")
prop("F02", "File operations do exactly what they report",
     "Loading, copying, creating, removing and querying files and directories has exactly the documented effect on the file tree, changes nothing else (links are not followed when removing), and reports success exactly if the effect happened, with the error of the failure otherwise. A success leaves no stale error behind, and no operation leaves a file descriptor open. A copy has exactly the content of the source, whatever was in the target; loading yields all of the content; the count of removed items is the number of items removed.",
     "histories fault_sequences", "All sequences of operations on small trees with files, directories, links and missing or unreadable entries, and failures of the underlying system calls.",
     "Tests operate on one existing file in the happy path.",
     [I + "swoc_file.h", S + "swoc_file.cc"], [("remove_all, copy, create_directories, load", S + "swoc_file.cc")],
     "Stateful test in a scratch directory as an unprivileged process against the same operation written on system calls applied to a twin tree.")

# ---------------------------------------------------------------- whole library
prop("P01", "Threads that share no objects, or only read them, do not interfere",
     "Operations of several threads that use only objects of their own give exactly the results they give in a single thread, whatever the schedule, and so do operations that only read an object shared by the threads (look ups in and iteration over an address space, a range set, a hash map or a lexicon, printing with a shared format, names or an error list). There is no unsynchronized state in the library behind these: no scratch buffer, cache or lazily initialized table shared by callers.",
     "schedules histories inputs", "All scripts of such operations for several threads, all schedules, including the first use of each part of the library.",
     "The unit tests are single threaded.",
     [S + "bw_format.cc", S + "bw_ip_format.cc", S + "Errata.cc", S + "TextView.cc", S + "MemArena.cc", S + "swoc_ip.cc", S + "swoc_file.cc", I + "DiscreteRange.h", I + "IPRange.h", I + "Lexicon.h", I + "IntrusiveHashMap.h", I + "bwf_base.h"],
     [("formatting and the global names", S + "bw_format.cc"), ("const look up in the containers", I + "DiscreteRange.h")],
     "Generated scripts run concurrently in a fresh process and then one after the other, under ThreadSanitizer, which finds a race in any schedule in which the accesses are not ordered, not only if they collide. C functions with hidden shared storage (gmtime, localtime, strtok and the like) are replaced so their storage is visible to it. Registration of sinks and global names is configuration and not done concurrently.",
     technique="generated concurrent scripts, differential against sequential execution, under ThreadSanitizer")
prop("P02", "A scoped value change is always undone, and functor selection is exact",
     "While a scoped value change is in effect the variable has the given value, and at the end of the scope, however that is left and whatever was assigned in between, it has exactly the value it had before, for any nesting of scopes over any variables, any movable type, and even if the given value is the variable itself or copying it fails. A combination of functors calls exactly the one that overload resolution among its parts selects, once, and prioritised cases select the highest valid one.",
     "histories inputs", "All nestings and sequences of scopes over several variables, exceptions at any point, types which can only be moved or fail to copy; all arguments to combined functors.",
     "One test of a variant with two types; scopes are not tested with exceptions, aliases or nesting.",
     [I + "swoc_meta.h"], [("let", I + "swoc_meta.h"), ("vary", I + "swoc_meta.h"), ("CaseTag / CaseArg", I + "swoc_meta.h")],
     "Stateful test with a model of the variables. The compile time predicates are sampled at fixed types.")


def main():
    claimed = {os.path.basename(f).split("_")[0] for f in glob.glob(HERE + "/checks/*.cc")}
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            for x in p["files"]:
                if not os.path.exists("/repo/" + x):
                    print("missing anchor", p["id"], x)
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    m = dict(version=1, setup_cmd="./setup",
             checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                          evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
                          level_note="Generated-input search, no proof of absence. " + p["note"] + " Trusts the compiler, the sanitizers and the oracle in checks/.") for p in P if p["id"] in claimed],
             not_applicable=[dict(property=p["id"], reason="no check built yet") for p in P if p["id"] not in claimed])
    json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
    open(HERE + "/MANIFEST.json", "a").write("\n")
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    print(len(P), "properties", len(m["checks"]), "claimed")


main()
