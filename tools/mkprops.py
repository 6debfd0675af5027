#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
I, S = "code/include/swoc/", "code/src/"
prop("C01", "IP address arithmetic, ordering and byte-order conversions are exact",
  "An IPv4 or IPv6 address behaves as a fixed width unsigned integer: construction from host order, network order, octets, quads or a socket address and conversion back lose nothing, increment and decrement are plus and minus one with wrap around, and shifts and bitwise operations act on the whole width. Equality and the ordering relations on addresses of one family are those of the integer, addresses of mixed family are totally ordered consistently with equality, and the address classes (loopback, multicast, private, link local, any) hold exactly for their assigned blocks.",
  ["inputs"], "all 2^32 IPv4 addresses, all 2^128 IPv6 addresses, all pairs and triples of addresses for the ordering laws, all shift counts",
  "the unit tests compare a few dozen literal addresses; carries between the two words of an IPv6 address, byte order of the words and shift counts at word boundaries are sampled at a handful of points",
  [I+"IPAddr.h", I+"swoc_ip_util.h", S+"swoc_ip.cc"],
  [("IP4Addr / IP6Addr operators", I+"IPAddr.h"), ("IP6Addr shifts, reorder, copy_to", S+"swoc_ip.cc"), ("is_loopback / is_multicast / is_private helpers", I+"swoc_ip_util.h")],
  observe=["IP4Addr", "IP6Addr", "IPAddr public operators"])
prop("C02", "Masks and networks contain exactly the addresses sharing the prefix",
  "A mask of a given width selects exactly that many leading bits for every width from zero to the address width, and applying it to an address clears or sets exactly the remaining bits. A network made of an address and a mask contains an address if and only if the two agree on the masked bits, its lowest and highest address are the ends of that block, and the mask inferred from an address is the longest run of bits that leaves the address unchanged.",
  ["inputs"], "every address of either family and every mask width 0..32 / 0..128",
  "tests use common widths such as 8, 16 and 24; the extreme widths (0, 32, 64, 65, 128) and non aligned addresses are barely touched",
  [I+"IPAddr.h", I+"IPRange.h", S+"swoc_ip.cc"],
  [("IPMask::as_ip4 / as_ip6 / clear / mask_for", I+"IPAddr.h"), ("IP4Net / IP6Net / IPNet", I+"IPRange.h"), ("IP6Addr operator&=, |= with mask", S+"swoc_ip.cc")])
prop("C03", "A range decomposes into networks that cover it exactly",
  "Enumerating the networks of an address range yields networks in increasing order, each a properly aligned block inside the range, pairwise disjoint and jointly covering every address of the range and nothing else; the enumeration ends, and each network is the largest aligned block that fits at its position. A range is reported to be a single network exactly when it is one.",
  ["inputs"], "every non empty range of IPv4 or IPv6 addresses, including ranges that end at the largest address and single address ranges",
  "tests enumerate about ten hand written ranges; alignment, carry and end of space conditions depend on the bit patterns of both ends",
  [I+"IPRange.h", S+"swoc_ip.cc"],
  [("IP4Range::NetSource / IP6Range::NetSource search_wider, search_narrower", S+"swoc_ip.cc"), ("NetSource operator++", I+"IPRange.h")],
  [("NetSource", "remaining range plus current mask", I+"IPRange.h")])
prop("C04", "Address text is parsed strictly and formatting then parsing is the identity",
  "Text is accepted as an address only if it is a well formed IPv4 or IPv6 literal and then yields exactly the address it denotes; any other text is rejected and never read outside its bounds. Formatting any address and parsing the result gives the same address back, for IPv6 also if formatted fully expanded.",
  ["inputs"], "every address of both families for the round trip, and every text up to the stated length bound for strict parsing",
  "tests parse a fixed list of good literals and very few bad ones; the space of malformed literals (empty parts, too many digits, signs, doubled separators) and of zero run placements is far larger",
  [S+"swoc_ip.cc", S+"bw_ip_format.cc", I+"IPAddr.h"],
  [("IP4Addr::load / IP6Addr::load / IPAddr::load", S+"swoc_ip.cc"), ("bwformat(IP4Addr / IP6Addr / IPAddr)", S+"bw_ip_format.cc")])
prop("C05", "Range, network and mask text is parsed strictly",
  "Text for a mask, a network or a range is accepted only in the documented forms (a single address, two addresses joined by a dash, an address and an in-range prefix width or, for networks, a mask address) and then denotes exactly those addresses. Any other text is rejected, leaving an empty or invalid result.",
  ["inputs"], "every pair of addresses and every mask text, every position and value of the separator",
  "tests parse fewer than twenty range literals, nearly all well formed with in-range widths",
  [S+"swoc_ip.cc", I+"IPRange.h", I+"IPAddr.h"],
  [("IP4Range::load / IP6Range::load / IPRange::load", S+"swoc_ip.cc"), ("IPMask::load", S+"swoc_ip.cc"), ("IP4Net / IP6Net / IPNet::load", S+"swoc_ip.cc")])
prop("C06", "Endpoints and services keep address and port independently and parse losslessly",
  "A service (address and port) or a socket endpoint returns exactly the address and port it was given, in host and in network byte order, whatever sequence of assignments preceded, and conversions between services, endpoints and socket addresses of the same family lose nothing. Splitting text into host, port and remainder returns consecutive pieces of the input for bracketed and bare forms, and the ordering of services of one family is the total order on address then port.",
  ["inputs", "histories"], "every address, port and order of the setters; every text up to the stated bound for tokenizing",
  "tests assign a few ports and addresses once, in one order, on little endian friendly values",
  [I+"IPSrv.h", I+"IPEndpoint.h", S+"swoc_ip.cc"],
  [("IP4Srv / IP6Srv / IPSrv", I+"IPSrv.h"), ("IPEndpoint::assign, tokenize, parse, host_order_port", S+"swoc_ip.cc")])
prop("C07", "Interval relations agree with set membership",
  "For closed intervals over a discrete metric every predicate and operation (membership, containment, subset, intersection, convex hull, adjacency, relationship classification, clipping) gives the answer obtained by viewing the interval as the set of its elements, including empty and singleton intervals and intervals touching the ends of the metric. The interval ordering is a strict weak order consistent with equality.",
  ["inputs"], "all intervals (both ends arbitrary, so also empty ones) over the full range of the metric, all pairs, all probe elements",
  "tests use small integer intervals well inside the metric",
  [I+"DiscreteRange.h"],
  [("DiscreteRange predicates", I+"DiscreteRange.h"), ("minimum / maximum of the metric", I+"DiscreteRange.h")])
prop("C08", "Interval map operations act pointwise and keep ranges disjoint and sorted",
  "After any sequence of marking, filling, erasing and blending ranges, looking up any element of the metric gives exactly the value produced by applying those operations to that element one at a time, and no value where none was assigned or a blend rejected it. Iteration visits the stored ranges in increasing order, pairwise disjoint, with equal valued neighbours coalesced as documented, and the count equals the number of stored ranges.",
  ["histories", "inputs"], "all sequences of operations up to the stated length with arbitrary (unbounded) end points, payloads and blend results",
  "tests run a few long fixed scripts; the coalescing code has dozens of overlap and adjacency cases, each depending on end points and payload equality",
  [I+"DiscreteRange.h", I+"IPRange.h"],
  [("DiscreteSpace::mark / fill / erase / blend / find", I+"DiscreteRange.h"), ("IPSpace", I+"IPRange.h")],
  [("ordered list and tree of nodes", "stored ranges", I+"DiscreteRange.h")])
prop("C09", "The dual family address map keeps the two families apart and complete",
  "A map over both address families applies each operation to exactly the family of the given range, never to the other, looks up each address in its own family, and iterates every stored range of both families exactly once, forward and backward, in family then address order. Counts are the sums over the families.",
  ["histories", "inputs"], "all operation sequences up to the stated length, all addresses of both families, all iterator walks",
  "tests iterate a few populated maps; maps with one empty family and mixed walks across the family border are hardly exercised",
  [I+"IPRange.h"], [("IPSpace, its iterators and find", I+"IPRange.h")])
prop("C10", "The ordered tree stays balanced, linked and sorted under insert and erase",
  "After any sequence of insertions and removals the search tree contains exactly the inserted and not yet removed nodes in sorted order, its in-order links agree with its tree shape, every path from the root has the same number of black nodes and no red node has a red child. Hence no node is lost or duplicated and search depth stays logarithmic.",
  ["histories"], "all tree shapes and operation sequences up to the stated number of nodes",
  "tests reach only the shapes that their fixed key orders produce; the double rotation and double black cases depend on colour patterns never enumerated",
  [S+"RBTree.cc", I+"RBTree.h", I+"DiscreteRange.h"],
  [("RBNode::rotate, rebalance_after_insert, rebalance_after_remove, remove, replace_with", S+"RBTree.cc")])
prop("C11", "The intrusive list behaves as a sequence under every operation",
  "Every list operation (push, pop, insert, splice, erase, clear, move and swap of lists) changes the sequence of elements exactly as documented, so forward and backward traversal see the same elements in opposite order, head and tail are the ends, and the count is the number of elements. Removed elements are unlinked and elements not named keep their relative order.",
  ["histories", "inputs"], "every operation at every position of a list of any contents, up to the stated length",
  "tests check a few fixed sequences and rarely the backward links, the count or the empty and single element cases after each operation",
  [I+"IntrusiveDList.h"], [("IntrusiveDList link maintenance", I+"IntrusiveDList.h")],
  [("head, tail, count", "list header", I+"IntrusiveDList.h")])
prop("C12", "The intrusive hash map holds exactly the inserted elements under any history",
  "After any sequence of insert, erase and rehash the table iterates over exactly the elements present, once each, elements with equal keys stay contiguous, lookup of a key returns an element with that key if and only if one is present, and the equal range of a key covers all its elements. Counts match, the table expands by itself exactly when its policy and limit say so, and expanding it changes none of this.",
  ["histories", "inputs"], "all operation sequences up to the stated length, all hash values including collisions of bucket and of full hash",
  "tests use string keys with essentially no engineered collisions and little erasing",
  [I+"IntrusiveHashMap.h"], [("IntrusiveHashMap::insert / erase / find / expand", I+"IntrusiveHashMap.h")],
  [("bucket table and single element list", "elements grouped by bucket", I+"IntrusiveHashMap.h")])
prop("C13", "Arena allocations are disjoint, aligned, in bounds and live until released",
  "Every allocation from a memory arena, of any size and power of two alignment, returns writable memory of that size and alignment which overlaps no other allocation handed out since the last clear, also across generation freeze and thaw, and is not released before its generation is. The reported sizes equal the sum of what was allocated, the remaining space is really available, memory supplied by the caller is used but never freed, and a text copied into an arena is that text (with a nul after it where asked for).",
  ["histories", "inputs"], "all sequences of arena operations up to the stated length with arbitrary sizes and alignments",
  "tests allocate a few sizes and check a few addresses; overlap depends on size, alignment and remaining space together",
  [I+"MemArena.h", S+"MemArena.cc"], [("MemArena::alloc / require / freeze / thaw / discard / clear", S+"MemArena.cc"), ("Block::alloc, align padding", I+"MemArena.h")],
  [("active and frozen block lists", "storage", I+"MemArena.h")])
prop("C14", "Spans never leave the memory they view and slice it exactly",
  "Prefix, suffix, sub-span, removal, clipping and rebinding of a span return a view of exactly the requested elements limited to the original, for every size and offset including those past the end, and never extend it. Comparison (byte by byte), containment, search and filling agree with the element sequence viewed.",
  ["inputs"], "all span sizes, all counts and offsets over the whole unsigned range, all element values",
  "tests use in range offsets on short arrays; offsets past the end and element sizes other than one are sampled rarely",
  [I+"MemSpan.h"], [("MemSpan<T> and MemSpan<void> slicing and rebind", I+"MemSpan.h"), ("memcmp, memcpy, operator==", I+"MemSpan.h")])
prop("C15", "Text slicing by count, character or set partitions the text",
  "Every prefix, suffix, split, take, remove and clip operation of a text view divides the original text at the documented place: the pieces are adjacent, lie inside the original, omit only the separator, and concatenate back to it; a missing separator has the documented effect. Nothing outside the view is read, for views of any length and any position of the separator.",
  ["inputs"], "all texts of any length, all counts, all delimiter characters and sets, all positions of the first or last delimiter",
  "tests use a few sentences with the separator in the middle",
  [I+"TextView.h", S+"TextView.cc"], [("TextView split/take/remove/clip", I+"TextView.h")])
prop("C16", "Text trimming, searching and comparison agree with the character sequence",
  "Trimming removes exactly the maximal run of matching characters at the chosen end, searching returns the first or last matching position or its absence, prefix and suffix tests hold exactly when the characters agree, and the case sensitive and insensitive comparisons are total orders with a shorter equal prefix first. None of them reads outside the view.",
  ["inputs"], "all texts up to the stated length or of any length where the loop invariant is found, all character sets, all byte values",
  "tests use ASCII words; bytes above 127, prefixes of each other and empty views are hardly sampled",
  [I+"TextView.h", S+"TextView.cc", S+"string_view_util.cc", I+"string_view_util.h"], [("TextView trim/find/starts_with", I+"TextView.h"), ("strcmp, strcasecmp, memcmp", S+"string_view_util.cc")])
prop("C17", "Number parsing returns the value denoted by the digits, or saturates",
  "Parsing an integer from text in any supported base consumes exactly the longest valid number at the start, returns its exact value, reports how much was consumed and saturates at the limit of the result type when the value does not fit. Base prefixes, sign and leading spaces are treated as documented, and nothing outside the text is read.",
  ["inputs"], "all texts up to the stated length in every base, and every accumulated value for the overflow step",
  "tests parse a few literals; digit tables have 256 entries per base and the overflow limits one critical value per base",
  [I+"TextView.h", S+"TextView.cc"], [("svtoi, svtou, svto_radix", I+"TextView.h"), ("svtoi_convert digit table", S+"TextView.cc")])
prop("C18", "Buffer writers never write past capacity and account every byte",
  "For any sequence of writes, discards, restrictions, copies and commits a fixed buffer writer modifies only bytes inside its buffer, holds the longest prefix of the output that fits, reports as extent the size the whole output would have had and as size what is held, and flags an error exactly when output was lost. Output that fits is identical to the output written to an unlimited buffer, and a writer or text put in a stream writes exactly what it holds, a text padded to the field width of the stream.",
  ["histories", "inputs"], "all capacities and all sequences of writer operations up to the stated length with arbitrary sizes and bytes",
  "tests use roomy buffers and a few truncations",
  [I+"BufferWriter.h", I+"bwf_base.h", I+"ArenaWriter.h", S+"ArenaWriter.cc"], [("FixedBufferWriter", I+"BufferWriter.h"), ("ArenaWriter", S+"ArenaWriter.cc")])
prop("C19", "Formatted numbers and fields are digit exact with exact width and fill",
  "Formatting any integer in base 2, 8, 10 or 16 writes the unique shortest numeral of its value with the requested sign and base prefix, and a field narrower than the minimum width is padded with the fill character to exactly that width at the requested side, while a maximum width truncates. Booleans, characters, pointers, strings and memory dumps obey the same rules, and floating point output shows the value rounded or truncated to the requested digits, of which there are at most 19. Error numbers show their own name, text and number, and dates the text of the requested time.",
  ["inputs"], "all 64 bit integer values, all widths, fills, alignments, signs and bases",
  "tests format a few dozen numbers; the most negative integer, widths near the numeral length and each base's digit boundaries are rarely hit",
  [S+"bw_format.cc", I+"bwf_base.h"], [("Format_Integer, Format_Float, Adjust_Alignment", S+"bw_format.cc")])
prop("C20", "Format strings of any content are parsed safely and completely",
  "Printing with any format string either reproduces its literal text with every placeholder replaced by its argument or reports a syntax error, and never reads outside the format string or the arguments, for any bytes whatsoever. Doubled braces are one literal brace and a specification is parsed into exactly the fields it spells.",
  ["inputs"], "all format strings up to the stated length over all byte values, all specifications",
  "tests use well formed format strings; arbitrary bytes in the specification index lookup tables",
  [S+"bw_format.cc", I+"bwf_base.h"], [("Spec::parse, Format::TextViewExtractor / Format parse", S+"bw_format.cc")])
prop("C21", "A lexicon maps names to values and back consistently",
  "For any set of definitions every defined name, in any letter case, maps to its value, every value maps to its primary name, undefined names and values go to the default or are reported as errors, and iteration visits every definition once. The count is the number of values defined.",
  ["histories", "inputs"], "all definition sequences up to the stated size, all names up to the stated length, all values",
  "tests define two or three fixed tables",
  [I+"Lexicon.h"], [("Lexicon define / operator[]", I+"Lexicon.h")])
prop("C22", "Scaled quantities convert with exact rounding",
  "Converting a scaled quantity to another scale preserves its value exactly when it is representable and otherwise rounds in the requested direction to the adjacent multiple, and arithmetic and comparison between scales agree with the arithmetic of the unscaled values while those fit the counter type.",
  ["inputs"], "all counts of the counter type that do not overflow, for a family of scale pairs (multiple, divisor, coprime)",
  "tests check small counts for a few scales",
  [I+"Scalar.h"], [("Scalar conversions, round_up, round_down, compare", I+"Scalar.h")])
prop("C23", "Error reports keep every note in order with the highest severity",
  "A report holds exactly the notes added, in order and with their text and own severity, its severity is the maximum of all severities given, and merging, moving, clearing and assigning reports neither lose nor duplicate notes. A report is a success exactly when it is below the failure threshold, and an attached sink sees an abandoned report exactly once. Written out, a report shows its severity, its code and every note once, in order, with the configured texts between them.",
  ["histories", "inputs"], "all sequences of report operations up to the stated length, all severities",
  "tests build a few fixed reports",
  [I+"Errata.h", S+"Errata.cc"], [("Errata note, assign, severity", S+"Errata.cc"), ("Rv", I+"Errata.h")])
prop("C24", "Small vector keeps its sequence across inline and heap storage",
  "A vector with inline storage for a fixed number of elements behaves as a sequence under any mix of append, remove last and move, with every element preserved when it changes to heap storage, and its size always the number of elements held. Every element is constructed and destroyed exactly once, and heap storage is taken from and returned to the allocator the vector was made with.",
  ["histories"], "all operation sequences up to the stated length around the inline capacity",
  "tests push a few elements over one capacity",
  [I+"Vectray.h"], [("Vectray push_back / emplace_back / pop_back / transfer", I+"Vectray.h")])
prop("C25", "File path operations compose as path algebra",
  "Joining, taking the parent and the file name of a path, and absolute and relative tests agree with the textual definition for any path text: joining inserts exactly one separator, an absolute right side replaces the left, and parent joined with a non-empty file name gives back the path except for repeated separators. Resolving, loading, copying, creating and removing report an error exactly if they did not do it: content loaded or copied without an error is the content of the file whatever the pattern of partial reads and writes, and removal never touches anything outside the given directory.",
  ["inputs"], "all path texts up to the stated length over all byte values",
  "tests use a few paths",
  [I+"swoc_file.h", S+"swoc_file.cc"], [("path operator/=, parent_path, filename", S+"swoc_file.cc"), ("load, copy, remove_all, create_directories, status", S+"swoc_file.cc")])
prop("C26", "Streaming hashes depend only on the bytes fed",
  "Feeding data to a hash in any division into pieces gives the value of the standard FNV-1a algorithm on the concatenated and transformed bytes, and clearing returns it to the initial state. Case folded hashing maps texts differing only in letter case to equal values.",
  ["inputs", "histories"], "all byte sequences and all divisions into pieces (by the per byte step being the exact FNV-1a step for every state and byte)",
  "tests compare a couple of literal texts",
  [I+"ext/HashFNV.h"], [("Hash32FNV1a / Hash64FNV1a update", I+"ext/HashFNV.h")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
