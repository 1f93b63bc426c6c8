#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
import os

H = "include/pystd2026.hpp"
C = "src/pystd2026.cpp"
P = []


def p(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    d = {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": w} for a, b, w in state],
                     "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe),
                     "hook_needed": None}}
    P.append(d)


p("C01", "Growable array and stack behave as an abstract sequence",
  "After any history of pushes, pops, appends, assignments, copies, moves, reservations and clears, a growable array holds exactly the sequence those operations define, through every capacity change and also when the inserted value is an element of the same array; a stack built on it is last-in first-out. "
  "An index is accepted exactly when it is below the size, reading the first or last element of an empty array is refused, and a refused operation leaves the array unchanged; a moved-from array is empty and usable.",
  ["histories", "inputs"], "all operation histories over two arrays, all element values, all sizes across growth boundaries, several element types",
  "Tests push a handful of elements in one order; growth boundaries combined with self-insertion, moved-from reuse and refused indices are not reached.",
  [H], [("growth and relocation", "Vector::reserve / resize_capacity_to"), ("self-aliasing guard", "Vector::push_back, emplace_back, append"), ("bounds checks", "Vector::operator[], front, back")],
  [("array", "buffer, capacity, number of entries", "Vector private members")], ["size, indexing, iteration, comparison"])

p("C02", "Fixed-capacity array is an abstract sequence that never exceeds its bound",
  "After any history of pushes, inserts, removals, pops, moves and clears, a fixed-capacity array holds exactly the sequence those operations define, with the other elements keeping their relative order and its size never exceeding the capacity. "
  "An insertion into a full array or at an invalid position is refused and an invalid removal or access is refused, in each case leaving the contents unchanged; a moved-from array is empty.",
  ["histories", "inputs"], "all operation histories over two arrays of small capacity, all positions, several element types",
  "Tests insert and delete at two or three positions of one array; the position/size/fullness combinations and moved-from objects are not enumerated.",
  [H], [("bounded insertion", "FixedVector::try_push_back / insert"), ("removal", "FixedVector::delete_at / pop_front / pop_back")],
  [("fixed array", "inline storage and number of entries", "FixedVector private members")])

p("C03", "Every element and every allocation is released exactly once",
  "For every container, optional, variant, smart pointer and string and every history of operations on them, every contained object that is constructed is destroyed exactly once, no object is used before construction or after destruction, and all memory, open files and mappings obtained are given back once the owning objects are gone. "
  "This includes histories with refused operations, overwriting assignments, self-assignments and moved-from objects.",
  ["histories"], "all operation histories on every owning type with instrumented element types",
  "The tests check values, not lifetimes, and are not run under a leak or lifetime monitor; most overwriting and moved-from histories are never executed.",
  [H, "include/pystd2026_hashtable.hpp", "include/pystd2026_btree.hpp", "include/pystd2026_variant.hpp", C],
  [("destruction of contents", "deallocate_objects / destroy / destroy_contents / MapData::deallocate_contents"), ("ownership transfer", "move constructors and move assignments")])

p("C04", "Byte buffer behaves as an abstract byte sequence",
  "After any history of appends, inserts, range removals, pops, resizes, assignments, copies and moves, including ones whose source is part of the same buffer, a byte buffer holds exactly the byte sequence those operations define. "
  "Out-of-range accesses, removals and insertions are refused leaving the buffer unchanged, and comparison of two buffers is byte-wise equality and unsigned lexicographic order.",
  ["histories", "inputs"], "all operation histories over two buffers, all byte values including zero and those above 127, all positions, sizes across growth boundaries",
  "Tests build a few short ASCII buffers; ordering of high bytes, self-aliasing across reallocation and boundary positions are not sampled.",
  [H, C], [("growth", "Bytes::grow_to / double_size"), ("editing", "Bytes::append / insert / remove / pop_front / assign")], [("buffer", "block, capacity, number of used bytes", "Bytes private members")])

p("C05", "Character strings stay terminated, free of embedded terminators, and correct",
  "After any history of appends, inserts, removals, concatenations, comparisons, clears, resizes (whose added characters are written by the caller), stripping, copies and moves, a character string holds exactly the text those operations define, its C string representation is always terminated exactly at its size, and operations that would put a terminator inside the text are refused without effect. "
  "This also holds for moved-from and cleared strings and for the fixed-capacity string, which refuses anything that does not fit.",
  ["histories", "inputs"], "all operation histories over two strings, all byte values, all positions and lengths, growth boundaries, aliasing arguments",
  "Tests run short scripted edits on ASCII text and never look at the representation after clear, move, resize or a refused operation.",
  [H, C], [("termination", "CString::append / operator+= / push_back / resize / clear"), ("embedded terminator check", "CString::check_embedded_nuls"), ("bounded string", "FixedCString")],
  [("string", "byte buffer including the terminator", "CString::bytes")])

p("C06", "Unicode strings only ever hold valid UTF-8",
  "A Unicode string can only be created from, or extended by, a byte sequence that is valid UTF-8 as defined by the Unicode standard (no overlong forms, surrogates, values above U+10FFFF, truncated or stray bytes) and contains no zero byte; any other input is refused and changes nothing. "
  "Every valid input is accepted, and appending a code point appends exactly its UTF-8 encoding.",
  ["inputs", "histories"], "all byte sequences up to four bytes and all code points, in all combinations and positions of longer strings, all edit histories",
  "Tests contain a few valid and two or three invalid literals; the accepted language is infinite and its boundary cases are not sampled.",
  [C, H], [("validator", "is_valid_utf8 / unpack"), ("construction checks", "U8String constructors, append, append_codepoint")])

p("C07", "Iterating Unicode text visits exactly its code points, both ways",
  "For every valid Unicode text, forward iteration yields exactly its code points in order and reverse iteration yields them in reverse order, never reading outside the text, and byte positions reported by iterators delimit whole code points. "
  "Views and substrings cut at iterator positions contain exactly the code points between them.",
  ["inputs"], "all sequences of code points from every encoding length, in every order; all pairs of iterator positions",
  "Tests iterate three or four literals; boundaries between every pair of encoding lengths and views starting inside a string are not sampled.",
  [H, C], [("decoder", "ValidU8Iterator / ValidU8ReverseIterator::compute_char_info"), ("sub-views", "U8StringView, U8String::substr")])

p("C08", "Case conversion agrees with Unicode for every code point",
  "Upper- and lower-casing of any code point gives the full default mapping of the Unicode character database, including mappings to several code points, and leaves uncased code points alone; casing a string maps each of its code points this way and nothing else. "
  "Casing of plain character strings changes exactly the ASCII letters.",
  ["inputs"], "all 1114112 code points and all strings over them",
  "Tests case a dozen characters out of more than two thousand table rows.",
  ["src/pystd2026_tables.cpp", C], [("tables", "src/pystd2026_tables.cpp"), ("lookup", "uppercase_unicode / lowercase_unicode"), ("strings", "U8String::upper / lower, CString::upper / lower")])

p("C09", "String views search, compare, slice and test prefixes by their exact bytes",
  "For every text and every view into it, prefix and suffix tests, searches, comparisons, slicing, emptiness, overlap tests and element access give exactly the answer defined by the viewed bytes, independent of what surrounds the view in memory. "
  "Positions outside the view are refused, and no byte outside the view is ever read.",
  ["inputs"], "all texts and needles over small alphabets, all byte values, all view boundaries inside a larger text",
  "Tests search for needles that occur strictly inside the text; matches at the very end, views followed by misleading bytes and high byte values are not sampled.",
  [C, H], [("search and prefix", "CStringView::find / starts_with"), ("slicing", "CStringView::substr"), ("order", "CStringView::operator< / operator==")])

p("C10", "Splitting, joining and stripping are exact and mutually consistent",
  "Splitting a text at a separator character or at whitespace yields exactly the non-empty pieces between separators in order (whitespace being blank, tab, newline and carriage return), the callback form delivering the same pieces until it asks to stop; joining pieces puts the separator exactly between consecutive pieces, so splitting and joining rebuilds any text without leading, trailing or doubled separators. "
  "Stripping removes exactly the leading and trailing whitespace and nothing else.",
  ["inputs"], "all texts over alphabets of separators, whitespace and letters; all piece lists; every early stop",
  "Tests split two or three sentences; doubled separators, leading and trailing separators, all-whitespace texts and early stops are not enumerated.",
  [C, H], [("split", "CString::split / split_by / U8String::split / split_ascii"), ("join", "CString::join / U8String::join"), ("strip", "CString::strip")])

p("C11", "Natural ordering is a total order comparing digit runs by value",
  "Natural comparison of two texts compares runs of decimal digits by numeric value, whatever their length and leading zeros, and all other bytes by unsigned value, a digit run coming before any other byte and a proper prefix before the longer text, and reads only the texts themselves. "
  "The relation it defines is antisymmetric, transitive and total on texts without redundant leading zeros, so sorting with it is well defined.",
  ["inputs"], "all pairs and triples of texts over digits, letters, signs, blanks and high bytes",
  "Tests compare a few prepared names; order axioms quantify over triples and digit runs that exceed machine integers or end at the end of a view are not sampled.",
  [C, H], [("comparison", "natural_order of string views and strings")])

p("C12", "Hash map and hash set behave as an abstract map and set",
  "After any history of insertions, replacements, lookups, removals and rehashes, whatever the hash values of the keys, lookup returns exactly the value of the most recent insertion of an equal key that was not removed since, the size is the number of distinct keys, and iteration visits every entry exactly once. "
  "Every operation terminates, and moved-from, copied and cleared tables are again correct tables.",
  ["histories", "inputs"], "all operation histories over small key sets with adversarial (colliding, extreme) hash values, long insert/remove churn, growth boundaries",
  "Tests use a few keys with well-spread hashes; collision chains, deleted slots, wrap-around and churn need adversarial hashes and long histories.",
  ["include/pystd2026_hashtable.hpp"], [("open addressing", "HashMap::insert / lookup / remove / grow"), ("slot state encoding", "HashMap special hash values")],
  [("table", "per-slot hash, key and value; entry count", "HashMap::MapData")])

p("C13", "Ordered set and ordered map behave as an abstract sorted set and map",
  "After any history of insertions, overwrites, removals, lookups and moves, an ordered tree contains exactly the elements inserted and not removed since, its size is their number, a lookup finds exactly the contained elements with the value stored last, and iteration presents them in strictly increasing order; removing an absent element changes nothing. "
  "This holds for every tree shape reached by growth, splitting, borrowing, merging and emptying.",
  ["histories", "inputs"], "all operation histories over small key universes for several node sizes, and long random histories over larger ones",
  "Tests insert and remove a fixed number sequence for one node size; the reachable tree shapes, in particular merges and root collapse in interior nodes, are not covered.",
  ["include/pystd2026_btree.hpp"], [("split", "BTree::insert / split_node"), ("rebalance", "BTree::remove / extract_value / merge / borrow")],
  [("tree", "array of nodes with values, children and parent; root; size", "BTree private members")])

p("C14", "Every sort produces the sorted permutation of its input",
  "Each of the library's sorting algorithms, given any range and any strict weak ordering it accepts, terminates, leaves the range ordered by exactly that ordering, keeps the same multiset of elements, and touches nothing outside the range. "
  "The indirect sort yields a permutation of the indices that orders the untouched input, and the integer-keyed sorts agree with numeric order for every key type.",
  ["inputs"], "all inputs of small length over small alphabets, all structured large inputs around every size threshold, all comparators (reversed, keyed, many ties)",
  "Tests sort a few fixed arrays with the natural order; size thresholds, ties, reversed comparators and adversarial patterns quantify over all inputs.",
  ["include/pystd2026_introsort.hpp", "include/pystd2026_mergesort.hpp", "include/pystd2026_heapsort.hpp", "include/pystd2026_shellsort.hpp", "include/pystd2026_radixsort.hpp", "include/pystd2026_bucketsort.hpp", "include/pystd2026_indirect_sort.hpp", H],
  [("quicksort with fallback", "pystd2026_introsort.hpp"), ("heap sort", "pystd2026_heapsort.hpp"), ("insertion sort", H), ("merge sort", "pystd2026_mergesort.hpp"), ("keyed sorts", "pystd2026_radixsort.hpp, pystd2026_bucketsort.hpp")])

p("C15", "Stable algorithms keep the relative order of equivalent elements",
  "Merge sort, insertion sort, the stable indirect sort and stable partition leave elements that compare equivalent in exactly the relative order they had in the input, for every input and comparator.",
  ["inputs"], "all inputs with tagged equal keys of small length, and structured large inputs around run and buffer thresholds",
  "Stability is only visible with tagged equal elements; tests use them for one or two arrays, away from the run-length thresholds.",
  ["include/pystd2026_mergesort.hpp", "include/pystd2026_stablepartition.hpp", "include/pystd2026_radixsort.hpp", H],
  [("merge", "pystd2026_mergesort.hpp"), ("insertion", "linear_insert, insertion_sort"), ("stable partition", "pystd2026_stablepartition.hpp")])

p("C16", "Selection, search and rearrangement algorithms meet their definitions",
  "Partitioning, rotation, n-th element selection, partial sorting, binary search for a lower bound, linear search, minimum and maximum and the sortedness test each return and establish exactly what their definition says for every range, position, predicate and comparator, permuting only the range they were given. "
  "Empty ranges, boundary positions and many equal elements are included.",
  ["inputs"], "all ranges of small length over small alphabets with every position and predicate; larger structured inputs",
  "Tests call each algorithm on one or two arrays; postconditions quantify over every position and tie pattern.",
  [H, "include/pystd2026_nth_element.hpp", "include/pystd2026_partial_sort.hpp", "include/pystd2026_rotate.hpp", "include/pystd2026_stablepartition.hpp"],
  [("selection", "pystd2026_nth_element.hpp"), ("partial sort", "pystd2026_partial_sort.hpp"), ("rotation", "pystd2026_rotate.hpp"), ("partition, lower_bound, min/max, is_sorted", H)])

p("C17", "Variant holds exactly one value of the alternative last stored",
  "After any history of constructions, assignments, emplacements, copies, moves and swaps of alternatives, a variant reports the alternative stored last and gives back its value; asking for any other alternative is refused (or yields a null pointer in the pointer form) and changes nothing. "
  "Two variants are equal exactly when they hold the same alternative with equal values, copies are independent of their source, and an assignment whose copy fails keeps the old value.",
  ["histories"], "all histories over variants of several numbers of alternatives, both trivial and owning types",
  "Tests store two types in one order; overwriting every alternative by every other, self-assignment and the last alternatives of wide variants are not sampled.",
  ["include/pystd2026_variant.hpp"], [("type index", "Variant::index_id / get_index_for_type"), ("copy, move and destroy dispatch", "Variant private helpers")])

p("C18", "Optional, expected and owning pointers track presence and ownership exactly",
  "After any history of assignments, moves, resets, swaps and releases, an optional holds a value exactly when one was stored last, an expected holds exactly either its value or its error, and an owning pointer owns exactly the object given last; access to an absent value or the wrong alternative is refused. "
  "Every owned object is handed over or deleted exactly once, through the deleter supplied.",
  ["histories"], "all histories over two objects of each wrapper, with trivial and owning payloads",
  "Tests exercise construction and one access; moved-from wrappers, cross-state assignments (value over error, empty over full) and refusals are not covered.",
  [H], [("presence flag", "Optional"), ("value/error state", "Expected"), ("ownership", "unique_ptr / unique_arr")])

p("C19", "Mutual exclusion and thread lifecycle hold under every schedule",
  "Under every interleaving of threads, at most one thread is between acquiring and releasing the same mutex, a released mutex can be acquired by a waiter, a scoped guard releases exactly when its scope ends, and data written under the lock is visible to the next holder. "
  "A started thread runs its function exactly once on the given object and join returns only after that function has finished; a handle that goes away waits for a thread nobody joined or detached, and joining or detaching a second time is refused.",
  ["schedules"], "all interleavings of a small number of threads and critical sections in the model; recorded schedules of the real primitives",
  "Tests start one thread and one guard; the guarantee quantifies over all interleavings.",
  ["include/pystd2026_threading.hpp", "src/pystd2026_threading.cpp"], [("lock", "Mutex::lock / unlock / try_lock"), ("guard", "LockGuard"), ("thread", "Thread start and join")])

p("C20", "Command line parsing assigns every argument exactly as declared",
  "For every declaration of options and every argument vector, parsing either fails with an error or yields, for each declared option, exactly the value determined by the arguments in order (default, flag, text, integer, list of appended values; the last one wins) and everything after a double dash is left alone. "
  "Unknown options, arguments that are no options unless positional ones are permitted, and missing, malformed or out-of-range option values are always reported as errors, and nothing outside the argument vector is ever read.",
  ["inputs", "configurations"], "all argument vectors up to a bounded length over declared, undeclared and malformed arguments, for several declarations",
  "Tests parse a few good command lines; the error space and argument order combinations are not enumerated.",
  ["src/pystd2026_argparse.cpp", "include/pystd2026_argparse.hpp"], [("token classification", "ArgParse::parse_args"), ("value storage", "set_value / append handling")])

p("C21", "Path operations follow the lexical rules of POSIX paths",
  "For every path text, joining, splitting, taking the extension and file name, and replacing the extension give the result defined by the path's last separator and the last dot of its final component, keeping the root, and absolute right operands replace the left. "
  "The existence, file and directory queries, loading and renaming answer and act exactly for the current file system state.",
  ["inputs"], "all paths up to a bounded length over separators, dots and letters; files, directories and missing names",
  "Tests query a few typical relative paths; the root, dots in directory names, hidden files and doubled separators are not sampled.",
  ["src/pystd2026_filesystem.cpp", H], [("lexical operations", "Path::operator/ / extension / filename / replace_extension"), ("queries", "Path::exists / is_file / is_dir")])

p("C22", "Glob expansion returns exactly the matching paths, each once",
  "For every directory tree and every pattern, glob expansion yields exactly the existing paths whose components match the pattern components (star: any run of characters, question mark: any one character, double star: any number of directories), each exactly once, hidden names only when the pattern names the dot. "
  "Matching reads only the name and the pattern and always terminates.",
  ["inputs", "configurations"], "all names and patterns up to a bounded length over a small alphabet; small directory trees of bounded depth",
  "Tests expand three patterns over one fixed tree; matcher boundary cases (empty runs, adjacent stars, pattern longer than name) and nested directories are not enumerated.",
  ["src/pystd2026_filesystem.cpp"], [("matcher", "glob_matches"), ("directory walk", "GlobResultInternal")])

p("C23", "Regular expression search reports the leftmost match and its groups exactly",
  "For every pattern in the supported syntax and every subject, a search reports a match exactly when one exists, with the leftmost match's bounds and, for every group, the text it captured; asking for a group that does not exist or did not take part is refused and never reads outside the subject. "
  "Malformed patterns are refused at construction.",
  ["inputs"], "all patterns of bounded size over literals, alternation, repetition and groups, all subjects of bounded length",
  "Tests try a few patterns; optional groups that did not participate and out-of-range group numbers are not covered.",
  ["src/pystd2026_regex.cpp", "include/pystd2026_regex.hpp"], [("search", "regex_search"), ("groups", "RegexMatch::group / get_submatch")])

p("C24", "Ranges, enumerations and loop views visit exactly the defined elements",
  "Iterating a numeric range visits exactly start, start+step, ... as long as the end is not reached, for positive and negative steps, and always terminates; enumerating pairs every element with its index; loop views visit every element exactly once in order and end exactly when the source does. ",
  ["inputs"], "all starts, ends and steps in a box including extreme values; all source lengths",
  "Tests iterate two or three ranges; empty, stepping-over, negative and extreme ranges are not sampled.",
  [H, C], [("range", "Range::next"), ("views", "EnumerateView, LoopView, Loopsume")])

p("C25", "Formatting and numeric helpers give exact results for every input",
  "Formatting to a new or existing string or buffer yields exactly the bytes the format defines, for every output length, appending exactly once. "
  "Clamping returns the bound or the value as defined, and the floating point orderings are total orders (or ignore not-a-number as defined) consistent with equality.",
  ["inputs"], "all output lengths across internal buffer sizes, all value/bound triples in a box, all pairs and triples of special floating point values",
  "Tests format short strings; outputs around the internal buffer size, values below the lower bound and special floating point values are not sampled.",
  [C, H], [("formatting", "cformat / cformat_with_cb / format_append"), ("clamp", "clamp"), ("float order", "total_order_compare, FloatIgnoreNanComparator")])

p("C26", "Reading a file delivers exactly its bytes and lines",
  "Loading or mapping a file delivers exactly its contents, and line iteration delivers exactly its lines in order, whatever the line lengths, embedded zero bytes, and whether the last line is terminated; an empty file has no lines. "
  "Missing or unreadable files are reported and never crash the process.",
  ["inputs"], "all file contents up to a bounded length over newline, zero and ordinary bytes, plus sizes across buffer and page boundaries",
  "Tests read one small fixed file.",
  [C, "src/pystd2026_filesystem.cpp", H], [("lines", "File::readline_bytes, FileLineIterator"), ("load", "Path::load_bytes / load_text"), ("mapping", "mmap_file")])

p("C27", "Equal values have equal hashes and feeding is position independent",
  "Two values that compare equal always produce the same hash with any hash algorithm, in particular a text and a view of the same text, and hashing does not depend on memory addresses, surrounding bytes or history. "
  "The default hash is the documented function of the bytes fed, however they are split into pieces.",
  ["inputs"], "all byte strings of bounded length and all splittings into pieces; all representations of equal text; all integer types",
  "Tests hash one or two strings.",
  [H, C], [("hash algorithm", "SimpleHash"), ("feeding", "Hasher, HashFeeder, feed_hash members")])

p("C28", "Checked array views never reach outside their range",
  "A span gives access to exactly the elements it was made from, sub-spans are exactly the requested elements, every index or sub-range outside is refused, and iteration and copies follow the elements. ",
  ["inputs"], "all spans of bounded length with all offsets and sizes including extreme values",
  "Tests take one sub-span in the middle.",
  [H], [("span", "Span::operator[] / subspan / begin / end")])

p("C29", "Bundled programs compute exactly the specified function of their input",
  "The programs that come with the library do what they say on every input: wordsort prints every word of the file in byte order, wordcount prints each distinct word once with its exact number of occurrences, the frequent first, globber prints each matching path once, the sorting programs accept exactly the permutations, and the option demonstration shows the values its command line gives; bad input is refused with a failing status, never a crash.",
  ["inputs"], "all small input files and number lists enumerated, random files, trees, patterns and command lines",
  "The programs have no tests; they combine mapping, splitting, hashing, sorting, globbing and option parsing end to end.",
  ["tools/wordcount.cpp", "tools/wordsort.cpp", "tools/globber.cpp", "tools/argparse.cpp", "tools/sorttest.cpp"], [("programs", "tools/*.cpp main functions")])

F = ["include/pystd2025.hpp", "src/pystd2025.cpp"]
p("F01", "Frozen epoch: containers and byte buffers keep their specified behaviour",
  "The frozen earlier edition of the library keeps behaving as the abstract sequences, bounded sequences, byte sequences, hash maps and sets and ordered trees it implements, for every history of operations.",
  ["histories"], "all operation histories of the frozen containers, excluding operations whose outcome was undefined when frozen",
  "The frozen edition's tests sample the same few histories as the current one; it must stay behaviourally identical forever.",
  F + ["include/pystd2025_btree.hpp"], [("containers", "Vector, FixedVector, Bytes, HashMap, HashSet, BTree of the earlier edition")])
p("F02", "Frozen epoch: strings and Unicode keep their specified behaviour",
  "The frozen earlier edition's character strings, views, Unicode strings, iteration, casing, splitting, joining and comparison keep the behaviour specified for them, for every input.",
  ["histories", "inputs"], "all inputs and histories of the frozen string types, excluding operations whose outcome was undefined when frozen",
  "As for the current edition, tests sample few texts.",
  F + ["src/pystd2025_tables.cpp"], [("strings", "CString, CStringView, U8String, U8StringView of the earlier edition")])
p("F03", "Frozen epoch: sorting, optional, variant and helpers keep their behaviour",
  "The frozen earlier edition's sorting and search algorithms, variant, optional, expected, ranges, hashing and smart pointers keep the behaviour specified for them, for every input and history.",
  ["histories", "inputs"], "all inputs and histories of the frozen helpers, excluding operations whose outcome was undefined when frozen",
  "As for the current edition.",
  F, [("algorithms and wrappers", "include/pystd2025.hpp")])
p("F04", "Frozen epoch: files, paths, globs, regex and threads keep their behaviour",
  "The frozen earlier edition's path operations, file reading, glob expansion, regular expressions and threading primitives keep the behaviour specified for them, for every input and schedule.",
  ["inputs", "schedules"], "all inputs of the frozen file system, regex and threading parts, excluding operations whose outcome was undefined when frozen",
  "As for the current edition.",
  F + ["src/pystd2025_filesystem.cpp", "src/pystd2025_regex.cpp", "src/pystd2025_threading.cpp", "include/pystd2025_threading.hpp"], [("system parts", "earlier edition sources")])

p("F05", "Editions coexist, and a newly made edition equals its source",
  "Programs may use several editions of the library at once: work done through one never changes another's values, values handed over arrive unchanged, and every failure is an exception of the edition that failed. "
  "The release script makes, from the current edition and without touching it, a new edition under its own name that builds and links beside the others and behaves as the one it was copied from.",
  ["histories", "inputs"], "all short and many long interleaved histories over three editions; the new edition is judged by the current edition's specifications",
  "No test uses two editions in one program or runs the release script; perfect compatibility of old editions is the central promise of the documentation.",
  ["devtools/new_epoch.py", H, "include/pystd2025.hpp", C, "src/pystd2025.cpp"], [("release script", "create_epoch"), ("namespacing", "all headers and sources")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            d["statement"] = d["statement"].strip()
            f.write(json.dumps(d) + "\n")
