#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one object per property)."""
import json, os
H = 'include/pystd2026.hpp'
S = 'src/pystd2026.cpp'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, epoch='Current epoch, pystd2026.'):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement + ' (%s)' % epoch, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

prop('C01', 'UTF-8 strings hold exactly the well-formed byte sequences',
     'A UTF-8 string or view can be created from a byte sequence exactly when the bytes are well-formed UTF-8 as Unicode defines it: no truncated or stray continuation bytes, no overlong forms, no surrogates, nothing above U+10FFFF. Every other sequence is refused with an exception (owning strings also refuse embedded zero bytes), and the check never reads outside the bytes it was given.',
     ['inputs'], 'all byte sequences up to the length bound, given with and without an explicit length',
     'Tests try a handful of literals; the rejection rules are about rare byte combinations out of 256^n.',
     [H, S], [('UTF-8 validation', S + ': validation of a byte range'), ('constructors of UTF-8 strings and views', S)],
     ['construct from bytes; exception or content'])
prop('C02', 'Code points survive encoding and iteration in both directions',
     'Walking a UTF-8 string forwards yields exactly the code points that were put into it, in order, and walking it backwards yields the same sequence reversed. Appending code points and then reading them back is the identity for every valid code point other than zero, which like surrogates is refused, and each is stored in its shortest encoding.',
     ['inputs'], 'all sequences of valid code points up to the length bound',
     'Tests iterate over a few fixed strings; decoding branches depend on every bit of the lead and continuation bytes.',
     [H, S], [('forward and reverse iterators', S), ('code point encoder', S)], ['iterators, appended content'])
prop('C03', 'Upper and lower casing follow the Unicode mappings',
     'Converting a UTF-8 string to upper or lower case replaces each code point by its Unicode default mapping (which may be several code points) and leaves every other code point unchanged, in order. Case conversion of C strings changes ASCII letters only and nothing else.',
     ['inputs'], 'every Unicode scalar value as a symbolic code point; C strings of all contents up to the bound',
     'Tests check a few letters; the tables have about 1400 entries per direction and are found by binary search whose edge cases depend on the position.',
     [H, S, 'src/pystd2026_tables.cpp', 'src/pystd2026_tables.hpp'], [('case tables and their binary search', 'src/pystd2026_tables.cpp, ' + S), ('ASCII case conversion', S)],
     ['converted string'])
prop('C04', 'Searching, prefix tests and substrings agree with the text',
     'For every text and pattern, searching from either end returns the position of the first or last match, or the not-found value exactly when there is none, including matches at the very end and equal strings; starts-with, ends-with and containment style tests are true exactly when the text says so. Taking a substring yields exactly the requested characters clipped to the end of the text, or an exception when the start is out of range; indexing checks its bounds (the terminator of an owning string may be read) and nothing outside the text is read.',
     ['inputs'], 'all texts and patterns up to the length bound, all positions and counts',
     'Off-by-one errors need a match that touches an end of the text or a position equal to the length; tests use mid-string matches.',
     [H, S], [('C string view and C string search', S), ('substring', S)], ['returned positions and substrings'])
prop('C05', 'C strings behave as byte sequences and stay zero terminated',
     'After any sequence of appends, insertions, removals, resizes, assignments and copies, including with its own contents as the argument, a C string holds exactly the characters the operations describe and its character pointer is zero terminated at its reported length. Copies are independent of the original, and every operation that would exceed the bounds is refused. (Characters that a growing resize adds are unspecified until written; a moved-from string may be assigned and destroyed.)',
     ['inputs', 'histories'], 'all operation sequences up to the bound from short starting strings, with arbitrary characters',
     'Tests run one fixed history per method; terminator loss only shows after particular two-step histories.',
     [H, S], [('C string mutators', S), ('terminator maintenance', S)], ['size, contents, character pointer after each step'])
prop('C06', 'Splitting, joining and stripping lose and invent nothing',
     'Splitting a string at a separator character yields the maximal non-empty runs between separators: pieces without separators that, put back together with the separators that were between them, reproduce the input; splitting on whitespace (space, tab, newline, carriage return) yields exactly the maximal runs of non-whitespace. Stripping removes exactly the leading and trailing whitespace, and joining places the separator between consecutive elements only.',
     ['inputs'], 'all strings up to the length bound over arbitrary bytes, all separator characters',
     'Empty pieces, separators at the ends and overlapping separators are combinations tests do not enumerate.',
     [H, S], [('split, split by, strip and join', S + ', ' + H)], ['returned pieces'])
prop('C07', 'Every string ordering is a consistent order',
     'Equality and less-than on strings, views and byte buffers agree with lexicographic comparison of their contents, so that for any two values exactly one of less, equal, greater holds and less-than is transitive. Natural ordering is likewise a strict weak order that compares embedded decimal numbers by value and reads nothing outside the two strings.',
     ['inputs'], 'all pairs and triples of short strings with arbitrary bytes',
     'A broken order needs a specific pair or triple of values; tests compare a few pairs.',
     [H, S], [('comparison operators', S + ', ' + H), ('natural ordering', S)], ['comparison results'])
prop('C08', 'Fixed-capacity containers never exceed or corrupt their storage',
     'A fixed-capacity string or vector holds exactly the elements put into it, up to its capacity; any operation that would exceed the capacity or access outside the contents is refused with an exception and leaves earlier contents readable (the terminator of a string may be read by index). Fixed-capacity strings are always zero terminated and nothing outside their storage or the source range is touched.',
     ['inputs', 'histories'], 'all contents and operation sequences up to the bound, including exactly full containers',
     'The failures sit at exact capacity and at sources without a terminator; tests stay below the limit.',
     [H], [('fixed-capacity string', H), ('fixed-capacity vector', H)], ['contents, exceptions'])
prop('C09', 'Byte buffers behave as byte sequences',
     'A byte buffer holds exactly the bytes its history of appends, insertions, removals, pops, extensions, copies and moves describes; first, last and indexed access return those bytes, and out-of-range access or removal is refused with an exception. Copies are independent and no operation reads or writes outside the buffer.',
     ['inputs', 'histories'], 'all operation sequences up to the bound with arbitrary positions and bytes',
     'Size and capacity differ only after particular growth histories, which is when mistakes between the two show.',
     [H, S], [('byte buffer', S)], ['size, contents, exceptions after each step'])
prop('C10', 'Vectors behave as sequences',
     'A vector holds exactly the elements its history of appends, insertions, removals, assignments, copies and moves describes, in order, also when an element of the vector itself is the argument (a range of its own elements as the argument is handled or refused); iteration, indexing, first and last agree with it. Out-of-range access is refused with an exception.',
     ['inputs', 'histories'], 'all operation sequences up to the bound with arbitrary positions and values',
     'Growth, aliasing and boundary positions combine only in particular histories.',
     [H], [('vector', H)], ['size and contents after each step'])
prop('C11', 'Containers construct and destroy every object exactly once',
     'Whatever the history of operations on vectors, fixed vectors, hash maps and trees, each element object is constructed before use, at an address suitable for its type, and destroyed exactly once, no operation touches a destroyed or never constructed object, and when the container is gone every object and all memory has been released. Elements are not allowed to throw while they are copied or moved.',
     ['histories'], 'all operation sequences up to the bound with element types that count construction and destruction',
     'Lifetimes are invisible to value-based tests.',
     [H, 'include/pystd2026_hashtable.hpp', 'include/pystd2026_btree.hpp'], [('raw storage with placement construction', H)], ['construction and destruction counts, live memory'])
prop('C12', 'Optional, expected and owning-pointer types track their content',
     'Optional, expected and owning-pointer objects report and return exactly the value, error or emptiness that their history of assignments, moves, swaps and resets gave them, and never the wrong alternative. The held object is destroyed exactly once, when replaced, reset, moved away or destroyed with its holder; accessing something that is not there is refused.',
     ['inputs', 'histories'], 'all sequences of construction, copy, move, assignment and reset up to the bound over every pair of states',
     'State-by-state assignment combinations (empty, value, error on both sides) are not enumerated by tests.',
     [H], [('optional', H), ('expected', H), ('unique pointers', H)], ['state queries, values, destruction counts'])
prop('C13', 'Variants hold exactly one alternative',
     'A variant always holds exactly one of its alternatives: the index, type tests and value access agree with the last value put in, and access as another alternative is refused. Copying, moving and assigning between any pair of alternatives preserves the value and destroys each held object exactly once.',
     ['inputs', 'histories'], 'all pairs of alternatives and all sequences of assignments up to the bound',
     'Dispatch over up to 30 alternatives has one code path each; tests touch a few.',
     ['include/pystd2026_variant.hpp'], [('variant storage and dispatch', 'include/pystd2026_variant.hpp')], ['index, values, destruction counts'])
prop('C14', 'Views and spans are bounds checked windows',
     'A span or sub-span exposes exactly the requested elements of the underlying storage: every in-range request succeeds (including empty ones and ones that end at the end; a size left out means the rest), every other request is refused with an exception even for huge offsets and sizes. Element access through spans checks its bounds.',
     ['inputs'], 'all offsets and sizes over the full 64-bit range, all short storages',
     'Offset plus size overflow needs values near 2^64; tests use small ones.',
     [H], [('span and sub-span', H)], ['returned element ranges, exceptions'])
prop('C15', 'Hash maps and hash sets equal the mathematical map',
     'For every history of insertions, overwrites, lookups, removals and iterations, a hash map (set) contains exactly the keys inserted and not removed since, with their latest values; lookups, containment, sizes and iteration agree with that. This holds whatever the hash function returns, including colliding and reserved values, and every operation terminates.',
     ['inputs', 'histories'], 'all operation sequences up to the bound with arbitrary keys and an arbitrary (adversarial) hash function; longer concrete fills for growth and deletion churn',
     'Probe chains, deleted-slot markers and growth interact only for particular hash values and histories; tests use one hash function.',
     ['include/pystd2026_hashtable.hpp'], [('open addressing with deletion markers', 'include/pystd2026_hashtable.hpp')], ['lookup, contains, size, iteration'])
prop('C16', 'Tree sets and maps equal the sorted mathematical set',
     'For every history of insertions, removals and lookups, a tree set (map) contains exactly the keys inserted and not removed since, with their values, iterates over them in strictly ascending order, and reports the right size. Every operation terminates and keeps the structure usable, including emptying it and filling it again.',
     ['inputs', 'histories'], 'all operation sequences up to the bound with arbitrary keys on small-node trees; arbitrary removal and insertion orders from pre-filled trees of depth 3',
     'Rebalancing has many cases (borrow left or right, merge, root collapse, internal nodes) that need specific shapes.',
     ['include/pystd2026_btree.hpp'], [('B-tree with node storage', 'include/pystd2026_btree.hpp')], ['lookup, iteration order, size'])
prop('C17', 'Sorting algorithms produce the sorted permutation',
     'Every sorting algorithm of the library rearranges any input range into ascending order with respect to the given comparison, keeping exactly the same multiset of elements, for every length including empty and one. Nothing outside the range is read or written.',
     ['inputs'], 'all element orders up to the length bound, including ties, for every algorithm and for the key widths the distribution sorts support',
     'Correctness for all permutations and tie patterns, in particular around pivot choice and small-range cut-offs, cannot be sampled.',
     [H, 'include/pystd2026_introsort.hpp', 'include/pystd2026_heapsort.hpp', 'include/pystd2026_mergesort.hpp', 'include/pystd2026_shellsort.hpp', 'include/pystd2026_radixsort.hpp', 'include/pystd2026_bucketsort.hpp'],
     [('introsort, heapsort, merge sort, shell sort, radix sort, bucket sort, insertion sort', 'include/pystd2026_*sort.hpp, ' + H)], ['range contents afterwards'])
prop('C18', 'Stable algorithms keep equal elements in order',
     'Stable sorting, stable partitioning and index-based stable sorting never change the relative order of elements that compare equal (or fall on the same side), while otherwise producing the sorted or partitioned arrangement of the same elements. The partition point returned is the first element of the second group.',
     ['inputs'], 'all inputs up to the length bound with payloads that reveal the original position',
     'Instability needs ties in particular places.',
     ['include/pystd2026_mergesort.hpp', 'include/pystd2026_stablepartition.hpp', 'include/pystd2026_indirect_sort.hpp', H], [('merge sort, stable partition, indirect sort, insertion sort', 'include/pystd2026_*.hpp')], ['order of tagged elements'])
prop('C19', 'Selection and partitioning put elements on the right side',
     'Selecting the n-th element, partially sorting and partitioning leave a permutation of the input in which the requested element or prefix is what full sorting would give, everything before it is not greater and everything after it is not smaller (for partitioning: all matching elements first and the returned position is the boundary). This holds for every position, including the first and the last; a position that is the end is refused or changes nothing but the order.',
     ['inputs'], 'all inputs up to the length bound and all positions',
     'Boundary positions and tie patterns select code paths tests never enter.',
     ['include/pystd2026_nth_element.hpp', 'include/pystd2026_partial_sort.hpp', H], [('nth element, partial sort, partition', 'include/pystd2026_nth_element.hpp, include/pystd2026_partial_sort.hpp, ' + H)], ['range contents and returned iterator'])
prop('C20', 'Search and rearranging helpers meet their contracts on every range',
     'Linear and binary search, minimum and maximum, sortedness tests, rotation in either direction by any amount and clamping return what their definitions say for every range, including empty ranges, absent values and ties (the first of several equal elements is the one found), and rotation keeps every element. Nothing outside the range is read.',
     ['inputs'], 'all ranges up to the length bound, all searched values and rotation amounts',
     'Empty ranges and end positions are not covered.',
     [H, 'include/pystd2026_rotate.hpp'], [('algorithms', H + ', include/pystd2026_rotate.hpp')], ['returned iterators and values'])
prop('C21', 'Command line parsing is total and faithful',
     'For every argument vector the parser either returns a result that assigns to each option exactly what the command line says (short and long spellings, joined and separate values, repeated, defaulted and positional arguments, the end-of-options marker) or reports an error, by exception or by a message and a non-zero exit status. It never reads outside the argument vector, never accepts malformed numbers or unknown options, and never terminates the process except for the built-in help and such an error.',
     ['inputs'], 'all argument vectors up to the bound of argument count and length with arbitrary characters for representative option sets',
     'Missing values, lone dashes and empty arguments are inputs nobody writes in tests.',
     ['include/pystd2026_argparse.hpp', 'src/pystd2026_argparse.cpp'], [('option matching and value extraction', 'src/pystd2026_argparse.cpp')], ['parse result, exceptions'])
prop('C22', 'Path operations follow the textual rules',
     'Joining, splitting, file name, extension and extension replacement on a path depend only on its last component where they should, agree with one another (replacing an extension and reading it back, joining and taking the file name), and preserve absolute paths including the root. None of them reads outside the path.',
     ['inputs'], 'all paths up to the length bound over arbitrary characters',
     'Dots and separators in unusual places (dot in a directory name, leading dot, only the root) are not tested.',
     [H, 'src/pystd2026_filesystem.cpp'], [('path accessors', 'src/pystd2026_filesystem.cpp')], ['returned paths'])
prop('C23', 'Glob patterns match exactly the names they describe',
     'A file name matches a glob pattern exactly when the pattern with star (any run of characters, possibly empty) and question mark (exactly one character) describes the whole name, with hidden names matched only by an explicit leading dot. Expanding a relative pattern over a directory tree returns each existing path that matches component by component exactly once and no other, where a component of two stars stands for any number of nested directories that are not hidden; directories that cannot be opened contribute nothing, and patterns that are empty or use two stars otherwise are refused.',
     ['inputs', 'configurations'], 'all patterns and names up to the length bound; symbolic directory contents for expansion',
     'Stars matching nothing, adjacent stars and backtracking need particular pattern and name pairs.',
     ['src/pystd2026_filesystem.cpp', H], [('pattern matcher and directory walk', 'src/pystd2026_filesystem.cpp')], ['expansion results'])
prop('C24', 'File reading returns the file contents or fails cleanly',
     'Reading a file whole, mapped or line by line yields exactly the bytes of the file in order, whatever they are and with lines that end after a newline and end of file recognised (an empty file has no lines and no mapping). Every failure to open, seek, tell or read surfaces as an exception or error value, without leaking the handle or memory.',
     ['inputs', 'fault_sequences'], 'all short file contents, a failure at each call, shrinking files and directories',
     'I/O faults and files without a final newline are not exercised.',
     [H, S], [('file wrapper and line iterator', S)], ['returned contents, open handles'])
prop('C25', 'Owned system resources are released exactly once',
     'Memory mappings, files, regex objects, directory handles and other owned operating-system resources are released exactly once whatever sequence of creation, move, assignment, failure and destruction their owners go through, and a moved-from owner owns nothing. No release happens while another owner still uses the resource.',
     ['histories', 'fault_sequences'], 'all sequences of moves and assignments up to the bound; a failure at each acquisition step',
     'Leaks and double releases are invisible to functional tests.',
     [H, S, 'src/pystd2026_regex.cpp', 'src/pystd2026_filesystem.cpp'], [('owning wrappers', H + ', ' + S)], ['acquire and release calls'])
prop('C26', 'Regex captures are views inside the subject',
     'A successful regex match reports the matched range and every capture group as text that lies inside the searched subject; groups that did not take part and group numbers that do not exist are reported as absent or refused, never as memory outside the subject. A failed match and a pattern that does not compile are reported as such.',
     ['inputs'], 'all results the regex engine may return under its documented contract for short subjects and up to three groups, including unset groups',
     'Whether a group is unset depends on the pattern and subject; the tests only read set groups.',
     ['include/pystd2026_regex.hpp', 'src/pystd2026_regex.cpp'], [('match result wrapper', 'src/pystd2026_regex.cpp')], ['group views'])
prop('C27', 'Locks and threads are paired on every path',
     'A scoped lock holds its mutex from construction until it ends, on every path including exceptions, and releases it exactly once; a failed lock operation is reported and never treated as success. A started thread is joined or detached exactly once, its entry function receives the given argument, and a failure to start is reported.',
     ['fault_sequences', 'histories'], 'every result the threading primitives may return, every short sequence of lock, unlock, join and detach',
     'Failures of the primitives never occur in a test run.',
     ['include/pystd2026_threading.hpp', 'src/pystd2026_threading.cpp'], [('mutex, lock guard and thread wrappers', 'src/pystd2026_threading.cpp')], ['calls to the primitives'])
prop('C28', 'Formatted output is complete for every length',
     'Formatting into a string or through a callback yields exactly the text that the format and arguments describe, whatever its length, passed on exactly once; formatting an empty result yields an empty string. Existing content of a string that is appended to is preserved. Where the C library fails to format, or the text has a zero byte that a string cannot hold, that is an exception.',
     ['inputs'], 'all output lengths across the internal buffer boundary, arbitrary text arguments',
     'Only output longer than the internal buffer takes the second code path; tests format short strings.',
     [H, S], [('printf style formatting', S)], ['callback arguments, resulting strings'])
prop('C29', 'Ranges and enumerations visit exactly the right values',
     'A numeric range visits start, start plus step and so on, stopping before the end, for positive and negative steps and for empty ranges, and always terminates (a step of zero is refused); enumeration pairs each element with its index from zero. No value is skipped, repeated or out of range at the limits of the integer type.',
     ['inputs'], 'all starts, ends and steps near zero and near the limits of the type, with a bounded number of visited values',
     'Negative steps and limit values are not tested.',
     [H], [('range object and loop helpers', H)], ['visited values'])
prop('C30', 'Equal values hash equally',
     'Values that compare equal feed equal data to the hash, whichever of the interchangeable string types holds them and whatever their capacity or history, and hashing the same data in one piece or several pieces gives the same result. Hashing reads only the bytes of the value.',
     ['inputs', 'histories'], 'all short contents and all ways of splitting them',
     'Capacity-dependent hashing shows only after particular growth histories.',
     [H, S], [('hash feeding', H + ', ' + S)], ['hash values'])
prop('C31', 'Exceptions carry their message',
     'Raising a library exception with any message text preserves that text exactly, or, for text given as raw C characters, with a question mark in place of bytes that are not ASCII, and building the exception never itself fails, crashes or reads outside the text.',
     ['inputs'], 'all message texts up to the length bound with arbitrary bytes',
     'Tests only use ASCII messages.',
     [H, S], [('exception type', S)], ['message of the caught exception'])

H5 = 'include/pystd2025.hpp'
S5 = 'src/pystd2025.cpp'
FROZEN = 'Frozen epoch, pystd2025; cases in which the released code is undefined, aborts or does not end are not part of it.'
prop('C32', 'The text types of the frozen epoch behave exactly as released',
     'The readme promises that an old version of the library remains frozen for ever when a new one is released: programs written against pystd2025 keep working unchanged. So every operation on its byte buffers, UTF-8 and C strings and views, their iterators, conversions to other cases, numbers, formatting and exceptions gives for every argument and after every history the result, contents or exception (type of failure and message) that the released code gives, and loses no more memory.',
     ['inputs', 'histories'], 'all contents, arguments and short histories within the bounds, compared with the released code run on the same input',
     'The tests of the epoch use a few literals; a change of the old epoch that keeps them green breaks its users silently.',
     [H5, S5, 'src/pystd2025_tables.cpp'], [('byte buffers, strings and views', H5 + ', ' + S5), ('case tables', 'src/pystd2025_tables.cpp')],
     ['results, contents, exceptions'], epoch=FROZEN)
prop('C33', 'Containers, values and algorithms of the frozen epoch behave as released',
     'Every operation on the vectors, fixed vectors, hash maps and sets, B-trees, optional and expected values, owning pointers, variants, spans, stacks, ranges, views, hashes and algorithms of pystd2025 gives for every argument and after every history the result, contents or exception that the released code gives; elements are created and destroyed as correctly as in the released code.',
     ['inputs', 'histories'], 'all elements, arguments and short histories within the bounds, compared with the released code run on the same input',
     'The tests of the epoch run a few fixed histories; mistakes in growth, rebalancing or moves need particular ones.',
     [H5, 'include/pystd2025_btree.hpp', S5], [('templates', H5 + ', include/pystd2025_btree.hpp'), ('non-template parts', S5)],
     ['results, contents, exceptions'], epoch=FROZEN)
prop('C34', 'The system interfaces of the frozen epoch behave exactly as released',
     'Every operation of pystd2025 on paths, glob patterns, files, memory mappings, regular expressions, mutexes, lock guards and threads gives for every path text, directory tree, file content and system failure the result or exception that the released code gives, asks the system for the same effects (renaming, locking, starting, joining and detaching) and leaves nothing more open.',
     ['inputs', 'fault_sequences'], 'all texts, trees, contents and failures within the bounds, compared with the released code run against the same system',
     'The tests of the epoch touch a few files and never see a failure of the system.',
     [H5, 'include/pystd2025_threading.hpp', S5, 'src/pystd2025_filesystem.cpp', 'src/pystd2025_regex.cpp', 'src/pystd2025_threading.cpp'],
     [('paths and glob', 'src/pystd2025_filesystem.cpp'), ('files and mappings', S5), ('regular expressions', 'src/pystd2025_regex.cpp'), ('threads and mutexes', 'src/pystd2025_threading.cpp')],
     ['results, exceptions, calls of the system that have an effect'], epoch=FROZEN)

prop('C35', 'Work stays within the complexity the operations promise',
     'The work of an operation grows with its input as users of such a library count on. introsort, mergesort, heapsort, the indirect sorts and partial_sort take order n log n comparisons and moves, and nth_element no more, for every arrangement of the elements, including those chosen to defeat the pivots; shell sort stays well below the square and radix sort is linear; binary searches and lookups, insertions and removals in B-trees take logarithmically many comparisons; searches, partitions, minima and rotations pass over the elements a bounded number of times; vectors, stacks, strings and byte buffers that grow element by element ask for new memory only logarithmically often and move each element a constant number of times on average; hash maps need a constant number of comparisons per operation on average, also after many removals; conversions, searches, splitting, joining, comparison and iteration of texts take time about linear in their length; and the memory a container or text holds depends on how much it contains or once contained, not on how many elements have passed through it.',
     ['inputs', 'histories'], 'all arrangements, adversaries, families of keys and kinds of text within the bounds; work counted in comparisons, moves, allocations, executed instructions and bytes in use',
     'Tests check results on a few dozen elements, where a quadratic algorithm is as good as any.',
     [H, 'include/pystd2026_introsort.hpp', 'include/pystd2026_mergesort.hpp', 'include/pystd2026_nth_element.hpp', 'include/pystd2026_btree.hpp', 'include/pystd2026_hashtable.hpp', S],
     [('sorting and selection', 'include/pystd2026_introsort.hpp, include/pystd2026_mergesort.hpp, include/pystd2026_nth_element.hpp'), ('containers', H + ', include/pystd2026_btree.hpp, include/pystd2026_hashtable.hpp'), ('texts', S)],
     ['numbers of comparisons, moves and allocations; running time; memory in use'])

prop('C36', 'The bundled tools report what they promise',
     'The programs in tools give the results they describe. wordsort prints every white space separated word of its input file, each as many times as it occurs, in ascending byte order; wordcount prints each distinct word once with the number of its occurrences, the most frequent first and longer ones first among equally frequent ones; the sort test tools report success exactly when the file holds the numbers 0 to N in any order; the command line demonstration shows the values given on the command line or the defaults, and its help text names every option, description and default. Files that can not be read, malformed text, words with zero bytes and faulty command lines are reported, never answered by a crash or a wrong result, and every file, mapping and memory block is released.',
     ['inputs', 'fault_sequences'], 'all small files, long texts with arbitrary bytes, failures of every system call, all command lines of a few words',
     'The tools have no tests at all; they are where strings, maps, sorting, mappings and the parser work together.',
     ['tools/wordcount.cpp', 'tools/wordsort.cpp', 'tools/argparse.cpp', 'tools/sorttest.cpp', 'tools/stablesorttest.cpp', 'tools/radixsorttest.cpp'],
     [('word tools', 'tools/wordcount.cpp, tools/wordsort.cpp'), ('parser demonstration', 'tools/argparse.cpp'), ('sort test tools', 'tools/sorttest.cpp, tools/stablesorttest.cpp, tools/radixsorttest.cpp')],
     ['standard output, exit code, live resources'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
